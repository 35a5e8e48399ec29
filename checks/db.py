"""C24-C27: experiment store, sweeps, component-wise metrics, reproducibility."""
import ast
import os

import numpy as np

from sa import lib, terms
from sa import interp as I
from sa.harness import Scenario
from sa.terms import ST, Sym, F, atom, sqrt
from sa.model import vec, mat, spd, inv, zeros, Ref, gaussian, natural_of, make_system, Opaque
from .gaussian import ref_nll, ref_se, mean_of
from . import sizes, sql
from .store import Store

CLIENT = '''
import sqlite3
from Utils.Database import open_database

def fresh(path):
    return open_database(path)

def column(db, table, col):
    return db.execute("SELECT {} FROM {}".format(col, table)).fetchall()

def store(db, table, value):
    db.execute("INSERT INTO {} (v) VALUES (?)".format(table), (value,))

def typed(db, table, decl):
    db.execute("CREATE TABLE {} (v {})".format(table, decl))
'''

KEYS = ('Transform', 'Seed', 'Iter', 'Power', 'Damping')


def record(**kw):
    r = dict(Transform='UT', Seed=101, Iter=1, Power=atom('p', pos=True), Damping=atom('g', pos=True),
             RMSE=atom('rmse'), NLL=atom('nll'), Mean=[], Variance=[])
    r.update(kw)
    return r


def same(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if terms.is_num(a) and terms.is_num(b):
        return terms.same(a, b)
    return a is b or a == b


def find(rows, **keys):
    return [r for r in rows if all(same(r.get(k.lower()), v) for k, v in keys.items())]


# ------------------------------------------------------------------ C24
def c24(tier):
    out = []

    def setup(c, path='exp.db'):
        M = c.it.client('client', CLIENT)
        s = Store(c.it)
        conn = c.call(M.fresh, path)
        D = c.get('Utils.Database')
        return M, s, conn, D

    def one_row(name):
        def f(c):
            M, s, conn, D = setup(c)
            db = conn.cursor()
            a = (db,) if name is None else (db, name)
            c.call(c.get('Utils.Database', 'create_experiment_table'), *a)
            t = name or 'UNGM_EXP'
            r = record()
            keep = dict(r)
            c.call(c.get('Utils.Database', 'insert_experiment_data'), db, t, r)
            rows = s.rows(t)
            if not c.true('one row in the table asked for', len(rows) == 1, len(rows), 1):
                return
            for k, v in keep.items():
                if isinstance(v, list):
                    got = c.call(M.column, conn, t, k)[0][0]
                    c.true('column %s reads back as stored' % k, got == v, got, v)
                else:
                    c.eq('column %s' % k, rows[0].get(k.lower()), v)
            c.true('the record passed in is kept', all(same(r.get(k), v) for k, v in keep.items()) and len(r) == len(keep))
        return f

    def undefined_record(kind, which):
        """A metric which is not a number, or infinite, does not lose the record."""
        def f(c):
            M, s, conn, D = setup(c)
            db = conn.cursor()
            c.call(c.get('Utils.Database', 'create_experiment_table'), db, 'T')
            r = record()
            ST.undefined = {k.lower(): kind for k in which}
            keep = dict(r)
            c.true('the scenario has an undefined value', set(ST.undefined) <= {n for k in which for n in terms.atoms_of(r[k])})
            c.call(c.get('Utils.Database', 'insert_experiment_data'), db, 'T', r)
            c.call(c.get('Utils.Database', 'insert_experiment_data'), db, 'T', record(Iter=2))
            rows = s.rows('T')
            if not c.true('one row per record', len(rows) == 2, len(rows), 2):
                return
            for k in ('Transform', 'Seed', 'Power', 'Damping', 'RMSE', 'NLL'):
                c.eq('column %s' % k, rows[0].get(k.lower()), keep[k])
        return f

    def exp_data(c):
        """The record type has the columns of the table, in an order insert understands."""
        M, s, conn, D = setup(c)
        db = conn.cursor()
        c.call(c.get('Utils.Database', 'create_experiment_table'), db)
        E = c.get('Utils.Database', 'Exp_Data')
        vals = dict(Transform='TT', Seed=7, Iter=3, Power=atom('p'), Damping=atom('g'), RMSE=atom('r'), NLL=atom('n'),
                    Mean=[1], Variance=[2], Nodes=[])
        d = c.call(E, **vals)._asdict()
        d.pop('Nodes', None)
        c.call(c.get('Utils.Database', 'insert_experiment_data'), db, 'UNGM_EXP', d)
        for k, v in vals.items():
            if k == 'Nodes':
                continue
            got = c.call(M.column, conn, 'UNGM_EXP', k)[0][0]
            c.true('field %s is stored in its column' % k, same(got, v), got, v)

    def replace(which):
        def f(c):
            M, s, conn, D = setup(c)
            db = conn.cursor()
            c.call(c.get('Utils.Database', 'create_experiment_table'), db, 'T')
            ins = c.get('Utils.Database', 'insert_experiment_data')
            a = record()
            new = dict(Transform='TT', Seed=102, Iter=2, Power=atom('p2', pos=True), Damping=atom('g2', pos=True))
            b = record(RMSE=atom('rmse2'), NLL=atom('nll2'), **({which: new[which]} if which else {}))
            c.call(ins, db, 'T', a)
            c.call(ins, db, 'T', b)
            rows = s.rows('T')
            want = 2 if which else 1
            if not c.true('number of rows', len(rows) == want, len(rows), want):
                return
            last = find(rows, **{k: b[k] for k in KEYS})
            c.true('the later record is there', len(last) == 1)
            if last:
                c.eq('with its RMSE', last[0]['rmse'], b['RMSE'])
                c.eq('with its NLL', last[0]['nll'], b['NLL'])
            if which:
                first = find(rows, **{k: a[k] for k in KEYS})
                c.true('the earlier record is there', len(first) == 1)
                if first:
                    c.eq('with the RMSE it had', first[0]['rmse'], a['RMSE'])
        return f

    def again(c):
        """Creating the tables a second time keeps what is in them; tables do not mix."""
        M, s, conn, D = setup(c)
        db = conn.cursor()
        mk, ins = c.get('Utils.Database', 'create_experiment_table'), c.get('Utils.Database', 'insert_experiment_data')
        mkd, insd = c.get('Utils.Database', 'create_dynamics_table'), c.get('Utils.Database', 'insert_dynamics_data')
        for _ in range(2):
            c.call(mk, db, 'A')
            c.call(mk, db, 'B')
            c.call(mkd, db, 'C')
            c.call(mkd, db, name='D')
        c.call(ins, db, 'A', record())
        c.call(insd, db, 'C', [(vec('x', 2), vec('y', 1))], 3)
        for _ in range(2):
            c.call(mk, db, 'A')
            c.call(mk, db, 'B')
            c.call(mkd, db, 'C')
            c.call(mkd, db, name='D')
        c.true('rows', [len(s.rows(t)) for t in 'ABCD'] == [1, 0, 1, 0], [len(s.rows(t)) for t in 'ABCD'], [1, 0, 1, 0])

    def dynamics(N, shape, name):
        def f(c):
            M, s, conn, D = setup(c)
            db = conn.cursor()
            c.call(c.get('Utils.Database', 'create_dynamics_table'), db, *([name] if name else []))
            t = name or 'UNGM'
            ins = c.get('Utils.Database', 'insert_dynamics_data')
            X = [mat('x%d' % i, *shape) if len(shape) == 2 else vec('x%d' % i, *shape) for i in range(N)]
            Y = [vec('y%d' % i, 2) for i in range(N)]
            data = list(zip(X, Y))
            c.call(ins, db, t, data, 7)
            other = [(vec('u%d' % i, 2), vec('v%d' % i, 2)) for i in range(N)]
            c.call(ins, db, t, other, 8)
            # the data of a seed is stored once
            c.call(ins, db, t, [(vec('p%d' % i, 2), vec('q%d' % i, 2)) for i in range(N)], 7)
            rows = s.rows(t)
            if not c.true('one row per step and seed', len(rows) == 2 * N, len(rows), 2 * N):
                return
            for i in range(N):
                r = find(rows, Seed=7, t=i)
                if not c.true('one row for step %d' % i, len(r) == 1, len(r), 1):
                    continue
                k = [j for j, q in enumerate(rows) if q is r[0]][0]
                c.eq('state of step %d reads back as simulated' % i, c.call(M.column, conn, t, 'X')[k][0], X[i])
                c.eq('measurement of step %d reads back as simulated' % i, c.call(M.column, conn, t, 'Y')[k][0], Y[i])
                c.true('one row for step %d of the other seed' % i, len(find(rows, Seed=8, t=i)) == 1)
        return f

    def array(shape, decl, layout='C'):
        def f(c):
            M, s, conn, D = setup(c)
            c.call(M.typed, conn, 'V', decl)
            A = zeros(*shape)
            for n, i in enumerate(np.ndindex(*shape)):
                A[i] = atom('a%d' % n)
            if layout == 'F':
                A = np.asfortranarray(A)
            elif layout == 'T':
                A = A.T
            elif layout == 'S':
                A = A[::-1, ::2]
            elif layout == 'I':
                for n, i in enumerate(np.ndindex(*shape)):
                    A[i] = 5 * n + 2
            keep = A.copy()
            c.call(M.store, conn, 'V', A)
            got = c.call(M.column, conn, 'V', 'v')
            c.true('an array reads back as an array', isinstance(got[0][0], np.ndarray), type(got[0][0]).__name__, 'ndarray')
            c.eq('array reads back as stored', got[0][0], keep)
            c.true('array passed in is kept', all(terms.same(x, y) for x, y in zip(A.flat, keep.flat)))
        return f

    def undefined_array(kind, where):
        """Entries that are not numbers, or infinite, are stored like any other."""
        inner = array((2, 3), 'NParray')

        def f(c):
            ST.undefined = {'a%d' % i: kind for i in where}
            inner(c)
        return f

    def values(decl, what):
        def f(c):
            M, s, conn, D = setup(c)
            c.call(M.typed, conn, 'V', decl)
            v = {'empty list': [], 'list of numbers': [1, F(1, 2)], 'list of arrays': [vec('a', 2), vec('b', 2)],
                 'list of Gaussians': [gaussian(c, 'g', 2)],
                 'list with gaps': [None, 1, None, [], [2, None], 0],
                 'nested list': [[1, 2], [[3]], []]}[what]
            c.call(M.store, conn, 'V', v)
            got = c.call(M.column, conn, 'V', 'v')[0][0]
            if not c.true('length', isinstance(got, list) and len(got) == len(v), type(got).__name__, len(v)):
                return
            for i, (a, b) in enumerate(zip(got, v)):
                if b is None or isinstance(b, list):
                    c.true('item %d' % i, a == b, a, b)
                elif isinstance(b, np.ndarray) or terms.is_num(b):
                    c.eq('item %d' % i, a, b)
                else:
                    c.eq('mean of item %d' % i, a.mean, b.mean)
                    c.eq('cov of item %d' % i, a.cov, b.cov)
        return f

    def opening(path):
        def f(c):
            Store(c.it)
            op = c.get('Utils.Database', 'open_database')
            conn = c.call(op) if path is None else c.call(op, path)
            c.true('database file', str(conn.db) == (path or '/cwd/temp.db'), str(conn.db), path or '/cwd/temp.db')
            c.true('declared types are honoured', bool(int(conn.detect_types) & 1))
        return f

    def own_table(mod, table, cols, key):
        """The tables of the other sweeps: creation and insertion agree, and keep the sweep's keys apart."""
        def f(c):
            M, s, conn, D = setup(c)
            db = conn.cursor()
            m = c.get('Experiments.' + mod)
            c.call(c.get('Experiments.' + mod, 'create_experiment_table'), db, table)
            if 'Transform' in cols:
                vals = {k: ('UT' if k == 'Transform' else 'angle' if k == 'Quantity' else 101 if k == 'Seed' else atom(k))
                        for k in cols}
                c.call(c.get('Experiments.' + mod, 'insert_experiment_data'), db, table, dict(vals))
                ins = lambda d: c.call(c.get('Experiments.' + mod, 'insert_experiment_data'), db, table, d)  # noqa
            else:
                vals = {k: ('angle' if k == 'Quantity' else 101 if k in ('Seed', 'dim') else atom(k)) for k in cols}
                text = c.get('Experiments.' + mod, 'experiment_data_string').format(table)
                ins = lambda d: db.execute(text, tuple(d.values()))  # noqa
                ins(dict(vals))
            rows = s.rows(table)
            if not c.true('one row', len(rows) == 1, len(rows), 1):
                return
            for k, v in vals.items():
                c.eq('column %s' % k, rows[0].get(k.lower()), v)
            for k in key:
                other = dict(vals)
                other[k] = 'other' if isinstance(vals[k], str) else atom('other ' + k)
                n = len(s.rows(table))
                ins(other)
                c.true('another %s is another row' % k, len(s.rows(table)) == n + 1, len(s.rows(table)), n + 1)
            n = len(s.rows(table))
            ins(dict(vals))
            c.true('the same key again is not another row', len(s.rows(table)) == n, len(s.rows(table)), n)
        return f

    for n in (None, 'BOT_EXP'):
        out.append(Scenario('record stored in table %s' % (n or 'by default'), one_row(n)))
    for kind in ('nan', 'inf'):
        for which in (('RMSE',), ('NLL',), ('RMSE', 'NLL')):
            out.append(Scenario('record with %s as %s' % (kind, ' and '.join(which)), undefined_record(kind, which)))
    out.append(Scenario('record type and table agree', exp_data))
    for k in (None,) + KEYS:
        out.append(Scenario('second record, %s' % ('same configuration' if k is None else 'other ' + k), replace(k)))
    out.append(Scenario('tables created again', again))
    for N in (1, 3):
        for sh in ((2,), (1, 2), (1,)):
            for nm in (None, 'BOT_SIM'):
                out.append(Scenario('simulation of %d steps, states %s, table %s' % (N, sh, nm or 'by default'),
                                    dynamics(N, sh, nm)))
    for N in sizes.lengths(tier) + sizes.huge():
        out.append(Scenario('simulation of %d steps' % N, dynamics(N, (1,), None)))
    for sh in ((), (1,), (3,), (1, 2), (2, 3), (2, 2, 2)):
        out.append(Scenario('array of shape %s' % (sh,), array(sh, 'NParray')))
    for lay, w in (('F', 'column order'), ('T', 'transposed'), ('S', 'strided'), ('I', 'integers')):
        for sh in ((2, 3), (3, 3)):
            out.append(Scenario('array of shape %s, %s' % (sh, w), array(sh, 'NParray', lay)))
    for kind in ('nan', 'inf'):
        for where in ((0,), (4,), (5, 1), range(6)):
            out.append(Scenario('array with %s at %s' % (kind, ','.join(map(str, where))), undefined_array(kind, where)))
    for n in sizes.around(6000, 9, (), 6):
        for sh in ((n,), (n, 1), (1, n)):
            out.append(Scenario('array of shape %s' % (sh,), array(sh, 'NParray')))
    for decl in ('pickle', 'Nodes'):
        for w in ('empty list', 'list of numbers', 'list of arrays', 'list of Gaussians', 'list with gaps', 'nested list'):
            out.append(Scenario('%s in a column of type %s' % (w, decl), values(decl, w)))
    for p in (None, '/data/x.db'):
        out.append(Scenario('opening %s' % (p or 'the default database'), opening(p)))
    out.append(Scenario('table of the turning-target EP sweep', own_table(
        'EP_Sweep_BearingsOnly', 'BOTT_EXP', ('Transform', 'Quantity', 'Seed', 'Iter', 'Power', 'Damping', 'RMSE', 'NLL'),
        ('Transform', 'Quantity', 'Seed', 'Iter', 'Power', 'Damping'))))
    out.append(Scenario('table of the turning-target smoother sweep', own_table(
        'IEKS_Sweep_BearingsOnly', 'BOTT_EXP', ('Quantity', 'Seed', 'Iter', 'RMSE', 'NLL'), ('Quantity', 'Seed', 'Iter'))))
    out.append(Scenario('table of the Lorenz smoother sweep', own_table(
        'IEKS_Sweep_L96', 'L96_EXP', ('dim', 'Seed', 'Iter', 'RMSE', 'NLL'), ('dim', 'Seed', 'Iter'))))
    out.append(Scenario('table of the growth model smoother sweep', own_table(
        'IEKS_Sweep_UNGM', 'UNGM_EXP', ('Seed', 'Iter', 'RMSE', 'NLL'), ('Seed', 'Iter'))))
    return out


# ------------------------------------------------------------------ C25
FULL, TURN = 'Experiments.EP_FullSweep', 'Experiments.EP_Sweep_BearingsOnly'
QUANTITIES = ('position', 'velocity', 'angle')


class Sweep:
    """A sweep of the program over a small opaque system, on the abstract store."""

    def __init__(self, c, mod, N=2, K=2, d=None, m=1):
        self.c, self.mod, self.N, self.K = c, mod, N, K
        self.d = d = d or (5 if mod == TURN else 1)
        self.m = m
        self.sys = make_system(c, d, m, style='batch', meas_uses=())
        self.db = Store(c.it)
        self.con = lib.Conn('exp.db', 1)
        cur = self.con.cursor()
        c.call(c.get('Utils.Database', 'create_dynamics_table'), cur, name='SIM')
        c.call(c.get(mod if mod == TURN else 'Utils.Database', 'create_experiment_table'), cur, table_name='EXP')
        self.con.commit()
        self.db.log.clear()
        C = c.get(FULL, 'Config')
        self.config = c.call(C, con=self.con, system=self.sys, timesteps=N, sys_dim=d, num_iter=K, dyn_table_name='SIM',
                             exp_table_name='EXP')
        self.quantities = QUANTITIES if mod == TURN else (None,)

    def run(self, seeds, trans, powers, damps, *a, **kw):
        return self.c.call(self.c.get(self.mod, 'full_sweep'), self.config, seeds, trans, powers, damps, *a, **kw)

    def data(self, seed):
        """What simulating right after seeding gives."""
        lib.r_seed(seed)
        return list(self.c.call(self.sys.simulate, self.N))

    def expected(self, data, trans, power, damping):
        """Metrics after each EP iteration on this data with these settings, through the library itself."""
        c = self.c
        x, y = zip(*data)
        sel = c.get(self.mod, 'select_transform')
        tt, mt = c.call(sel, id=trans, dim=self.d)
        E = c.get('MomentMatching.Estimator', 'Estimator')
        e = c.call(E, tt, mt, self.sys.sa['Q'].copy(), self.sys.sa['R'].copy(), power, damping)
        B = c.get('ExpectationPropagation.Nodes')
        nodes = c.call(B.build_nodes, self.N, self.d, e, self.sys, list(y))
        out = []
        for k in range(self.K):
            c.call(c.get('ExpectationPropagation.Iterations', 'ep_fwd_back_updates'), nodes)
            if self.mod == TURN:
                ms = [(n.marginal.mean, n.marginal.cov) for n in nodes]
                out.append(componentwise(ms, [lib.asarr(v).reshape(-1) for v in x]))
            else:
                out.append({None: c.call(c.get('Utils.Metrics', 'node_metrics'), nodes, list(x))})
        return out

    def key(self, trans, seed, power, damping, it, q):
        k = dict(Transform=trans, Seed=seed, Power=power, Damping=damping, Iter=it)
        if q is not None:
            k['Quantity'] = q
        return k

    def rows(self, trans, seed, power, damping):
        return find(self.db.kept('EXP'), Transform=trans, Seed=seed, Power=power, Damping=damping)

    def written(self, trans, seed, power, damping):
        """Records of this configuration written during the analysed run."""
        return find([r for v, t, r, l in self.db.log if t == 'exp'], Transform=trans, Seed=seed, Power=power,
                    Damping=damping)

    def put(self, trans, seed, power, damping, it, val):
        for q in self.quantities:
            k = self.key(trans, seed, power, damping, it, q)
            extra = {} if self.mod == TURN else dict(Mean=lib.Blob('sqlite', lib.Blob('pickle', [])),
                                                     Variance=lib.Blob('sqlite', lib.Blob('pickle', [])))
            self.db.put('EXP', RMSE=val, NLL=val, **k, **extra)

    def loc(self):
        for v, t, r, l in self.db.log:
            if t == 'exp':
                return l

    def complete(self, trans, seed, power, damping):
        r = self.rows(trans, seed, power, damping)
        return all(len(find(r, **self.key(trans, seed, power, damping, k, q))) == 1 for k in range(1, self.K + 1)
                   for q in self.quantities)

    def check(self, label, trans, seed, power, damping, ref):
        c = self.c
        rows = self.rows(trans, seed, power, damping)
        want = self.K * len(self.quantities)
        if not c.true(label + 'one record per iteration (and quantity), committed', len(rows) == want, len(rows), want,
                      self.loc()):
            return
        for k in range(self.K):
            for q in self.quantities:
                r = find(rows, **self.key(trans, seed, power, damping, k + 1, q))
                if c.true(label + 'a record of iteration %d%s' % (k + 1, ' for the ' + q if q else ''), len(r) == 1):
                    c.eq(label + 'RMSE of iteration %d%s' % (k + 1, ' ' + q if q else ''), r[0]['rmse'], ref[k][q][0],
                         shape=False)
                    c.eq(label + 'NLL of iteration %d%s' % (k + 1, ' ' + q if q else ''), r[0]['nll'], ref[k][q][1],
                         shape=False)


PARTS = dict(position=(0, 2), velocity=(1, 3), angle=(4,))


def componentwise(ms, xs):
    """RMSE and NLL of the sub-vectors of the turning target's state."""
    out = {}
    for q, idx in PARTS.items():
        i = list(idx)
        se = mean_of([ref_se(m[i], x[i]) for (m, C), x in zip(ms, xs)])
        nl = mean_of([ref_nll(m[i], C[np.ix_(i, i)], x[i]) for (m, C), x in zip(ms, xs)])
        out[q] = (sqrt(se), nl)
    return out


def c25(tier):
    out = []
    p1, p2, g1, g2 = F(1), F(4, 5), F(1), F(1, 3)

    def all_run(mod, trans, seeds, powers, damps):
        def f(c):
            s = Sweep(c, mod)
            s.run(seeds, trans, powers, damps)
            n = 0
            for seed in seeds:
                data = s.data(seed)
                simulated(c, s, seed, data)
                for tr in trans:
                    for p in powers:
                        for g in damps:
                            n += s.K * len(s.quantities)
                            if tr != 'MCT':
                                s.check('%s seed=%d power=%s damping=%s: ' % (tr, seed, p, g), tr, seed, p, g,
                                        s.expected(data, tr, p, g))
                            else:
                                c.true('%s seed=%d power=%s damping=%s: complete' % (tr, seed, p, g),
                                       s.complete(tr, seed, p, g))
            c.true('nothing else is recorded', len(s.db.rows('EXP')) == n, len(s.db.rows('EXP')), n)
            c.true('everything is committed', len(s.db.kept('EXP')) == n and s.db.pending == 0)
        return f

    def partly(mod, what, override):
        """Some configurations have records of an earlier run."""
        def f(c):
            s = Sweep(c, mod)
            old = atom('stored')
            K = s.K
            a, b = ('UT', 101, p1, g1), ('UT', 101, p2, g1)
            have = {'complete': [('UT', 101, p1, g1, k) for k in range(1, K + 1)],
                    'interrupted': [('UT', 101, p1, g1, k) for k in range(1, K)],
                    'shorter run': [('UT', 101, p1, g1, 1)],
                    'nothing': [],
                    'other seed': [('UT', 7, p1, g1, k) for k in range(1, K + 1)],
                    'other transform': [('TT', 101, p1, g1, k) for k in range(1, K + 1)],
                    'other power': [('UT', 101, F(9, 10), g1, k) for k in range(1, K + 1)],
                    'nearby power': [('UT', 101, p1 - F(1, 1000), g1, k) for k in range(1, K + 1)],
                    'other damping': [('UT', 101, p1, g2, k) for k in range(1, K + 1)],
                    'longer run': [('UT', 101, p1, g1, k) for k in range(1, K + 3)],
                    'both complete': [x[:4] + (k,) for x in (a, b) for k in range(1, K + 1)]}[what]
            for h in have:
                s.put(*h, old)
            before = len(s.db.rows('EXP'))
            kw = {} if override is None else dict(override=override)
            s.run([101], ['UT'], [p1, p2], [g1], **kw)
            data = s.data(101)
            if what != 'both complete':
                simulated(c, s, 101, data)
            for cfg in (a, b):
                done = all(cfg + (k,) in have for k in range(1, K + 1))
                label = 'power %s: ' % cfg[2]
                if done and not override:
                    c.true(label + 'already computed, not computed again', not s.written(*cfg), len(s.written(*cfg)), 0,
                           s.loc())
                    rs = [r for r in s.rows(*cfg)]
                    c.true(label + 'stored records are kept', rs and all(same(r['rmse'], old) for r in rs))
                else:
                    exp = s.expected(data, cfg[0], cfg[2], cfg[3])
                    got = s.rows(*cfg)
                    got = [r for r in got if not (r['iter'] > K)]
                    for k in range(K):
                        for q in s.quantities:
                            r = find(got, **s.key(cfg[0], cfg[1], cfg[2], cfg[3], k + 1, q))
                            if c.true(label + 'one record of iteration %d%s' % (k + 1, ' ' + q if q else ''),
                                      len(r) == 1, len(r), 1, s.loc()):
                                c.eq(label + 'new RMSE of iteration %d%s' % (k + 1, ' ' + q if q else ''), r[0]['rmse'],
                                     exp[k][q][0], shape=False)
            others = [h for h in have if h[:4] not in (a, b)]
            for h in others:
                r = find(s.db.rows('EXP'), Transform=h[0], Seed=h[1], Power=h[2], Damping=h[3], Iter=h[4])
                c.true('records of other configurations are kept', len(r) == len(s.quantities) and
                       all(same(q['rmse'], old) for q in r))
        return f

    def stored(mod, n):
        """Many configurations, all but the last of them stored already."""
        def f(c):
            s = Sweep(c, mod, K=1)
            old = atom('stored')
            powers = [F(k, 2000) for k in range(1, n + 1)]
            for p in powers[:-1]:
                s.put('UT', 101, p, g1, 1, old)
            s.run([101], ['UT'], powers, [g1])
            again = [r for v, t, r, l in s.db.log if t == 'exp' and r['power'] != powers[-1]]
            c.true('none of the %d configurations stored already is computed again' % (n - 1), not again, len(again), 0, s.loc())
            data = s.data(101)
            s.check('configuration %d: ' % n, 'UT', 101, powers[-1], g1, s.expected(data, 'UT', powers[-1], g1))
            c.true('nothing else is recorded', len(s.db.kept('EXP')) == n * len(s.quantities))
        return f

    def twice(mod):
        def f(c):
            s = Sweep(c, mod, K=1)
            args = ([101, 7], ['UT', 'TT'], [p1, p2], [g1])
            s.run(*args)
            first = [dict(r) for r in s.db.rows('EXP')]
            sim = [dict(r) for r in s.db.rows('SIM')]
            s.db.log.clear()
            s.run(*args)
            c.true('the second run computes nothing', not [1 for v, t, r, l in s.db.log if t == 'exp'], loc=s.loc())
            c.true('records are kept', len(first) == len(s.db.rows('EXP')) and
                   all(same(a['rmse'], b['rmse']) for a, b in zip(first, s.db.rows('EXP'))))
            c.true('simulations are kept', len(sim) == len(s.db.rows('SIM')))
            # a longer run of the same settings is another experiment
            s.config = s.config._replace(num_iter=2)
            s.K = 2
            s.db.log.clear()
            s.run(*args)
            for seed in args[0]:
                for tr in args[1]:
                    for p in args[2]:
                        c.true('more iterations asked for: %s seed %d power %s is computed' % (tr, seed, p),
                               s.complete(tr, seed, p, g1))
        return f

    def simulated(c, s, seed, data, label=''):
        """The simulation of this seed is stored."""
        sim = find(s.db.kept('SIM'), Seed=seed)
        c.true(label + 'seed %d: one stored step per simulated step' % seed, len(sim) == s.N, len(sim), s.N)
        t = s.db.tables['sim']
        for i, (x, y) in enumerate(data):
            r = find(sim, t=i)
            if c.true(label + 'seed %d: step %d is stored' % (seed, i), len(r) == 1, len(r), 1):
                c.eq(label + 'seed %d: state of step %d' % (seed, i), s.db.out(s.con, t['types']['x'], r[0]['x']), x)
                c.eq(label + 'seed %d: measurement of step %d' % (seed, i), s.db.out(s.con, t['types']['y'], r[0]['y']), y)

    def crash(mod, seeds, trans, powers, damps, K=2, override=False):
        """Ended after any commit and run again: the second run completes what the first one has left."""
        def f(c):
            s = Sweep(c, mod, K=K)
            s.run(seeds, trans, powers, damps, **(dict(override=True) if override else {}))
            full = {(t, e, p, g): s.rows(t, e, p, g) for t in trans for e in seeds for p in powers for g in damps}
            left = [{}] + list(s.db.commits)
            for n, tables in enumerate(left):
                s.db.crash(tables)
                s.run(seeds, trans, powers, damps)
                label = 'ended after commit %d: ' % n
                for seed in seeds:
                    simulated(c, s, seed, s.data(seed), label)
                for cfg, ref in full.items():
                    if not c.true(label + '%s seed %d power %s is completed by the next run' % cfg[:3], s.complete(*cfg)):
                        continue
                    for r in ref:
                        k = {x: r[x.lower()] for x in KEYS + (('Quantity',) if mod == TURN else ())}
                        q = find(s.db.rows('EXP'), **k)
                        c.eq(label + 'RMSE of iteration %s' % k['Iter'], q[0]['rmse'] if len(q) == 1 else None, r['rmse'],
                             shape=False)
        return f

    def failing(mod, K):
        """At most one numerical failure anywhere: it costs at most its own configuration."""
        def f(c):
            s = Sweep(c, mod, N=1, K=K)
            ST.hooks['eigh_fault'] = True
            s.run([101], ['UT'], [p1, p2, F(1, 2)], [g1])
            left = [p for p in (p1, p2, F(1, 2)) if not s.complete('UT', 101, p, g1)]
            c.true('the other configurations are complete', len(left) <= 1, 'incomplete: powers %s' % [str(p) for p in left],
                   'at most one')
            ST.faults_on = False
            simulated(c, s, 101, s.data(101))
        return f

    def given(mod, N, trans):
        """Every configuration works on the whole simulation of its seed, with as many samples as are asked for."""
        def f(c):
            chains, drawn_ = [], []
            it = c.get('ExpectationPropagation.Iterations')

            def update(nodes):
                chains.append(list(nodes))
            it.ep_fwd_back_updates = update
            MC = c.get('MomentMatching', 'MonteCarloTransform')

            def transform(*a, **k):
                t = MC(*a, **k)
                drawn_.append(t.number_of_samples)
                return t
            if trans == 'MCT':
                for m in ('MomentMatching', 'MomentMatching.MonteCarloTransform'):
                    if hasattr(c.get(m), 'MonteCarloTransform'):
                        setattr(c.get(m), 'MonteCarloTransform', transform)
            M = c.get(mod)
            if not hasattr(it, 'ep_fwd_back_updates') or 'ep_fwd_back_updates' in vars(M) and \
                    M.ep_fwd_back_updates is not update:
                c.skip('sweeps of its own')
            s = Sweep(c, mod, N=N, K=1)
            cfgs = [(p, g) for p in (p1, p2) for g in (F(1), F(1, 2))]
            if trans == 'MCT':
                data = s.data(101)
                x, y = zip(*data)
                for n in (7, 600, 2500, 20000, 10 ** 6):
                    for p, g in cfgs:
                        drawn_.clear()
                        c.call(c.get(mod, 'power_sweep'), s.config, x, y, trans_id=trans, SEED=101, power=p, damping=g,
                               samples=n)
                        c.true('power %s, damping %s: transforms of %d samples' % (p, g, n), drawn_ == [n, n],
                               drawn_, [n, n])
            else:
                s.run([101, 7], [trans], [p1, p2], [F(1), F(1, 2)])
                if not c.true('one pass for each configuration', len(chains) == 8, len(chains), 8):
                    return
                for i, nodes in enumerate(chains):
                    data = s.data((101, 7)[i // 4])
                    label = 'configuration %d: ' % (i + 1)
                    if not c.true(label + 'one node per step', len(nodes) == N, len(nodes), N):
                        continue
                    for k, (n, (x, y)) in enumerate(zip(nodes, data)):
                        c.eq(label + 'measurement of step %d' % (k + 1), lib.asarr(n.meas).reshape(-1),
                             lib.asarr(y).reshape(-1))
        return f

    def main_(mod, opts):
        """The command line: the sweep which is run is the one asked for."""
        def f(c):
            M = c.get(mod)
            db = Store(c.it)
            seen = []
            ST.hooks['np.load'] = lambda path: vec('stored', 40)
            main = c.get(mod, 'main')
            c.get(mod, 'full_sweep')

            def stub(*a, **k):
                import inspect
                sig = inspect.Signature([inspect.Parameter(n, inspect.Parameter.POSITIONAL_OR_KEYWORD,
                                                           default=False if n == 'override' else inspect._empty)
                                         for n in ('config', 'seed_range', 'trans_types', 'power_range', 'damp_range',
                                                   'override')])
                ba = sig.bind(*a, **k)
                ba.apply_defaults()
                seen.append(ba.arguments)
            M.full_sweep = stub
            seeds = opts.get('seeds', (3, 5))
            kw = dict(logdir='out.db', seeds=seeds, trans_types=('UT', 'MCT'), num_iter=11, override=opts.get('override', False))
            if mod == FULL:
                kw['dynamic_system'] = opts['system']
            c.call(main, **kw)
            if not c.true('one sweep is run', len(seen) == 1, len(seen), 1):
                return
            a = seen[0]
            cf = a['config']
            c.true('seeds', [int(x) for x in a['seed_range']] == list(seeds), [int(x) for x in a['seed_range']], list(seeds))
            c.true('transforms', list(a['trans_types']) == ['UT', 'MCT'])
            c.true('override', bool(a['override']) == kw['override'])
            c.true('iterations', cf.num_iter == 11, cf.num_iter, 11)
            c.true('database', str(cf.con.db) == 'out.db', str(cf.con.db), 'out.db')
            cls = dict(UNGM='UniformNonlinearGrowthModel', BOT='BearingsOnlyTracking', BOTT='BearingsOnlyTrackingTurn',
                       L96='L96')[opts['system']]
            c.true('system', type(cf.system).__name__ == cls or getattr(cf.system, '__class__', None) is
                   c.get('Systems', cls) or isinstance_name(cf.system) == cls, isinstance_name(cf.system), cls)
            c.true('state dimension', cf.sys_dim == cf.system.system_dim, cf.sys_dim, cf.system.system_dim)
            c.true('steps', cf.timesteps > 0)
            P = [x for x in lib.asarr(a['power_range']).flat]
            D = [x for x in lib.asarr(a['damp_range']).flat]
            c.true('powers are in (0, 1] and contain 1', all(0 < x <= 1 for x in P) and any(terms.same(x, 1) for x in P))
            c.true('dampings are in (0, 1] and contain 1', all(0 < x <= 1 for x in D) and any(terms.same(x, 1) for x in D))
            # the tables named by the configuration exist and take the sweep's records
            cur = cf.con.cursor()
            c.call(c.get('Utils.Database', 'insert_dynamics_data'), cur, cf.dyn_table_name, [(vec('x', 2), vec('y', 1))], 3)
            r = record(Seed=3)
            if mod == TURN:
                r = dict(Transform='UT', Quantity='angle', Seed=3, Iter=1, Power=F(1), Damping=F(1), RMSE=F(1), NLL=F(2))
            c.call(c.get(mod if mod == TURN else 'Utils.Database', 'insert_experiment_data'), cur, cf.exp_table_name, r)
            c.true('tables are ready', len(db.rows(cf.exp_table_name)) == 1 and len(db.rows(cf.dyn_table_name)) == 1)
        return f

    def own_tables(c):
        """Sweeps of different systems into one database file do not share a table."""
        main = c.get(FULL, 'main')
        c.get(FULL, 'full_sweep')
        seen = []
        ST.hooks['np.load'] = lambda path: vec('stored', 40)
        c.get(FULL).full_sweep = lambda config, *a, **k: seen.append(config)
        Store(c.it)
        systems = ('UNGM', 'BOT', 'BOTT', 'L96')
        for n in systems:
            c.call(main, logdir='out.db', seeds=(3,), trans_types=('UT',), num_iter=1, override=False, dynamic_system=n)
        if not c.true('one sweep each', len(seen) == len(systems), len(seen), len(systems)):
            return
        names = [(n, str(t).lower()) for n, cf in zip(systems, seen) for t in (cf.dyn_table_name, cf.exp_table_name)]
        for i, (n, t) in enumerate(names):
            for m, u in names[:i]:
                c.true('tables of %s and %s are distinct' % (m, n), t != u, '%s and %s' % (u, t), 'two tables')

    def transforms(name):
        """select_transform: the transform asked for, of the dimension asked for."""
        def f(c):
            sel = c.get(FULL, 'select_transform')
            d = 3
            for idn in (name, name.lower()):
                tt, mt = c.call(sel, id=idn, dim=d, samples=7)
                if name == 'MCT':
                    C = c.get('MomentMatching', 'MonteCarloTransform')
                    refs = [c.call(C, d, 7), c.call(C, d, 7)]
                elif name == 'TT':
                    C = c.get('MomentMatching', 'TaylorTransform')
                    refs = [c.call(C, d), c.call(C, d)]
                else:
                    C = c.get('MomentMatching', 'UnscentedTransform')
                    refs = [c.call(C, dim=d, alpha=1, beta=2, kappa=3), c.call(C, dim=d, alpha=1, beta=2, kappa=2)]
                f_ = Opaque('f', d, d, 'batch', ())
                for got, ref, w in zip((tt, mt), refs, ('transition', 'measurement')):
                    g = gaussian(c, 'x', d)
                    if name == 'MCT':
                        lib.r_seed(5)
                        a = c.call(got, f_, g)
                        lib.r_seed(5)
                        b = c.call(ref, f_, g)
                    else:
                        a, b = c.call(got, f_, g), c.call(ref, f_, g)
                    for k, n in enumerate(('mean', 'covariance', 'cross-covariance')):
                        c.eq('%s transform %s: %s' % (w, idn, n), a[k], b[k])
        return f

    def imports(mod):
        """Every name the module imports from the code base exists."""
        def f(c):
            path, pkg = c.it.find(mod)
            if path is None:
                c.skip('module is gone')
            tree = c.it.parse(path)
            n = 0
            for node in ast.walk(tree):
                if isinstance(node, ast.ImportFrom):
                    if node.level:
                        base = mod.split('.') if pkg else mod.split('.')[:-1]
                        base = base[:len(base) - node.level + 1]
                        m = '.'.join(base + ([node.module] if node.module else []))
                    else:
                        m = node.module
                    p, _ = c.it.find(m)
                    top = m.split('.')[0]
                    if p is None and c.it.find(top)[0] is None:
                        continue
                    n += 1
                    if not c.true('%s imports %s, which exists' % (mod, m), p is not None,
                                  loc=(path, node.lineno, '<module>')):
                        continue
                    names = defined(c, m)
                    for a in node.names:
                        if a.name == '*':
                            continue
                        ok = a.name in names or c.it.find(m + '.' + a.name)[0] is not None
                        c.true('%s imports %s from %s, which defines it' % (mod, a.name, m), ok,
                               loc=(path, node.lineno, '<module>'))
                elif isinstance(node, ast.Import):
                    for a in node.names:
                        top = a.name.split('.')[0]
                        if c.it.find(top)[0] is None:
                            continue
                        n += 1
                        c.true('%s imports %s, which exists' % (mod, a.name), c.it.find(a.name)[0] is not None,
                               loc=(path, node.lineno, '<module>'))
            c.true('%d imports resolved' % n, True)
        return f

    def results(c):
        """The queries of the result display fit the tables the sweeps create."""
        db = Store(c.it)
        con = lib.Conn('any', 1)
        stores = {}
        seeds = [101, 201, 301, 401, 501, 601, 701, 801, 901, 1001]

        def tables(file):
            s = Store(c.it)
            cur = lib.Conn(file, 1).cursor()
            ieks = 'ieks' in file.lower()
            if ieks:
                for mod, t in (('IEKS_Sweep_UNGM', 'UNGM_EXP'), ('IEKS_Sweep_BearingsOnly', 'BOTT_EXP'),
                               ('IEKS_Sweep_L96', 'L96_EXP')):
                    c.call(c.get('Experiments.' + mod, 'create_experiment_table'), cur, t)
            else:
                c.call(c.get('Utils.Database', 'create_experiment_table'), cur, 'UNGM_EXP')
                c.call(c.get(TURN, 'create_experiment_table'), cur, 'BOTT_EXP')
                path = c.it.find('Experiments.EP_Sweep_L96')[0]
                for node in ast.walk(c.it.parse(path)):
                    if isinstance(node, ast.Constant) and isinstance(node.value, str) and 'CREATE TABLE' in node.value:
                        cur.execute(node.value)
            return s

        class Any(list):
            pass

        def route(conn, text, params):
            if text in ('COMMIT', 'ROLLBACK', 'CLOSE'):
                return None
            f = str(conn.db)
            if f not in stores:
                stores[f] = tables(f)
                ST.hooks['sql'] = route
            s = stores[f]
            n = len(queries)
            queries.append(text)
            r = s.apply(conn, text, params)
            ST.hooks['sql'] = route
            w = len(sql.parse(text)['select'])
            return r or [tuple(atom('%s%d.%d' % (v, n, j)) for j in range(w)) for v in ('value', 'other')]
        queries = []
        ST.hooks['sql'] = route
        M = c.it.load('Experiments.DisplayResults')
        c.true('queries analysed', len(queries) > 0, len(queries))

    for mod, nm in ((FULL, 'sweep'), (TURN, 'turning-target sweep')):
        for k, a in enumerate(((['UT', 'TT'], [101, 7], [p1], [g1]), (['UT'], [101, 7], [p1, p2], [g1]),
                               (['TT'], [101], [p1, p2], [g1, g2]), (['TT', 'UT'], [7], [p2], [g1, g2]),
                               (['TT', 'UT'], [3, 1, 2], [p2], [g2]),
                               (['TT'], [101], [F(3, 4), F(7, 10), F(4, 5), F(751, 1000), F(75, 100) + F(1, 10 ** 7)], [g1]),
                               (['TT'], [101], [p2], [F(3, 4), F(7, 10), F(4, 5), F(751, 1000), F(75, 100) + F(1, 10 ** 7)]),
                               (['TT'], [12345, 12346, 101, 1010], [p2], [g2]))):
            out.append(Scenario('%s: every configuration, %d transforms, %d seeds, %d powers, %d dampings' % (
                (nm,) + tuple(map(len, a))), all_run(mod, *a)))
        if mod == FULL or tier == 'thorough':
            out.append(Scenario('%s: every configuration' % nm, all_run(mod, ['UT', 'TT'], [101, 7], [p1, p2], [g1, g2])))
        for w in ('complete', 'nothing', 'interrupted', 'shorter run', 'longer run', 'other seed', 'other transform', 'other power',
                  'nearby power', 'other damping', 'both complete'):
            for o in (None, False, True):
                if o is False and w != 'complete':
                    continue
                out.append(Scenario('%s: %s%s' % (nm, w, {None: '', False: ', override off', True: ', override'}[o]),
                                    partly(mod, w, o)))
        out.append(Scenario('%s: run again' % nm, twice(mod)))
        out.append(Scenario('%s: ended and run again' % nm, crash(mod, [101, 7], ['UT'], [p1], [g1])))
        out.append(Scenario('%s: ended and run again, two powers' % nm, crash(mod, [101], ['TT'], [p1, p2], [g1], 1)))
        out.append(Scenario('%s: override ended and run again' % nm, crash(mod, [101], ['TT'], [p1], [g2, g1], 1, True)))
        out.append(Scenario('%s: one numerical failure' % nm, failing(mod, 1), max_fault=1, max_paths=400))
        for n in sizes.lengths(tier, 4, 60):
            out.append(Scenario('%s: measurements of %d steps' % (nm, n), given(mod, n, 'UT')))
        out.append(Scenario('%s: sample count' % nm, given(mod, 2, 'MCT')))
        for n in [20] + sizes.around(1300, 21, (), 3):
            out.append(Scenario('%s: all but the last of %d configurations stored' % (nm, n), stored(mod, n)))
        if tier == 'thorough':
            out.append(Scenario('%s: one numerical failure, two iterations' % nm, failing(mod, 2), max_fault=1, max_paths=800))
    for sysn in ('UNGM', 'BOT', 'BOTT', 'L96'):
        for o in (False, True):
            out.append(Scenario('command line %s%s' % (sysn, ' override' if o else ''),
                                main_(FULL, dict(system=sysn, override=o))))
    out.append(Scenario('command line: tables of the systems', own_tables))
    for n in sizes.around(64, 3, (), 4):
        many = tuple(range(200, 200 + 3 * n, 3))
        out.append(Scenario('command line, %d seeds' % n, main_(FULL, dict(system='UNGM', seeds=many))))
        out.append(Scenario('turning-target command line, %d seeds' % n, main_(TURN, dict(system='BOTT', seeds=many))))
    unsorted = dict(seeds=(9, 2, 9 + 1, 5))
    out.append(Scenario('command line, unsorted seeds', main_(FULL, dict(system='BOT', **unsorted))))
    out.append(Scenario('turning-target command line, unsorted seeds', main_(TURN, dict(system='BOTT', **unsorted))))
    for o in (False, True):
        out.append(Scenario('turning-target command line%s' % (' override' if o else ''),
                            main_(TURN, dict(system='BOTT', override=o))))
    for n in ('UT', 'TT', 'MCT'):
        out.append(Scenario('transform %s' % n, transforms(n)))
    for m in modules():
        out.append(Scenario('imports of %s' % m, imports(m)))
    out.append(Scenario('result display', results))
    return out


def isinstance_name(o):
    return getattr(getattr(o, '__class__', type(o)), '__name__', type(o).__name__)


def defined(c, mod):
    """Names a module of the code base binds at its top level."""
    path, pkg = c.it.find(mod)
    names = set()
    if path is None or not os.path.isfile(path):
        return names

    def targets(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                targets(e)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def walk(body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.add(s.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    targets(t)
            elif isinstance(s, (ast.AnnAssign, ast.AugAssign)):
                targets(s.target)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    if a.name == '*':
                        m = s.module or ''
                        if s.level:
                            base = mod.split('.') if pkg else mod.split('.')[:-1]
                            base = base[:len(base) - s.level + 1]
                            m = '.'.join(base + ([s.module] if s.module else []))
                        names.update(defined(c, m))
                    else:
                        names.add((a.asname or a.name).split('.')[0])
            for f in ('body', 'orelse', 'finalbody'):
                if hasattr(s, f) and not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    walk(getattr(s, f))
            if isinstance(s, ast.Try):
                for h in s.handlers:
                    walk(h.body)
            if isinstance(s, (ast.For, ast.With)):
                if isinstance(s, ast.For):
                    targets(s.target)
    walk(c.it.parse(path).body)
    if pkg:
        d = os.path.dirname(path)
        names.update(f[:-3] for f in os.listdir(d) if f.endswith('.py'))
    return names


def modules():
    """The non-test modules of the code base."""
    out = []
    for top in ('StateModel', 'MomentMatching', 'ExpectationPropagation', 'Filters', 'Systems', 'Utils', 'Experiments'):
        d = os.path.join(I.REPO, top)
        if not os.path.isdir(d):
            continue
        for root, dirs, files in os.walk(d):
            dirs[:] = sorted(x for x in dirs if x not in ('__pycache__', 'tests', 'test'))
            for f in sorted(files):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(root, f), I.REPO)[:-3].replace(os.sep, '.')
                    out.append(rel[:-9] if rel.endswith('.__init__') else rel)
    return out
