"""C03: nothing given is changed;  C26: component-wise metrics;  C27: reproducibility."""
import types

import numpy as np

from sa import lib, terms
from sa.harness import Scenario
from sa.terms import F, ST, atom, add, mul
from sa.model import (attributes, vec, mat, spd, inv, zeros, scale, Ref, gaussian, natural_of, Opaque, OpaqueTransform, make_system,
                      write_loc)
from .gaussian import sees, ref_nll, ref_se, mean_of, MODES
from .db import componentwise, PARTS
from .ep import Setup as Chain, RANGE
from .store import Store
from . import sizes

It = 'ExpectationPropagation.Iterations'
S = dict(special=('power', 'damping'), ranges=RANGE)


class Guard:
    """Values of everything handed to the program, to be found again afterwards."""

    def __init__(self, c):
        self.c, self.items = c, []

    def array(self, name, a):
        self.items.append(('array', name, a, a.copy()))
        return a

    def list(self, name, xs):
        self.items.append(('list', name, xs, list(xs)))
        for i, x in enumerate(xs):
            if isinstance(x, np.ndarray):
                self.array('%s[%d]' % (name, i), x)
            elif isinstance(x, list):
                self.list('%s[%d]' % (name, i), x)
        return xs

    def state(self, name, d, mode, warm=False):
        g = gaussian(self.c, name, d, mode)
        if warm:
            g.mean, g.cov, g.precision, g.shift
        held = [(k, v, v.copy()) for k, v in attributes(g) if isinstance(v, np.ndarray)]
        self.items.append(('state', name, g, (natural_of(self.c, name, d, mode), held)))
        return g

    def held(self, tag):
        self.check(tag, True)

    def check(self, tag='', faulty=False):
        c = self.c
        ST.faults_on, on = False, ST.faults_on
        try:
            self._check(c, tag, faulty)
        finally:
            ST.faults_on = on

    def _check(self, c, tag, faulty):
        for kind, name, o, want in self.items:
            if kind == 'array':
                c.true('%s%s keeps its values' % (tag, name), o.shape == want.shape and all(
                    x is y or terms.same(x, y) for x, y in zip(o.flat, want.flat)), o, want, write_loc(c, o))
            elif kind == 'list':
                c.true('%s%s keeps its items' % (tag, name), len(o) == len(want) and all(
                    x is y or not isinstance(x, (np.ndarray, list, str)) and x == y for x, y in zip(o, want)), o, want)
            else:
                r, held = want
                for k, a, b in held:
                    c.true('%s%s: array handed in keeps its values' % (tag, name), a.shape == b.shape and all(
                        x is y or terms.same(x, y) for x, y in zip(a.flat, b.flat)), a, b, write_loc(c, a))
                if not faulty:
                    sees(c, tag + name, o, r)


def c03(tier):
    out = []

    def algebra(d, ma, mb, warm):
        def f(c):
            G = Guard(c)
            a, b = G.state('a', d, ma, warm), G.state('b', d, mb, warm)
            x = G.array('x', vec('x', d))
            k = atom('c', pos=True)
            ops = [('product', lambda: a * b), ('quotient', lambda: a / b), ('power', lambda: a ** k),
                   ('product with itself', lambda: a * a), ('quotient by itself', lambda: a / a),
                   ('mixture', lambda: (a ** k) * (b / a) ** 2),
                   ('negative log likelihood', lambda: a.nll(x)), ('squared error', lambda: a.squared_error(x)),
                   ('sampling', lambda: a.sample(3)), ('copy', lambda: c.call(a.copy)),
                   ('Cholesky factor', lambda: a.chol_cov), ('dimension', lambda: a.dim),
                   ('text', lambda: (c.call(repr, a), c.call(str, a)))]
            for n, op in ops:
                try:
                    op()
                except (lib.LinAlgError, lib.LinAlgWarning):
                    c.true(n + ' fails only when a factorisation fails', ST.oracle.faults > 0)
                    G.held(n + ': ')
                    return
                G.check(n + ': ', faulty=ST.oracle.faults > 0)
        return f

    def results(d, mode):
        """A result keeps its value when the operands are used further."""
        def f(c):
            a, b = gaussian(c, 'a', d, mode), gaussian(c, 'b', d, 'moment')
            ra, rb = natural_of(c, 'a', d, mode), natural_of(c, 'b', d, 'moment')
            p, q = a * b, a / b
            z = a ** 2
            y = c.call(a.copy)
            (p / b) * q
            p * p, q ** 3, z / a, y * b
            for n, g, r in (('product', p, ra * rb), ('quotient', q, ra / rb), ('power', z, ra ** 2), ('copy', y, ra)):
                sees(c, n, g, r)
        return f

    def helpers(n, k):
        def f(c):
            G = Guard(c)
            A, b = G.array('matrix', spd('A', n)), G.array('right side', mat('b', n, k) if k else vec('b', n))
            ch, so, sy = (c.get('Utils.linalg', x) for x in ('jittered_chol', 'jittered_solve', 'symmetrize'))
            for name, op in (('Cholesky', lambda: c.call(ch, A)), ('solve', lambda: c.call(so, A, b)),
                             ('solve, positive definite', lambda: c.call(so, A, b, assume_a='pos')),
                             ('symmetrise', lambda: c.call(sy, A))):
                try:
                    op()
                except (lib.LinAlgError, lib.LinAlgWarning):
                    c.true(name + ' fails only when a factorisation fails', ST.oracle.faults > 0)
                G.check(name + ': ')
        return f

    def metrics(N, d):
        def f(c):
            G = Guard(c)
            gs = G.list('states', [G.state('g%d' % i, d, MODES[i % 2]) for i in range(N)])
            xs = G.list('truth', [vec('x%d' % i, d) for i in range(N)])
            for n in ('nll', 'rmse'):
                c.call(c.get('Utils.Metrics', n), gs, xs)
                G.check(n + ': ')
            ns = G.list('nodes', [types.SimpleNamespace(marginal=g) for g in gs])
            c.call(c.get('Utils.Metrics', 'node_metrics'), ns, xs)
            G.check('node metrics: ')
        return f

    def transform(kind, d, m, mode, warm):
        def f(c):
            G = Guard(c)
            if kind == 'unscented':
                T = c.call(c.get('MomentMatching', 'UnscentedTransform'), d, 1, 2, 1)
            elif kind == 'Taylor':
                T = c.call(c.get('MomentMatching', 'TaylorTransform'), d)
            else:
                T = c.call(c.get('MomentMatching', 'MonteCarloTransform'), d, 3)
            g = G.state('x', d, mode, warm)
            for i in range(2):
                func = Opaque('f', d, m, 'batch', uses=())
                c.call(T, func, g)
                G.check('use %d: ' % (i + 1))
        return f

    def rough(d, m, what):
        """Matrices that are symmetric up to rounding only, handed in by the caller."""
        def f(c):
            G = Guard(c)
            St = c.get('StateModel', 'Gaussian')
            C, v = G.array('matrix of the caller', mat('A', d, d)), G.array('vector of the caller', vec('v', d))
            L = 'Utils.linalg'
            for name, op in (('symmetrise', lambda: c.call(c.get(L, 'symmetrize'), C)),
                             ('Cholesky', lambda: c.call(c.get(L, 'jittered_chol'), C)),
                             ('solve', lambda: c.call(c.get(L, 'jittered_solve'), C, v)),
                             ('solve, positive definite', lambda: c.call(c.get(L, 'jittered_solve'), C, v,
                                                                         assume_a='pos'))):
                try:
                    op()
                except (lib.LinAlgError, lib.LinAlgWarning):
                    c.true(name + ' fails only when a factorisation fails', ST.oracle.faults > 0)
                G.check(name + ': ')
            g = c.call(St, v, C) if what == 'covariance' else c.call(St.from_natural, C, v)
            e = gaussian(c, 'b', d)
            Ts = [c.call(c.get('MomentMatching', 'UnscentedTransform'), d), c.call(
                c.get('MomentMatching', 'TaylorTransform'), d), c.call(
                    c.get('MomentMatching', 'MonteCarloTransform'), d, 2)]
            func = Opaque('f', d, m, 'batch', uses=())
            x = G.array('point', vec('p', d))
            ops = [('construction', lambda: None), ('product', lambda: g * e), ('product', lambda: e * g),
                   ('quotient', lambda: g / e), ('power', lambda: g ** 2), ('copy', lambda: c.call(g.copy)),
                   ('sample', lambda: g.sample(2)), ('negative log likelihood', lambda: g.nll(x)),
                   ('Cholesky factor', lambda: g.chol_cov)]
            ops += [('%s transform' % n, (lambda T: lambda: c.call(T, func, g))(T)) for n, T in zip(
                ('unscented', 'Taylor', 'Monte Carlo'), Ts)]
            for n, op in ops:
                try:
                    op()
                except (lib.LinAlgError, lib.LinAlgWarning):
                    c.true(n + ' fails only when a factorisation fails', ST.oracle.faults > 0)
                    G.check(n + ', failing: ')
                    return
                G.check(n + ': ')
        return f

    def projections(d, m, mode, warm):
        def f(c):
            G = Guard(c)
            E = c.get('MomentMatching.Estimator', 'Estimator')
            tf, th = OpaqueTransform(c.it, 'TM', d, d), OpaqueTransform(c.it, 'MM', d, m)
            Q, R = G.array('transition noise', spd('Q', d)), G.array('measurement noise', spd('R', m))
            e = c.call(E, trans_map=tf, meas_map=th, trans_noise=Q, meas_noise=R, power=atom('power', pos=True),
                       damping=atom('damping', pos=True))
            g, k, n = G.state('x', d, mode, warm), G.state('k', d, 'natural', warm), G.state('n', d, 'moment', warm)
            z = G.array('measurement', vec('z', m))
            ff, hh = Opaque('f', d, d, 'flat', uses=()), Opaque('h', d, m, 'flat', uses=())
            for i in range(2):
                for name, op in (('time', lambda: c.call(e.proj_trans, ff, g)),
                                 ('measurement', lambda: c.call(e.proj_meas, hh, g, z)),
                                 ('backward', lambda: c.call(e.proj_back, ff, g, k)),
                                 ('backward with next state', lambda: c.call(e.proj_back, ff, g, k, n))):
                    op()
                    G.check('%s projection: ' % name)
        return f

    def filters(which, d, m, N, zk):
        def f(c):
            G = Guard(c)
            s = make_system(c, d, m, style='batch' if which in ('IEKF', 'IEKS') else 'flat')
            sa = s.sa
            z = [vec('z%d' % i, m) for i in range(N)]
            if zk == 'array':
                Z = G.array('measurements', np.stack(z))
            elif zk == 'rows':
                Z = G.list('measurements', [v.reshape(1, -1) for v in z])
            else:
                Z = G.list('measurements', z)
            noises = [G.array(n, lib.asarr(o.cov)) for n, o in (('system noise', s.system_noise),
                                                                ('measurement noise', s.measurement_noise))]
            p0 = Ref.moments(sa['m0'], sa['P0'])
            mod = 'Filters.KalmanFilter'
            prior = G.state('p', d, 'moment')

            def done(tag):
                G.check(tag)
                sees(c, tag + 'initial state of the system', s.init_state, p0)
                x = vec('probe', d)
                t, u = atom('t'), atom('u')
                c.eq(tag + 'transition of the system', c.call(s.transition, x, t=t, u=u), sa['f'].ref(x, t, u),
                     shape=False)
                c.eq(tag + 'measurement map of the system', c.call(s.measurement, x, t=t, u=u), sa['h'].ref(x, t, u),
                     shape=False)
            if which == 'Kalman':
                k = c.call(c.get(mod, 'KalmanFilterSmoother'), OpaqueTransform(c.it, 'TM', d, d), s,
                           OpaqueTransform(c.it, 'MM', d, m))
                res = c.call(k.kalman_filter, Z)
                done('filter: ')
                c.call(k.kalman_filter, Z, prior_state=prior)
                done('filter with a given prior: ')
                refs = [Ref(lib.asarr(g.precision).copy(), lib.asarr(g.shift).copy()) for g in res]
                L = G.list('filtered states', list(res))
                c.call(k.kalman_smoother, L)
                done('smoother: ')
                for i, (g, r) in enumerate(zip(L, refs)):
                    sees(c, 'smoother: filtered state %d' % i, g, r)
            else:
                k = c.call(c.get(mod, which), s, d)
                for i in range(2):
                    c.call(k, Z, num_iter=2)
                    done('call %d: ' % (i + 1))
        return f

    def chains(N, d, m):
        def f(c):
            G = Guard(c)
            B = 'ExpectationPropagation.Nodes'
            s = make_system(c, d, m, meas_uses=())
            tf, th = OpaqueTransform(c.it, 'TM', d, d), OpaqueTransform(c.it, 'MM', d, m)
            Q, R = G.array('transition noise', spd('Q', d)), G.array('measurement noise', spd('R', m))
            e = c.call(c.get('MomentMatching.Estimator', 'Estimator'), trans_map=tf, meas_map=th, trans_noise=Q,
                       meas_noise=R, power=atom('power', pos=True), damping=atom('damping', pos=True))
            Z = G.list('measurements', [vec('z%d' % i, m) for i in range(N)])
            nodes = c.call(c.get(B, 'build_nodes'), N, d, e, s, Z)
            G.check('building a chain: ')
            c.call(c.get(It, 'ep_fwd_back_updates'), nodes)
            G.check('one sweep: ')
            sees(c, 'initial state of the system', s.init_state, Ref.moments(s.sa['m0'], s.sa['P0']), cov=False)
            c.eq('noise of the system', s.system_noise.cov, s.sa['Q'])
            xs = G.list('truth', [vec('x%d' % i, d) for i in range(N)])
            c.call(c.get('Utils.Metrics', 'node_metrics'), nodes, xs)
            G.check('metrics: ')
            # measurements given twice to two chains
            n2 = c.call(c.get(B, 'build_nodes'), N, d, e, s, Z)
            c.call(c.get(It, 'kalman_filter'), n2)
            G.check('second chain over the same measurements: ')
        return f

    def benchmark(which, rows, own):
        """A benchmark system changes neither the settings it is built from nor the states it is used on."""
        def f(c):
            from .systems import systems
            G = Guard(c)
            kw = {}
            if own and which in ('constant velocity', 'turning target'):
                kw = dict(delta_t=atom('dt', pos=True), sens=[(atom('sx%d' % i), atom('sy%d' % i)) for i in range(2)])
            if own and which == 'turning target':
                kw['Q_sigma'] = G.list('process noise levels', [atom('q0', pos=True), atom('q1', pos=True)])
                kw['R_sigma'] = G.list('measurement noise levels', [atom('r', pos=True)])
            s, fr, hr, d, m = systems(c, which, dim=5, **kw)
            G.check('construction: ')
            if 'sens' in kw:
                # and from arrays in the place of lists
                kw = dict(kw)
                for k in ('Q_sigma', 'R_sigma'):
                    if k in kw:
                        kw[k] = G.array(k, lib.to_array(list(kw[k])))
                s = systems(c, which, dim=5, **kw)[0]
                G.check('construction from arrays: ')
            n = 3 if rows else 1
            X = G.array('states', mat('x', n, d) if rows else vec('x', d))
            t = G.array('time', lib.to_array([atom('t')])) if which == 'UNGM' and not rows else atom('t')
            Q, R = (lib.asarr(o.cov).copy() for o in (s.system_noise, s.measurement_noise))
            M0, C0 = (lib.asarr(o).copy() for o in (s.init_state.mean, s.init_state.cov))
            ops = [('transition', lambda: c.call(s.transition, X, t=t)),
                   ('measurement', lambda: c.call(s.measurement, X)),
                   ('measure', lambda: c.call(s.measure, X)),
                   ('noise', lambda: (c.call(s.system_noise.sample), c.call(s.measurement_noise.sample)))]
            if not rows:
                x0 = G.array('initial state', vec('start', d))
                ops += [('simulation', lambda: list(c.call(s.simulate, 2, x_zero=x0))),
                        ('simulation from the initial distribution', lambda: list(c.call(s.simulate, 2)))]
            for n, op in ops:
                r = op()
                G.check(n + ': ')
                if isinstance(r, np.ndarray) and n != 'noise':
                    c.true(n + ': the result is not the given array', not np.shares_memory(r, X), loc=write_loc(c, r))
            for n, a, b in (('system noise', s.system_noise.cov, Q), ('measurement noise', s.measurement_noise.cov, R),
                            ('initial mean', s.init_state.mean, M0), ('initial covariance', s.init_state.cov, C0)):
                c.eq(n + ' kept', a, b)
        return f

    def stored(c):
        """Storing leaves what is stored as it is."""
        G = Guard(c)
        db = Store(c.it)
        cur = lib.Conn('test.db').cursor()
        D = 'Utils.Database'
        c.call(c.get(D, 'create_dynamics_table'), cur, 'SIM')
        c.call(c.get(D, 'create_experiment_table'), cur, 'EXP')
        xs, ys = [vec('x%d' % i, 2) for i in range(3)], [vec('y%d' % i, 1) for i in range(3)]
        pairs = list(zip(xs, ys))
        G.list('states', xs), G.list('measurements', ys), G.list('data', pairs)
        c.call(c.get(D, 'insert_dynamics_data'), cur, 'SIM', pairs, 5)
        G.check('storing a simulation: ')
        e = c.call(c.get(D, 'Exp_Data'), Transform='TT', Seed=1, Iter=1, Power=F(1), Damping=F(1), RMSE=atom('rmse'),
                   NLL=atom('nll'), Mean=G.list('means', [vec('m%d' % i, 2) for i in range(2)]),
                   Variance=G.list('covariances', [spd('C%d' % i, 2) for i in range(2)]), Nodes=[])
        rec = c.call(e._asdict)
        rec.pop('Nodes', None)
        keep = list(rec.items())
        c.call(c.get(D, 'insert_experiment_data'), cur, 'EXP', rec)
        G.check('storing a record: ')
        now = list(rec.items())
        c.true('the record handed in keeps its entries', len(now) == len(keep) and all(
            k == l and (a is b or terms.is_num(a) and terms.same(a, b) or a == b) for (k, a), (l, b) in zip(now, keep)),
            [k for k, _ in now], [k for k, _ in keep])

    for which in ('UNGM', 'constant velocity', 'turning target', 'Lorenz 96'):
        for rows in (False, True):
            for own in (False, True):
                out.append(Scenario('%s system%s%s' % (which, ', own settings' if own else '',
                                                       ', several states at once' if rows else ''),
                                    benchmark(which, rows, own)))
    out.append(Scenario('storing', stored))
    for d in (1, 2, 3):
        for ma in MODES:
            for mb in MODES:
                for w in (False, True):
                    out.append(Scenario('algebra d=%d %s/%s%s' % (d, ma, mb, ' all parameters seen before' if w else ''),
                                        algebra(d, ma, mb, w), max_fault=1 if d == 2 else 0,
                                        max_paths=400))
            out.append(Scenario('results d=%d %s' % (d, ma), results(d, ma)))
        for what in ('covariance', 'precision'):
            out.append(Scenario('matrix with rounding asymmetry d=%d, %s' % (d, what), rough(d, 2, what), max_fault=1))
        for k in (0, 1, 2):
            out.append(Scenario('linear algebra n=%d, %d columns' % (d, k), helpers(d, k), max_fault=1))
    for N, d in ((1, 1), (3, 2), (2, 3)):
        out.append(Scenario('metrics N=%d d=%d' % (N, d), metrics(N, d)))
    for kind in ('unscented', 'Taylor', 'Monte Carlo'):
        for d, m in ((1, 1), (2, 1), (2, 3), (3, 2)):
            for mode in MODES:
                for w in (False, True):
                    out.append(Scenario('%s transform d=%d m=%d %s%s' % (kind, d, m, mode, ' seen before' if w else ''),
                                        transform(kind, d, m, mode, w)))
    for d, m in ((1, 1), (2, 1), (2, 3)):
        for mode in MODES:
            for w in (False, True):
                out.append(Scenario('projections d=%d m=%d %s%s' % (d, m, mode, ' seen before' if w else ''),
                                    projections(d, m, mode, w), **S))
    for which in ('Kalman', 'IEKF', 'IEKS'):
        for d, m in ((1, 1), (2, 1), (2, 3)):
            for zk in ('list', 'rows', 'array'):
                out.append(Scenario('%s filters d=%d m=%d measurements as %s' % (which, d, m, zk),
                                    filters(which, d, m, 2, zk)))
    for N, d, m in ((1, 1, 1), (2, 2, 1), (3, 1, 2)):
        out.append(Scenario('chain N=%d d=%d m=%d' % (N, d, m), chains(N, d, m), **S))
    return out


# ------------------------------------------------------------------ C26
def c26(tier):
    out = []
    ORDER = ('position', 'velocity', 'angle')

    def metrics(mod, name, N, how, mode):
        def f(c):
            fn_ = c.get(mod, name)
            gs = [gaussian(c, 'g%d' % i, 5, mode) for i in range(N)]
            rs = [natural_of(c, 'g%d' % i, 5, mode) for i in range(N)]
            xs = [vec('x%d' % i, 5) for i in range(N)]
            X = [x.reshape(1, -1) for x in xs] if how == 'rows' else [x.copy() for x in xs]
            if how == 'array':
                X = np.stack(xs)
            if how == 'array of rows':
                X = np.stack(xs).reshape(N, 1, 5)
            if name == 'node_metrics':
                wrong = gaussian(c, 'w', 5)
                arg = [types.SimpleNamespace(marginal=g, prior=wrong, forward_factor=wrong, back_factor=wrong,
                                             measurement_factor=wrong) for g in gs]
            else:
                arg = gs
            got = c.call(fn_, arg, X)
            if not c.true('six metrics', len(got) == 6, len(got), 6):
                return
            ref = componentwise([(r.mean, r.cov) for r in rs], xs)
            for i, q in enumerate(ORDER):
                c.eq('RMSE of the %s' % q, got[2 * i], ref[q][0], shape=False)
                c.eq('NLL of the %s' % q, got[2 * i + 1], ref[q][1], shape=False)
            for g, r in zip(gs, rs):
                sees(c, 'state afterwards', g, r)
        return f

    for N in (1, 2, 3):
        for mode in MODES:
            for how in ('rows', 'array of rows'):
                out.append(Scenario('EP marginals, N=%d %s, truth as %s' % (N, mode, how), metrics(
                    'Experiments.EP_Sweep_BearingsOnly', 'node_metrics', N, how, mode)))
            for how in ('vectors', 'array'):
                out.append(Scenario('smoothed states, N=%d %s, truth as %s' % (N, mode, how), metrics(
                    'Experiments.IEKS_Sweep_BearingsOnly', 'componentwise_metrics', N, how, mode)))
    for N in sizes.lengths(tier):
        out.append(Scenario('EP marginals, N=%d' % N, metrics(
            'Experiments.EP_Sweep_BearingsOnly', 'node_metrics', N, 'rows', 'moment')))
        out.append(Scenario('smoothed states, N=%d' % N, metrics(
            'Experiments.IEKS_Sweep_BearingsOnly', 'componentwise_metrics', N, 'vectors', 'moment')))
    return out


# ------------------------------------------------------------------ C27
def benchmark(c, which):
    if which == 'UNGM':
        return c.call(c.get('Systems', 'UniformNonlinearGrowthModel'))
    if which == 'constant velocity':
        return c.call(c.get('Systems', 'BearingsOnlyTracking'))
    if which == 'turning target':
        return c.call(c.get('Systems', 'BearingsOnlyTrackingTurn'))
    return make_system(c, 2, 1)


def flatten(data):
    out = []
    for x, y in data:
        out += list(lib.asarr(x).reshape(-1)) + list(lib.asarr(y).reshape(-1))
    return out


def seed(c, n):
    lib.r_seed(n)


def alike(a, b):
    return len(a) == len(b) and all(terms.same(x, y) for x, y in zip(a, b))


def c27(tier):
    out = []

    def simulation(which, N):
        def f(c):
            s = benchmark(c, which)
            seed(c, 101)
            a = flatten(c.call(s.simulate, N))
            seed(c, 7)
            other = flatten(c.call(s.simulate, N))
            seed(c, 101)
            b = flatten(c.call(s.simulate, N))
            c.true('the same seed gives the same simulation', alike(a, b), b[0], a[0])
            c.true('another seed gives another simulation', not any(terms.same(x, y) for x, y in zip(a, other)))
            c.call(s.simulate, 2)
            s2 = benchmark(c, which)
            seed(c, 101)
            d = flatten(c.call(s2.simulate, N))
            c.true('a second system of the kind simulates alike', alike(a, d), d[0], a[0])
            seed(c, 101)
            n0 = len(lib.Draws.log)
            e = flatten(c.call(s.simulate, N + 1))
            c.true('a longer simulation begins like the shorter one',
                   all(terms.same(x, y) for x, y in zip(e, a)), e[0], a[0])
            seeds = [l for l in lib.Draws.log[n0:] if l[0] == 'seed']
            c.true('simulating does not reseed the generator', not seeds, seeds, loc=seeds[0][2] if seeds else None)
        return f

    def simulation_from(which, given):
        """Simulations started from a given state and time."""
        def f(c):
            s = benchmark(c, which)
            d = int(s.system_dim)
            kw = {}
            if 'state' in given:
                kw['x_zero'] = vec('x0', d)
            if 'time' in given:
                kw['t_zero'] = atom('t0')
            seed(c, 101)
            n0 = len(lib.Draws.log)
            a = flatten(c.call(s.simulate, 2, **kw))
            b = flatten(c.call(s.simulate, 2, **kw))
            seeds = [l for l in lib.Draws.log[n0:] if l[0] == 'seed']
            c.true('simulating does not reseed the generator', not seeds, seeds, loc=seeds[0][2] if seeds else None)
            seed(c, 101)
            a2 = flatten(c.call(s.simulate, 2, **kw))
            b2 = flatten(c.call(s.simulate, 2, **kw))
            c.true('the same seed gives the same simulations', alike(a, a2) and alike(b, b2), a2[0], a[0])
            c.true('without reseeding another simulation follows', not any(terms.same(x, y) for x, y in zip(a, b)))
        return f

    def monte_carlo_runs(what, N, d, m):
        """EP, filters and smoothers with sampling: the seed fixes the result, on any instance."""
        def f(c):
            MC = c.get('MomentMatching', 'MonteCarloTransform')
            sysm = make_system(c, d, m, style='batch', uses=('t',), meas_uses=())
            z = [vec('z%d' % i, m) for i in range(N)]

            def run():
                T, T2 = c.call(MC, d, 3), c.call(MC, d, 3)
                k = c.call(c.get('Filters.KalmanFilter', 'KalmanFilterSmoother'), T, sysm, T2)
                gs = c.call(k.kalman_filter, [v.copy() for v in z])
                if what == 'smoother':
                    gs = list(gs) + list(c.call(k.kalman_smoother, gs))
                return [v for g in gs for v in lib.asarr(g.mean).reshape(-1)]
            seed(c, 11)
            a = run()
            n0 = len(lib.Draws.log)
            b = run()
            seeds = [l for l in lib.Draws.log[n0:] if l[0] == 'seed']
            c.true('running does not reseed the generator', not seeds, seeds, loc=seeds[0][2] if seeds else None)
            seed(c, 11)
            c.true('the same seed gives the same result', alike(a, run()))
            c.true('without reseeding other samples are drawn', not any(terms.same(x, y) for x, y in zip(a, b)))
        return f

    def noise(d):
        def f(c):
            n = c.call(c.get('Systems', 'GaussianNoise'), dimension=d, cov=spd('Q', d), mean=vec('q', d))
            G = gaussian(c, 'x', d)
            ops = [('noise', lambda: c.call(n.sample)), ('state', lambda: c.call(G.sample, 3))]
            ops += [('noise (%d)' % k, lambda k=k: c.call(n.sample, size=k)) for k in (1, 4)]
            ops += [('state (%d)' % k, lambda k=k: c.call(G.sample, k)) for k in (1, 40, 1500)]
            for name, op in ops:
                seed(c, 5)
                a = list(lib.asarr(op()).reshape(-1))
                b = list(lib.asarr(op()).reshape(-1))
                seed(c, 5)
                a2 = list(lib.asarr(op()).reshape(-1))
                b2 = list(lib.asarr(op()).reshape(-1))
                c.true('%s samples: same seed, same samples' % name, alike(a, a2) and alike(b, b2))
                c.true('%s samples: successive samples are fresh' % name,
                       not any(terms.same(x, y) for x, y in zip(a, b)))
        return f

    def monte_carlo(d, m):
        def f(c):
            MC = c.get('MomentMatching', 'MonteCarloTransform')
            T, T2 = c.call(MC, d, 3), c.call(MC, d, 3)
            g = gaussian(c, 'x', d)
            func = Opaque('f', d, m, 'batch', uses=())

            def go(T):
                return [v for r in c.call(T, func, g) for v in lib.asarr(r).reshape(-1)]
            seed(c, 1)
            a, b = go(T), go(T)
            seed(c, 1)
            a2 = go(T2)
            b2 = go(T)
            c.true('same seed, same estimate', alike(a, a2) and alike(b, b2))
            c.true('a second use draws afresh', not any(terms.same(x, y) for x, y in zip(a, b)))
        return f

    def deterministic(what, N, d, m):
        """EP, filters and smoothers with deterministic transforms: no draws, and no memory of other runs."""
        def f(c):
            def run():
                if what == 'EP':
                    s = Chain(c, N, d, m)
                    c.call(c.get(It, 'ep_fwd_back_updates'), s.nodes)
                    c.call(c.get(It, 'ep_update'), s.nodes)
                    gs = [n.marginal for n in s.nodes]
                else:
                    s = make_system(c, d, m, style='batch')
                    z = [vec('z%d' % i, m) for i in range(N)]
                    mod = 'Filters.KalmanFilter'
                    if what == 'Kalman':
                        k = c.call(c.get(mod, 'KalmanFilterSmoother'), OpaqueTransform(c.it, 'TM', d, d), s,
                                   OpaqueTransform(c.it, 'MM', d, m))
                        gs = c.call(k.kalman_filter, z)
                        gs = list(gs) + list(c.call(k.kalman_smoother, gs))
                    else:
                        gs = c.call(c.call(c.get(mod, what), s, d), z, num_iter=2)
                return [v for g in gs for q in (g.mean, g.cov) for v in lib.asarr(q).reshape(-1)]
            n0 = len(lib.Draws.log)
            a = run()
            b = run()
            c.true('the same inputs give the same result', alike(a, b))
            used = lib.Draws.log[n0:]
            c.true('no random numbers are used', not used, used[:1], loc=used[0][2] if used else None)
        return f

    def transforms(d, m):
        def f(c):
            g = gaussian(c, 'x', d)
            func = Opaque('f', d, m, 'batch', uses=())
            for name, args in (('UnscentedTransform', (d, 1, 2, 1)), ('TaylorTransform', (d,))):
                n0 = len(lib.Draws.log)
                T = c.call(c.get('MomentMatching', name), *args)
                r = [[v for q in c.call(T, func, g) for v in lib.asarr(q).reshape(-1)] for i in range(2)]
                # other work in between
                c.call(T, Opaque('k', d, m, 'batch', uses=()), gaussian(c, 'y', d))
                r.append([v for q in c.call(T, func, g) for v in lib.asarr(q).reshape(-1)])
                c.true('%s: same state, same result' % name, alike(r[0], r[1]) and alike(r[0], r[2]))
                c.true('%s uses no random numbers' % name, len(lib.Draws.log) == n0)
        return f

    for w in ('UNGM', 'constant velocity', 'turning target', 'user-defined'):
        for N in (1, 2):
            out.append(Scenario('simulation of %s, %d steps' % (w, N), simulation(w, N)))
        for given in (('state',), ('time',), ('state', 'time')):
            out.append(Scenario('simulation of %s from a given %s' % (w, ' and '.join(given)), simulation_from(w, given)))
    for what in ('filter', 'smoother'):
        for d, m in ((1, 1), (2, 1)):
            out.append(Scenario('%s with sampling d=%d m=%d' % (what, d, m), monte_carlo_runs(what, 1, d, m)))
    for d in (1, 2):
        out.append(Scenario('samples d=%d' % d, noise(d)))
    for N in sizes.lengths(tier):
        for w in ('UNGM', 'constant velocity', 'turning target', 'user-defined'):
            out.append(Scenario('simulation of %s, %d steps' % (w, N), simulation(w, N)))
        for what in ('EP', 'Kalman', 'IEKF', 'IEKS'):
            out.append(Scenario('%s N=%d' % (what, N), deterministic(what, N, 1, 1)))
    for d in sizes.dims(tier):
        out.append(Scenario('samples d=%d' % d, noise(d)))
        out.append(Scenario('Monte Carlo transform d=%d m=2' % d, monte_carlo(d, 2)))
        out.append(Scenario('deterministic transforms d=%d m=2' % d, transforms(d, 2)))
    for d, m in ((1, 1), (2, 1), (2, 3)):
        out.append(Scenario('Monte Carlo transform d=%d m=%d' % (d, m), monte_carlo(d, m)))
        out.append(Scenario('deterministic transforms d=%d m=%d' % (d, m), transforms(d, m)))
    for what in ('EP', 'Kalman', 'IEKF', 'IEKS'):
        for d, m in ((1, 1), (2, 1)):
            out.append(Scenario('%s d=%d m=%d' % (what, d, m), deterministic(what, 2, d, m)))
    return out
