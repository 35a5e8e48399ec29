"""C32: the stand-alone experiment scripts (iterated smoother baselines, Lorenz sweep)."""
import inspect

import numpy as np

from sa import lib, terms
from sa.harness import Scenario
from sa.terms import ST, F, atom, fn, sqrt
from sa.model import vec, zeros
from .gaussian import ref_nll, ref_se, mean_of
from .db import find, PARTS, componentwise
from .store import Store

SEEDS = (101, 201, 301, 401, 501, 601, 701, 801, 901, 1001)
DISPLAYED = {'IEKS_Sweep_UNGM': ('../log/IEKS_ungm.db', 'UNGM_EXP'),
             'IEKS_Sweep_BearingsOnly': ('../log/IEKS_bott.db', 'BOTT_EXP'),
             'IEKS_Sweep_L96': ('../log/IEKS_L96.db', 'L96_EXP')}


class Crash(Exception):
    """The process ends here."""


def params(*names, **defaults):
    P = inspect.Parameter
    return inspect.Signature([P(n, P.POSITIONAL_OR_KEYWORD) for n in names] +
                             [P(n, P.POSITIONAL_OR_KEYWORD, default=v) for n, v in defaults.items()])


def bind(sig, a, k):
    b = sig.bind(*a, **k)
    b.apply_defaults()
    return b.arguments


class Noise:
    def __init__(self, name, d):
        self.cov = zeros(d, d)
        for i in range(d):
            self.cov[i, i] = atom('%s%d' % (name, i), pos=True)
        self.mean = zeros(d)


class World:
    """The library as the scripts see it: systems, smoothers and nodes are recorded, not computed."""

    def __init__(self, c, crash=None):
        self.c = c
        self.crash = crash
        self.systems, self.sims, self.smooths, self.tables = [], [], [], {}
        self.initial = {}       # stored initial conditions: path -> dimension
        self.store = Store(c.it)
        self.files = {}
        ST.hooks['sql'] = self.route

    # one store per database file
    def route(self, conn, text, params_):
        f = str(conn.db)
        if f not in self.files:
            self.files[f] = Store(self.c.it)
        r = self.files[f].apply(conn, text, params_)
        ST.hooks['sql'] = self.route
        return r

    def patch(self, mod, name, new):
        """Replace the public name, wherever it is exported."""
        old = self.c.get(mod, name)
        for m in list(self.c.it.modules.values()):
            for k, v in list(vars(m).items()):
                if v is old:
                    setattr(m, k, new)

    def value(self, seed, what, i, j):
        return fn('draw', F(seed) if isinstance(seed, int) else seed, F(i), F(j), F({'x': 0, 'y': 1}[what]))

    def data(self, seed, N, d, m):
        out = []
        for i in range(N):
            x = lib.to_array([self.value(seed, 'x', i, j) for j in range(d)])
            y = lib.to_array([self.value(seed, 'y', i, j) for j in range(m)])
            out.append((x if d == 1 else x.reshape(1, d), y if d == 1 else y.reshape(1, m)))
        return out

    def system(self, name, dim, m, by_dim=False):
        w = self

        class System:
            def __init__(self, *a, **k):
                if by_dim:
                    b = bind(params(Q_sigma=None, R_sigma=None, delta_t=None, dim=40, F=8, init_cond_path=None), a, k)
                    self.system_dim = self.measurement_dim = int(b['dim'])
                    self.args = b
                    # a missing file of initial conditions is generated, one of another dimension is refused
                    own = '../log/L96_initial_condition_F_%s_dim_%s.npy' % (lib.fmt_value(b['F']), self.system_dim)
                    if b['init_cond_path'] is not None and str(b['init_cond_path']) in w.initial:
                        if w.initial[str(b['init_cond_path'])] != self.system_dim:
                            raise AssertionError('Dimension of initial condition does not match the specified dimension')
                    else:
                        w.initial[own] = self.system_dim
                else:
                    self.system_dim, self.measurement_dim = dim, m
                    self.args = dict(a=a, **k)
                    if a or k:
                        w.c.fail('the benchmark is run with its standard settings', (a, k))
                if w.crash is not None and w.crash[0] == 'system' and len(w.systems) >= w.crash[1]:
                    raise Crash()
                w.systems.append(self)
                n = len(w.systems)
                self.transition_noise = self.system_noise = Noise('Q%d_' % n, self.system_dim)
                self.measurement_noise = Noise('R%d_' % n, self.measurement_dim)

            def simulate(self, *a, **k):
                b = bind(params('N', x_zero=None, t_zero=0), a, k)
                N = int(b['N'])
                if b['x_zero'] is not None:
                    w.c.fail('the simulation starts at the initial distribution', b['x_zero'])
                seed, first = lib.Draws.seeded, lib.Draws.pos.get('global', 0)
                lib.r_std()
                # after the first simulation the generator has moved on
                if first != 0:
                    seed = fn('moved on', seed if terms.is_num(seed) else F(0), F(first))
                elif seed is None:
                    seed = atom('unseeded%d' % len(w.sims))
                w.sims.append(dict(system=self, N=N, seed=seed))
                return list(w.data(seed, N, self.system_dim, self.measurement_dim))
        System.__name__ = name
        return System


def flat(v):
    return [x for x in lib.asarr(v).reshape(-1)]


# ------------------------------------------------------------------ smoother baselines
class Baseline(World):
    """One of the IEKS scripts, on an uninterpreted iterated smoother."""

    def __init__(self, c, mod, crash=None):
        super().__init__(c, crash)
        self.mod = mod
        c.get('Systems')
        c.get('Filters.KalmanFilter')
        w = self
        if mod == 'IEKS_Sweep_UNGM':
            self.patch('Systems', 'UniformNonlinearGrowthModel', self.system('UniformNonlinearGrowthModel', 1, 1))
        elif mod == 'IEKS_Sweep_BearingsOnly':
            self.patch('Systems', 'BearingsOnlyTrackingTurn', self.system('BearingsOnlyTrackingTurn', 5, 4))
        else:
            self.patch('Systems', 'L96', self.system('L96', None, None, by_dim=True))

        class Smoother:
            def __init__(self, *a, **k):
                b = bind(params('system_model', 'sys_dim'), a, k)
                self.system, self.dim = b['system_model'], b['sys_dim']

            def __call__(self, *a, **k):
                b = bind(params('measurements', num_iter=5), a, k)
                if w.crash is not None and w.crash[0] == 'smoother' and len(w.smooths) >= w.crash[1]:
                    raise Crash()
                ys = [flat(y) for y in b['measurements']]
                w.smooths.append(dict(system=self.system, dim=self.dim, ys=ys, num_iter=b['num_iter']))
                if self.dim != self.system.system_dim:
                    w.c.fail('the smoother is built for the dimension of its system', self.dim, self.system.system_dim)
                return w.smoothed(ys, b['num_iter'], self.system.system_dim)
        self.patch('Filters.KalmanFilter', 'IEKS', Smoother)

    def smoothed(self, ys, num_iter, d):
        G = self.c.get('StateModel', 'Gaussian')
        # any list of states which is a function of the measurements, their number and the number of iterations
        key = fn('smoothing', F(int(num_iter)), F(len(ys)), *[y for v in ys for y in v])
        out = []
        for i in range(len(ys)):
            k = fn('smoothed', key, F(i))
            m = lib.to_array([fn('sm%d' % j, k) for j in range(d)])
            C = zeros(d, d)
            for j in range(d):
                C[j, j] = fn('sv%d' % j, k, pos=True)
            if d == 5:
                # position and velocity are correlated
                for a, b in ((0, 2), (1, 3)):
                    C[a, b] = C[b, a] = fn('sc%d%d' % (a, b), k)
                lib.assume_pd(C)
                for idx in PARTS.values():
                    lib.assume_pd(C[np.ix_(idx, idx)])
            lib.assume_pd(C)
            out.append(self.c.call(G, m, C))
        return out

    def run(self):
        try:
            self.c.it.load('Experiments.' + self.mod, as_main=True)
        except Crash:
            return False
        finally:
            self.c.it.modules.pop('Experiments.%s:main' % self.mod, None)
        return True

    def keys(self, sim):
        k = dict(Seed=sim['seed'])
        if self.mod == 'IEKS_Sweep_L96':
            k['dim'] = sim['system'].system_dim
        return k

    def db(self):
        f, t = DISPLAYED[self.mod]
        return self.files.get(f)

    def kept(self):
        s = self.db()
        return s.kept(DISPLAYED[self.mod][1]) if s else []

    def expected(self, sim, num_iter):
        d, m = sim['system'].system_dim, sim['system'].measurement_dim
        data = self.data(sim['seed'], sim['N'], d, m)
        xs = [lib.asarr(x).reshape(-1) for x, y in data]
        st = self.smoothed([flat(y) for x, y in data], num_iter, d)
        ms = [(lib.asarr(s.mean).reshape(-1), lib.asarr(s.cov)) for s in st]
        if self.mod == 'IEKS_Sweep_BearingsOnly':
            return componentwise(ms, xs)
        return {None: (sqrt(mean_of([ref_se(a, x) for (a, C), x in zip(ms, xs)])),
                       mean_of([ref_nll(a, C, x) for (a, C), x in zip(ms, xs)]))}


def todo(mod):
    dims = (5, 10, 20) if mod == 'IEKS_Sweep_L96' else (None,)
    return [dict(Seed=s, **({'dim': d} if d else {})) for d in dims for s in SEEDS]


def quantities(mod):
    return tuple(PARTS) if mod == 'IEKS_Sweep_BearingsOnly' else (None,)


def baseline(mod, deep):
    def f(c):
        w = Baseline(c, mod)
        c.true('the script ends normally', w.run())
        want = todo(mod)
        rows = w.kept()
        n = len(want) * len(quantities(mod))
        c.true('one committed record per configuration, where the results are read', len(rows) == n, len(rows), n)
        seeds = [s['seed'] for s in w.sims]
        for i, k in enumerate(want):
            name = ', '.join('%s %s' % kv for kv in sorted(k.items()))
            sims = [s for s in w.sims if all(terms.same(v, k[q]) for q, v in w.keys(s).items())]
            if not c.true(name + ': simulated once, right after seeding', len(sims) == 1, len(sims), 1):
                continue
            sm = [x for x in w.smooths if x['system'] is sims[0]['system'] and terms.same(x['ys'][0][0], flat(
                w.data(sims[0]['seed'], 1, sims[0]['system'].system_dim, sims[0]['system'].measurement_dim)[0][1])[0])]
            if not c.true(name + ': smoothed once', len(sm) == 1, len(sm), 1):
                continue
            it = sm[0]['num_iter']
            mine = find(rows, **k)
            if not c.true(name + ': recorded', len(mine) == len(quantities(mod)), len(mine), len(quantities(mod))):
                continue
            if not deep and i not in (0, 1, len(want) - 1):
                continue
            ref = w.expected(sims[0], it)
            for q in quantities(mod):
                r = find(mine, **({'Quantity': q} if q else {}))
                if c.true('%s: a record%s' % (name, ' of the ' + q if q else ''), len(r) == 1):
                    c.true(name + ': under the number of iterations run', terms.same(r[0]['iter'], it), r[0]['iter'], it)
                    c.eq('%s: RMSE %s' % (name, q or ''), r[0]['rmse'], ref[q][0], shape=False)
                    c.eq('%s: NLL %s' % (name, q or ''), r[0]['nll'], ref[q][1], shape=False)
    return f


def interrupted(mod, after):
    """A crash keeps what is complete; running the script again completes it and keeps it."""
    def f(c):
        w = Baseline(c, mod, crash=('smoother', after))
        w.run()
        want = todo(mod)
        Q = quantities(mod)
        for s in w.files.values():
            s.apply(None, 'ROLLBACK', ())
        rows = w.kept()
        for i, k in enumerate(want[:after]):
            c.true('the crash keeps %s' % sorted(k.items()), len(find(rows, **k)) == len(Q), len(find(rows, **k)), len(Q))
        c.true('and nothing else', len(rows) == after * len(Q), len(rows), after * len(Q))
        w.crash = None
        first = [dict(r) for r in rows]
        ST.hooks['sql'] = w.route
        c.true('running again ends normally', w.run())
        rows = w.kept()
        c.true('running again completes the records', len(rows) == len(want) * len(Q), len(rows), len(want) * len(Q))
        for r in first:
            k = {a: r[a] for a in ('seed', 'dim', 'quantity', 'iter') if a in r}
            g = find(rows, **k)
            if c.true('kept %s' % sorted((a, str(b)) for a, b in k.items()), len(g) == 1, len(g), 1):
                c.eq('with its RMSE', g[0]['rmse'], r['rmse'])
    return f


# ------------------------------------------------------------------ Lorenz EP sweep
class Marg:
    """The marginal of a node after some history of updates."""

    def __init__(self, key, d):
        self.key = key
        self.mean = lib.to_array([fn('mm%d' % j, key) for j in range(d)])
        self.cov = zeros(d, d)
        for j in range(d):
            self.cov[j, j] = fn('mv%d' % j, key, pos=True)
        self.d = d

    def at(self, what, val):
        v = flat(val)
        if len(v) != self.d:
            raise ValueError('operands could not be broadcast together')
        return fn(what, self.key, *v)

    def nll(self, val):
        return self.at('nll', val)

    def squared_error(self, val):
        return self.at('se', val)


class Lorenz(World):
    def __init__(self, c, crash):
        super().__init__(c, crash)
        w = self
        for m in ('Systems', 'MomentMatching', 'MomentMatching.Estimator', 'ExpectationPropagation.Nodes', 'Utils.Metrics'):
            c.get(m)
        self.patch('Systems', 'L96', self.system('L96', None, None, by_dim=True))
        self.runs = []

        class Estim:
            def __init__(self, *a, **k):
                b = bind(params('trans_map', meas_map=None, trans_noise=None, meas_noise=None, power=1, damping=1), a, k)
                self.b = b
        Estim.__name__ = 'Estimator'
        self.patch('MomentMatching.Estimator', 'Estimator', Estim)

        class MCT:
            def __init__(self, *a, **k):
                b = bind(params('dim', number_of_samples=1000), a, k)
                self.dim = int(b['dim'])
                self.samples = b['number_of_samples']
        MCT.__name__ = 'MonteCarloTransform'
        self.patch('MomentMatching', 'MonteCarloTransform', MCT)

        class Node:
            def __init__(self, run, i):
                self.run, self.i, self.version, self.t = run, i, 0, i
                self._m = None

            def note(self, what):
                self.run['events'].append((what, self.i))
                self.version += 1
                self._m = None

            def fwd_update(self):
                self.note('fwd')

            def meas_update(self):
                self.note('meas')

            def back_update(self):
                self.note('back')

            @property
            def marginal(self):
                if self._m is None:
                    self._m = Marg(fn('marg', F(self.run['id']), F(self.i), F(self.version)), self.run['dim'])
                return self._m

        def build_nodes(*a, **k):
            b = bind(params('N', dim=1, estimator=None, system=None, measurements=None), a, k)
            run = dict(id=len(w.runs), N=int(b['N']), dim=int(b['dim']), estimator=b['estimator'], system=b['system'],
                       ys=None, events=[], sim=len(w.sims))
            if b['measurements'] is not None:
                run['ys'] = [flat(y) for y in b['measurements']]
            w.runs.append(run)
            run['nodes'] = [Node(run, i) for i in range(run['N'])]
            return list(run['nodes'])

        def node_estimator(*a, **k):
            b = bind(params('nodes', 'estimator'), a, k)
            b['nodes'][0].run['estimator'] = b['estimator']
            return b['nodes']

        def node_system(*a, **k):
            b = bind(params('nodes', 'system_model', measurements=None), a, k)
            run = b['nodes'][0].run
            run['system'] = b['system_model']
            if b['measurements'] is not None:
                run['ys'] = [flat(y) for y in b['measurements']]
            return b['nodes']
        self.patch('ExpectationPropagation.Nodes', 'build_nodes', build_nodes)
        self.patch('ExpectationPropagation.Nodes', 'node_estimator', node_estimator)
        self.patch('ExpectationPropagation.Nodes', 'node_system', node_system)

    def run(self):
        try:
            self.c.it.load('Experiments.EP_Sweep_L96')
        except Crash:
            return False
        return True


def lorenz(count):
    """The first `count` simulations of the sweep, after which the process ends."""
    def f(c):
        w = Lorenz(c, ('system', count))
        w.run()
        st = w.files.get('../log/L96_dim_experiment_3.db')
        if not c.true('results are stored where they are read', st is not None, sorted(w.files)):
            return
        rows = st.kept('L96_EXP')
        c.true('simulations before the end', len(w.sims) == count, len(w.sims), count)
        seen = 0
        for i, sim in enumerate(w.sims):
            d = sim['system'].system_dim
            k = dict(Seed=SEEDS[i % 10], dim=(5, 10, 20, 40, 100, 200)[i // 10])
            name = 'seed %d, dim %d' % (k['Seed'], k['dim'])
            c.true(name + ': simulated right after seeding', terms.same(sim['seed'], k['Seed']), sim['seed'], k['Seed'])
            c.true(name + ': dimension', d == k['dim'], d, k['dim'])
            data = w.data(sim['seed'], sim['N'], d, d)
            xs = [lib.asarr(x).reshape(-1) for x, y in data]
            runs = [r for r in w.runs if r['sim'] == i + 1]
            mine = find(rows, **k)
            pairs = set()
            for r in runs:
                if not c.true(name + ': the nodes have an estimator and the system', r['estimator'] is not None and
                              r['system'] is sim['system']):
                    return
                b = r['estimator'].b
                p, g = b['power'], b['damping']
                pairs.add((p, g))
                label = '%s, power %s: ' % (name, p)
                c.true(label + 'one node per step', r['N'] == sim['N'], r['N'], sim['N'])
                c.true(label + 'nodes of the dimension of the system', r['dim'] == d, r['dim'], d)
                c.true(label + 'measurements of the simulation, in order', r['ys'] is not None and len(r['ys']) == len(data)
                       and all(terms.same(a, q) for ys, (x, y) in zip(r['ys'], data) for a, q in zip(ys, flat(y))))
                c.eq(label + 'transition noise', b['trans_noise'], sim['system'].transition_noise.cov)
                c.eq(label + 'measurement noise', b['meas_noise'], sim['system'].measurement_noise.cov)
                for t in ('trans_map', 'meas_map'):
                    c.true(label + 'transform %s of the dimension of the system' % t, getattr(b[t], 'dim', None) == d,
                           getattr(b[t], 'dim', None), d)
                one = [(w_, j) for j in range(r['N']) for w_ in ('fwd', 'meas')] + \
                      [('back', j) for j in reversed(range(r['N']))]
                if not c.true(label + 'whole forward-backward sweeps', r['events'] == one * (len(r['events']) // len(one)),
                              r['events'][:8], one[:8]):
                    return
                K = len(r['events']) // len(one)
                got = find(mine, Power=p, Damping=g)
                c.true(label + 'one record per sweep', len(got) == K, len(got), K)
                for q in range(K):
                    g_ = find(got, Iter=q)
                    if not c.true(label + 'a record of sweep %d' % q, len(g_) == 1, len(g_), 1):
                        continue
                    ms = [Marg(fn('marg', F(r['id']), F(j), F(3 * (q + 1))), d) for j in range(r['N'])]
                    c.true(label + 'transform of sweep %d' % q, g_[0]['transform'] == 'MCT', g_[0]['transform'], 'MCT')
                    c.eq(label + 'RMSE of sweep %d' % q, g_[0]['rmse'],
                         sqrt(mean_of([m.squared_error(x) for m, x in zip(ms, xs)])), shape=False)
                    c.eq(label + 'NLL of sweep %d' % q, g_[0]['nll'], mean_of([m.nll(x) for m, x in zip(ms, xs)]),
                         shape=False)
                seen += K
            c.true(name + ': every power, once', len(pairs) == len(runs) == 3, len(runs), 3)
            c.true(name + ': powers', set(p for p, g in pairs) == {F(1), F(4, 5), F(1, 10)}, [str(p) for p, g in pairs])
        c.true('nothing else is recorded', len(rows) == seen, len(rows), seen)
    return f


def c32(tier):
    out = []
    for mod in ('IEKS_Sweep_UNGM', 'IEKS_Sweep_BearingsOnly', 'IEKS_Sweep_L96'):
        out.append(Scenario('%s: every configuration' % mod, baseline(mod, tier == 'thorough')))
        for n in (0, 1, 3):
            out.append(Scenario('%s: interrupted after %d' % (mod, n), interrupted(mod, n)))
    out.append(Scenario('Lorenz sweep: first two simulations', lorenz(2)))
    if tier == 'thorough':
        out.append(Scenario('Lorenz sweep: first twelve simulations', lorenz(12)))
    return out
