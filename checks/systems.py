"""C20-C22: noise and simulation, benchmark systems."""
import numpy as np

from sa import lib, terms
from sa.harness import Scenario
from sa.terms import F, ST, atom, add, sub, mul, div, sin, cos, arctan2
from sa.model import (vec, mat, spd, inv, zeros, scale, Ref, gaussian, natural_of, snapshot, unchanged, Opaque, relatives,
                      twist, make_system, draw_moments, NotGaussian, sources)
from .gaussian import sees
from . import sizes

DIMS = ((2, 3), (2, 1), (1, 1), (1, 2))


def block(C, n):
    d = C.shape[0]
    out = zeros(n * d, n * d)
    for i in range(n):
        out[i * d:(i + 1) * d, i * d:(i + 1) * d] = C
    return out


# ------------------------------------------------------------------ C20
CLIENT = '''
from Systems import GaussianNoise
from Systems.DynamicSystem import DynamicSystem

class Own(DynamicSystem):
    def __init__(self, f, h, system_noise, measurement_noise, init_state, dt):
        self._f, self._h = f, h
        self.system_noise = system_noise
        self.measurement_noise = measurement_noise
        self.init_state = init_state
        self.dt = dt

    def transition(self, x, u=None, t=None, *args, **kwargs):
        return self._f(x, t=t, u=u)

    def measure(self, x, *args, **kwargs):
        return self._h(x)
'''


def residuals(c, label, xs, x0, zs, s, t0, zero_noise_mean=None):
    """x_i - f(x_{i-1}, t_i) and y_i - h(x_i)."""
    sa = s.sa
    prev = x0
    e, r = [], []
    for i, (x, y) in enumerate(zip(xs, zs)):
        t = add(t0, mul(i, sa['dt']))
        X, Y = lib.asarr(x).reshape(-1), lib.asarr(y).reshape(-1)
        if X.size != sa['d'] or Y.size != sa['m']:
            c.fail(label + 'size of step %d' % i, (X.shape, Y.shape), (sa['d'], sa['m']))
            return None
        e += list(X - sa['f'].ref(prev, t, None))
        r += list(Y - sa['h'].ref(X, None, None))
        prev = X
    return e, r


def sim_check(c, s, data, N, x0, t0, mq=None, mr=None, label=''):
    sa = s.sa
    d, m = sa['d'], sa['m']
    data = list(data)
    if not c.true(label + 'one pair per step', len(data) == N and all(len(p) == 2 for p in data), len(data), N):
        return
    xs, ys = [p[0] for p in data], [p[1] for p in data]
    er = residuals(c, label, xs, x0, ys, s, t0)
    if er is None:
        return
    mq = zeros(d) if mq is None else mq
    mr = zeros(m) if mr is None else mr
    try:
        mu, C = draw_moments(er[0] + er[1])
    except NotGaussian as e:
        c.fail(label + 'each state is the transition of the one before plus noise, each measurement that of its state',
               str(e))
        return
    c.eq(label + 'mean of the noises', mu, np.concatenate([mq] * N + [mr] * N))
    want = zeros(N * (d + m), N * (d + m))
    want[:N * d, :N * d] = block(sa['Q'], N)
    want[N * d:, N * d:] = block(sa['R'], N)
    c.eq(label + 'noises have the covariances of the system and are independent', C, want)
    src = sources(er[0] + er[1])
    c.true(label + 'noises come from the global generator', src == {'global'}, src)


def c20(tier):
    out = []

    def simulate(d, m, N, style, opts):
        def f(c):
            s = make_system(c, d, m, style=style, meas_uses=())
            sa = s.sa
            kw = {}
            t0 = F(0)
            if 't' in opts:
                t0 = kw['t_zero'] = atom('t0')
            if 'x' in opts:
                x0 = vec('x0', d)
                kw['x_zero'] = x0.copy()
                sx = snapshot(kw['x_zero'])
            data = c.call(s.simulate, N, **kw)
            if 'x' not in opts:
                # the initial state is the argument of the first evaluation of the transition
                x0 = sa['f'].calls[0][0].reshape(-1)
                try:
                    mu, C = draw_moments(list(x0))
                except NotGaussian as e:
                    c.fail('initial state is drawn from the initial distribution', str(e))
                    return
                c.eq('initial state has the mean of the initial distribution', mu, sa['m0'])
                c.eq('initial state has the covariance of the initial distribution', C, sa['P0'])
                c.true('initial state comes from the global generator', sources(x0) == {'global'})
                first = list(data)[0][0]
                both, V = draw_moments(list(x0) + list(lib.asarr(first).reshape(-1) -
                                                        sa['f'].ref(x0, t0, None)))
                c.eq('process noise is independent of the initial state', V[:d, d:], zeros(d, d))
            else:
                c.true('given initial state kept', unchanged(sx))
            sim_check(c, s, data, N, x0, t0)
            c.eq('system noise kept', s.system_noise.cov, sa['Q'])
            c.eq('measurement noise kept', s.measurement_noise.cov, sa['R'])
        return f

    class Identity(Opaque):
        """A map which returns its argument itself (a random walk observed directly)."""

        def comp(self, i, row, extra):
            return row[i]

        def __call__(self, x, t=None, u=None):
            super().__call__(x, t, u)
            return x

    def aliasing(which, N, opts):
        def f(c):
            d = 2
            s = make_system(c, d, d, meas_uses=())
            for k in which:
                o = Identity(k, d, d, 'flat', ())
                s.sa[k] = o
                setattr(s, 'transition' if k == 'f' else 'measurement', o)
            x0 = vec('x0', d)
            kw = dict(x_zero=x0.copy())
            sx = snapshot(kw['x_zero'])
            data = list(c.call(s.simulate, N, **kw))
            sim_check(c, s, data, N, x0, F(0))
            c.true('given initial state kept', unchanged(sx))
            arrs = [a for p in data for a in p if isinstance(a, np.ndarray)] + [kw['x_zero']]
            c.true('simulated states and measurements share no storage',
                   not any(np.shares_memory(a, b) for i, a in enumerate(arrs) for b in arrs[:i]))
        return f

    def own(N, opts):
        def f(c):
            M = c.it.client('own_system', CLIENT)
            s0 = make_system(c, 2, 1, meas_uses=())
            sa = s0.sa
            s = c.call(M.Own, sa['f'], sa['h'], s0.system_noise, s0.measurement_noise, sa['init'], sa['dt'])
            s.sa = sa
            kw, t0 = {}, F(0)
            if 't' in opts:
                t0 = kw['t_zero'] = atom('t0')
            x0 = vec('x0', 2)
            data = c.call(s.simulate, N, x_zero=x0.copy(), **kw)
            sim_check(c, s, data, N, x0, t0)
        return f

    def noise(d, given, size):
        def f(c):
            GN = c.get('Systems', 'GaussianNoise')
            Q, mu = spd('Q', d), vec('mu', d)
            kw = {}
            if 'cov' in given:
                kw['cov'] = Q.copy()
            if 'mean' in given:
                kw['mean'] = mu.copy()
            n = c.call(GN, dimension=d, **kw)
            want = Q if 'cov' in given else lib.eye(d)
            wm = mu if 'mean' in given else zeros(d)
            c.eq('covariance', n.cov, want)
            c.eq('mean', lib.asarr(n.mean).reshape(-1), wm)
            c.true('dimension', n.dimension == d, n.dimension, d)
            x = lib.asarr(c.call(n.sample) if size is None else c.call(n.sample, size))
            y = lib.asarr(c.call(n.sample) if size is None else c.call(n.sample, size=size))
            k = 1 if size is None else size
            if not c.true('shape of a sample', x.size == k * d, x.shape):
                return
            try:
                m, C = draw_moments(list(x.flat) + list(y.flat))
            except NotGaussian as e:
                c.fail('samples are Gaussian', str(e))
                return
            c.eq('mean of samples', m, np.concatenate([wm] * (2 * k)))
            c.eq('samples are independent with the covariance of the noise', C, block(want, 2 * k))
            c.true('drawn from the global generator', sources(x.flat) == {'global'})
            c.eq('covariance kept', n.cov, want)
        return f

    def related(d, keep):
        """Noises whose mean, variances or trace agree, sampled in turn."""
        def f(c):
            GN = c.get('Systems', 'GaussianNoise')
            held = []
            for label, g, r in relatives(c, d):
                n = c.call(GN, dimension=d, cov=r.cov.copy(), mean=r.mean.copy())
                if keep:
                    held.append((n, r))
                for x, k in ((c.call(n.sample), 1), (c.call(n.sample, size=2), 2)):
                    try:
                        mu, C = draw_moments(list(lib.asarr(x).flat))
                    except NotGaussian as e:
                        c.fail(label + ': samples are Gaussian', str(e))
                        return
                    c.eq(label + ': mean of samples', mu, np.concatenate([r.mean] * k))
                    c.eq(label + ': covariance of samples', C, block(r.cov, k))
            for k, (n, r) in enumerate(held):
                mu, C = draw_moments(list(lib.asarr(c.call(n.sample)).flat))
                c.eq('noise %d again: mean' % k, mu, r.mean)
                c.eq('noise %d again: covariance' % k, C, r.cov)
        return f

    def related_systems(c):
        """Systems whose noises have the same variances, simulated in turn."""
        GN, DSM = c.get('Systems', 'GaussianNoise'), c.get('Systems', 'DynamicSystemModel')
        d = m = 2
        s0 = make_system(c, d, m, meas_uses=())
        sa = s0.sa
        x0 = vec('x0', d)
        for k, (Q, R) in enumerate(((sa['Q'], sa['R']), (twist(sa['Q']), sa['R']), (sa['Q'], twist(sa['R'])), (sa['R'], sa['Q']),
                                    (sa['Q'], sa['R']))):
            s = c.call(DSM, system_dim=d, measurement_dim=m, transition=sa['f'], measurement=sa['h'],
                       system_noise=c.call(GN, dimension=d, cov=Q.copy()),
                       measurement_noise=c.call(GN, dimension=m, cov=R.copy()), init_distribution=sa['init'], dt=sa['dt'])
            s.sa = dict(sa, Q=Q, R=R)
            sim_check(c, s, c.call(s.simulate, 2, x_zero=x0.copy()), 2, x0, F(0), label='system %d: ' % (k + 1))

    def noisy_mean(N):
        def f(c):
            d, m = 2, 1
            s0 = make_system(c, d, m, meas_uses=())
            sa = s0.sa
            GN, DSM = c.get('Systems', 'GaussianNoise'), c.get('Systems', 'DynamicSystemModel')
            mq, mr = vec('mq', d), vec('mr', m)
            s = c.call(DSM, system_dim=d, measurement_dim=m, transition=sa['f'], measurement=sa['h'],
                       system_noise=c.call(GN, dimension=d, cov=sa['Q'].copy(), mean=mq),
                       measurement_noise=c.call(GN, dimension=m, cov=sa['R'].copy(), mean=mr),
                       init_distribution=sa['init'], dt=sa['dt'])
            s.sa = sa
            x0 = vec('x0', d)
            sim_check(c, s, c.call(s.simulate, N, x_zero=x0.copy()), N, x0, F(0), mq, mr)
        return f

    def mismatch(c):
        """Noise of the wrong dimension is refused."""
        GN, DSM = c.get('Systems', 'GaussianNoise'), c.get('Systems', 'DynamicSystemModel')
        for a, b, good in ((2, 1, True), (3, 1, False), (2, 2, False)):
            try:
                c.call(DSM, system_dim=2, measurement_dim=1, transition=None, measurement=None,
                       system_noise=c.call(GN, dimension=a), measurement_noise=c.call(GN, dimension=b))
                ok = True
            except (AssertionError, ValueError):
                ok = False
            c.true('noise dimensions %d and %d for a system of dimensions 2 and 1 are %s' % (
                a, b, 'accepted' if good else 'refused'), ok == good)

    def repeat(c):
        """Two simulations of one system are independent of each other's results."""
        s = make_system(c, 2, 1, meas_uses=())
        x0 = vec('x0', 2)
        a = list(c.call(s.simulate, 3, x_zero=x0.copy()))
        keep = [(lib.asarr(x).copy(), lib.asarr(y).copy()) for x, y in a]
        b = list(c.call(s.simulate, 2, x_zero=x0.copy()))
        sim_check(c, s, a, 3, x0, F(0), label='first: ')
        sim_check(c, s, b, 2, x0, F(0), label='second: ')

    def independent(lengths, d=2, m=1):
        """All initial states and noises of several simulations are independent of each other."""
        def f(c):
            s = make_system(c, d, m, meas_uses=())
            sa = s.sa
            xs, mean, blocks = [], [], []
            for k, N in enumerate(lengths):
                n0 = len(sa['f'].calls)
                data = list(c.call(s.simulate, N))
                if not c.true('simulation %d: one pair per step' % k, len(data) == N, len(data), N):
                    return
                x0 = sa['f'].calls[n0][0].reshape(-1)
                r = residuals(c, 'simulation %d: ' % k, [p[0] for p in data], x0, [p[1] for p in data], s, F(0))
                if r is None:
                    return
                xs += list(x0) + r[0] + r[1]
                mean += [sa['m0'], zeros(N * d), zeros(N * m)]
                blocks += [sa['P0']] + [sa['Q']] * N + [sa['R']] * N
            try:
                mu, C = draw_moments(xs)
            except NotGaussian as e:
                c.fail('simulations add Gaussian noise', str(e))
                return
            c.eq('means of initial states and noises', mu, np.concatenate(mean))
            want, i = zeros(len(xs), len(xs)), 0
            for b in blocks:
                want[i:i + len(b), i:i + len(b)] = b
                i += len(b)
            c.eq('initial states and noises of all simulations are independent', C, want)
        return f

    for ls in ((2, 2), (3, 3, 3), (1, 2, 1)):
        out.append(Scenario('independent simulations of lengths %s' % (ls,), independent(ls)))
    for d, m in DIMS:
        for style in ('flat', 'batch'):
            for N in (1, 2, 4):
                out.append(Scenario('d=%d m=%d N=%d maps return %s' % (d, m, N, 'vectors' if style == 'flat' else 'rows'),
                                    simulate(d, m, N, style, ('x',))))
            out.append(Scenario('d=%d m=%d random start, maps return %s' % (
                d, m, 'vectors' if style == 'flat' else 'rows'), simulate(d, m, 3, style, ())))
            out.append(Scenario('d=%d m=%d later start, maps return %s' % (
                d, m, 'vectors' if style == 'flat' else 'rows'), simulate(d, m, 3, style, ('x', 't'))))
    for w in (('f',), ('h',), ('f', 'h')):
        for N in (1, 3):
            out.append(Scenario('identity %s N=%d' % (' and '.join(
                {'f': 'transition', 'h': 'measurement'}[k] for k in w), N), aliasing(w, N, ())))
    for N in (1, 3):
        out.append(Scenario('user-defined system N=%d' % N, own(N, ())))
        out.append(Scenario('user-defined system N=%d later start' % N, own(N, ('t',))))
        out.append(Scenario('noise with a mean N=%d' % N, noisy_mean(N)))
    for d in (1, 2, 3):
        for given in ((), ('cov',), ('mean',), ('cov', 'mean')):
            for size in (None, 1, 3):
                out.append(Scenario('noise d=%d given %s size %s' % (d, ','.join(given) or 'nothing', size),
                                    noise(d, given, size)))
    for N in sizes.lengths(tier):
        out.append(Scenario('d=2 m=1 N=%d' % N, simulate(2, 1, N, 'flat', ('x',))))
        out.append(Scenario('noise d=2 given cov size %d' % N, noise(2, ('cov',), N)))
    for d in sizes.dims(tier):
        out.append(Scenario('d=%d m=2 N=2' % d, simulate(d, 2, 2, 'flat', ('x',))))
        out.append(Scenario('d=2 m=%d N=2' % d, simulate(2, d, 2, 'flat', ('x',))))
        out.append(Scenario('noise d=%d given cov,mean size 2' % d, noise(d, ('cov', 'mean'), 2)))
    out.append(Scenario('noise dimensions', mismatch))
    for d in (1, 2, 3):
        for keep in (True, False):
            out.append(Scenario('noises which agree in part, d=%d%s' % (d, '' if keep else ', one at a time'), related(d, keep)))
    out.append(Scenario('systems whose noises agree in part', related_systems))
    out.append(Scenario('two simulations', repeat))
    out.append(Scenario('long simulation', simulate(1, 1, 40, 'flat', ('x', 't'))))
    for N in sizes.huge():
        out.append(Scenario('simulation of length %d' % N, simulate(1, 1, N, 'flat', ('x',))))
    return out


# ------------------------------------------------------------------ C21
def ungm_f(x, t):
    x = x[0]
    return [add(add(div(x, 2), div(mul(25, x), add(1, mul(x, x)))), mul(8, cos(mul(F(6, 5), t))))]


def cv_f(x, dt):
    return [add(x[0], mul(dt, x[2])), add(x[1], mul(dt, x[3])), x[2], x[3]]


def turn_f(x, dt):
    px, vx, py, vy, w = x
    if terms.same(w, 0):
        a, b = dt, F(0)
    else:
        a, b = div(sin(mul(w, dt)), w), div(sub(1, cos(mul(w, dt))), w)
    s, k = sin(mul(w, dt)), cos(mul(w, dt))
    return [add(px, sub(mul(a, vx), mul(b, vy))), sub(mul(k, vx), mul(s, vy)),
            add(py, add(mul(b, vx), mul(a, vy))), add(mul(s, vx), mul(k, vy)), w]


def bearings(px, py, sensors):
    return [arctan2(sub(py, sy), sub(px, sx)) for sx, sy in sensors]


def l96_rate(x, Fc):
    n = len(x)
    return [add(sub(mul(sub(x[(i + 1) % n], x[(i - 2) % n]), x[(i - 1) % n]), x[i]), Fc) for i in range(n)]


def rk4(rate, x, dt):
    def ax(x, k, c):
        return [add(a, mul(c, b)) for a, b in zip(x, k)]
    k1 = rate(x)
    k2 = rate(ax(x, k1, div(dt, 2)))
    k3 = rate(ax(x, k2, div(dt, 2)))
    k4 = rate(ax(x, k3, dt))
    return [add(a, mul(div(dt, 6), add(add(b, mul(2, c)), add(mul(2, d), e))))
            for a, b, c, d, e in zip(x, k1, k2, k3, k4)]


SENSORS4 = [(-10, 10), (10, 10), (-10, -10), (10, -10)]
FAR4 = [(-20000, 20000), (20000, 20000), (-20000, -20000), (20000, -20000)]


def systems(c, which, dim=5, **kw):
    """(system, transition reference, measurement reference, d, m)"""
    if which == 'UNGM':
        s = c.call(c.get('Systems', 'UniformNonlinearGrowthModel'))
        return s, lambda x, t: ungm_f(x, t), lambda x: [div(mul(x[0], x[0]), 20)], 1, 1
    if which == 'constant velocity':
        sens = kw.pop('sens', None)
        dt = kw.get('delta_t', F(1, 10))
        if sens:
            S = sensor_class(c, 'Systems.BearingsOnlyTracking')
            kw['sensor_list'] = [c.call(S, x=a, y=b) for a, b in sens]
        s = c.call(c.get('Systems', 'BearingsOnlyTracking'), **kw)
        return s, lambda x, t: cv_f(x, dt), lambda x: bearings(x[0], x[1], sens or SENSORS4), 4, len(sens or SENSORS4)
    if which == 'turning target':
        sens = kw.pop('sens', None)
        dt = kw.get('delta_t', F(1))
        if sens:
            S = sensor_class(c, 'Systems.BearingOnlyTrackingTurn')
            kw['sensor_list'] = [c.call(S, x=a, y=b) for a, b in sens]
        s = c.call(c.get('Systems', 'BearingsOnlyTrackingTurn'), **kw)
        return s, lambda x, t: turn_f(x, dt), lambda x: bearings(x[0], x[2], sens or FAR4), 5, len(sens or FAR4)
    if which == 'Lorenz 96':
        x0 = vec('x0', dim)
        ST.hooks['np.load'] = lambda f: x0.copy()
        Fc, dt = kw.get('F', 8), kw.get('delta_t', F(1, 20))
        s = c.call(c.get('Systems', 'L96'), dim=dim, init_cond_path='stored.npy', **kw)
        return s, lambda x, t: rk4(lambda y: l96_rate(y, Fc), x, dt), lambda x: [mul(a, a) for a in x], dim, dim


def sensor_class(c, mod):
    """Any object with coordinates x and y is a sensor."""
    from collections import namedtuple
    return namedtuple('Sensor', ['x', 'y'])


VARIANTS = dict(UNGM=[('', {})],
                **{'constant velocity': [('', {}), ('own sampling time', dict(delta_t='dt')),
                                         ('own sensors', dict(sens=2)), ('no sensor list', dict(sensor_list=None)),
                                         ('one sensor', dict(sens=1)),
                                         ('own sampling time and sensors', dict(delta_t='dt', sens=5))],
                   'turning target': [('', {}), ('own sampling time', dict(delta_t='dt')),
                                      ('own sensors', dict(sens=3)), ('no sensor list', dict(sensor_list=None)),
                                      ('one sensor', dict(sens=1)),
                                      ('own sampling time and sensors', dict(delta_t='dt', sens=2))],
                   'Lorenz 96': [('own forcing and sampling time', dict(F='F', delta_t='dt')),
                                 ('six variables, own forcing and sampling time', dict(F='F', delta_t='dt', dim=6)),
                                 ('', {}), ('own forcing', dict(F='F')), ('own sampling time', dict(delta_t='dt')),
                                 ('four variables', dict(dim=4)), ('seven variables', dict(dim=7))]})


def resolve(kw):
    kw = dict(kw)
    for k in ('delta_t', 'F', 'Q_sigma', 'R_sigma'):
        if isinstance(kw.get(k), str):
            kw[k] = atom(kw[k], pos=(k != 'F'))
    if 'sens' in kw:
        kw['sens'] = [(atom('sx%d' % i), atom('sy%d' % i)) for i in range(kw['sens'])]
    return kw


def c21(tier):
    out = []

    def equations(which, kw, shape):
        def f(c):
            s, fr, hr, d, m = systems(c, which, **resolve(kw))
            n = {'vector': 1, 'row': 1, 'rows': 3, 'many rows': 2 * d + 1}[shape]
            X = mat('x', n, d)
            arg = X[0].copy() if shape == 'vector' else X.copy()
            sx = snapshot(arg)
            t = atom('t')
            want_f = [fr(list(X[i]), t) for i in range(n)]
            want_h = [hr(list(X[i])) for i in range(n)]
            sh = False if n == 1 else True
            c.eq('transition', c.call(s.transition, arg, t=t), np.array(want_f, dtype=object), shape=sh)
            c.eq('measurement', c.call(s.measurement, arg), np.array(want_h, dtype=object), shape=sh)
            c.eq('transition, keyword arguments', c.call(s.transition, x=arg, t=t, u=F(0)),
                 np.array(want_f, dtype=object), shape=sh)
            c.eq('measurement, keyword arguments', c.call(s.measurement, x=arg, t=t, u=F(0)),
                 np.array(want_h, dtype=object), shape=sh)
            c.eq('measure', c.call(s.measure, arg), np.array(want_h, dtype=object), shape=sh)
            c.true('argument left as it was', unchanged(sx))
        return f

    def derivative(which, kw, at0=False):
        """The Taylor transform of the system's maps is defined everywhere and uses their derivatives."""
        def f(c):
            s, fr, hr, d, m = systems(c, which, **resolve(kw))
            T = c.call(c.get('MomentMatching', 'TaylorTransform'), d)
            g, r = gaussian(c, 'x', d), natural_of(c, 'x', d, 'moment')
            if which == 'turning target' and c.bindings.get('x.mean[4]') is not None:
                c.skip('analysed in the scenario of the target which does not turn')
            from functools import partial
            t = atom('t')
            mean, cov, cross = c.call(T, partial(s.transition, t=t), g)
            c.eq('mean', mean, lib.to_array(fr(list(r.mean), t)), shape=False)
            Jf = ref_jac(lambda x: fr(x, t), r.mean)
            c.eq('transition cross-covariance', cross, r.cov @ Jf.T)
            mean, cov, cross = c.call(T, s.measurement, g)
            c.eq('measurement mean', mean, lib.to_array(hr(list(r.mean))), shape=False)
            Jh = ref_jac(hr, r.mean)
            c.eq('measurement cross-covariance', cross, r.cov @ Jh.T)
        return f

    def standing(c):
        """A target which does not turn: the limit of the turn, for the state and for its derivative."""
        s, fr, hr, d, m = systems(c, 'turning target', delta_t=atom('dt', pos=True))
        dt = atom('dt', pos=True)
        x = vec('x', 5)
        x[4] = F(0)
        c.eq('transition', c.call(s.transition, x.copy()), lib.to_array(turn_f(list(x), dt)), shape=False)
        X = mat('y', 3, 5)
        X[1, 4] = F(0)
        c.eq('transition in a batch', c.call(s.transition, X.copy()),
             np.array([turn_f(list(r), dt) for r in X], dtype=object))
        T = c.call(c.get('MomentMatching', 'TaylorTransform'), 5)
        G = c.get('StateModel', 'Gaussian')
        C = spd('C', 5)
        mean, cov, cross = c.call(T, s.transition, c.call(G, x.copy(), C))
        half = div(mul(dt, dt), 2)
        J = lib.to_array([[F(1), dt, F(0), F(0), mul(-1, mul(half, x[3]))],
                          [F(0), F(1), F(0), F(0), mul(-1, mul(dt, x[3]))],
                          [F(0), F(0), F(1), dt, mul(half, x[1])],
                          [F(0), F(0), F(0), F(1), mul(dt, x[1])],
                          [F(0), F(0), F(0), F(0), F(1)]])
        c.eq('derivative', cross, C @ J.T)

    def on_axis(which, ix, iy):
        """Bearings of a target straight ahead, above, behind and below a sensor, also next to it."""
        def f(c):
            sens = [(F(3), F(-2)), (F(0), F(0))]
            s = systems(c, which, sens=sens)[0]
            d = 4 if which == 'constant velocity' else 5
            rows = []
            for dx, dy in ((2, 0), (0, 2), (-2, 0), (0, -2), (1, 1), (-1, 1), (-1, -1), (1, -1)):
                x = lib.to_array([F(1, 7)] * d)
                x[ix], x[iy] = F(3 + dx), F(-2 + dy)
                rows.append(x)
            want = [bearings(x[ix], x[iy], sens) for x in rows]
            for x, w in zip(rows, want):
                c.eq('bearing of a target at (%s, %s)' % (x[ix], x[iy]), c.call(s.measurement, x.copy()), lib.to_array(w),
                     shape=False)
            c.eq('bearings of a batch', c.call(s.measurement, np.array(rows, dtype=object)), np.array(want, dtype=object))
            x = lib.asarr(c.call(s.measurement, rows[2].copy())).reshape(-1)[0]
            c.eq('a target straight behind is at pi', x, terms.mkpi())
        return f

    def test_dynamics(c):
        s = c.call(c.get('Systems', 'TestDynamics'))
        x, t, u = vec('x', 1), atom('t'), atom('u')
        d = lib.asarr(c.call(s.transition, x.copy(), t=t, u=u)) - lib.asarr(c.call(s.transition, x.copy(), t=F(0)))
        c.eq('drift of the test system', d, lib.to_array([add(div(t, 10), div(u, 100))]), shape=False)
        c.eq('measurement of the test system', c.call(s.measurement, x.copy()), scale(100, x), shape=False)

    for which, vs in VARIANTS.items():
        for name, kw in vs:
            for shape in ('vector', 'row', 'rows', 'many rows'):
                out.append(Scenario('%s %s%s' % (which, shape, ', ' + name if name else ''),
                                    equations(which, kw, shape), special=('x[0,4]', 'x[1,4]', 'x[2,4]')))
            out.append(Scenario('%s derivative%s' % (which, ', ' + name if name else ''), derivative(which, kw),
                                special=('x.mean[4]',)))
    out.append(Scenario('target which does not turn', standing, special=('y[0,4]', 'y[2,4]')))
    out.append(Scenario('constant velocity, targets on the axes of a sensor', on_axis('constant velocity', 0, 1)))
    out.append(Scenario('turning target, targets on the axes of a sensor', on_axis('turning target', 0, 2)))
    out.append(Scenario('test system', test_dynamics))
    return out


def ref_jac(f, x):
    """Derivative of a reference formula, by forward accumulation."""
    x = lib.asarr(x)
    J = lib.jacobian(lambda v: lib.to_array(f(list(v))))(x)
    return lib.asarr(J)


# ------------------------------------------------------------------ C22
def diag(*v):
    n = len(v)
    A = zeros(n, n)
    for i, x in enumerate(v):
        A[i, i] = x
    return A


def cv_noise(dt, q):
    a, b = div(mul(dt, mul(dt, dt)), 3), div(mul(dt, dt), 2)
    return a, b


def settings(c, label, s, Q, R, m0, P0, d, m):
    c.eq(label + 'system noise covariance', s.system_noise.cov, Q)
    c.eq(label + 'measurement noise covariance', s.measurement_noise.cov, R)
    c.eq(label + 'transition noise is the system noise', s.transition_noise.cov, Q)
    c.true(label + 'dimensions', s.system_dim == d and s.measurement_dim == m, (s.system_dim, s.measurement_dim), (d, m))
    sees(c, label + 'initial distribution', s.init_state, Ref.moments(m0, P0))
    try:
        mu, C = draw_moments(list(lib.asarr(c.call(s.system_noise.sample)).reshape(-1)))
        c.eq(label + 'sampled system noise', C, Q)
        c.eq(label + 'system noise has mean zero', mu, zeros(d))
        mu, C = draw_moments(list(lib.asarr(c.call(s.measurement_noise.sample)).reshape(-1)))
        c.eq(label + 'sampled measurement noise', C, R)
        c.eq(label + 'measurement noise has mean zero', mu, zeros(m))
    except NotGaussian as e:
        c.fail(label + 'noise is Gaussian', str(e))


def cv_settings(kw):
    dt, q, r = kw.get('delta_t', F(1, 10)), kw.get('Q_sigma', F(1, 100)), kw.get('R_sigma', F(1, 1000))
    a, b = cv_noise(dt, q)
    Q = zeros(4, 4)
    for i in (0, 1):
        Q[i, i], Q[i + 2, i + 2] = a, dt
        Q[i, i + 2] = Q[i + 2, i] = b
    n = len(kw.get('sens', SENSORS4))
    return (scale(q, Q), scale(r, lib.eye(n)), lib.to_array([F(0), F(0), F(1), F(0)]), scale(F(1, 10), lib.eye(4)), 4, n)


def turn_settings(kw):
    dt = kw.get('delta_t', F(1))
    q = kw.get('Q_sigma', [F(1, 10), F('0.000175')])
    a, b = cv_noise(dt, q)
    Q = zeros(5, 5)
    for i in (0, 2):
        Q[i, i], Q[i + 1, i + 1] = mul(q[0], a), mul(q[0], dt)
        Q[i, i + 1] = Q[i + 1, i] = mul(q[0], b)
    Q[4, 4] = mul(dt, q[1])
    n = len(kw.get('sens', FAR4))
    r = kw.get('R_sigma', [mul(terms.sqrt(10), F(1, 1000))])
    r = list(r) * (n if len(r) == 1 else 1)
    w = div(mul(-3, terms.mkpi()), 180)
    return (Q, diag(*[mul(v, v) for v in r]), lib.to_array([F(1000), F(300), F(1000), F(0), w]),
            diag(F(100), F(10), F(100), F(10), F(1, 10000)), 5, n)


def c22(tier):
    out = []
    SETS = [('default', {}), ('own sampling time', dict(delta_t='dt')), ('own noise levels', dict(Q_sigma='q', R_sigma='r')),
            ('own sensors', dict(sens=2)), ('one sensor', dict(sens=1)), ('no sensor list', dict(sensor_list=None)),
            ('everything', dict(delta_t='dt', Q_sigma='q', R_sigma='r', sens=3))]

    def res(which, kw):
        kw = dict(kw)
        if which == 'turning target':
            if 'Q_sigma' in kw:
                kw['Q_sigma'] = [atom('q0', pos=True), atom('q1', pos=True)]
                kw['R_sigma'] = [atom('r%d' % i, pos=True) for i in range(kw['sens'])] if kw['R_sigma'] == 'each' else [
                    atom('r', pos=True)]
        return resolve(kw)

    def tracking(which, kw):
        def f(c):
            k = res(which, kw)
            s = systems(c, which, **k)[0]
            settings(c, '', s, *(cv_settings if which == 'constant velocity' else turn_settings)(k))
            # a second system with other settings, then the first and a default one again
            other = res(which, dict(delta_t='dt2', sens=2))
            o = systems(c, which, **other)[0]
            settings(c, 'second system: ', o, *(cv_settings if which == 'constant velocity' else turn_settings)(other))
            settings(c, 'first system afterwards: ', s,
                     *(cv_settings if which == 'constant velocity' else turn_settings)(k))
            z = systems(c, which)[0]
            settings(c, 'default system afterwards: ', z,
                     *(cv_settings if which == 'constant velocity' else turn_settings)({}))
            x = vec('x', 4 if which == 'constant velocity' else 5)
            fr = cv_f if which == 'constant velocity' else turn_f
            c.eq('first system afterwards: transition', c.call(s.transition, x.copy()),
                 lib.to_array(fr(list(x), k.get('delta_t', F(1, 10) if which == 'constant velocity' else F(1)))),
                 shape=False)
        return f

    def ungm(c):
        s = c.call(c.get('Systems', 'UniformNonlinearGrowthModel'))
        settings(c, '', s, scale(1, lib.eye(1)), scale(10, lib.eye(1)), zeros(1), scale(5, lib.eye(1)), 1, 1)

    def l96(kw):
        def f(c):
            k = resolve(kw)
            dim = k.get('dim', 5)
            s = systems(c, 'Lorenz 96', **k)[0]
            settings(c, '', s, scale(k.get('Q_sigma', F(1, 10)), lib.eye(dim)), scale(k.get('R_sigma', 1), lib.eye(dim)),
                     vec('x0', dim), lib.eye(dim), dim, dim)
        return f

    def l96_files(c):
        """Several Lorenz systems in one program, each with the file of its own forcing and dimension."""
        C = c.get('Systems', 'L96')
        files, x = {}, {}

        def load(path):
            k = str(lib.fmt_value(path))
            for e in ST.effects:
                if e[0] == 'save':
                    files[e[1] if e[1].endswith('.npy') else e[1] + '.npy'] = lib.asarr(e[2]).copy()
            if k not in files:
                raise FileNotFoundError(k)
            return files[k].copy()
        ST.hooks['np.load'] = load
        want = {}
        for i, (dim, Fc, given) in enumerate(((4, F(8), True), (4, F(17, 2), True), (4, F(8), True), (5, F(8), True),
                                              (4, F(8), False), (4, F(17, 2), False), (4, F(17, 2), True), (4, F(-8), True),
                                              (4, F(8), True), (5, F(17, 2), False), (5, F(8), True))):
            kw = dict(init_cond_path='../log/L96_initial_condition_F_%s_dim_%d.npy' % (
                float(Fc) if Fc.denominator != 1 else int(Fc), dim)) if given else {}
            s = c.call(C, dim=dim, F=int(Fc) if Fc.denominator == 1 else Fc, **kw)
            m = lib.asarr(s.init_state.mean)
            if (dim, Fc) not in want:
                want[dim, Fc] = lib.asarr(c.call(c.get('Systems.L96', 'generate_L96_initial_condition'), dim,
                                                 int(Fc) if Fc.denominator == 1 else Fc))
            c.eq('system %d (F=%s, %d variables%s): starts at the state of its own forcing and dimension' % (
                i + 1, Fc, dim, '' if given else ', no file named'), m, want[dim, Fc])

    def l96_wrong(c):
        """A stored initial condition of another dimension is refused."""
        ST.hooks['np.load'] = lambda f: vec('x0', 6)
        try:
            c.call(c.get('Systems', 'L96'), dim=5, init_cond_path='stored.npy')
        except (AssertionError, ValueError):
            c.true('refused', True)
            return
        c.fail('refused', 'accepted')

    def l96_start(dim, how):
        """The generated initial condition is a state of the model itself, with the forcing asked for."""
        def f(c):
            Fc = atom('F')
            mod = c.get('Systems', 'L96')
            if how == 'function':
                import sys
                x = lib.asarr(c.call(c.get('Systems.L96', 'generate_L96_initial_condition'), dim, Fc))
            else:
                kw = {} if how == 'no path' else dict(init_cond_path='missing.npy')
                s = c.call(mod, dim=dim, F=Fc, **kw)
                x = lib.asarr(s.init_state.mean)
            if not c.true('shape', x.shape == (dim,), x.shape, (dim,)):
                return
            cur = [add(Fc, F(1, 100)) if i == 0 else Fc for i in range(dim)]
            hit = False
            for k in range(1, 1500):
                cur = rk4(lambda y: l96_rate(y, Fc), cur, F(1, 20))
                if terms.same(cur[0], x[0]) and all(terms.same(a, b) for a, b in zip(cur, x)):
                    hit = k
                    break
            c.true('is reached by iterating the model from its perturbed equilibrium', hit and hit > 100, hit)
            if how != 'function':
                saves = [e for e in ST.effects if e[0] == 'save']
                for e in saves:
                    c.eq('stored initial condition is the one used', e[2], x)
        return f

    for which in ('constant velocity', 'turning target'):
        for name, kw in SETS:
            out.append(Scenario('%s, %s' % (which, name), tracking(which, kw)))
    out.append(Scenario('turning target, a noise level for each sensor',
                        tracking('turning target', dict(delta_t='dt', Q_sigma='q', R_sigma='each', sens=3))))
    out.append(Scenario('UNGM', ungm))
    for name, kw in (('default', {}), ('own noise levels', dict(Q_sigma='q', R_sigma='r')), ('seven variables', dict(dim=7)),
                     ('own sampling time and forcing', dict(delta_t='dt', F='F'))):
        out.append(Scenario('Lorenz 96, %s' % name, l96(kw)))
    out.append(Scenario('Lorenz 96, wrong stored initial condition', l96_wrong))
    out.append(Scenario('Lorenz 96, several systems and their files', l96_files))
    for how in ('function', 'no path', 'missing file'):
        out.append(Scenario('Lorenz 96 generated initial condition, %s' % how, l96_start(4, how)))
    return out
