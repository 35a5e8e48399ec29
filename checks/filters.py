"""C13-C17: Gaussian filters and smoothers."""
import numpy as np

from sa import lib, terms
from sa.harness import Scenario
from sa.terms import F, ST, atom, add, sub, mul, div
from sa.model import (vec, mat, spd, inv, zeros, scale, Ref, gaussian, natural_of, relatives, snapshot, unchanged, Opaque,
                      OpaqueTransform, make_system)
from .gaussian import sees
from .ep import Affine, Linear
from . import sizes

DIMS = ((2, 3), (2, 1), (1, 1), (1, 2), (3, 2), (2, 2))
MOD = 'Filters.KalmanFilter'


def moments(c, label, g, r):
    c.eq(label + 'mean', g.mean, r.mean)
    c.eq(label + 'cov', g.cov, r.cov)


class Setup:
    def __init__(self, c, d, m, uses=('t', 'u'), meas_uses=('t', 'u'), separate=True, transforms=True, style='flat'):
        self.c, self.d, self.m = c, d, m
        self.sys = make_system(c, d, m, style=style, uses=uses, meas_uses=meas_uses)
        sa = self.sys.sa
        self.f, self.h, self.Q, self.R, self.dt = sa['f'], sa['h'], sa['Q'], sa['R'], sa['dt']
        self.prior = Ref.moments(sa['m0'], sa['P0'])
        self.probe = vec('probe%d' % d, d)
        if transforms:
            self.tf = OpaqueTransform(c.it, 'TM', d, d)
            self.th = OpaqueTransform(c.it, 'MM', d, m) if separate else None
            K = c.get(MOD, 'KalmanFilterSmoother')
            if separate:
                self.kf = c.call(K, self.tf, self.sys, self.th)
            else:
                self.tf = Both(c.it, d, m)
                self.th = self.tf
                self.kf = c.call(K, self.tf, self.sys)

    def trans(self, mean, cov, t, u):
        return self.tf.ref(self.f.ref(self.probe, t, u), mean, cov)

    def meas(self, mean, cov, t, u):
        return self.th.ref(self.h.ref(self.probe, t, u), mean, cov)

    def predict(self, s, t, u):
        mu, C, X = self.trans(s.mean, s.cov, t, u)
        return Ref.moments(mu, C + self.Q)

    def correct(self, s, z, t, u):
        mu, C, X = self.meas(s.mean, s.cov, t, u)
        K = X @ inv(C + self.R)
        return Ref.moments(s.mean + K @ (z - mu), s.cov - K @ X.T)

    def smooth(self, s, nxt, t, u):
        mu, C, X = self.trans(s.mean, s.cov, t, u)
        A = C + self.Q
        J = X @ inv(A)
        return Ref.moments(s.mean + J @ (nxt.mean - mu), s.cov + J @ (nxt.cov - A) @ J.T)

    def kept(self):
        self.c.eq('system noise kept', self.sys.system_noise.cov, self.Q)
        self.c.eq('measurement noise kept', self.sys.measurement_noise.cov, self.R)
        sees(self.c, 'initial distribution kept', self.sys.init_state, self.prior)


class Both(OpaqueTransform):
    """One transform used for transition and measurement."""

    def __init__(self, it, d, m):
        super().__init__(it, 'T', d, d)

    def ref(self, image, mean, cov):
        k = OpaqueTransform(self.it, 'T%d' % lib.asarr(image).size, self.d, lib.asarr(image).size)
        return k.ref(image, mean, cov)


def shaped(z, kind):
    m = z.size
    if kind == 'row':
        return z.reshape(1, m)
    if kind == 'squeezed' and m == 1:
        return z.reshape(())
    return z.copy()


def c13(tier):
    out = []

    def pcs(d, m, mode, sep):
        def f(c):
            s = Setup(c, d, m, separate=sep)
            g, r = gaussian(c, 'x', d, mode), natural_of(c, 'x', d, mode)
            n, rn = gaussian(c, 'n', d, 'natural'), natural_of(c, 'n', d, 'natural')
            t, u = atom('t'), atom('u')
            z = vec('z', m)
            Z = z.copy()
            for again in ('', 'again: '):
                moments(c, again + 'predict: ', c.call(s.kf.predict, g, t=t, u=u), s.predict(r, t, u))
                moments(c, again + 'correct: ', c.call(s.kf.correct, g, Z, t=t, u=u), s.correct(r, z, t, u))
                moments(c, again + 'smooth: ', c.call(s.kf.smooth, g, n, t=t, u=u), s.smooth(r, rn, t, u))
                sees(c, again + 'argument kept', g, r)
                sees(c, again + 'next state kept', n, rn)
            moments(c, 'predict, positional arguments: ', c.call(s.kf.predict, g, t, u), s.predict(r, t, u))
            moments(c, 'correct, positional arguments: ', c.call(s.kf.correct, g, Z, t, u), s.correct(r, z, t, u))
            moments(c, 'smooth, positional arguments: ', c.call(s.kf.smooth, g, n, t, u), s.smooth(r, rn, t, u))
            moments(c, 'predict without time: ', c.call(s.kf.predict, g), s.predict(r, None, None))
            c.eq('measurement kept', Z, z)
            if m == 1:
                moments(c, 'correct, scalar measurement: ', c.call(s.kf.correct, g, z[0], t=t, u=u),
                        s.correct(r, z, t, u))
            s.kept()
        return f

    def in_turn(c):
        """Single steps with other states, times, inputs and measurements in turn, on two filters used alternately."""
        s, s2 = Setup(c, 2, 1), Setup(c, 1, 2)
        st = {(k, n): (gaussian(c, n, k.d), natural_of(c, n, k.d, 'moment')) for k in (s, s2) for n in ('x', 'y')}
        Z = {k: vec('z', k.m) for k in (s, s2)}
        t0, t1, u0, u1 = atom('t0'), atom('t1'), atom('u0'), atom('u1')

        def go(k, a, b, t, u, zn='z'):
            lab = '%s, t=%s, u=%s, %s: ' % ('first filter' if k is s else 'second filter', t, u, zn)
            (g, r), (n, rn) = st[k, a], st[k, b]
            moments(c, lab + 'predict: ', c.call(k.kf.predict, g, t=t, u=u), k.predict(r, t, u))
            moments(c, lab + 'correct: ', c.call(k.kf.correct, g, Z[k], t=t, u=u), k.correct(r, vec(zn, k.m), t, u))
            moments(c, lab + 'smooth: ', c.call(k.kf.smooth, g, n, t=t, u=u), k.smooth(r, rn, t, u))
        for k in (s, s2):
            for _, g, r in relatives(c, k.d):
                st[k, 'r'] = g, r
                go(k, 'r', 'y', t0, u0)
                go(k, 'x', 'r', t0, u0)
        go(s, 'x', 'y', t0, u0)
        go(s, 'x', 'y', t0, u1)
        go(s, 'x', 'y', t1, u1)
        go(s, 'y', 'x', t1, u1)
        go(s2, 'x', 'y', t1, u1)
        go(s2, 'x', 'x', t1, None)
        go(s, 'y', 'x', t1, None)
        Z[s][:] = vec('w', 1)
        go(s, 'y', 'x', t1, None, 'w')
        go(s, 'y', 'x', None, None, 'w')
        go(s, 'y', 'x', None, u0, 'w')
        s.kept()
        s2.kept()

    out.append(Scenario('steps in turn', in_turn))
    for d, m in DIMS:
        for mode in ('moment', 'natural'):
            for sep in (True, False):
                out.append(Scenario('d=%d m=%d %s%s' % (d, m, mode, '' if sep else ', one transform'),
                                    pcs(d, m, mode, sep)))
    def undefined(name, kind, d=1, m=1):
        inner = pcs(d, m, 'moment', True)

        def f(c):
            ST.undefined = {name: kind}
            c.true('the scenario has an undefined value', name in
                   {n for v in vec(name[:name.index('[')], m) for n in terms.atoms_of(v)})
            inner(c)
        return f

    for kind in ('nan', 'inf'):
        out.append(Scenario('%s in the measurement' % kind, undefined('z[0]', kind)))
        for d, m, i in ((2, 2, 0), (1, 3, 1), (2, 2, 1)):
            out.append(Scenario('%s in component %d of the measurement, d=%d m=%d' % (kind, i, d, m),
                                undefined('z[%d]' % i, kind, d, m)))
    for d in sizes.dims(tier):
        out.append(Scenario('d=%d m=2' % d, pcs(d, 2, 'moment', True)))
        out.append(Scenario('d=2 m=%d' % d, pcs(2, d, 'moment', True)))
    return out


def c14(tier):
    out = []

    def run(d, m, N, zk, opts, sep=True):
        def f(c):
            s = Setup(c, d, m, separate=sep)
            z = [vec('z%d' % i, m) for i in range(N)]
            Z = [shaped(v, zk) for v in z]
            if zk == 'array':
                Z = np.stack(z)
            if zk == 'tuple':
                Z = tuple(Z)
            kw = {}
            t, u, st = F(0), None, s.prior
            if 't' in opts:
                t = kw['t_zero'] = atom('t0')
            if 'u' in opts:
                u = kw['u'] = atom('u')
            if 'prior' in opts:
                p, st = gaussian(c, 'p', d, 'natural'), natural_of(c, 'p', d, 'natural')
                kw['prior_state'] = p
            first = st
            want = []
            for i in range(N):
                ti = add(t, mul(i, s.dt))
                st = s.correct(s.predict(st, ti, u), z[i], ti, u)
                want.append(st)
            for again in ('', 'second run: '):
                res = list(c.call(s.kf.kalman_filter, Z, **kw))
                if not c.true(again + 'one state per measurement', len(res) == N, len(res), N):
                    return
                for i in range(N):
                    moments(c, again + 'step %d: ' % i, res[i], want[i])
            if 'prior' in opts:
                sees(c, 'given prior kept', p, first)
            c.true('measurements kept', all(terms.same(a, b) for a, b in zip(
                np.concatenate([lib.asarr(v).reshape(-1) for v in Z]), np.concatenate(z))))
            s.kept()
        return f

    for d, m in DIMS:
        for N in (1, 2, 3, 5):
            out.append(Scenario('d=%d m=%d N=%d' % (d, m, N), run(d, m, N, 'vector', ())))
        for opts in (('t',), ('u',), ('prior',), ('t', 'u', 'prior')):
            out.append(Scenario('d=%d m=%d given %s' % (d, m, ','.join(opts)), run(d, m, 3, 'vector', opts)))
        for zk in ('row', 'array', 'tuple', 'squeezed'):
            out.append(Scenario('d=%d m=%d measurements as %s' % (d, m, zk), run(d, m, 3, zk, ())))
        out.append(Scenario('d=%d m=%d one transform' % (d, m), run(d, m, 2, 'vector', (), False)))
    def in_turn(c):
        """Calls with different options are independent of each other, also on two filters used alternately."""
        s, s2 = Setup(c, 2, 1), Setup(c, 1, 2)
        z = [vec('z%d' % i, 1) for i in range(3)]
        Z = [v.copy() for v in z]

        def call(k, label, s, z, Z, t=None, u=None, p=None):
            kw, t0, st = {}, F(0), s.prior
            if t is not None:
                t0 = kw['t_zero'] = t
            if u is not None:
                kw['u'] = u
            if p:
                kw['prior_state'], st = gaussian(c, p, s.d), natural_of(c, p, s.d, 'moment')
            res = list(c.call(s.kf.kalman_filter, Z, **kw))
            if not c.true(label + ': one state per measurement', len(res) == len(z), len(res), len(z)):
                return
            for i, v in enumerate(z):
                ti = add(t0, mul(i, s.dt))
                st = s.correct(s.predict(st, ti, u), v, ti, u)
                moments(c, '%s, step %d: ' % (label, i), res[i], st)
        call(0, 'with every option', s, z, Z, atom('t0'), atom('u'), 'p')
        call(1, 'then with defaults', s, z, Z)
        y = [vec('y%d' % i, 2) for i in range(2)]
        call(2, 'another filter', s2, y, [v.copy() for v in y], t=atom('t1'))
        Z[1][:] = vec('w', 1)
        call(3, 'after changing a measurement', s, [z[0], vec('w', 1), z[2]], Z)
        del Z[2]
        call(4, 'fewer measurements', s, [z[0], vec('w', 1)], Z, p='q')
        call(5, 'the other filter again', s2, y[:1], [y[0].copy()])
        call(6, 'given input only', s, z, [v.copy() for v in z], u=atom('v'))
        t = atom('t2')
        call(8, 'given time and input', s, z, [v.copy() for v in z], t=t, u=atom('v'))
        call(9, 'same time, another input', s, z, [v.copy() for v in z], t=t, u=atom('w'))
        call(10, 'same time, no input', s, z, [v.copy() for v in z], t=t)
        for i, (tt, u) in enumerate(((t, atom('v')), (t, atom('w')), (None, atom('v')), (None, None), (None, atom('w')))):
            call(11 + i, 'one measurement, call %d' % (i + 1), s, z[:1], [z[0].copy()], t=tt, u=u)
        call(7, 'with defaults at the end', s, z, [v.copy() for v in z])

    out.append(Scenario('calls with different options in turn', in_turn))
    def undefined(kind, where, m):
        """A measurement that is not a number (or infinite) is used like any other, so its effect shows in the result."""
        inner = run(1, m, 3, 'vector', ())

        def f(c):
            ST.undefined = {'z%d[0]' % where: kind}
            c.true('the scenario has an undefined value', set(ST.undefined) <= set(terms.atoms_of(vec('z%d' % where, m)[0])))
            inner(c)
        return f

    for kind in ('nan', 'inf'):
        for where in range(3):
            out.append(Scenario('%s in measurement %d' % (kind, where), undefined(kind, where, 1 + where % 2)))
    for N in sizes.lengths(tier):
        out.append(Scenario('d=2 m=2 N=%d' % N, run(2, 2, N, 'vector', ())))
    for d in sizes.dims(tier):
        out.append(Scenario('d=%d m=2 N=2' % d, run(d, 2, 2, 'vector', ())))
        out.append(Scenario('d=2 m=%d N=2' % d, run(2, d, 2, 'vector', ())))
    out.append(Scenario('long series', run(1, 1, 130, 'vector', ('t',))))
    for N in sizes.huge():
        out.append(Scenario('series of length %d' % N, run(1, 1, N, 'vector', ())))
    return out


def c15(tier):
    out = []

    def run(d, m, N, opts, mode, sep=True):
        def f(c):
            s = Setup(c, d, m, separate=sep)
            gs = [gaussian(c, 'g%d' % i, d, mode) for i in range(N)]
            rs = [natural_of(c, 'g%d' % i, d, mode) for i in range(N)]
            kw = {}
            t0, u = F(0), None
            if 't' in opts:
                t0 = kw['t_zero'] = atom('t0')
            if 'u' in opts:
                u = kw['u'] = atom('u')
            want = [None] * N
            want[N - 1] = rs[N - 1]
            for i in reversed(range(N - 1)):
                want[i] = s.smooth(rs[i], want[i + 1], add(t0, mul(i + 1, s.dt)), u)
            L = list(gs)
            for again in ('', 'second run: '):
                res = list(c.call(s.kf.kalman_smoother, L, **kw))
                if not c.true(again + 'one state per filtered state', len(res) == N, len(res), N):
                    return
                for i in range(N):
                    moments(c, again + 'step %d: ' % i, res[i], want[i])
                c.true(again + 'filtered list kept', len(L) == N and all(a is b for a, b in zip(L, gs)))
                for i in range(N):
                    sees(c, again + 'filtered state %d kept' % i, gs[i], rs[i])
            s.kept()
        return f

    def together(d, m, N):
        """Filter, then smoother started at the same time."""
        def f(c):
            s = Setup(c, d, m)
            z = [vec('z%d' % i, m) for i in range(N)]
            t0 = atom('t0')
            st, want = s.prior, []
            for i in range(N):
                ti = add(t0, mul(i, s.dt))
                st = s.correct(s.predict(st, ti, None), z[i], ti, None)
                want.append(st)
            for i in reversed(range(N - 1)):
                want[i] = s.smooth(want[i], want[i + 1], add(t0, mul(i + 1, s.dt)), None)
            filt = c.call(s.kf.kalman_filter, [v.copy() for v in z], t_zero=t0)
            res = list(c.call(s.kf.kalman_smoother, filt, t_zero=t0))
            for i in range(N):
                moments(c, 'step %d: ' % i, res[i], want[i])
        return f

    def related(d, mode):
        """Filtered states which agree with each other in part."""
        def f(c):
            s = Setup(c, d, 1)
            gs, rs = zip(*[(g, r) for _, g, r in relatives(c, d, mode)])
            for lo, hi in ((0, 4), (2, 6), (3, 8)):
                L, want = list(gs[lo:hi]), list(rs[lo:hi])
                for i in reversed(range(len(L) - 1)):
                    want[i] = s.smooth(want[i], want[i + 1], mul(i + 1, s.dt), None)
                res = list(c.call(s.kf.kalman_smoother, L))
                for i in range(len(L)):
                    moments(c, 'states %d to %d, step %d: ' % (lo, hi, i), res[i], want[i])
        return f

    def default_start(c):
        """A smoother started at the default time after a filter which was started at another."""
        s = Setup(c, 2, 1)
        t0, u = atom('t0'), atom('u')
        for kw, T, U in ((dict(t_zero=t0, u=u), t0, u), ({}, F(0), None)):
            filt = list(c.call(s.kf.kalman_filter, [vec('z%d' % i, 1) for i in range(3)], **kw))
            st, want = s.prior, []
            for i in range(3):
                ti = add(T, mul(i, s.dt))
                st = s.correct(s.predict(st, ti, U), vec('z%d' % i, 1), ti, U)
                want.append(st)
            for i in reversed(range(2)):
                want[i] = s.smooth(want[i], want[i + 1], mul(i + 1, s.dt), None)
            res = list(c.call(s.kf.kalman_smoother, filt))
            for i in range(3):
                moments(c, 'filter started at %s, step %d: ' % (T, i), res[i], want[i])

    def undefined(kind, where):
        inner = run(1, 1, 3, (), 'moment')

        def f(c):
            ST.undefined = {'g%d.mean[0]' % where: kind}
            c.true('the scenario has an undefined value',
                   set(terms.atoms_of(vec('g%d.mean' % where, 1)[0])) == set(ST.undefined))
            inner(c)
        return f

    for kind in ('nan', 'inf'):
        for where in range(3):
            out.append(Scenario('%s in filtered state %d' % (kind, where), undefined(kind, where)))
    out.append(Scenario('default start after a filter started elsewhere', default_start))
    for d in (1, 2):
        for mode in ('moment', 'natural'):
            out.append(Scenario('filtered states which agree in part d=%d %s' % (d, mode), related(d, mode)))
    for d, m in DIMS:
        for N in (1, 2, 3, 5):
            for mode in ('moment', 'natural'):
                out.append(Scenario('d=%d N=%d %s (m=%d)' % (d, N, mode, m), run(d, m, N, (), mode)))
        for opts in (('t',), ('u',), ('t', 'u')):
            out.append(Scenario('d=%d m=%d given %s' % (d, m, ','.join(opts)), run(d, m, 3, opts, 'moment')))
        out.append(Scenario('d=%d m=%d filter and smoother' % (d, m), together(d, m, 3)))
        out.append(Scenario('d=%d m=%d one transform' % (d, m), run(d, m, 3, (), 'moment', False)))
    def in_turn(c):
        """Calls with different options are independent of each other."""
        s, s2 = Setup(c, 2, 1), Setup(c, 1, 2)

        def call(label, s, name, N, L=None, t=None, u=None):
            kw, t0 = {}, F(0)
            if t is not None:
                t0 = kw['t_zero'] = t
            if u is not None:
                kw['u'] = u
            gs = [gaussian(c, '%s%d' % (name, i), s.d) for i in range(N)] if L is None else L
            rs = [natural_of(c, '%s%d' % (name, i), s.d, 'moment') for i in range(N)]
            want = [None] * N
            want[N - 1] = rs[N - 1]
            for i in reversed(range(N - 1)):
                want[i] = s.smooth(rs[i], want[i + 1], add(t0, mul(i + 1, s.dt)), u)
            res = list(c.call(s.kf.kalman_smoother, gs, **kw))
            if not c.true(label + ': one state per filtered state', len(res) == N, len(res), N):
                return
            for i in range(N):
                moments(c, '%s, step %d: ' % (label, i), res[i], want[i])
            return gs
        gs = call('with every option', s, 'g', 3, None, atom('t0'), atom('u'))
        call('then with defaults', s, 'g', 3, gs)
        call('another smoother', s2, 'k', 2, None, atom('t1'))
        if gs:
            gs[:] = [gaussian(c, 'n%d' % i, 2) for i in range(3)]
        call('same list, other states', s, 'n', 3, gs)
        call('fewer states', s, 'm', 2, None, None, atom('v'))
        t = atom('t2')
        call('given time and input', s, 'g', 3, None, t, atom('v'))
        call('same time, another input', s, 'g', 3, None, t, atom('w'))
        call('same time, no input', s, 'g', 3, None, t)
        for i, (tt, u) in enumerate(((t, atom('v')), (t, atom('w')), (None, atom('v')), (None, None), (None, atom('w')))):
            call('two states, call %d' % (i + 1), s, 'g', 2, None, tt, u)
        call('with defaults at the end', s, 'g', 3)

    out.append(Scenario('calls with different options in turn', in_turn))
    for N in sizes.lengths(tier):
        out.append(Scenario('d=2 N=%d' % N, run(2, 2, N, (), 'moment')))
    for d in sizes.dims(tier):
        out.append(Scenario('d=%d N=2' % d, run(d, 2, 2, (), 'moment')))
    out.append(Scenario('long series', run(1, 1, 130, ('t',), 'moment')))
    for N in sizes.huge():
        out.append(Scenario('series of length %d' % N, run(1, 1, N, (), 'moment')))
    return out


# ------------------------------------------------------------------ C16, C17
def iekf_update(s, st, z, t, u, K):
    x, P = st.mean, st.cov
    cur = st
    for _ in range(K):
        h, H = s.h.ref(cur.mean, t, u), s.h.jac(cur.mean, t, u)
        S = H @ P @ H.T + s.R
        G = P @ H.T @ inv(S)
        cur = Ref.moments(x + G @ (z - h - H @ (x - cur.mean)), P - G @ H @ P)
    return cur


def taylor_predict(s, st, t, u):
    J = s.f.jac(st.mean, t, u)
    return Ref.moments(s.f.ref(st.mean, t, u), J @ st.cov @ J.T + s.Q)


def c16(tier):
    out = []

    def run(d, m, N, K, opts, zk='vector'):
        def f(c):
            s = Setup(c, d, m, transforms=False, style='batch')
            kf = c.call(c.get(MOD, 'IEKF'), s.sys, d)
            z = [vec('z%d' % i, m) for i in range(N)]
            Z = [shaped(v, zk) for v in z]
            kw = {}
            t, u, st = F(0), None, s.prior
            if 't' in opts:
                t = kw['t_zero'] = atom('t0')
            if 'u' in opts:
                u = kw['u'] = atom('u')
            if 'prior' in opts:
                kw['prior_state'], st = gaussian(c, 'p', d), natural_of(c, 'p', d, 'moment')
            if K is not None:
                kw['num_iter'] = K
            want = []
            for i in range(N):
                ti = add(t, mul(i, s.dt))
                st = iekf_update(s, taylor_predict(s, st, ti, u), z[i], ti, u, 5 if K is None else K)
                want.append(st)
            for again in ('', 'second run: '):
                res = list(c.call(kf, Z, **kw))
                if not c.true(again + 'one state per measurement', len(res) == N, len(res), N):
                    return
                for i in range(N):
                    moments(c, again + 'step %d: ' % i, res[i], want[i])
            s.kept()
        return f

    def varying(c):
        """The number of iterations of one call does not leak into the next."""
        s = Setup(c, 2, 1, transforms=False, style='batch')
        kf = c.call(c.get(MOD, 'IEKF'), s.sys, 2)
        z = [vec('z%d' % i, 1) for i in range(2)]
        for K in (3, 1, 2):
            st = s.prior
            res = list(c.call(kf, [v.copy() for v in z], num_iter=K))
            for i in range(2):
                ti = mul(i, s.dt)
                st = iekf_update(s, taylor_predict(s, st, ti, None), z[i], ti, None, K)
                moments(c, '%d iterations, step %d: ' % (K, i), res[i], st)

    def in_turn(c):
        """Calls with different options are independent of each other."""
        s = Setup(c, 2, 1, transforms=False, style='batch')
        kf = c.call(c.get(MOD, 'IEKF'), s.sys, 2)
        z = [vec('z%d' % i, 1) for i in range(2)]
        Z = [v.copy() for v in z]

        def call(label, K, t=None, u=None, p=None, z=z):
            kw, t0, st = {}, F(0), s.prior
            if K is not None:
                kw['num_iter'] = K
            if t is not None:
                t0 = kw['t_zero'] = t
            if u is not None:
                kw['u'] = u
            if p:
                kw['prior_state'], st = gaussian(c, p, s.d), natural_of(c, p, s.d, 'moment')
            res = list(c.call(kf, Z, **kw))
            if not c.true(label + ': one state per measurement', len(res) == len(z), len(res), len(z)):
                return
            for i, v in enumerate(z):
                ti = add(t0, mul(i, s.dt))
                st = iekf_update(s, taylor_predict(s, st, ti, u), v, ti, u, K)
                moments(c, '%s, step %d: ' % (label, i), res[i], st)
        call('with every option', 2, atom('t0'), atom('u'), 'p')
        call('then without options', 2)
        Z[0][:] = vec('w', 1)
        call('after changing a measurement', 1, z=[vec('w', 1), z[1]])
        del Z[1]
        call('fewer measurements', 2, None, atom('v'), z=[vec('w', 1)])
        t = atom('t2')
        call('given time and input', 2, t, atom('v'), z=[vec('w', 1)])
        call('same time, another input', 2, t, atom('w'), z=[vec('w', 1)])
        call('same time, no input', 2, t, z=[vec('w', 1)])
        call('input only', 2, u=atom('v'), z=[vec('w', 1)])
        call('another input only', 2, u=atom('w'), z=[vec('w', 1)])
        call('without options at the end', 2, z=[vec('w', 1)])

    class RowAffine(Affine):
        def __call__(self, x, t=None, u=None):
            return super().__call__(x, t, u).reshape(1, -1)

    def exact(d, m, N, K):
        """Affine measurements: iterating changes nothing, the last state is the exact filter."""
        def f(c):
            L = Linear(c, N, d, m, 'Taylor')
            row = RowAffine('H', d, m, False)
            L.sys.measurement = row
            kf = c.call(c.get(MOD, 'IEKF'), L.sys, d)
            res = list(c.call(kf, [v.copy() for v in L.z], num_iter=K))
            post = L.posterior()[-1]
            moments(c, 'last filtered state is the exact posterior: ', res[-1], post)
        return f

    for d, m in DIMS:
        for K in (1, 2, 3):
            for N in (1, 2):
                out.append(Scenario('d=%d m=%d N=%d %d iterations' % (d, m, N, K), run(d, m, N, K, ())))
            out.append(Scenario('affine d=%d m=%d %d iterations' % (d, m, K), exact(d, m, 2, K)))
        for opts in (('t',), ('u',), ('prior',), ('t', 'u', 'prior')):
            out.append(Scenario('d=%d m=%d given %s' % (d, m, ','.join(opts)), run(d, m, 2, 2, opts)))
        out.append(Scenario('d=%d m=%d default iterations' % (d, m), run(d, m, 1, None, ())))
        for zk in ('row', 'squeezed'):
            out.append(Scenario('d=%d m=%d measurements as %s' % (d, m, zk), run(d, m, 2, 2, (), zk)))
    def undefined(kind, where, m=1, i=0):
        inner = run(1, m, 2, 2, ())

        def f(c):
            ST.undefined = {'z%d[%d]' % (where, i): kind}
            c.true('the scenario has an undefined value', set(terms.atoms_of(vec('z%d' % where, m)[i])) == set(ST.undefined))
            inner(c)
        return f

    for kind in ('nan', 'inf'):
        for where in range(2):
            out.append(Scenario('%s in measurement %d' % (kind, where), undefined(kind, where)))
            out.append(Scenario('%s in one component of measurement %d' % (kind, where), undefined(kind, where, 2, where)))
    out.append(Scenario('longer series', run(2, 1, 4, 2, ())))
    for N in sizes.lengths(tier):
        out.append(Scenario('d=1 m=1 N=%d 1 iterations' % N, run(1, 1, N, 1, ())))
        out.append(Scenario('d=1 m=1 N=1 %d iterations' % N, run(1, 1, 1, N, ())))
    for N in sizes.huge():
        out.append(Scenario('series of length %d' % N, run(1, 1, N, 1, ())))
    for d in sizes.dims(tier):
        out.append(Scenario('d=%d m=1 N=1 2 iterations' % d, run(d, 1, 1, 2, ())))
        out.append(Scenario('d=1 m=%d N=1 2 iterations' % d, run(1, d, 1, 2, ())))
    out.append(Scenario('repeated calls', varying))
    out.append(Scenario('calls with different options in turn', in_turn))
    return out


def ieks_ref(s, z, K, t0=F(0), u=None):
    """Iterated extended Kalman smoother (Bell 1994) from its definition."""
    N = len(z)
    T = [add(t0, mul(i, s.dt)) for i in range(N)]
    lin_f = lin_h = None

    def f_at(i, st):
        x0 = st.mean if lin_f is None else lin_f[i]
        J = s.f.jac(x0, T[i], u)
        return s.f.ref(x0, T[i], u) + (J @ (st.mean - x0) if lin_f is not None else zeros(s.d)), J

    def h_at(i, st):
        x0 = st.mean if lin_h is None else lin_h[i]
        H = s.h.jac(x0, T[i], u)
        return s.h.ref(x0, T[i], u) + (H @ (st.mean - x0) if lin_h is not None else zeros(s.m)), H

    def rts(st, nxt, i):
        mu, J = f_at(i, st)
        A = J @ st.cov @ J.T + s.Q
        G = st.cov @ J.T @ inv(A)
        return Ref.moments(st.mean + G @ (nxt.mean - mu), st.cov + G @ (nxt.cov - A) @ G.T)

    for k in range(K):
        st, filt = s.prior, []
        for i in range(N):
            mu, J = f_at(i, st)
            p = Ref.moments(mu, J @ st.cov @ J.T + s.Q)
            zi, H = h_at(i, p)
            S = H @ p.cov @ H.T + s.R
            G = p.cov @ H.T @ inv(S)
            st = Ref.moments(p.mean + G @ (z[i] - zi), p.cov - G @ H @ p.cov)
            filt.append(st)
        sm = [None] * N
        sm[N - 1] = filt[N - 1]
        for i in reversed(range(N - 1)):
            sm[i] = rts(filt[i], sm[i + 1], i + 1)
        init = rts(s.prior, sm[0], 0)
        lin_f = [init.mean] + [q.mean for q in sm[:-1]]
        lin_h = [q.mean for q in sm]
    return sm


def c17(tier):
    out = []

    def run(d, m, N, K, style='batch', zk='vector'):
        def f(c):
            s = Setup(c, d, m, transforms=False, style=style)
            ks = c.call(c.get(MOD, 'IEKS'), s.sys, d)
            z = [vec('z%d' % i, m) for i in range(N)]
            Z = [shaped(v, zk) for v in z]
            want = ieks_ref(s, z, 5 if K is None else K)
            for again in ('', 'second run: '):
                res = list(c.call(ks, Z, **({} if K is None else dict(num_iter=K))))
                if not c.true(again + 'one state per measurement', len(res) == N, len(res), N):
                    return
                for i in range(N):
                    if not c.eq(again + 'step %d: mean' % i, res[i].mean, want[i].mean) or \
                            not c.eq(again + 'step %d: cov' % i, res[i].cov, want[i].cov):
                        return
            s.kept()
        return f

    def varying(style):
        def f(c):
            """Calls with different numbers of iterations and measurements are independent; filter and smoother
            methods still use the system."""
            s = Setup(c, 2, 1, transforms=False, style=style)
            ks = c.call(c.get(MOD, 'IEKS'), s.sys, 2)
            for K, N in ((3, 2), (1, 3), (2, 2), (2, 1)):
                z = [vec('z%d_%d%d' % (i, K, N), 1) for i in range(N)]
                res = list(c.call(ks, [v.copy() for v in z], num_iter=K))
                for i, w in enumerate(ieks_ref(s, z, K)):
                    moments(c, '%d iterations, %d steps, step %d: ' % (K, N, i), res[i], w)
            z = [vec('y%d' % i, 1) for i in range(2)]
            filt = list(c.call(ks.kalman_filter, [v.copy() for v in z]))
            st = s.prior
            for i in range(2):
                ti = mul(i, s.dt)
                st = iekf_update(s, taylor_predict(s, st, ti, None), z[i], ti, None, 1)
                moments(c, 'plain filter afterwards, step %d: ' % i, filt[i], st)
        return f

    def exact(d, m, N, K):
        def f(c):
            L = Linear(c, N, d, m, 'Taylor')
            ks = c.call(c.get(MOD, 'IEKS'), L.sys, d)
            res = list(c.call(ks, [v.copy() for v in L.z], num_iter=K))
            for i, p in enumerate(L.posterior()):
                moments(c, 'step %d is the exact posterior: ' % i, res[i], p)
        return f

    def after_failure(K):
        def f(c):
            s = Setup(c, 2, 1, transforms=False, style='batch')
            ks = c.call(c.get(MOD, 'IEKS'), s.sys, 2)
            z = [vec('z%d' % i, 1) for i in range(2)]
            try:
                c.call(ks, [v.copy() for v in z], num_iter=K)
                failed = False
            except (lib.LinAlgError, lib.LinAlgWarning):
                failed = True
            ST.faults_on = False
            z = [vec('y%d' % i, 1) for i in range(2)]
            try:
                res = list(c.call(ks, [v.copy() for v in z], num_iter=K))
            except (lib.LinAlgError, lib.LinAlgWarning):
                return       # the same matrix fails again
            if ST.oracle.faults and not failed:
                return       # an absorbed failure may recur in the second call
            for i, w in enumerate(ieks_ref(s, z, K)):
                moments(c, 'call after %s, step %d: ' % ('a failed call' if failed else 'a call', i), res[i], w)
        return f

    out.append(Scenario('calls after a failed call', after_failure(2), max_fault=1, max_paths=300))
    for d, m in DIMS:
        for K in (1, 2, 3):
            for N in (1, 2, 3):
                for style in ('flat', 'batch'):
                    out.append(Scenario('d=%d m=%d N=%d %d iterations%s' % (
                        d, m, N, K, '' if style == 'batch' else ', maps return vectors'), run(d, m, N, K, style)))
            out.append(Scenario('affine d=%d m=%d %d iterations' % (d, m, K), exact(d, m, 3, K)))
        for zk in ('row', 'squeezed'):
            out.append(Scenario('d=%d m=%d measurements as %s' % (d, m, zk), run(d, m, 2, 2, 'batch', zk)))
    def undefined(kind, where):
        inner = run(1, 1, 2, 2)

        def f(c):
            ST.undefined = {'z%d[0]' % where: kind}
            c.true('the scenario has an undefined value', set(terms.atoms_of(vec('z%d' % where, 1)[0])) == set(ST.undefined))
            inner(c)
        return f

    for kind in ('nan', 'inf'):
        for where in range(2):
            out.append(Scenario('%s in measurement %d' % (kind, where), undefined(kind, where)))
    out.append(Scenario('default iterations', run(1, 1, 2, None)))
    for N in sizes.lengths(tier):
        out.append(Scenario('d=1 m=1 N=%d 2 iterations' % N, run(1, 1, N, 2)))
        out.append(Scenario('d=1 m=1 N=2 %d iterations' % N, run(1, 1, 2, N)))
    for N in sizes.huge():
        out.append(Scenario('series of length %d' % N, run(1, 1, N, 1)))
    for d in sizes.dims(tier):
        out.append(Scenario('d=%d m=1 N=2 2 iterations' % d, run(d, 1, 2, 2)))
        out.append(Scenario('d=1 m=%d N=2 2 iterations' % d, run(1, d, 2, 2)))
    for style in ('flat', 'batch'):
        out.append(Scenario('repeated calls, %s' % style, varying(style)))
    return out
