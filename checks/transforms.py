"""C05-C07: moment matching transforms;  C12: the projections built from them."""
import functools

import numpy as np

from sa import lib, terms
from sa.harness import Scenario
from sa.terms import F, ST, atom, sqrt, add, sub, mul, div
from sa.model import (vec, mat, spd, symm, inv, eye, zeros, scale, mm, sym, Ref, ref_of, gaussian, natural_of, relatives,
                      snapshot, unchanged, write_loc, Opaque, OpaqueTransform, draw_moments, NotGaussian, sources, draws_in)
from .gaussian import sees, near_identity
from . import sizes

DIMS = ((2, 3), (3, 2), (2, 1), (1, 2), (1, 1), (2, 2))


def rows_of(calls):
    """Distinct states at which a map was evaluated."""
    out, seen = [], set()
    for X, t, u, loc in calls:
        for r in (X.reshape(1, -1) if X.ndim == 1 else X):
            k = tuple(terms.fp(x) if isinstance(x, terms.Sym) else x for x in r)
            if k in seen:
                continue
            seen.add(k)
            if len(out) > 200 or not any(same_row(r, o) for o in out):
                out.append(r)
    return out


def same_row(a, b):
    return a.shape == b.shape and all(terms.same(x, y) for x, y in zip(a, b))


def affine_map(d, m, name='A'):
    A, b = mat(name, m, d), vec(name + '0', m)

    def f(x, t=None, u=None):
        return lib.asarr(x) @ A.T + b
    return f, A, b


def outer(a, b):
    return a.reshape(-1, 1) @ b.reshape(1, -1)


# ------------------------------------------------------------------ C05
def ut_check(c, T, func, g, m, C, n_plus_lambda, lam, alpha, beta, tag='', slack=None):
    """T(func, g) is the unscented transform of N(m, C) with the given parameters."""
    d = m.size
    k0 = len(func.calls)
    mean, cov, cross = c.call(T, func, g)
    pts = rows_of(func.calls[k0:])
    centre = [p for p in pts if same_row(p, m)]
    rest = [p for p in pts if not same_row(p, m)]
    if not c.true(tag + '2d+1 sigma points with the mean among them', len(centre) == 1 and len(rest) == 2 * d,
                  '%d points, %d at the mean' % (len(pts), len(centre)), '%d points, 1 at the mean' % (2 * d + 1),
                  func.calls[k0][3] if len(func.calls) > k0 else None):
        return
    half, left = [], list(rest)
    while left:
        p = left.pop(0)
        q = [r for r in left if same_row(p + r, scale(2, m))]
        if not c.true(tag + 'sigma points come in pairs symmetric about the mean', bool(q), list(p)):
            return
        left = [r for r in left if r is not q[0]]
        half.append((p, q[0]))
    S = zeros(d, d)
    for p, q in half:
        S = S + outer(p - m, p - m)
    S = scale(div(1, n_plus_lambda), S)
    if slack:
        c.true(tag + 'spread of the points after a failed factorisation: covariance plus at most 1e-8 I',
               near_identity(S - C), S - C)
    else:
        c.eq(tag + 'spread of the sigma points is (d + lambda) times the covariance', S, C)
    w = div(1, mul(2, n_plus_lambda))
    w0 = div(lam, n_plus_lambda)
    wc0 = add(w0, add(sub(1, mul(alpha, alpha)), beta))
    Y0 = func.ref(m)
    pts = [x for pq in half for x in pq]
    Ys = [func.ref(p) for p in pts]
    mu = scale(w0, Y0)
    for Y in Ys:
        mu = mu + scale(w, Y)
    Cy = scale(wc0, outer(Y0 - mu, Y0 - mu))
    X = zeros(d, func.m)
    for p, Y in zip(pts, Ys):
        Cy = Cy + scale(w, outer(Y - mu, Y - mu))
        X = X + scale(w, outer(p - m, Y - mu))
    c.eq(tag + 'mean', mean, mu)
    c.eq(tag + 'covariance', cov, Cy)
    c.eq(tag + 'cross-covariance', cross, X)


# uses of one transform in turn: nothing of one use may be seen in another
HISTORY = ((0, 0), (0, 1), (1, 1), (0, 0), (1, 0), (0, 2), (1, 2), (2, 0), (3, 0), (3, 1), (2, 1))


class At(functools.partial):
    """One map at different times: partial applications of the same function."""

    @property
    def m(self):
        return self.func.m

    @property
    def calls(self):
        return self.func.calls

    def ref(self, row):
        return self.func.ref(row, **self.keywords)

    def jac(self, row):
        return self.func.jac(row, **self.keywords)


def history(c, d, m, use, style='batch', mode='moment', rounds=HISTORY):
    funcs = [Opaque(n, d, m, style, uses=()) for n in ('f', 'k')]
    timed = Opaque('l', d, m, style, uses=('t',))
    funcs += [At(timed, t=atom('t%d' % i)) for i in (1, 2)]
    states = [(gaussian(c, n, d, mode), natural_of(c, n, d, mode)) for n in ('x', 'y')]
    # the same mean with another covariance: a third, different argument
    G = c.get('StateModel', 'Gaussian')
    C = spd('other.cov', d)
    states.append((c.call(G, states[0][1].mean.copy(), C.copy()), Ref.moments(states[0][1].mean, C)))
    for n, (i, j) in enumerate(rounds):
        use(n, funcs[i], states[j][0], states[j][1], 'use %d (map %d at state %d): ' % (n + 1, i + 1, j + 1))
    if rounds is HISTORY:
        for i, (what, g, r) in enumerate(relatives(c, d, mode)):
            use(len(rounds) + i, funcs[0], g, r, 'use %d (%s): ' % (len(rounds) + i + 1, what))


def params(kind):
    if kind == 'symbolic':
        return atom('alpha', pos=True), atom('beta'), atom('kappa', pos=True)
    return kind


PARAMS = ('symbolic', (1, 2, 1), (1, 0, 0), (F(1, 2), 2, 2), (F(1, 10), 2, F(3, 2)), (2, 0, 1), (1, 0, -1))


def c05(tier):
    out = []

    def general(d, m, p, mode, style):
        def f(c):
            UT = c.get('MomentMatching', 'UnscentedTransform')
            al, be, ka = params(p)
            npl = mul(mul(al, al), add(d, ka))
            lam = sub(npl, d)
            kw = dict(alpha=al, beta=be, kappa=ka)
            T = c.call(UT, d, **kw) if style == 'keywords' else c.call(UT, d, al, be, ka)
            g, r = gaussian(c, 'x', d, mode), natural_of(c, 'x', d, mode)
            func = Opaque('f', d, m, 'batch', uses=())
            ut_check(c, T, func, g, r.mean, r.cov, npl, lam, al, be)
            sees(c, 'argument afterwards', g, r)
            # the same transform again, on another state and map
            g2, r2 = gaussian(c, 'y', d, 'moment'), natural_of(c, 'y', d, 'moment')
            func2 = Opaque('k', d, m, 'batch', uses=())
            ut_check(c, T, func2, g2, r2.mean, r2.cov, npl, lam, al, be, 'second use: ')
        return f

    def two(c):
        """Two transforms of different dimension and parameters in one program."""
        UT = c.get('MomentMatching', 'UnscentedTransform')
        A = c.call(UT, 2, 1, 0, 1)
        B = c.call(UT, 3, F(1, 2), 2, 2)
        for T, d, al, be, ka in ((A, 2, 1, 0, 1), (B, 3, F(1, 2), 2, 2), (A, 2, 1, 0, 1)):
            npl = mul(mul(al, al), add(d, ka))
            func = Opaque('f%d' % d, d, 2, 'batch', uses=())
            g, r = gaussian(c, 'x%d' % d, d), natural_of(c, 'x%d' % d, d, 'moment')
            ut_check(c, T, func, g, r.mean, r.cov, npl, sub(npl, d), al, be, 'dimension %d: ' % d)

    def family(c):
        """Transforms which differ in one parameter only, in one program."""
        UT = c.get('MomentMatching', 'UnscentedTransform')
        base = (2, 1, 2, 1)
        kinds = [base, (3, 1, 2, 1), (2, F(1, 2), 2, 1), (2, 1, 0, 1), (2, 1, 2, 2), (1, 1, 2, 1), (2, 1, 2, 0)]
        Ts = [(c.call(UT, *k), k) for k in kinds]
        funcs = {d: Opaque('f%d' % d, d, 2, 'batch', uses=()) for d in (1, 2, 3)}
        for when in ('', 'again: '):
            for T, (d, al, be, ka) in Ts + [(c.call(UT, dim=k[0], alpha=k[1], beta=k[2], kappa=k[3]), k) for k in kinds[::-1]]:
                npl = mul(mul(al, al), add(d, ka))
                g, r = gaussian(c, 'x%d' % d, d), natural_of(c, 'x%d' % d, d, 'moment')
                ut_check(c, T, funcs[d], g, r.mean, r.cov, npl, sub(npl, d), al, be,
                         '%sd=%d alpha=%s beta=%s kappa=%s: ' % (when, d, al, be, ka))

    def reuse(d, m):
        def f(c):
            UT = c.get('MomentMatching', 'UnscentedTransform')
            Ts = [c.call(UT, d, 1, 2, 1), c.call(UT, d, 1, 2, 1)]

            def use(n, func, g, r, tag):
                ut_check(c, Ts[n == 4], func, g, r.mean, r.cov, F(d + 1), F(1), 1, 2, tag)
            history(c, d, m, use)
        return f

    def default(d):
        def f(c):
            UT = c.get('MomentMatching', 'UnscentedTransform')
            T = c.call(UT, dim=d) if d > 1 else c.call(UT)
            func = Opaque('f', d, 2, 'batch', uses=())
            g, r = gaussian(c, 'x', d), natural_of(c, 'x', d, 'moment')
            ut_check(c, T, func, g, r.mean, r.cov, F(d + 1), F(1), 1, 2)
        return f

    def affine(d, m, p):
        def f(c):
            UT = c.get('MomentMatching', 'UnscentedTransform')
            T = c.call(UT, d, *params(p))
            fun, A, b = affine_map(d, m)
            g, r = gaussian(c, 'x', d), natural_of(c, 'x', d, 'moment')
            mean, cov, cross = c.call(T, fun, g)
            c.eq('affine map: mean exact', mean, A @ r.mean + b)
            c.eq('affine map: covariance exact', cov, A @ r.cov @ A.T)
            c.eq('affine map: cross-covariance exact', cross, r.cov @ A.T)
        return f

    def rough(d, m):
        def f(c):
            UT, G = c.get('MomentMatching', 'UnscentedTransform'), c.get('StateModel', 'Gaussian')
            T = c.call(UT, d, 1, 2, 1)
            mean, C = vec('m', d), symm('C', d)
            g = c.call(G, mean, C)
            func = Opaque('f', d, m, 'batch', uses=())
            try:
                rough_ut(c, T, func, g, mean, C, d)
            except lib.LinAlgError:
                c.true('a factorisation failed', ST.oracle.faults > 0)
        return f

    def rough_ut(c, T, func, g, mean, C, d):
        k0 = len(func.calls)
        c.call(T, func, g)
        bad = ST.oracle.faults > 0
        func.calls[k0:] = []
        ut_check(c, T, func, g, mean, C, F(d + 1), F(1), 1, 2, slack=bad)

    for d, m in DIMS:
        for p in PARAMS:
            if p == (1, 0, -1) and d == 1:
                continue
            out.append(Scenario('d=%d m=%d (alpha,beta,kappa)=%s' % (d, m, fmt(p)),
                                general(d, m, p, 'moment', 'keywords')))
        out.append(Scenario('d=%d m=%d natural parameters' % (d, m), general(d, m, 'symbolic', 'natural', 'positional')))
        for p in PARAMS[:2]:
            out.append(Scenario('affine d=%d m=%d %s' % (d, m, fmt(p)), affine(d, m, p)))
        out.append(Scenario('factorisation fallback d=%d m=%d' % (d, m), rough(d, m), max_fault=3))
    for d in (1, 2, 3):
        # lambda = 0 although alpha is not one; lambda negative with a small spread
        for p in ((F(1, 2), 2, F(3 * d)), (2, 1, F(-3 * d, 4)), (F(1, 2), 0, F(d)), (F(3, 2), 2, F(1 - d))):
            if d + p[2] > 0:
                out.append(Scenario('d=%d m=2 (alpha,beta,kappa)=%s' % (d, fmt(p)), general(d, 2, p, 'moment', 'keywords')))
    out.append(Scenario('d=5 m=4', general(5, 4, (1, 0, -2), 'moment', 'keywords')))
    for d in (1, 2, 3):
        out.append(Scenario('default parameters d=%d' % d, default(d)))
    out.append(Scenario('two transforms', two))
    out.append(Scenario('transforms differing in one parameter', family))
    for d, m in DIMS:
        out.append(Scenario('one transform used in turn d=%d m=%d' % (d, m), reuse(d, m)))
    if tier == 'thorough':
        for d in (4, 6):
            out.append(Scenario('d=%d m=2' % d, general(d, 2, 'symbolic', 'moment', 'keywords'), tier='thorough'))
    for d in sizes.dims(tier):
        out.append(Scenario('d=%d m=3' % d, general(d, 3, (1, 2, 1), 'moment', 'keywords')))
    for m in sizes.dims(tier):
        out.append(Scenario('d=2 m=%d' % m, general(2, m, (1, 2, 1), 'moment', 'keywords')))
    return out


def fmt(p):
    return p if isinstance(p, str) else '(%s)' % ', '.join(str(x) for x in p)


# ------------------------------------------------------------------ C06
def c06(tier):
    out = []

    def general(d, m, mode, style):
        def f(c):
            TT = c.get('MomentMatching', 'TaylorTransform')
            T = c.call(TT, d)
            for rnd, (gn, fn_) in enumerate((('x', 'f'), ('y', 'k'))):
                g, r = gaussian(c, gn, d, mode), natural_of(c, gn, d, mode)
                func = Opaque(fn_, d, m, style, uses=())
                mean, cov, cross = c.call(T, func, g)
                J = func.jac(r.mean)
                t = '' if not rnd else 'second use: '
                c.eq(t + 'mean is the map at the mean', mean, func.ref(r.mean), shape=m > 1)
                c.eq(t + 'covariance is J C J^T', cov, J @ r.cov @ J.T)
                c.eq(t + 'cross-covariance is C J^T', cross, r.cov @ J.T)
                sees(c, t + 'argument afterwards', g, r)
        return f

    def affine(d, m):
        def f(c):
            T = c.call(c.get('MomentMatching', 'TaylorTransform'), d)
            fun, A, b = affine_map(d, m)
            g, r = gaussian(c, 'x', d), natural_of(c, 'x', d, 'moment')
            mean, cov, cross = c.call(T, fun, g)
            c.eq('affine map: mean exact', mean, A @ r.mean + b, shape=m > 1)
            c.eq('affine map: covariance exact', cov, A @ r.cov @ A.T)
            c.eq('affine map: cross-covariance exact', cross, r.cov @ A.T)
        return f

    def reuse(d, m, style):
        def f(c):
            TT = c.get('MomentMatching', 'TaylorTransform')
            Ts = [c.call(TT, d), c.call(TT, d)]

            def use(n, func, g, r, t):
                mean, cov, cross = c.call(Ts[n == 4], func, g)
                J = func.jac(r.mean)
                c.eq(t + 'mean is the map at the mean', mean, func.ref(r.mean), shape=m > 1)
                c.eq(t + 'covariance is J C J^T', cov, J @ r.cov @ J.T)
                c.eq(t + 'cross-covariance is C J^T', cross, r.cov @ J.T)
            history(c, d, m, use, style)
        return f

    def default(c):
        T = c.call(c.get('MomentMatching', 'TaylorTransform'))
        func = Opaque('f', 1, 1, 'flat', uses=())
        g, r = gaussian(c, 'x', 1), natural_of(c, 'x', 1, 'moment')
        mean, cov, cross = c.call(T, func, g)
        J = func.jac(r.mean)
        c.eq('mean', mean, func.ref(r.mean), shape=False)
        c.eq('cov', cov, J @ r.cov @ J.T)
        c.eq('cross', cross, r.cov @ J.T)

    def numerical(d, m, given, style='flat'):
        """The numerical Jacobian is the central difference in every component; exact for quadratic maps."""
        def f(c):
            T = c.call(c.get('MomentMatching', 'TaylorTransform'), d)
            x = vec('x', d)
            e = atom('eps', pos=True) if given else F(1, 10000)
            func = Opaque('f', d, m, style, uses=())
            p = x.copy()
            J = c.call(T.numerical_jacobian, func, p, *([e] if given else []))
            want = zeros(m, d)
            for i in range(d):
                a, b = x.copy(), x.copy()
                a[i], b[i] = add(x[i], e), sub(x[i], e)
                want[:, i] = scale(div(1, mul(2, e)), func.ref(a) - func.ref(b))
            c.eq('central differences, one column per component of the state', J, want, shape=style == 'flat')
            c.true('the point keeps its values', all(terms.same(u, v) for u, v in zip(p, x)))
        return f

    for d, m in DIMS:
        for given in (False, True):
            out.append(Scenario('numerical Jacobian d=%d m=%d%s' % (d, m, ', own step' if given else ''),
                                numerical(d, m, given)))
    for d, m in DIMS + ((3, 3), (4, 2)):
        for mode in ('moment', 'natural'):
            for style in ('flat', 'batch'):
                out.append(Scenario('d=%d m=%d %s, map returns %s' % (
                    d, m, mode, 'a vector' if style == 'flat' else 'a row matrix'), general(d, m, mode, style)))
        out.append(Scenario('affine d=%d m=%d' % (d, m), affine(d, m)))
        out.append(Scenario('one transform used in turn d=%d m=%d' % (d, m), reuse(d, m, 'flat')))
        out.append(Scenario('one transform used in turn d=%d m=%d, row matrix' % (d, m), reuse(d, m, 'batch')))
    out.append(Scenario('default dimension', default))
    for d in sizes.dims(tier):
        out.append(Scenario('d=%d m=2 moment' % d, general(d, 2, 'moment', 'batch')))
        out.append(Scenario('d=2 m=%d moment' % d, general(2, d, 'moment', 'batch')))
    return out


# ------------------------------------------------------------------ C07
def c07(tier):
    out = []

    def general(d, m, N, mode, rounds=((0, 0), (1, 1))):
        def f(c):
            MC = c.get('MomentMatching', 'MonteCarloTransform')
            T = c.call(MC, d, N)
            before = []

            def use(rnd, func, g, r, t):
                k0 = len(func.calls)
                mean, cov, cross = c.call(T, func, g)
                pts = rows_of(func.calls[k0:])
                if not c.true(t + 'the map is evaluated on the requested number of samples', len(pts) == N, len(pts), N,
                              func.calls[k0][3] if len(func.calls) > k0 else None):
                    return
                try:
                    mu, S = draw_moments([x for p in pts for x in p])
                except NotGaussian as e:
                    c.fail(t + 'samples are Gaussian', str(e))
                    return
                c.eq(t + 'samples have the mean of the state', mu.reshape(N, d), np.stack([r.mean] * N))
                want = zeros(N * d, N * d)
                for i in range(N):
                    want[i * d:(i + 1) * d, i * d:(i + 1) * d] = r.cov
                c.eq(t + 'samples are independent with the covariance of the state', S, want)
                Y = [func.ref(p) for p in pts]
                ym, xm = avg(Y), avg(pts)
                w = F(1, N - 1)
                Cy, X = zeros(m, m), zeros(d, m)
                for p, y in zip(pts, Y):
                    Cy = Cy + scale(w, outer(y - ym, y - ym))
                    X = X + scale(w, outer(p - xm, y - ym))
                c.eq(t + 'mean is the sample mean', mean, ym)
                c.eq(t + 'covariance is the unbiased sample covariance', cov, Cy)
                c.eq(t + 'cross-covariance is the unbiased sample cross-covariance', cross, X)
                sees(c, t + 'argument afterwards', g, r)
                now = set().union(*[draws_in(p) for p in pts])
                c.true(t + 'every use draws new samples', not any(now & b for b in before))
                before.append(now)
            history(c, d, m, use, mode=mode, rounds=rounds)
        return f

    def many(N):
        """Large sample counts: the sample moments of N different draws."""
        def f(c):
            MC = c.get('MomentMatching', 'MonteCarloTransform')
            T = c.call(MC, 1, N)
            g = gaussian(c, 'x', 1)
            func = Opaque('f', 1, 1, 'batch', ())
            mean, cov, cross = c.call(T, func, g)
            pts = rows_of(func.calls)
            if not c.true('the map is evaluated on the requested number of samples', len(pts) == N, len(pts), N):
                return
            c.true('the samples are different draws', len(set().union(*[draws_in(p) for p in pts])) == N)
            Y = [func.ref(p) for p in pts]
            ym, xm = avg(Y), avg(pts)
            Cy = Cx = F(0)
            for p, y in zip(pts, Y):
                e = sub(y[0], ym[0])
                Cy = add(Cy, mul(e, e))
                Cx = add(Cx, mul(sub(p[0], xm[0]), e))
            w = F(1, N - 1)
            c.eq('mean is the sample mean', mean, ym)
            c.eq('covariance is the unbiased sample covariance', cov, lib.asarr([[mul(w, Cy)]]))
            c.eq('cross-covariance is the unbiased sample cross-covariance', cross, lib.asarr([[mul(w, Cx)]]))
        return f

    def sampling(d, n):
        def f(c):
            g, r = gaussian(c, 'x', d), natural_of(c, 'x', d, 'moment')
            S = lib.asarr(c.call(g.sample, n))
            c.true('one row per sample', S.shape == (n, d), S.shape, (n, d))
            try:
                mu, V = draw_moments(list(S.flat))
            except NotGaussian as e:
                c.fail('samples are Gaussian', str(e))
                return
            c.eq('samples have the mean of the state', mu.reshape(n, d), np.stack([r.mean] * n))
            want = zeros(n * d, n * d)
            for i in range(n):
                want[i * d:(i + 1) * d, i * d:(i + 1) * d] = r.cov
            c.eq('samples are independent with the covariance of the state', V, want)
            c.true('drawn from the seeded global generator', sources(S.flat) == {'global'}, sources(S.flat))
        return f

    for d, m in DIMS:
        for N in (2, 3, 5):
            out.append(Scenario('d=%d m=%d samples=%d' % (d, m, N), general(d, m, N, 'moment')))
        out.append(Scenario('d=%d m=%d natural parameters' % (d, m), general(d, m, 3, 'natural')))
        out.append(Scenario('one transform used in turn d=%d m=%d' % (d, m), general(d, m, 2, 'moment', HISTORY)))
    for d in (1, 2, 3):
        for n in (1, 4):
            out.append(Scenario('sampling d=%d n=%d' % (d, n), sampling(d, n)))
    for n in sizes.lengths(tier):
        out.append(Scenario('d=1 m=1 samples=%d' % n, general(1, 1, n, 'moment')))
        out.append(Scenario('sampling d=2 n=%d' % n, sampling(2, n)))
    for n in sizes.around(1100, 111, (), 3):
        out.append(Scenario('d=1 m=1 samples=%d' % n, general(1, 1, n, 'moment')))
    for n in sizes.around(12000, 1102, (), 3) + sizes.around(60000, 12001, (), 1) + [1500]:
        out.append(Scenario('d=1 m=1 samples=%d' % n, many(n)))
    for d in sizes.dims(tier):
        out.append(Scenario('d=%d m=2 samples=3' % d, general(d, 2, 3, 'moment')))
        out.append(Scenario('d=2 m=%d samples=3' % d, general(2, d, 3, 'moment')))
        out.append(Scenario('sampling d=%d n=3' % d, sampling(d, 3)))
    return out


def avg(xs):
    s = xs[0]
    for x in xs[1:]:
        s = s + x
    return scale(F(1, len(xs)), s)


# ------------------------------------------------------------------ C12
POWERS = [F(1, 1000), F(1, 4), F(1, 2), F(3, 4), F(9, 10), 1 - F(1, 10 ** 4), F(1), 1 + F(1, 10 ** 4), F(5, 4), F(3, 2), F(2)]


def c12(tier):
    out = []

    def make(c, d, m, power, damping, tables='opaque'):
        E = c.get('MomentMatching.Estimator', 'Estimator')
        tf, th = OpaqueTransform(c.it, 'TM', d, d), OpaqueTransform(c.it, 'MM', d, m)
        Q, R = spd('Q', d), spd('R', m)
        e = c.call(E, trans_map=tf, meas_map=th, trans_noise=Q, meas_noise=R, power=power, damping=damping)
        return e, tf, th, Q.copy(), R.copy(), snapshot(Q, R)

    def check_noise(c, e, snap):
        c.true('noise covariances are left as they were', unchanged(snap), loc=None)

    def trans(d, mode):
        def f(c):
            p = atom('power', pos=True)
            e, tf, th, Q, R, snap = make(c, d, 2, p, atom('damping', pos=True))
            g, r = gaussian(c, 'x', d, mode), natural_of(c, 'x', d, mode)
            func = Opaque('f', d, d, 'flat', uses=())
            for again in ('', 'again: '):
                s = c.call(e.proj_trans, func, g)
                mu, C, X = tf.ref(func.ref(vec('probe%d' % d, d)), r.mean, r.cov)
                c.eq(again + 'mean of the prediction', s.mean, mu)
                c.eq(again + 'covariance of the prediction: (C + Q) / power', s.cov, scale(div(1, p), C + Q))
                sees(c, again + 'argument', g, r)
            check_noise(c, e, snap)
        return f

    def meas(d, m, mode, mshape):
        def f(c):
            p = atom('power', pos=True)
            e, tf, th, Q, R, snap = make(c, d, m, p, atom('damping', pos=True))
            g, r = gaussian(c, 'x', d, mode), natural_of(c, 'x', d, mode)
            func = Opaque('h', d, m, 'flat', uses=())
            z = vec('z', m)
            Z = z.copy() if mshape == 'vector' else (z[0] if mshape == 'scalar' else list(z))
            sz = snapshot(Z) if mshape == 'vector' else []
            for again in ('', 'again: '):
                s = c.call(e.proj_meas, func, g, Z)
                mu, C, X = th.ref(func.ref(vec('probe%d' % d, d)), r.mean, r.cov)
                S = C + scale(div(1, p), R)
                K = X @ inv(S)
                c.eq(again + 'mean of the update', s.mean, r.mean + K @ (z - mu))
                c.eq(again + 'covariance of the update', s.cov, r.cov - K @ X.T)
                sees(c, again + 'argument', g, r)
            c.true('measurement left as it was', unchanged(sz))
            check_noise(c, e, snap)
        return f

    def back(d, nxt, mode, cavity, power=None):
        def f(c):
            p = atom('power', pos=True) if power is None else power
            e, tf, th, Q, R, snap = make(c, d, 2, p, atom('damping', pos=True))
            g, r = gaussian(c, 'x', d, mode), natural_of(c, 'x', d, mode)
            k, rk = gaussian(c, 'k', d, cavity), natural_of(c, 'k', d, cavity)
            n, rn = gaussian(c, 'n', d, 'moment'), natural_of(c, 'n', d, 'moment')
            func = Opaque('f', d, d, 'flat', uses=())
            for again in ('', 'again: '):
                args = (func, g, k) + ((n,) if nxt else ())
                s = c.call(e.proj_back, *args)
                mu, C, X = tf.ref(func.ref(vec('probe%d' % d, d)), r.mean, r.cov)
                A = C + scale(div(1, p), Q)
                J = X @ inv(A)
                if nxt and (power == 1 or c.bindings.get('power') == 1):
                    tgt = rn
                else:
                    tgt = Ref.moments(mu, A) * (rk ** p)
                c.eq(again + 'mean of the smoothed state', s.mean, r.mean + J @ (tgt.mean - mu))
                c.eq(again + 'covariance of the smoothed state', s.cov, r.cov + J @ (tgt.cov - A) @ J.T)
                sees(c, again + 'argument', g, r)
                sees(c, again + 'forward cavity', k, rk)
                sees(c, again + 'next state', n, rn)
            check_noise(c, e, snap)
        return f

    def in_turn(power):
        """Projections of one estimator used in turn with other maps, states and measurements."""
        def f(c):
            d, m = 2, 2
            e, tf, th, Q, R, snap = make(c, d, m, power, F(1, 3))
            maps = [Opaque('f%d' % i, d, d, 'flat', uses=()) for i in range(2)]
            meas = [Opaque('h%d' % i, d, m, 'flat', uses=()) for i in range(2)]
            names = ('x', 'y')
            st = [(gaussian(c, n, d), natural_of(c, n, d, 'moment')) for n in names]
            cav = [(gaussian(c, n, d, 'natural'), natural_of(c, n, d, 'natural')) for n in ('k', 'l')]
            nxt = [(gaussian(c, n, d), natural_of(c, n, d, 'moment')) for n in ('n', 'o')]
            Z = vec('z', m)
            z = Z.copy()
            probe = vec('probe%d' % d, d)

            def go(i, k, j, q, w):
                t = 'map %d, state %d: ' % (i + 1, k + 1)
                g, r = st[k]
                s = c.call(e.proj_trans, maps[i], g)
                mu, C, X = tf.ref(maps[i].ref(probe), r.mean, r.cov)
                c.eq(t + 'mean of the prediction', s.mean, mu)
                c.eq(t + 'covariance of the prediction', s.cov, scale(div(1, power), C + Q))
                A = C + scale(div(1, power), Q)
                J = X @ inv(A)
                tgt = nxt[q][1] if w and power == 1 else Ref.moments(mu, A) * (cav[j][1] ** power)
                s = c.call(e.proj_back, maps[i], g, cav[j][0], *((nxt[q][0],) if w else ()))
                c.eq(t + 'mean of the smoothed state', s.mean, r.mean + J @ (tgt.mean - mu))
                c.eq(t + 'covariance of the smoothed state', s.cov, r.cov + J @ (tgt.cov - A) @ J.T)
                s = c.call(e.proj_meas, meas[i], g, Z)
                mu, C, X = th.ref(meas[i].ref(probe), r.mean, r.cov)
                K = X @ inv(C + scale(div(1, power), R))
                c.eq(t + 'mean of the update', s.mean, r.mean + K @ (z - mu))
                c.eq(t + 'covariance of the update', s.cov, r.cov - K @ X.T)
            for _, g, r in relatives(c, d):
                st[0] = g, r
                go(0, 0, 0, 0, True)
            for _, g, r in relatives(c, d, 'natural', ('k', 'l')):
                cav[0] = g, r
                go(0, 0, 0, 0, False)
            go(0, 1, 0, 0, True)
            go(1, 1, 0, 1, True)
            go(1, 1, 1, 1, True)
            Z[:] = vec('w', m)
            z = vec('w', m)
            go(1, 1, 1, 1, False)
            go(0, 0, 1, 0, True)
        return f

    def defaults(c):
        E = c.get('MomentMatching.Estimator', 'Estimator')
        e = c.call(E, trans_map=None, meas_map=None)
        c.eq('default power', e.power, 1)
        c.eq('default damping', e.damping, 1)

    def two(c):
        """Two estimators with different settings do not interfere."""
        E = c.get('MomentMatching.Estimator', 'Estimator')
        mk = []
        for i, p in ((0, F(1, 2)), (1, F(3, 4))):
            tf = OpaqueTransform(c.it, 'TM%d' % i, 2, 2)
            Q = spd('Q%d' % i, 2)
            mk.append((c.call(E, trans_map=tf, meas_map=tf, trans_noise=Q, meas_noise=Q, power=p), tf, Q, p))
        g, r = gaussian(c, 'x', 2), natural_of(c, 'x', 2, 'moment')
        func = Opaque('f', 2, 2, 'flat', uses=())
        for e, tf, Q, p in mk + mk[:1]:
            s = c.call(e.proj_trans, func, g)
            mu, C, X = tf.ref(func.ref(vec('probe2', 2)), r.mean, r.cov)
            c.eq('mean', s.mean, mu)
            c.eq('cov', s.cov, scale(div(1, p), C + Q))

    def fails(which, bad, power=1):
        """A projection whose covariance is not positive definite is refused, not returned."""
        def f(c):
            E = c.get('MomentMatching.Estimator', 'Estimator')
            d = len(bad)
            bad_ = lib.to_array([[F(x) for x in r] for r in bad])
            noise = lib.eye(d)
            target = scale(F(power), bad_) - noise if which == 'trans' else bad_ - scale(div(1, F(power)), noise)

            class Indef(OpaqueTransform):
                def ref(self, image, mean, cov):
                    mu, C, X = super().ref(image, mean, cov)
                    return mu, target.copy(), X
            T = Indef(c.it, 'T', d, d)
            e = c.call(E, trans_map=T, meas_map=T, trans_noise=noise, meas_noise=noise.copy(), power=power)
            g = gaussian(c, 'x', d)
            func = Opaque('f', d, d, 'flat', uses=())
            try:
                if which == 'trans':
                    c.call(e.proj_trans, func, g)
                else:
                    c.call(e.proj_meas, func, g, vec('z', d))
            except (lib.LinAlgError, lib.LinAlgWarning):
                c.true('an indefinite predicted covariance raises LinAlgError', True)
                return
            c.fail('an indefinite predicted covariance raises LinAlgError', 'a state was returned')
        return f

    S = dict(special=('power', 'damping'))
    for d in (1, 2, 3):
        for mode in ('moment', 'natural'):
            out.append(Scenario('time projection d=%d %s' % (d, mode), trans(d, mode), **S))
            for nxt in (False, True):
                for cav in ('moment', 'natural'):
                    out.append(Scenario('backward projection d=%d %s/%s%s' % (
                        d, mode, cav, ' with next state' if nxt else ''), back(d, nxt, mode, cav), **S))
    for d, m in DIMS:
        for mode in ('moment', 'natural'):
            for ms in ('vector', 'list') + (('scalar',) if m == 1 else ()):
                out.append(Scenario('measurement projection d=%d m=%d %s, %s measurement' % (d, m, mode, ms),
                                    meas(d, m, mode, ms), **S))
    def undefined(kind, d=1, m=1, where=(0,)):
        inner = meas(d, m, 'moment', 'vector')

        def f(c):
            ST.undefined = {'z[%d]' % i: kind for i in where}
            c.true('the scenario has an undefined value', set(terms.atoms_of(vec('z', m)[where[0]])) <= set(ST.undefined))
            inner(c)
        return f

    for kind in ('nan', 'inf'):
        out.append(Scenario('measurement projection, %s in the measurement' % kind, undefined(kind), **S))
        for d, m, where in ((2, 2, (0,)), (1, 3, (1,)), (2, 3, (0, 1, 2)), (2, 2, (1,))):
            out.append(Scenario('measurement projection d=%d m=%d, %s in components %s of the measurement' % (
                d, m, kind, ','.join(map(str, where))), undefined(kind, d, m, where), **S))
    for d in sizes.dims(tier):
        out.append(Scenario('time projection d=%d' % d, trans(d, 'moment'), **S))
        out.append(Scenario('backward projection d=%d' % d, back(d, True, 'moment', 'natural'), **S))
        for dd, m in ((d, 2), (2, d)):
            out.append(Scenario('measurement projection d=%d m=%d' % (dd, m), meas(dd, m, 'moment', 'vector'), **S))
    for p in POWERS:
        for nxt in (False, True):
            out.append(Scenario('backward projection, power %s%s' % (p, ' with next state' if nxt else ''),
                                back(2, nxt, 'moment', 'moment', p)))
    for p in (F(1), F(1, 2), F(9, 10)):
        out.append(Scenario('projections in turn, power %s' % p, in_turn(p)))
    out.append(Scenario('defaults', defaults))
    out.append(Scenario('two estimators', two))
    e9 = F(1, 10 ** 9)
    shapes = [('negative definite', [[-9, 0], [0, -9]]), ('negative definite, d=1', [[-9]]), ('slightly negative', [[-e9]]),
              ('positive diagonal', [[1, 3], [3, 1]]), ('one negative direction', [[2, 0], [0, -e9]]),
              ('one negative direction, first', [[-e9, 0], [0, 5]]), ('just indefinite', [[1, 1 + e9], [1 + e9, 1]]),
              ('two negative directions of three', [[4, 0, 0], [0, -1, 0], [0, 0, -1]]),
              ('positive minors, d=3', [[2, 1, 3], [1, 2, 3], [3, 3, 5]])]
    for name, M in shapes:
        for p in (1, F(1, 2)):
            for which, what in (('trans', 'prediction'), ('meas', 'innovation')):
                out.append(Scenario('indefinite %s: %s, power %s' % (what, name, p), fails(which, M, p)))
    return out
