"""Abstract inputs (symbolic Gaussians, opaque systems, opaque transforms) and reference definitions."""
import numpy as np

from . import terms, lib
from .terms import ST, Sym, F, atom, fn, add, sub, mul, div


def vec(name, n):
    a = np.empty((n,), dtype=object)
    for i in range(n):
        a[i] = atom('%s[%d]' % (name, i))
    return a


def mat(name, r, c):
    a = np.empty((r, c), dtype=object)
    for i in range(r):
        for j in range(c):
            a[i, j] = atom('%s[%d,%d]' % (name, i, j))
    return a


def spd(name, n, assume=True):
    """A symmetric positive definite matrix."""
    a = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(i + 1):
            a[i, j] = a[j, i] = atom('%s[%d,%d]' % (name, i, j), pos=(i == j))
    if assume:
        lib.assume_pd(a)
        ST.spd[name] = n
    return a


def symm(name, n):
    a = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(i + 1):
            a[i, j] = a[j, i] = atom('%s[%d,%d]' % (name, i, j))
    return a


def const_arr(x):
    return lib.to_array(x)


# ------------------------------------------------------------------ reference linear algebra
def inv(A):
    try:
        return lib.elim_solve(np.array(A), lib.eye(A.shape[0]))
    except lib.LinAlgError:
        if ST.bindings:
            # a special case in which the reference itself is undefined
            from .harness import Skip
            raise Skip('singular reference')
        raise


def eye(n):
    return lib.eye(n)


def zeros(*s):
    return lib.full(s, F(0))


def T(A):
    return A.T


def scale(c, A):
    return np.frompyfunc(lambda x: mul(c, x), 1, 1)(A)


def mm(*ms):
    r = ms[0]
    for m in ms[1:]:
        r = r @ m
    return r


def sym(A):
    return scale(F(1, 2), A + A.T)


class Ref:
    """Reference Gaussian in natural parameters (precision, shift)."""

    def __init__(self, precision, shift):
        self.P, self.h = precision, shift
        self._m = None

    @classmethod
    def moments(cls, mean, cov):
        P = inv(cov)
        r = cls(P, P @ mean)
        r._m = (mean, cov)
        return r

    @property
    def m(self):
        if self._m is None:
            c = inv(self.P)
            self._m = (c @ self.h, c)
        return self._m

    @property
    def mean(self):
        return self.m[0]

    @property
    def cov(self):
        return self.m[1]

    def __mul__(self, o):
        return Ref(self.P + o.P, self.h + o.h)

    def __truediv__(self, o):
        return Ref(self.P - o.P, self.h - o.h)

    def __pow__(self, c):
        return Ref(scale(c, self.P), scale(c, self.h))


def zero_factor(n):
    return Ref(zeros(n, n), zeros(n))


def ref_of(g):
    """Reference copy of a program Gaussian, from its natural parameters."""
    return Ref(lib.asarr(g.precision).copy(), lib.asarr(g.shift).copy())


# ------------------------------------------------------------------ opaque system maps
class Opaque:
    """An uninterpreted differentiable map R^d -> R^m (of the state, and of t and u when given)."""

    def __init__(self, name, d, m, style='flat', uses=('t', 'u')):
        self.name, self.d, self.m, self.style, self.uses = name, d, m, style, uses
        self.calls = []
        self.__name__ = name

    def comp(self, i, row, extra):
        args = list(row) + list(extra)

        def dv(k):
            return fn('D%d %s_%d' % (k, self.name, i), *[terms.strip(a) for a in args], deriv=None)
        return fn('%s_%d' % (self.name, i), *args, deriv=dv)

    def extra(self, t, u):
        out = []
        if 't' in self.uses:
            out.append(terms.atom('None', plain=True) if t is None else sc(t))
        if 'u' in self.uses:
            out.append(terms.atom('None', plain=True) if u is None else sc(u))
        return out

    def ref(self, row, t=None, u=None):
        """The value at one state, as a vector."""
        return lib.to_array([self.comp(i, row, self.extra(t, u)) for i in range(self.m)])

    def jac(self, row, t=None, u=None):
        e = self.extra(t, u)
        args = list(row) + e
        J = np.empty((self.m, self.d), dtype=object)
        for i in range(self.m):
            for k in range(self.d):
                J[i, k] = fn('D%d %s_%d' % (k, self.name, i), *args)
        return J

    def __call__(self, x, t=None, u=None, *args, **kw):
        if args or kw:
            raise TypeError('%s() got unexpected arguments' % self.name)
        X = lib.asarr(x)
        self.calls.append((X.copy(), t, u, ST.loc))
        e = self.extra(t, u)
        if X.ndim == 0:
            X = X.reshape(1)
        if X.shape[-1] != self.d:
            raise ValueError('%s: state of dimension %d expected, got shape %s' % (self.name, self.d, X.shape))
        if X.ndim == 1:
            r = lib.to_array([self.comp(i, X, e) for i in range(self.m)])
            return r if self.style == 'flat' else r[None, :]
        if X.ndim == 2:
            out = np.empty((X.shape[0], self.m), dtype=object)
            for n in range(X.shape[0]):
                for i in range(self.m):
                    out[n, i] = self.comp(i, X[n], e)
            return out
        raise terms.Unsupported('system map on %d-d input' % X.ndim)


def sc(v):
    if isinstance(v, np.ndarray):
        return v.reshape(-1)[0]
    return v


class SystemNoise:
    def __init__(self, cov):
        self.cov = cov
        self.dimension = cov.shape[0]
        self.Q = cov


def make_system(c, d, m, style='flat', dt=None, prefix='', uses=('t', 'u'), meas_uses=('t', 'u')):
    """A DynamicSystemModel of the program built over opaque maps and symbolic noise covariances."""
    DSM, GN = c.get('Systems', 'DynamicSystemModel'), c.get('Systems', 'GaussianNoise')
    G = c.get('StateModel', 'Gaussian')
    f = Opaque(prefix + 'f', d, d, style, uses)
    h = Opaque(prefix + 'h', d, m, style, meas_uses)
    Q, R = spd(prefix + 'Q', d), spd(prefix + 'R', m)
    m0, P0 = vec(prefix + 'm0', d), spd(prefix + 'P0', d)
    init = c.call(G, m0, P0)
    dt = atom(prefix + 'dt', pos=True) if dt is None else dt
    s = c.call(DSM, system_dim=d, measurement_dim=m, transition=f, measurement=h,
               system_noise=c.call(GN, dimension=d, cov=Q), measurement_noise=c.call(GN, dimension=m, cov=R),
               init_distribution=init, dt=dt)
    s.sa = dict(f=f, h=h, Q=Q.copy(), R=R.copy(), m0=m0.copy(), P0=P0.copy(), dt=dt, init=init, d=d, m=m)
    return s


# ------------------------------------------------------------------ opaque moment matching
def func_key(func, d, it):
    """Value number of a map: its image at a fixed symbolic point."""
    p = vec('probe%d' % d, d)
    saved = lib.ST.loc
    r = lib.asarr(it.call(func, (p,), {}))
    lib.ST.loc = saved
    return r


class OpaqueTransform:
    """An uninterpreted moment matching transform: any map (function, state) -> (mean, cov, cross)."""

    def __init__(self, it, name, d, m):
        self.it, self.name, self.d, self.m = it, name, d, m
        self.calls = []

    def ref(self, image, mean, cov):
        key = fn('%s' % self.name, *(list(lib.asarr(image).reshape(-1)) + list(mean.flat) + list(cov.flat)))
        mean_ = lib.to_array([fn('mean%d' % i, key) for i in range(self.m)])
        C = np.empty((self.m, self.m), dtype=object)
        for i in range(self.m):
            for j in range(i + 1):
                C[i, j] = C[j, i] = fn('cov%d%d' % (i, j), key, pos=(i == j))
        X = np.empty((self.d, self.m), dtype=object)
        for i in range(self.d):
            for j in range(self.m):
                X[i, j] = fn('cross%d%d' % (i, j), key)
        lib.assume_pd(C)
        return mean_, C, X

    def __call__(self, func, state):
        im = func_key(func, self.d, self.it)
        mean, cov = lib.asarr(state.mean), lib.asarr(state.cov)
        self.calls.append((im, mean.copy(), cov.copy(), ST.loc))
        return self.ref(im, mean, cov)


def gaussian(c, name, d, mode='moment'):
    G = c.get('StateModel', 'Gaussian')
    if mode == 'moment':
        return c.call(G, vec(name + '.mean', d), spd(name + '.cov', d))
    return c.call(G.from_natural, spd(name + '.prec', d), vec(name + '.shift', d))


def natural_of(c, name, d, mode):
    if mode == 'moment':
        return Ref.moments(vec(name + '.mean', d), spd(name + '.cov', d))
    return Ref(spd(name + '.prec', d), vec(name + '.shift', d))


def twist(C, k=0):
    """The covariance of the state with component k negated: same diagonal, trace and determinant."""
    C = C.copy()
    for i in range(C.shape[0]):
        if i != k:
            C[i, k] = sub(0, C[i, k])
            C[k, i] = sub(0, C[k, i])
    lib.assume_pd(C)
    return C


def relatives(c, d, mode='moment', names=('x', 'y')):
    """States which agree in part: the same mean, covariance, variances, trace or determinant, and differ elsewhere.

    Whatever is remembered about one of them under such a part is wrong for the next.
    """
    G = c.get('StateModel', 'Gaussian')
    a, b = names
    if mode == 'moment':
        m, m2, C, C2 = vec(a + '.mean', d), vec(b + '.mean', d), spd(a + '.cov', d), spd(b + '.cov', d)
        make = lambda m, C: (c.call(G, m.copy(), C.copy()), Ref.moments(m, C))
    else:
        m, m2, C, C2 = vec(a + '.shift', d), vec(b + '.shift', d), spd(a + '.prec', d), spd(b + '.prec', d)
        make = lambda m, C: (c.call(G.from_natural, C.copy(), m.copy()), Ref(C, m))
    swapped = m.copy()
    swapped[0], swapped[-1] = m[-1], m[0]
    out = [('state', m, C), ('same location, other spread', m, C2), ('same spread, other location', m2, C)]
    if d > 1:
        out += [('same variances, other correlations', m, twist(C)), ('same variances again', m2, twist(C)),
                ('location with two components exchanged', swapped, C)]
    out.append(('location negated', np.array([sub(0, v) for v in m], dtype=object), C))
    out.append(('the first state again', m, C))
    return Each(lambda: ((n,) + make(m, C) for n, m, C in out))


class Each:
    """Things made one at a time, each gone before the next but one is made."""

    def __init__(self, make):
        self.make = make

    def __iter__(self):
        return self.make()


def attributes(o):
    """Stored attributes of an object, those held in __slots__ included."""
    out = dict(getattr(o, '__dict__', None) or {})
    for k in type(o).__mro__:
        names = k.__dict__.get('__slots__', ())
        for n in (names,) if isinstance(names, str) else names:
            if n not in ('__dict__', '__weakref__'):
                try:
                    out[n] = getattr(o, n)
                except AttributeError:
                    pass
    return sorted(out.items())


def snapshot(*objs):
    """Components of arrays (and of the arrays held by objects) for later mutation checks."""
    out = []
    for o in objs:
        if isinstance(o, np.ndarray):
            out.append((o, o.copy()))
        elif isinstance(o, (list, tuple)):
            out.extend(snapshot(*o))
        else:
            for k, v in attributes(o):
                if isinstance(v, np.ndarray):
                    out.append((v, v.copy()))
    return out


def unchanged(snap):
    for a, b in snap:
        for x, y in zip(a.flat, b.flat):
            if not (x is y or terms.same(x, y)):
                return False
    return True


def write_loc(c, arr):
    """Where the analysed program writes into the storage of arr."""
    for loc, w in c.it.writes:
        try:
            if np.shares_memory(w, arr):
                return loc
        except Exception:
            pass
    return None


# ------------------------------------------------------------------ random draws
def _has_draw(x, memo):
    if not isinstance(x, Sym):
        return False
    k = id(x)
    if k in memo:
        return memo[k][0]
    r = terms.fp(x) in lib.Draws.meta or any(_has_draw(a, memo) for a in x.args)
    memo[k] = (r, x)
    return r


def linear_form(x, memo=None):
    """x as constant + sum of coefficient * (draw or opaque term containing draws)."""
    memo = {} if memo is None else memo

    def go(x):
        if not _has_draw(x, memo):
            return {}, x
        k = terms.fp(x)
        if k in lib.Draws.meta:
            return {k: (F(1), x)}, F(0)
        if x.op == 'add':
            a, ca = go(x.args[0])
            b, cb = go(x.args[1])
            out = dict(a)
            for q, (v, s) in b.items():
                out[q] = (add(out[q][0], v) if q in out else v, s)
            return {q: v for q, v in out.items() if not terms.same(v[0], 0)}, add(ca, cb)
        if x.op == 'mul':
            for p, q in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
                if not _has_draw(p, memo):
                    a, ca = go(q)
                    return {k: (mul(p, v), s) for k, (v, s) in a.items()}, mul(p, ca)
        if x.op == 'div' and not _has_draw(x.args[1], memo):
            a, ca = go(x.args[0])
            return {k: (div(v, x.args[1]), s) for k, (v, s) in a.items()}, div(ca, x.args[1])
        return {k: (F(1), x)}, F(0)
    return go(x)


class NotGaussian(Exception):
    pass


def draw_moments(values):
    """Mean vector and covariance matrix of values which are affine in Gaussian draws.

    Raises NotGaussian when they are not.
    """
    memo = {}
    forms = [linear_form(v, memo) for v in values]
    means = []
    for form, const in forms:
        m = const
        for k, (c, s) in form.items():
            meta = lib.Draws.meta.get(k)
            if meta is None:
                raise NotGaussian('not affine in the draws: %s' % terms.show(s, 4))
            src, kind, n, params, row, col = meta
            if kind.startswith('mvn'):
                m = add(m, mul(c, params[col]))
            elif kind != 'stdnormal':
                raise NotGaussian('a %s draw' % kind)
        means.append(m)
    n = len(values)
    C = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(i + 1):
            s = F(0)
            for ka, (ca, _) in forms[i][0].items():
                for kb, (cb, _) in forms[j][0].items():
                    a, b = lib.Draws.meta[ka], lib.Draws.meta[kb]
                    if a[:3] != b[:3] or a[4] != b[4]:
                        continue
                    if a[1].startswith('mvn'):
                        d = int(a[1][3:])
                        v = a[3][d + a[5] * d + b[5]]
                    else:
                        v = F(1)
                    s = add(s, mul(mul(ca, cb), v))
            C[i, j] = C[j, i] = s
    return lib.to_array(means), C


def sources(values):
    """The generators the values depend on."""
    out = set()
    memo = set()

    def go(x):
        if not isinstance(x, Sym) or id(x) in memo:
            return
        memo.add(id(x))
        m = lib.Draws.meta.get(terms.fp(x))
        if m:
            out.add(m[0])
        for a in x.args:
            go(a)
    for v in values:
        go(v)
    return out


def draws_in(values):
    """Value numbers of the draws the values depend on."""
    out, memo = set(), set()

    def go(x):
        if not isinstance(x, Sym) or id(x) in memo:
            return
        memo.add(id(x))
        k = terms.fp(x)
        if k in lib.Draws.meta:
            out.add(k)
        for a in x.args:
            go(a)
    for v in values:
        go(v)
    return out
