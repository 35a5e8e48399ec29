"""Transfer functions of the library calls met in /repo (numpy, scipy, autograd, sqlite3, ...)."""
import abc
import builtins
import collections
import copy as _copy
import functools
import inspect
import itertools
import operator
import os
import pathlib
import re
import sys
import types
import typing
import glob as _glob
from fractions import Fraction

import mpmath
import numpy as np

from . import terms
from .terms import ST, Sym, Cond, Unsupported, EngineError, F, const
from . import interp as I
from .interp import EngineObj, Fn, GenObj, binop, compare, truth, objarr, is_int_array, is_boolish, Placeholder, \
    fmt_value


class LinAlgError(Exception):
    pass


class LinAlgWarning(RuntimeWarning):
    pass


class NumericFault(Exception):
    """Marker mixin: raised by a partitioned library failure."""


SITE = [p for p in _glob.glob('/opt/venv/lib/*/site-packages')]


def installed(name):
    top = name.split('.')[0]
    for s in SITE:
        if os.path.isdir(os.path.join(s, top)) or os.path.isfile(os.path.join(s, top + '.py')) \
                or _glob.glob(os.path.join(s, top + '.*.so')):
            return True
    return False


# ---------------------------------------------------------------------- array construction
def floatify(a):
    """Mixed int/float arrays are float arrays (dtype promotion)."""
    if a.dtype == object and a.size:
        hasf = hasi = False
        for x in a.flat:
            if isinstance(x, (Fraction, Sym)) or isinstance(x, float):
                hasf = True
            elif isinstance(x, (int, np.integer)) and not isinstance(x, bool):
                hasi = True
            elif isinstance(x, (bool, np.bool_)):
                pass
        if hasf and hasi:
            f = a.reshape(-1) if a.flags.c_contiguous else None
            out = np.empty(a.shape, dtype=object)
            for i in np.ndindex(a.shape):
                x = a[i]
                out[i] = F(int(x)) if isinstance(x, (int, np.integer)) and not isinstance(x, bool) else x
            return out
    return a


def is_scalar(x):
    return isinstance(x, (int, float, Fraction, Sym, Cond, np.number, np.bool_))


def to_array(x, copy=True):
    if isinstance(x, np.ndarray):
        x2 = objarr(x)
        return x2.copy() if (copy and x2 is x) else x2
    if isinstance(x, EngineObj):
        raise Unsupported('array of %r' % x)
    if isinstance(x, GenObj) or isinstance(x, (map, filter, zip, set, dict, types.GeneratorType)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, range):
        x = list(x)
    if isinstance(x, (list, tuple)):
        items = [to_array(e, copy=False) for e in x]
        if not items:
            return np.empty((0,), dtype=object)
        sh = items[0].shape
        if any(i.shape != sh for i in items):
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        out = np.empty((len(items),) + sh, dtype=object)
        for k, i in enumerate(items):
            if sh == ():
                out[k] = i[()]
            else:
                out[k] = i
        return floatify(out)
    a = np.empty((), dtype=object)
    if isinstance(x, (np.number, np.bool_)):
        x = x.item()
    if isinstance(x, float) and const(x) is not None:
        x = const(x)
    a[()] = x
    return a


def asarr(x):
    return to_array(x, copy=False)


def scal(a):
    """0-d array -> scalar (what a numpy reduction returns)."""
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return a[()]
    return a


def full(shape, v):
    shape = norm_shape(shape)
    a = np.empty(shape, dtype=object)
    a[...] = v
    return a


def norm_int(n):
    if isinstance(n, np.ndarray) and n.size == 1:
        n = n.reshape(-1)[0]
    if isinstance(n, (int, np.integer)):
        return int(n)
    if isinstance(n, Sym):
        raise Unsupported('abstract value used as a size')
    raise TypeError("'float' object cannot be interpreted as an integer")


def norm_shape(s):
    if isinstance(s, (list, tuple)):
        return tuple(norm_int(x) for x in s)
    if isinstance(s, np.ndarray):
        return tuple(norm_int(x) for x in s.flat)
    return (norm_int(s),)


class LowFloat:
    """float32 / float16: a value passes through a rounding."""

    def __init__(self, name):
        self.name = self.__name__ = name
        self.np = getattr(np, name)

    def __call__(self, x=0):
        r = umap(self.cast, asarr(x))
        return scal(r)

    def cast(self, x):
        if isinstance(x, (Sym, terms.Cond)):
            return terms.fn(self.name, x)
        c = terms.const(x)
        return x if c is None else F(float(self.np(float(c))))

    def __instancecheck__(self, x):
        return False

    def __repr__(self):
        return "<class 'numpy.%s'>" % self.name


LOW = {n: LowFloat(n) for n in ('float32', 'float16')}
_LOW_NAMES = {'float32': 'float32', 'f4': 'float32', 'f': 'float32', '<f4': 'float32', 'single': 'float32',
              'float16': 'float16', 'f2': 'float16', 'e': 'float16', 'half': 'float16'}


def low_float(dtype):
    if isinstance(dtype, LowFloat):
        return dtype
    if isinstance(dtype, str) and dtype in _LOW_NAMES:
        return LOW[_LOW_NAMES[dtype]]
    if dtype is np.float32 or dtype is np.float16:
        return LOW[dtype.__name__]
    return None


def kind_of(dtype):
    if dtype is None:
        return 'f'
    if isinstance(dtype, LowFloat):
        return 'f'
    if dtype in (int, np.int64, np.int32, np.intp) or dtype in ('int', 'i', 'i4', 'i8', 'int64', 'int32'):
        return 'i'
    if dtype is I_INT:
        return 'i'
    if dtype in (bool, np.bool_, 'bool'):
        return 'b'
    if dtype is object:
        return 'o'
    return 'f'


def cast(a, dtype):
    low = low_float(dtype)
    if low:
        return umap(low.cast, a)
    k = kind_of(dtype)
    if k == 'i':
        return I._trunc(a) if a.ndim else asarr(I._trunc(a))
    if k == 'f':
        return umap(lambda x: F(int(x)) if isinstance(x, (int, bool, np.integer)) else x, a)
    if k == 'b':
        return umap(lambda x: truth(x), a)
    return a


def umap(f, *arrs):
    r = np.frompyfunc(f, len(arrs), 1)(*[asarr(a) for a in arrs])
    if not isinstance(r, np.ndarray):
        return asarr(r)
    return r


def elementwise(f):
    def g(*args, out=None, where=None, dtype=None, **kw):
        if where is not None or kw:
            raise Unsupported('ufunc keyword')
        arrs = [asarr(a) for a in args]
        r = np.frompyfunc(f, len(arrs), 1)(*arrs)
        if out is not None:
            CUR.log_write(out)
            out[...] = r
            return out
        return r
    return g


def chk(x):
    if x is None or isinstance(x, (str, dict)):
        raise TypeError('ufunc: unsupported operand %r' % (x,))
    return x


CUR = None


# ---------------------------------------------------------------------- faults (partitioned)
def matkey(a):
    return tuple(terms.fp(x) for x in a.flat) + (a.shape,)


def mat_const(a):
    return all(not isinstance(x, Sym) for x in a.flat)


def pd_const(a):
    n = a.shape[0]
    m = [[F(a[i, j]) for j in range(n)] for i in range(n)]
    for k in range(n):
        if m[k][k] <= 0:
            return False
        for i in range(k + 1, n):
            f = m[i][k] / m[k][k]
            for j in range(k, n):
                m[i][j] -= f * m[k][j]
    return True


def diag_pd(a):
    """Diagonal matrix of known-positive terms."""
    n = a.shape[0]
    for i in range(n):
        for j in range(n):
            if i == j:
                if not terms.is_pos(a[i, i]):
                    return False
            elif terms.fp(a[i, j]) != (0, 0):
                return False
    return True


def known_pd(a):
    if matkey(a) in ST.pd:
        return True
    if mat_const(a):
        return pd_const(a)
    if diag_pd(a):
        return True
    # a positive multiple of a matrix known to be positive definite
    p = a[0, 0]
    if terms.fp(p) != (0, 0):
        try:
            k = tuple(terms.fp(terms.div(x, p)) for x in a.flat) + (a.shape,)
        except ZeroDivisionError:
            return False
        if k in ST.pd_scaled:
            q = terms.div(p, ST.pd_scaled[k])
            return terms.const(q) > 0 if not isinstance(q, Sym) else terms.sign(q) == 1
    return False


def assume_pd(a):
    ST.pd.add(matkey(a))
    p = a[0, 0]
    ST.pd_scaled[tuple(terms.fp(terms.div(x, p)) for x in a.flat) + (a.shape,)] = p


def check_square(a):
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise LinAlgError('Last 2 dimensions of the array must be square')


def folded(a):
    """The matrix with its entries free of inputs (square roots of numbers...) as numbers; None when it depends on inputs.

    An irrational entry is replaced by a nearby rational (60 digits): enough to decide definiteness, and used for
    nothing else.
    """
    out = []
    for x in a.flat:
        if isinstance(x, Sym):
            if terms.atoms_of(x, 4000) not in (set(), {'pi'}) or terms._opaque(x):
                return None
            with mpmath.workdps(60):
                try:
                    v = terms.evaluate(x, None, {})
                except (ZeroDivisionError, ValueError):
                    return None
                if not isinstance(v, mpmath.mpf) or not mpmath.isfinite(v):
                    return None
                q = F(int(mpmath.nint(v * 10 ** 50)), 10 ** 50)
                r = q.limit_denominator(10 ** 9)
                x = r if abs(r - q) < F(1, 10 ** 40) else q
        out.append(x)
    r = np.empty(a.shape, dtype=object)
    r.flat = out
    return r


def fault_pd(a, what):
    """May raise LinAlgError: a is not numerically positive definite."""
    if not mat_const(a):
        f = folded(a)
        if f is not None and not pd_const(f):
            raise LinAlgError('Matrix is not positive definite')
        if f is not None:
            return
    if mat_const(a):
        if not pd_const(a):
            raise LinAlgError('Matrix is not positive definite')
        return
    if known_pd(a):
        ST.examined[matkey(a)] = a.copy()
        return
    if ST.oracle.fault(('notpd', matkey(a)), ('ok', 'LinAlgError'), what) == 'LinAlgError':
        raise LinAlgError('Matrix is not positive definite')
    ST.examined[matkey(a)] = a.copy()


def fault_singular(a, what):
    if mat_const(a):
        return       # decided by the elimination itself
    if known_pd(a):
        return
    if ST.oracle.fault(('singular', matkey(a)), ('ok', 'LinAlgError'), what) == 'LinAlgError':
        raise LinAlgError('Singular matrix')


def fault_ill(a, what):
    """scipy.linalg.solve warns LinAlgWarning on an ill-conditioned matrix."""
    if mat_const(a):
        return
    if not ST.warn_as_error:
        return
    if ST.oracle.fault(('ill', matkey(a)), ('ok', 'LinAlgWarning'), what) == 'LinAlgWarning':
        raise LinAlgWarning('Ill-conditioned matrix')


# ---------------------------------------------------------------------- linear algebra on terms
def elim_solve(A, B):
    n = A.shape[0]
    M = [[A[i, j] for j in range(n)] for i in range(n)]
    R = [[B[i, j] for j in range(B.shape[1])] for i in range(n)]
    for k in range(n):
        piv = None
        for i in range(k, n):
            if terms.fp(M[i][k]) != (0, 0):
                piv = i
                break
        if piv is None:
            raise LinAlgError('Singular matrix')
        M[k], M[piv] = M[piv], M[k]
        R[k], R[piv] = R[piv], R[k]
        inv = terms.div(F(1), M[k][k])
        for i in range(n):
            if i == k or terms.fp(M[i][k]) == (0, 0):
                continue
            f = terms.mul(M[i][k], inv)
            for j in range(k + 1, n):
                M[i][j] = terms.sub(M[i][j], terms.mul(f, M[k][j]))
            M[i][k] = F(0)
            for j in range(len(R[i])):
                R[i][j] = terms.sub(R[i][j], terms.mul(f, R[k][j]))
        M[k] = [M[k][j] if j <= k else terms.mul(M[k][j], inv) for j in range(n)]
        R[k] = [terms.mul(x, inv) for x in R[k]]
        M[k][k] = F(1)
    out = np.empty((n, B.shape[1]), dtype=object)
    for i in range(n):
        for j in range(B.shape[1]):
            out[i, j] = R[i][j] if not isinstance(R[i][j], int) else F(R[i][j])
    return out


def solve_any(A, b, vec_rule='scipy'):
    if A.shape[0] != b.shape[0]:
        if vec_rule == 'scipy':
            raise ValueError('Input b has to have same number of rows as input a')
        raise ValueError('solve: Input operand 1 has a mismatch in its core dimension 0')
    if b.ndim == 1:
        return elim_solve(A, b.reshape(-1, 1)).reshape(-1)
    return elim_solve(A, b.reshape(b.shape[0], -1)).reshape(b.shape)


def from_triangle(a, lower):
    n = a.shape[0]
    s = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            lo, hi = max(i, j), min(i, j)
            s[i, j] = a[lo, hi] if lower else a[hi, lo]
    return s


def clobber(a, what):
    if isinstance(a, np.ndarray) and a.dtype == object and a.size:
        CUR.log_write(a)
        for i in np.ndindex(a.shape):
            a[i] = terms.fn('overwritten_by_' + what, a[i])


def sp_solve(a, b, sym_pos=False, lower=False, overwrite_a=False, overwrite_b=False, debug=None,
             check_finite=True, assume_a='gen', transposed=False):
    A, Bv = asarr(a), asarr(b)
    if A.ndim < 2:
        A = np.atleast_2d(A)
    check_square(A)
    if sym_pos:
        assume_a = 'pos'
    if assume_a in ('pos', 'positive definite'):
        S = from_triangle(A, lower)
        fault_pd(S, 'scipy.linalg.solve(assume_a="pos")')
        fault_ill(S, 'scipy.linalg.solve')
    elif assume_a in ('sym', 'her', 'symmetric', 'hermitian'):
        S = from_triangle(A, lower)
        fault_singular(S, 'scipy.linalg.solve')
        fault_ill(S, 'scipy.linalg.solve')
    else:
        S = A.T if transposed else A
        fault_singular(S, 'scipy.linalg.solve')
        fault_ill(S, 'scipy.linalg.solve')
    r = solve_any(S, Bv)
    if overwrite_a:
        clobber(a, 'solve')
    if overwrite_b:
        clobber(b, 'solve')
    return r


def np_solve(a, b):
    A, Bv = asarr(a), asarr(b)
    if A.ndim < 2:
        raise LinAlgError('%d-dimensional array given. Array must be at least two-dimensional' % A.ndim)
    check_square(A)
    if Bv.ndim == 0:
        raise ValueError('solve: Input operand 1 does not have enough dimensions')
    fault_singular(A, 'numpy.linalg.solve')
    return solve_any(A, Bv, 'numpy')


def np_inv(a, overwrite_a=False, check_finite=True, **kw):
    A = asarr(a)
    if A.ndim < 2:
        raise LinAlgError('array must be at least two-dimensional')
    check_square(A)
    fault_singular(A, 'linalg.inv')
    n = A.shape[0]
    return elim_solve(A, eye(n))


def pinv(a, rcond=None, hermitian=False, **kw):
    A = asarr(a)
    check_square(A)
    n = A.shape[0]
    if mat_const(A):
        try:
            return elim_solve(A, eye(n))
        except LinAlgError:
            pass
        raise Unsupported('pinv of a singular constant matrix')
    return elim_solve(A, eye(n))


def np_cond(a, p=None):
    """The condition number: an unknown positive function of the matrix (it decides branches only)."""
    A = asarr(a)
    check_square(A)
    if A.shape[0] == 1:
        return F(1)
    return terms.fn('cond', *list(A.flat), pos=True)


def chol(A):
    n = A.shape[0]
    L = full((n, n), F(0))
    for j in range(n):
        s = A[j, j]
        for k in range(j):
            s = terms.sub(s, terms.mul(L[j, k], L[j, k]))
        L[j, j] = terms.sqrt(s)
        if L[j, j] != L[j, j] if isinstance(L[j, j], float) else False:
            raise LinAlgError('Matrix is not positive definite')
        for i in range(j + 1, n):
            s = A[i, j]
            for k in range(j):
                s = terms.sub(s, terms.mul(L[i, k], L[j, k]))
            L[i, j] = terms.div(s, L[j, j])
    return L


def np_cholesky(a, upper=False):
    A = asarr(a)
    if A.ndim < 2:
        raise LinAlgError('%d-dimensional array given. Array must be at least two-dimensional' % A.ndim)
    check_square(A)
    S = from_triangle(A, True)
    fault_pd(S, 'numpy.linalg.cholesky')
    L = chol(S)
    return L.T if upper else L


def sp_cholesky(a, lower=False, overwrite_a=False, check_finite=True):
    A = asarr(a)
    A = np.atleast_2d(A)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise ValueError('Input array is expected to be square')
    S = from_triangle(A, lower)
    fault_pd(S, 'scipy.linalg.cholesky')
    L = chol(S)
    if overwrite_a:
        clobber(a, 'cholesky')
    return L if lower else L.T.copy()


def cho_factor(a, lower=False, overwrite_a=False, check_finite=True):
    return (sp_cholesky(a, lower=lower, overwrite_a=overwrite_a), lower)


def cho_solve(c_and_lower, b, overwrite_b=False, check_finite=True):
    c, lower = c_and_lower
    L = tri(asarr(c), lower)
    A = L @ L.T if lower else L.T @ L
    r = solve_any(A, asarr(b))
    if overwrite_b:
        clobber(b, 'cho_solve')
    return r


def tri(a, lower):
    n = a.shape[0]
    out = full((n, n), F(0))
    for i in range(n):
        for j in range(n):
            if (j <= i) == bool(lower) or i == j:
                out[i, j] = a[i, j]
    return out


def solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, overwrite_b=False, check_finite=True):
    A = tri(asarr(a), lower)
    if unit_diagonal:
        A = A.copy()
        for i in range(A.shape[0]):
            A[i, i] = F(1)
    if trans in (1, 'T', 2, 'C'):
        A = A.T
    r = solve_any(A, asarr(b))
    if overwrite_b:
        clobber(b, 'solve_triangular')
    return r


def det(a):
    A = asarr(a)
    check_square(A)
    n = A.shape[0]
    if n == 0:
        return F(1)
    M = [[A[i, j] for j in range(n)] for i in range(n)]
    d = F(1)
    for k in range(n):
        piv = next((i for i in range(k, n) if terms.fp(M[i][k]) != (0, 0)), None)
        if piv is None:
            return F(0)
        if piv != k:
            M[k], M[piv] = M[piv], M[k]
            d = terms.mul(-1, d)
        d = terms.mul(d, M[k][k])
        for i in range(k + 1, n):
            f = terms.div(M[i][k], M[k][k])
            for j in range(k, n):
                M[i][j] = terms.sub(M[i][j], terms.mul(f, M[k][j]))
    return d


def slogdet(a):
    d = det(a)
    return (F(1), terms.log(d))


def norm(x, ord=None, axis=None, keepdims=False):
    a = asarr(x)
    if axis is None:
        if ord in (None, 2, 'fro') and (a.ndim == 1 or ord != 2):
            s = F(0)
            for v in a.flat:
                s = terms.add(s, terms.mul(v, v))
            return terms.sqrt(s)
        if a.ndim == 1 and ord == 1:
            s = F(0)
            for v in a.flat:
                s = terms.add(s, terms.absolute(v))
            return s
        if a.ndim == 1 and ord is not None and ord == float('inf'):
            return np_max(umap(terms.absolute, a))
        if a.ndim == 2 and ord == 2:
            if 1 in a.shape:
                return norm(a.ravel())
            return terms.fn('spectral_norm', *a.flat)
        if a.ndim == 2 and ord == 1:
            return np_max(np_sum(umap(terms.absolute, a), axis=0))
        raise Unsupported('norm ord=%r' % ord)
    sq = umap(lambda v: terms.mul(v, v), a)
    if ord not in (None, 2):
        raise Unsupported('norm ord=%r' % ord)
    return umap_s(terms.sqrt, np_sum(sq, axis=axis, keepdims=keepdims))


def umap_s(f, a):
    return scal(umap(f, a))


def opaque_lin(name):
    def g(a, *args, **kw):
        A = asarr(a)
        raise Unsupported('numpy.linalg.%s' % name)
    return g


# ---------------------------------------------------------------------- numpy functions
def eye(N, M=None, k=0, dtype=None, **kw):
    N = norm_int(N)
    M = N if M is None else norm_int(M)
    one, zero = (1, 0) if kind_of(dtype) == 'i' else (F(1), F(0))
    a = full((N, M), zero)
    for i in range(N):
        if 0 <= i + k < M:
            a[i, i + k] = one
    return a


def np_array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False):
    a = to_array(x, copy=bool(copy) or copy is None)
    if dtype is not None:
        a = cast(a, dtype)
    while a.ndim < ndmin:
        a = a[None]
    return a


def np_fromiter(iter, dtype, count=-1, like=None):
    out = []
    for x in iter:
        if count >= 0 and len(out) == count:
            break
        if isinstance(x, (np.ndarray, list, tuple)) and np.ndim(x):
            raise ValueError('setting an array element with a sequence.')
        out.append(x)
    if len(out) < count:
        raise ValueError('iterator too short: Expected %d but iterator had only %d items.' % (count, len(out)))
    return cast(to_array(out).reshape(len(out)), dtype)


def np_asarray(x, dtype=None, order=None, **kw):
    if isinstance(x, np.ndarray) and dtype is None:
        return objarr(x)
    a = asarr(x)
    if dtype is not None:
        b = cast(a, dtype)
        if all(p is q for p, q in zip(a.flat, b.flat)):
            return a
        return b
    return a


def np_contiguous(x, dtype=None, **kw):
    """At least one axis."""
    a = np_asarray(x, dtype)
    return a if a.ndim else a.reshape(1)


def _atleast(n):
    def g(*xs):
        r = []
        for x in xs:
            a = asarr(x)
            if n == 1:
                r.append(a if a.ndim >= 1 else a.reshape(1))
            elif n == 2:
                r.append(a if a.ndim >= 2 else a.reshape(1, 1) if a.ndim == 0 else a[None, :])
            else:
                while a.ndim < 3:
                    a = a[..., None] if a.ndim == 2 else a[None]
                r.append(a)
        return r[0] if len(r) == 1 else r
    return g


def zeros_v(dtype, v):
    k = kind_of(dtype)
    if k == 'i':
        return int(v)
    if k == 'b':
        return bool(v)
    return F(v)


def np_zeros(shape, dtype=None, order=None, **kw):
    return full(shape, zeros_v(dtype, 0))


def np_ones(shape, dtype=None, order=None, **kw):
    return full(shape, zeros_v(dtype, 1))


_uninit = [0]


def np_empty(shape, dtype=None, order=None, **kw):
    a = full(shape, F(0))
    _uninit[0] += 1
    for n, i in enumerate(np.ndindex(a.shape)):
        a[i] = terms.atom('uninitialised%d_%d' % (_uninit[0], n), plain=True)
    return a


def np_full(shape, fill_value, dtype=None, **kw):
    v = asarr(fill_value)
    a = full(shape, F(0))
    a[...] = v if v.ndim else v[()]
    if dtype is not None:
        a = cast(a, dtype)
    return a


def like(f):
    def g(a, dtype=None, shape=None, **kw):
        A = asarr(a)
        if dtype is None and is_int_array(A):
            dtype = int
        return f(A.shape if shape is None else shape, dtype=dtype)
    return g


def np_full_like(a, fill_value, dtype=None, **kw):
    A = asarr(a)
    return np_full(A.shape, fill_value, dtype=dtype or (int if is_int_array(A) else float))


def np_diag(v, k=0):
    a = asarr(v)
    if a.ndim == 1:
        n = a.shape[0] + abs(k)
        out = full((n, n), F(0) if not is_int_array(a) else 0)
        for i in range(a.shape[0]):
            out[i + max(0, -k), i + max(0, k)] = a[i]
        return out
    if a.ndim == 2:
        return np.diagonal(a, k).copy()
    raise ValueError('Input must be 1- or 2-d.')


def np_trace(a, offset=0, **kw):
    A = asarr(a)
    if A.ndim < 2:
        raise ValueError('diag requires an array of at least two dimensions')
    return np_sum(np.diagonal(A, offset))


def reduce_sum(a, axis):
    """Sum along the axes of an object array."""
    if axis is None:
        s = 0
        for v in a.flat:
            s = s + int(v) if isinstance(v, (bool, np.bool_, Cond)) else terms.add(s, v)
        if not is_int_array(a) and not isinstance(s, Sym) and not is_boolish(a):
            s = F(s)
        return s
    if isinstance(axis, (tuple, list)):
        axis = sorted((ax % a.ndim for ax in axis), reverse=True)
        for ax in axis:
            a = asarr(reduce_sum(a, ax))
        return scal(a)
    if axis >= a.ndim or axis < -a.ndim:
        raise np.exceptions.AxisError(axis, a.ndim)
    m = np.moveaxis(a, axis, 0)
    out = np.empty(m.shape[1:], dtype=object)
    for i in np.ndindex(out.shape):
        s = 0
        for k in range(m.shape[0]):
            v = m[(k,) + i]
            s = s + int(v) if isinstance(v, (bool, np.bool_, Cond)) else terms.add(s, v)
        out[i] = s
    return scal(out)


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    if isinstance(a, GenObj) or hasattr(a, '__next__'):
        a = list(a)
    A = asarr(a)
    r = reduce_sum(A, axis)
    if keepdims:
        r = asarr(r)
        if axis is None:
            r = r.reshape((1,) * A.ndim)
        else:
            r = np.expand_dims(r, axis)
    if initial is not None or where is not None or out is not None:
        raise Unsupported('sum keyword')
    return r


def count(A, axis):
    if axis is None:
        return A.size
    if isinstance(axis, (tuple, list)):
        n = 1
        for x in axis:
            n *= A.shape[x]
        return n
    return A.shape[axis]


def np_mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    A = asarr(a)
    s = np_sum(A, axis=axis, keepdims=keepdims)
    n = count(A, axis)
    if n == 0:
        return float('nan')
    return scal(umap(lambda x: terms.div(x, F(n)), s))


def np_average(a, axis=None, weights=None, returned=False, **kw):
    if weights is None:
        return np_mean(a, axis)
    A, w = asarr(a), asarr(weights)
    if axis is None:
        return terms.div(np_sum(A * w), np_sum(w))
    if w.ndim == 1 and A.ndim > 1:
        sh = [1] * A.ndim
        sh[axis] = -1
        w2 = w.reshape(sh)
    else:
        w2 = w
    return scal(umap(terms.div, np_sum(A * w2, axis=axis), np_sum(w)))


def np_var(a, axis=None, ddof=0, keepdims=False, **kw):
    A = asarr(a)
    m = np_mean(A, axis=axis, keepdims=True) if axis is not None else np_mean(A)
    d = A - m
    n = count(A, axis) - ddof
    return scal(umap(lambda x: terms.div(x, F(n)), np_sum(d * d, axis=axis, keepdims=keepdims)))


def np_std(a, axis=None, ddof=0, **kw):
    return umap_s(terms.sqrt, np_var(a, axis=axis, ddof=ddof))


def np_cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None):
    X = asarr(m)
    if fweights is not None or aweights is not None:
        raise Unsupported('weighted cov')
    if X.ndim < 2:
        X = X.reshape(1, -1)
        rowvar = True
    elif not rowvar and X.shape[0] != 1:
        X = X.T
    if y is not None:
        Y = asarr(y)
        if Y.ndim < 2:
            Y = Y.reshape(1, -1)
        elif not rowvar and Y.shape[0] != 1:
            Y = Y.T
        X = np.concatenate((X, Y), axis=0)
    n = X.shape[1]
    if ddof is None:
        ddof = 0 if bias else 1
    mu = np_mean(X, axis=1, keepdims=True)
    d = X - mu
    c = d @ d.T
    if n - ddof <= 0:
        raise Unsupported('cov with too few samples')
    return scal(np.squeeze(umap(lambda x: terms.div(x, F(n - ddof)), c)))


def np_prod(a, axis=None, **kw):
    A = asarr(a)
    if axis is None:
        s = 1
        for v in A.flat:
            s = terms.mul(s, v)
        return s
    m = np.moveaxis(A, axis, 0)
    out = full(m.shape[1:], 1)
    for k in range(m.shape[0]):
        out = out * m[k]
    return scal(asarr(out))


def np_cumsum(a, axis=None, **kw):
    A = asarr(a)
    if axis is None:
        A = A.ravel()
        axis = 0
    m = np.moveaxis(A, axis, 0)
    out = np.empty(m.shape, dtype=object)
    acc = None
    for k in range(m.shape[0]):
        acc = m[k] if acc is None else acc + m[k]
        out[k] = acc
    return np.moveaxis(out, 0, axis)


def pick(vals, lt):
    best = None
    bi = None
    for i, v in enumerate(vals):
        if best is None or truth(lt(v, best)):
            best, bi = v, i
    return best, bi


def _extreme(is_max):
    def g(a, axis=None, **kw):
        A = asarr(a)
        lt = (lambda v, b: compare(operator.gt, v, b)) if is_max else (lambda v, b: compare(operator.lt, v, b))
        if axis is None:
            if A.size == 0:
                raise ValueError('zero-size array to reduction operation')
            return pick(list(A.flat), lt)[0]
        m = np.moveaxis(A, axis, 0)
        out = np.empty(m.shape[1:], dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = pick([m[(k,) + i] for k in range(m.shape[0])], lt)[0]
        return scal(out)
    return g


np_max, np_min = _extreme(True), _extreme(False)


def _argext(is_max):
    def g(a, axis=None, **kw):
        A = asarr(a)
        lt = (lambda v, b: compare(operator.gt, v, b)) if is_max else (lambda v, b: compare(operator.lt, v, b))
        if axis is not None and A.ndim > 1:
            raise Unsupported('argmax axis')
        return pick(list(A.flat), lt)[1]
    return g


def np_where(cond, *ab):
    C = asarr(cond)
    if not ab:
        idx = np.array([truth(x) for x in C.flat], dtype=bool).reshape(C.shape)
        return tuple(i.astype(object) for i in np.where(idx))
    a, b = ab

    def w(c, x, y):
        return x if truth(c) else y
    r = np.frompyfunc(w, 3, 1)(C, asarr(a), asarr(b))
    return floatify(r) if isinstance(r, np.ndarray) else r


def np_any(a, axis=None, **kw):
    A = asarr(a)
    if axis is not None:
        raise Unsupported('any axis')
    return any(truth(x) for x in A.flat)


def np_all(a, axis=None, **kw):
    A = asarr(a)
    if axis is not None:
        raise Unsupported('all axis')
    return all(truth(x) for x in A.flat)


def _isinf_term(x):
    return isinstance(x, Sym) and x.op == 'fn' and x.args[0] == 'inf'


def np_isnan(a):
    return scal(umap(lambda x: terms.undefined(x) == 'nan', asarr(a)))


def np_isinf(a):
    return scal(umap(lambda x: terms.undefined(x) == 'inf' or _isinf_term(x), asarr(a)))


def np_isfinite(a):
    return scal(umap(lambda x: terms.undefined(x) is None and not _isinf_term(x), asarr(a)))


def _nan_free(f):
    """The nan-ignoring variant of a reduction."""
    def g(a, axis=None, *args, **kw):
        A = asarr(a)
        if not any(terms.undefined(x) == 'nan' for x in A.flat):
            return f(A, axis, *args, **kw)
        if axis is not None:
            raise Unsupported('nan-ignoring reduction along an axis')
        keep = [x for x in A.flat if terms.undefined(x) != 'nan']
        return f(asarr(keep), None, *args, **kw) if keep else float('nan')
    return g


def np_nan_to_num(x, copy=True, nan=0, posinf=None, neginf=None):
    def f(v):
        u = terms.undefined(v)
        return v if u is None else F(nan) if u == 'nan' else posinf if posinf is not None else F(10) ** 308
    return scal(umap(f, asarr(x)))


def np_isclose(a, b, rtol=F(1, 100000), atol=F(1, 10 ** 8), equal_nan=False):
    def ic(x, y):
        d = terms.sub(x, y)
        if not isinstance(d, Sym) and d == 0:
            return True
        tol = terms.add(atol, terms.mul(rtol, terms.absolute(y)))
        if not isinstance(d, Sym) and not isinstance(tol, Sym):
            return abs(d) <= tol
        return Cond('lt', terms.sub(terms.absolute(d), tol))
    return scal(umap(ic, asarr(a), asarr(b)))


def np_allclose(a, b, rtol=F(1, 100000), atol=F(1, 10 ** 8), equal_nan=False):
    return np_all(asarr(np_isclose(a, b, rtol, atol)))


def np_array_equal(a, b, equal_nan=False):
    A, B = asarr(a), asarr(b)
    if A.shape != B.shape:
        return False
    return all(truth(x) for x in asarr(compare(operator.eq, A, B)).flat)


def np_einsum(spec, *ops, optimize=None, **kw):
    if not isinstance(spec, str):
        raise Unsupported('einsum sublist form')
    arrs = [asarr(o) for o in ops]
    spec = spec.replace(' ', '')
    if '...' in spec:
        r = np.einsum(spec, *arrs)
        return scal(r) if isinstance(r, np.ndarray) else r
    lhs, arrow, out = spec.partition('->')
    ins = lhs.split(',')
    if len(ins) != len(arrs):
        raise ValueError('more operands provided to einstein sum function than specified in the subscripts string')
    if not arrow:
        cnt = collections.Counter(c for c in lhs if c != ',')
        out = ''.join(sorted(c for c in cnt if cnt[c] == 1))
    dims = {}
    for s, a in zip(ins, arrs):
        if len(s) != a.ndim:
            raise ValueError('einstein sum subscripts string contains wrong number of subscripts for operand')
        for c, n in zip(s, a.shape):
            if dims.get(c, n) != n:
                if dims[c] == 1 or n == 1:
                    dims[c] = max(n, dims[c])
                    continue
                raise ValueError('operand has a mismatch in its core dimension')
            dims[c] = n
    inner = [c for c in dims if c not in out]
    res = np.empty(tuple(dims[c] for c in out), dtype=object)
    for o in np.ndindex(res.shape):
        env = dict(zip(out, o))
        acc = 0
        for iv in itertools.product(*[range(dims[c]) for c in inner]):
            env.update(zip(inner, iv))
            p = None
            for s, a in zip(ins, arrs):
                v = a[tuple(env[c] if a.shape[k] != 1 else 0 for k, c in enumerate(s))]
                p = v if p is None else terms.mul(p, v)
                if not isinstance(p, Sym) and p == 0:
                    break
            acc = terms.add(acc, p)
        res[o] = acc
    return scal(floatify(res))


def np_dot(a, b, out=None):
    A, B = asarr(a), asarr(b)
    r = np.dot(A, B)
    if out is not None:
        raise Unsupported('dot out=')
    return objarr(r) if isinstance(r, np.ndarray) else r


def np_matmul(a, b, **kw):
    r = np.matmul(asarr(a), asarr(b))
    return r


def np_outer(a, b):
    return asarr(a).ravel()[:, None] * asarr(b).ravel()[None, :]


def np_kron(a, b):
    A, B = asarr(a), asarr(b)
    if A.ndim != 2 or B.ndim != 2:
        A, B = np.atleast_2d(A), np.atleast_2d(B)
    out = np.empty((A.shape[0] * B.shape[0], A.shape[1] * B.shape[1]), dtype=object)
    for i, j in np.ndindex(A.shape):
        for k, l in np.ndindex(B.shape):
            out[i * B.shape[0] + k, j * B.shape[1] + l] = terms.mul(A[i, j], B[k, l])
    return floatify(out)


def np_cross(a, b):
    raise Unsupported('cross')


def np_tensordot(a, b, axes=2):
    return np.tensordot(asarr(a), asarr(b), axes)


def seqarr(xs):
    if isinstance(xs, GenObj) or hasattr(xs, '__next__'):
        raise TypeError('arrays to stack must be passed as a sequence type such as list or tuple')
    return [asarr(x) for x in xs]


def wrapcat(f):
    def g(xs, *a, **k):
        return floatify(f(seqarr(xs), *a, **k))
    return g


def np_append(arr, values, axis=None):
    A, V = asarr(arr), asarr(values)
    if axis is None:
        return floatify(np.concatenate((A.ravel(), V.ravel())))
    return floatify(np.concatenate((A, V), axis=axis))


def np_arange(*a, dtype=None):
    a = [x if not isinstance(x, np.ndarray) else x.item() for x in a]
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        start, stop, step = a[0], a[1], 1
    else:
        start, stop, step = a
    if any(isinstance(x, Sym) for x in (start, stop, step)):
        if isinstance(start, Sym) or isinstance(step, Sym):
            n = terms.div(terms.sub(stop, start), step)
            if isinstance(n, Sym):
                raise Unsupported('arange with abstract bounds')
            n = int(-((-n) // 1))
            return asarr([terms.add(start, terms.mul(k, step)) for k in range(n)])
        raise Unsupported('arange with abstract bounds')
    start, stop, step = (const(x) for x in (start, stop, step))
    n = max(0, int(-((-(F(stop) - F(start)) / F(step)) // 1)))
    out = full((n,), 0)
    isf = any(isinstance(x, Fraction) for x in (start, stop, step)) or (dtype is not None and kind_of(dtype) == 'f')
    for k in range(n):
        v = start + k * step
        out[k] = F(v) if isf else v
    return out


def np_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = norm_int(num)
    out = full((num,), F(0))
    d = num - 1 if endpoint else num
    for k in range(num):
        out[k] = terms.add(start, terms.mul(F(k, d) if d else F(0), terms.sub(stop, start)))
        if isinstance(out[k], int):
            out[k] = F(out[k])
    return out


def np_logspace(*a, **k):
    raise Unsupported('logspace')


def np_maximum(a, b):
    def m(x, y):
        if x is y:
            return x
        return x if truth(_ge(x, y)) else y
    return scal(umap(m, a, b))


def np_minimum(a, b):
    def m(x, y):
        return y if truth(_ge(x, y)) else x
    return scal(umap(m, a, b))


def _ge(x, y):
    return terms.neg_cond(terms.cmp_lt(x, y)) if isinstance(x, Sym) or isinstance(y, Sym) else x >= y


def np_clip(a, a_min=None, a_max=None, **kw):
    r = a
    if a_min is not None:
        r = np_maximum(r, a_min)
    if a_max is not None:
        r = np_minimum(r, a_max)
    return r


def np_sign(a):
    def s(x):
        if truth(terms.cmp_lt(x, 0)):
            return F(-1)
        if truth(terms.cmp_lt(0, x)):
            return F(1)
        return F(0)
    return scal(umap(s, a))


def np_shape(a):
    if isinstance(a, np.ndarray):
        return a.shape
    return asarr(a).shape


def np_size(a, axis=None):
    A = asarr(a)
    return A.size if axis is None else A.shape[axis]


def np_roll(a, shift, axis=None):
    return np.roll(asarr(a), shift, axis)


def np_round(a, decimals=0, **kw):
    def r(x):
        if isinstance(x, Sym):
            return terms.fn('round%s' % decimals, x)
        if isinstance(x, Fraction):
            return F(round(x, decimals))
        return x
    return scal(umap(r, a))


def np_copy(a, **kw):
    return asarr(a).copy()


def np_squeeze(a, axis=None):
    return np.squeeze(asarr(a), axis=axis)


def shape_fn(f):
    def g(a, *args, **kw):
        args = tuple(_ints(x) for x in args)
        return f(asarr(a), *args, **{k: _ints(v) for k, v in kw.items() if k != 'order' or v in (None, 'C')})
    return g


def _ints(x):
    if isinstance(x, np.ndarray) and x.dtype == object and x.size and is_int_array(x):
        return x.astype(np.intp) if x.ndim else int(x.item())
    if isinstance(x, tuple):
        return tuple(_ints(v) for v in x)
    if isinstance(x, Fraction):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return x


def np_vectorize(f, **kw):
    def g(*a):
        return scal(np.frompyfunc(lambda *x: CUR.call(f, x, {}), len(a), 1)(*[asarr(v) for v in a]))
    return g


def np_apply_along_axis(f, axis, arr, *args, **kw):
    A = asarr(arr)
    m = np.moveaxis(A, axis, -1)
    out = None
    for i in np.ndindex(m.shape[:-1]):
        r = asarr(CUR.call(f, (m[i],) + args, kw))
        if out is None:
            out = np.empty(m.shape[:-1] + r.shape, dtype=object)
        out[i] = r
    if out.ndim >= A.ndim and out.shape[m.ndim - 1:] != ():
        out = np.moveaxis(out, -1, axis)
    return out


def np_percentile(a, q, **kw):
    raise Unsupported('percentile')


def np_block(x):
    def b(v):
        if isinstance(v, list):
            return [b(e) for e in v]
        return asarr(v)
    return floatify(np.block(b(x)))


def np_fill_diagonal(a, val, wrap=False):
    CUR.log_write(a)
    v = asarr(val)
    for i in range(min(a.shape)):
        a[i, i] = v[()] if v.ndim == 0 else v.flat[i % v.size]


def np_triu(m, k=0):
    A = asarr(m).copy()
    for i, j in np.ndindex(A.shape):
        if j - i < k:
            A[i, j] = F(0)
    return A


def np_tril(m, k=0):
    A = asarr(m).copy()
    for i, j in np.ndindex(A.shape):
        if j - i > k:
            A[i, j] = F(0)
    return A


def np_interp(*a, **k):
    raise Unsupported('interp')


def _idx(t):
    """Native integer index arrays as arrays of the engine."""
    return tuple(to_array([int(i) for i in x]) if len(x) else np.empty((0,), dtype=object) for x in t)


def np_triu_indices(n, k=0, m=None):
    return _idx(np.triu_indices(norm_int(n), norm_int(k), None if m is None else norm_int(m)))


def np_tril_indices(n, k=0, m=None):
    return _idx(np.tril_indices(norm_int(n), norm_int(k), None if m is None else norm_int(m)))


def np_triu_indices_from(arr, k=0):
    if arr.ndim != 2:
        raise ValueError('input array must be 2-d')
    return np_triu_indices(arr.shape[0], k, arr.shape[1])


def np_tril_indices_from(arr, k=0):
    if arr.ndim != 2:
        raise ValueError('input array must be 2-d')
    return np_tril_indices(arr.shape[0], k, arr.shape[1])


def np_diag_indices(n, ndim=2):
    return _idx(np.diag_indices(norm_int(n), norm_int(ndim)))


def np_diag_indices_from(arr):
    return np_diag_indices(arr.shape[0], arr.ndim)


class Joined:
    """numpy.r_ and numpy.c_."""
    raw_index = True

    def __init__(self, columns):
        self.columns = columns

    def __getitem__(self, key):
        parts = []
        for x in key if isinstance(key, tuple) else (key,):
            if isinstance(x, str):
                raise Unsupported('directive of numpy.r_')
            if isinstance(x, slice):
                step = 1 if x.step is None else x.step
                if isinstance(step, complex):
                    x = np_linspace(x.start or 0, x.stop, int(abs(step)))
                else:
                    x = np_arange(x.start or 0, x.stop, step)
            x = asarr(x)
            if x.ndim == 0:
                x = x.reshape(1)
            if self.columns and x.ndim == 1:
                x = x.reshape(-1, 1)
            parts.append(x)
        if len({x.ndim for x in parts}) > 1:
            raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
        return objarr(np.concatenate(parts, axis=-1 if self.columns else 0))


def np_ix_(*args):
    return tuple(CUR.norm_index(x) if not isinstance(x, np.ndarray) else x for x in
                 np.ix_(*[CUR.norm_index(asarr(a)) for a in args]))


def np_diff(a, n=1, axis=-1):
    A = asarr(a)
    for _ in range(norm_int(n)):
        hi = [slice(None)] * A.ndim
        lo = [slice(None)] * A.ndim
        hi[axis], lo[axis] = slice(1, None), slice(None, -1)
        A = asarr(A[tuple(hi)]) - asarr(A[tuple(lo)])
    return A


def np_cumprod(a, axis=None, **kw):
    A = asarr(a)
    if axis is None:
        A = A.ravel()
        axis = 0
    out = A.copy()
    mv = np.moveaxis(out, axis, 0)
    for i in range(1, mv.shape[0]):
        mv[i] = umap(terms.mul, mv[i - 1], mv[i])
    return out


def np_count_nonzero(a, axis=None):
    if axis is not None:
        raise Unsupported('count_nonzero axis')
    return sum(1 for x in asarr(a).flat if truth(x if isinstance(x, (bool, Cond)) else compare(operator.ne, x, 0)))


def np_nonzero(a):
    A = asarr(a)
    m = np.array([truth(x if isinstance(x, (bool, Cond)) else compare(operator.ne, x, 0)) for x in A.flat],
                 dtype=bool).reshape(A.shape)
    return _idx(np.nonzero(m))


def eigvals(a, *args, **kw):
    """Eigenvalues: positive exactly when the matrix is positive definite (the partition is shared with cholesky)."""
    A = asarr(a)
    if A.ndim != 2:
        raise LinAlgError('%d-dimensional array given. Array must be at least two-dimensional' % A.ndim)
    check_square(A)
    n = A.shape[0]
    if n == 1:
        return asarr(A[0, 0]).reshape(1)
    if all(terms.fp(A[i, j]) == (0, 0) for i in range(n) for j in range(n) if i != j):
        return lib_sorted([A[i, i] for i in range(n)])
    S = from_triangle(A, True)
    if mat_const(S):
        raise Unsupported('eigenvalues of a constant matrix')
    ok = known_pd(S) or ST.oracle.fault(('notpd', matkey(S)), ('ok', 'LinAlgError'), 'eigenvalues') == 'ok'
    tag = terms.fn('eigvals', *S.flat)
    vals = [terms.fn('eigval%d' % i, tag, pos=True) for i in range(n)]
    if not ok:
        vals[0] = terms.mul(-1, vals[0])
    else:
        ST.examined[matkey(S)] = S.copy()
    return to_array(vals)


def lib_sorted(xs):
    return to_array(xs) if any(isinstance(x, Sym) for x in xs) else to_array(sorted(xs))


class UFunc:
    """A numpy ufunc with its reduce/outer/accumulate methods."""

    def __init__(self, name, g, f, ident, red):
        self.__name__, self._g, self._f, self._ident, self._red = name, g, f, ident, red

    def __call__(self, *a, **k):
        return self._g(*a, **k)

    def outer(self, a, b):
        A, B = asarr(a), asarr(b)
        out = np.empty(A.shape + B.shape, dtype=object)
        for i in np.ndindex(A.shape):
            for j in np.ndindex(B.shape):
                out[i + j] = self._f(A[i], B[j])
        return scal(out)

    def reduce(self, a, axis=0, keepdims=False, **kw):
        if self._red is None or kw:
            raise Unsupported('%s.reduce' % self.__name__)
        return self._red(a, axis=axis, keepdims=keepdims)

    def accumulate(self, a, axis=0):
        if self.__name__ == 'add':
            return np_cumsum(a, axis=axis)
        if self.__name__ == 'multiply':
            return np_cumprod(a, axis=axis)
        raise Unsupported('%s.accumulate' % self.__name__)

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        raise Unsupported('numpy.%s.%s' % (self.__dict__.get('__name__', 'ufunc'), n))


# ---- random draws ----------------------------------------------------------------
class Draws:
    """The stream of the seeded global generator: draw k of distribution D is an uninterpreted term."""
    pos = {}       # generator -> draws since it was seeded
    seeded = None  # seed of the global generator
    nd = 0
    log = []
    meta = {}      # value number of a drawn component -> (source, kind, draw, params, row, column)


def draw(kind, params, shape, src='global'):
    i = Draws.pos.get(src, 0)
    Draws.pos[src] = i + 1
    # the stream is a function of the seed: the same seed gives the same draws again
    seed = Draws.seeded if src == 'global' else None
    k = (None if seed is None else terms.fp(seed) if terms.is_num(seed) else str(seed), i)
    Draws.log.append((src, kind, ST.loc, k))
    shape = tuple(shape)
    name = 'draw' if src == 'global' else 'rngdraw_' + src
    tag = terms.fn(name, F(i), *params) if seed is None else \
        terms.fn('seeded' + name, seed if terms.is_num(seed) else terms.atom('seed %s' % (seed,), plain=True), F(i), *params)
    a = np.empty(shape, dtype=object)
    for n, i in enumerate(np.ndindex(shape)):
        a[i] = terms.fn('%s_%s' % (src, kind), tag, F(n))
        Draws.meta[terms.fp(a[i])] = (src, kind, k, params, i[:-1] if kind.startswith('mvn') else i,
                                      i[-1] if kind.startswith('mvn') else None)
    return a


def size_of(size):
    if size is None:
        return ()
    return norm_shape(size)


def r_mvn(mean, cov, size=None, check_valid='warn', tol=None, method=None, src='global'):
    m, C = asarr(mean), asarr(cov)
    if m.ndim != 1:
        raise ValueError('mean must be 1 dimensional')
    if C.ndim != 2 or C.shape[0] != C.shape[1]:
        raise ValueError('cov must be 2 dimensional and square')
    if m.shape[0] != C.shape[0]:
        raise ValueError('mean and cov must have same length')
    d = m.shape[0]
    return draw('mvn%d' % d, list(m) + list(C.flat), size_of(size) + (d,), src)


def r_normal(loc=0, scale=1, size=None, src='global'):
    l, s = asarr(loc), asarr(scale)
    sh = size_of(size) if size is not None else np.broadcast(l, s).shape
    z = draw('stdnormal', [], sh, src)
    return scal(asarr(loc + asarr(scale) * z))


def r_std(size=None, src='global', **kw):
    return scal(draw('stdnormal', [], size_of(size), src))


def r_randn(*sh):
    return scal(draw('stdnormal', [], tuple(norm_int(s) for s in sh)))


def r_uniform(low=0, high=1, size=None, src='global'):
    z = draw('uniform', [], size_of(size), src)
    return scal(asarr(low + (high - low) * z))


def r_rand(*sh):
    return scal(draw('uniform', [], tuple(norm_int(s) for s in sh)))


def r_seed(seed=None):
    Draws.log.append(('seed', seed, ST.loc, None))
    ST.effects.append(('seed', seed, ST.loc))
    Draws.pos['global'] = 0
    if seed is None:
        Draws.nd += 1
        seed = terms.atom('nondet_seed_%d' % Draws.nd, plain=True)
    elif isinstance(seed, np.ndarray) and seed.size == 1:
        seed = seed.reshape(-1)[0]
    Draws.seeded = seed


class RandomStateModel:
    _count = 0

    def __init__(self, seed=None, *a, **k):
        RandomStateModel._count += 1
        self._src = 'private(%s)' % (fmt_value(seed),) if seed is not None else \
            'unseeded#%d' % RandomStateModel._count
        ST.effects.append(('rng', self._src, ST.loc))

    def multivariate_normal(self, mean, cov, size=None, **kw):
        return r_mvn(mean, cov, size, src=self._src)

    def normal(self, loc=0, scale=1, size=None):
        return r_normal(loc, scale, size, src=self._src)

    def standard_normal(self, size=None):
        return r_std(size, src=self._src)

    def randn(self, *sh):
        return scal(draw('stdnormal', [], tuple(norm_int(s) for s in sh), self._src))

    def uniform(self, low=0, high=1, size=None):
        return r_uniform(low, high, size, src=self._src)

    def seed(self, *a):
        pass


# ---- scipy.stats -----------------------------------------------------------------
def mvn_logpdf(x, mean=None, cov=1, allow_singular=False):
    mu = asarr(mean) if mean is not None else None
    C = asarr(cov)
    if mu is None:
        dim = 1 if C.ndim < 2 else C.shape[0]
        mu = full((dim,), F(0))
    dim = mu.size if mu.ndim <= 1 else None
    if mu.ndim == 0:
        mu = mu.reshape(1)
    if dim is None:
        if mu.ndim == 2:
            raise ValueError("Array 'mean' must be a vector of length %s." % mu.shape[0])
        raise ValueError('mean')
    if dim == 1 and C.ndim < 2:
        C = C.reshape(1, 1)
    if C.ndim == 0:
        C = C[()] * eye(dim)
    elif C.ndim == 1:
        C = np_diag(C)
    if C.shape != (dim, dim):
        raise ValueError("Array 'cov' must be square / 'mean' must be a vector of length %d" % dim)
    X = asarr(x)
    if X.ndim == 0:
        X = X.reshape(1)
    elif X.ndim == 1:
        X = X[:, None] if dim == 1 else X[None, :]
    if not allow_singular:
        fault_singular(C, 'multivariate_normal.logpdf(allow_singular=False)')
    if ST.hooks.get('eigh_fault') and ST.oracle.fault(('eigh', matkey(C), tuple(terms.fp(v) for v in asarr(x).flat)),
                                                      ('ok', 'LinAlgError'), 'eigh in logpdf') == 'LinAlgError':
        raise LinAlgError('Eigenvalues did not converge')
    inv = elim_solve(C, eye(dim))
    ld = terms.log(det(C))
    if X.shape[-1] != dim:
        X = np.broadcast_to(X, X.shape[:-1] + (dim,)) if X.shape[-1] == 1 else X
        if X.shape[-1] != dim:
            raise ValueError('operands could not be broadcast together with shapes %s %s' % (X.shape, mu.shape))
    out = np.empty(X.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        d = X[i] - mu
        q = F(0)
        for a in range(dim):
            for b in range(dim):
                q = terms.add(q, terms.mul(terms.mul(d[a], inv[a, b]), d[b]))
        l2p = terms.log(terms.mul(2, terms.mkpi()))
        out[i] = terms.mul(F(-1, 2), terms.add(terms.add(terms.mul(dim, l2p), ld), q))
    return scal(np.squeeze(out))


class MVN:
    logpdf = staticmethod(mvn_logpdf)

    @staticmethod
    def pdf(x, mean=None, cov=1, allow_singular=False):
        return umap_s(terms.exp, mvn_logpdf(x, mean, cov, allow_singular))

    @staticmethod
    def rvs(mean=None, cov=1, size=1, random_state=None):
        C = np.atleast_2d(asarr(cov))
        m = full((C.shape[0],), F(0)) if mean is None else asarr(mean)
        r = r_mvn(m, C, size)
        return np.squeeze(r)

    def __call__(self, mean=None, cov=1, allow_singular=False, seed=None):
        return FrozenMVN(mean, cov, allow_singular)


class FrozenMVN:
    def __init__(self, mean, cov, s):
        self.mean, self.cov, self._s = mean, cov, s

    def logpdf(self, x):
        return mvn_logpdf(x, self.mean, self.cov, self._s)

    def pdf(self, x):
        return MVN.pdf(x, self.mean, self.cov, self._s)

    def rvs(self, size=1):
        return MVN.rvs(self.mean, self.cov, size)


# ---- autograd ----------------------------------------------------------------------
_tagc = [0]


def jacobian(fun, argnum=0):
    def jac(*args, **kw):
        x = args[argnum]
        if isinstance(x, (Fraction, int, Sym)):
            X = asarr(x)
        elif isinstance(x, np.ndarray):
            X = x
        else:
            raise TypeError("Can't differentiate w.r.t. type %s" % type(x))
        if is_int_array(X):
            raise TypeError("Can't differentiate w.r.t. int")
        _tagc[0] += 1
        base = _tagc[0]
        Xd = np.empty(X.shape, dtype=object)
        tags = []
        for n, i in enumerate(np.ndindex(X.shape)):
            tag = (base, n)
            tags.append(tag)
            v = X[i]
            re, im = terms.lift(v)
            s = Sym(re, im, 'dual', (v, F(0)), v.lin if isinstance(v, Sym) else (None, F(0), F(const(v))),
                    terms._approx(v), None, terms.is_pos(v))
            s.op, s.args = ('add', (v, F(0)))
            if isinstance(v, Sym) and v.dot:
                raise Unsupported('second derivatives')
            s.dot = {tag: F(1)}
            Xd[i] = s
        xa = Xd if isinstance(x, np.ndarray) else Xd[()]
        a2 = list(args)
        a2[argnum] = xa
        out = CUR.call(fun, tuple(a2), kw)
        if isinstance(out, (list, tuple)):
            raise TypeError('jacobian of a function returning %s' % type(out).__name__)
        O = asarr(out)
        J = np.empty(O.shape + X.shape, dtype=object)
        for i in np.ndindex(O.shape):
            v = O[i]
            for tag, k in zip(tags, np.ndindex(X.shape)):
                J[i + k] = v.dot.get(tag, F(0)) if isinstance(v, Sym) and v.dot else F(0)
        J2 = np.frompyfunc(lambda v: _drop(v, tags), 1, 1)(J)
        return J2 if isinstance(J2, np.ndarray) else asarr(J2)
    return jac


def _drop(v, tags):
    if isinstance(v, Sym) and v.dot:
        d = {k: w for k, w in v.dot.items() if k not in tags}
        s = terms.strip(v)
        if d:
            s.dot = d
        return s
    return v


def grad(fun, argnum=0):
    j = jacobian(fun, argnum)
    return lambda *a, **k: j(*a, **k)


# ---- sqlite / io / pickle: effect trace -----------------------------------------------
class Blob:
    def __init__(self, kind, value):
        self.kind, self.value = kind, value

    def _content(self):
        if self.kind == 'raw':
            return ('raw', self.value[1]) + tuple(hash(x) for x in self.value[0])
        if self.kind in ('npy', 'pickle', 'sqlite', 'text', 'empty'):
            try:
                return (self.kind, frozen(self.value))
            except TypeError:
                pass
        return (self.kind, id(self))

    # bytes are equal when they hold the same content
    def __eq__(self, o):
        return isinstance(o, Blob) and self._content() == o._content()

    def __hash__(self):
        return hash(self._content())

    def __repr__(self):
        return '<blob %s>' % self.kind


def frozen(v):
    """A hashable image of the content of a value; TypeError for what has none."""
    if isinstance(v, np.ndarray):
        return ('array', v.shape, tuple(hash(x) for x in v.ravel()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(frozen(x) for x in v)
    if isinstance(v, dict):
        return ('dict',) + tuple((frozen(k), frozen(x)) for k, x in v.items())
    if v is None or isinstance(v, (str, bytes, bool, int, float, Fraction, Sym, Blob)):
        return (type(v).__name__, hash(v))
    raise TypeError('no content')


class Identities:
    """id(): unique among the objects alive, and used again by the next one once its object is gone."""

    def __init__(self):
        self.slots, self.kinds = [], []

    def __call__(self, o):
        import gc
        import weakref
        try:
            weakref.ref(o)
        except TypeError:
            return id(o)
        for n, r in enumerate(self.slots):
            if r() is o:
                return 1000 + 64 * n
        gc.collect()
        for n in reversed(range(len(self.slots))):
            r = self.slots[n]
            if r() is None and self.kinds[n] is type(o):
                self.slots[n] = weakref.ref(o)
                return 1000 + 64 * n
        self.slots.append(weakref.ref(o))
        self.kinds.append(type(o))
        return 1000 + 64 * (len(self.slots) - 1)


class BytesIOModel:
    def __init__(self, initial=None):
        self.content = initial
        self.pos = 0

    def seek(self, p, whence=0):
        if whence == 0:
            self.pos = p
        elif whence == 2:
            self.pos = 1 + p
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        if self.pos != 0 or self.content is None:
            return Blob('empty', None)
        self.pos = 1
        return self.content

    def getvalue(self):
        return self.content if self.content is not None else Blob('empty', None)

    getbuffer = getvalue

    def write(self, b):
        self.content = b
        self.pos = 1

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def np_save(f, arr, allow_pickle=True, **kw):
    if isinstance(f, BytesIOModel):
        if f.pos != 0:
            raise Unsupported('save at a non-zero position')
        f.content = Blob('npy', arr)
        f.pos = 1
        return
    ST.effects.append(('save', str(fmt_value(f)), arr, ST.loc))


def np_load(f, allow_pickle=False, **kw):
    if isinstance(f, BytesIOModel):
        b = f.content
        if isinstance(b, Blob) and b.kind == 'sqlite':
            b = b.value
        if f.pos != 0 or not isinstance(b, Blob) or b.kind != 'npy':
            raise ValueError('Cannot load file containing pickled data / bad position (%r)' % b)
        f.pos = 1
        return b.value
    h = ST.hooks.get('np.load')
    ST.effects.append(('load', str(fmt_value(f)), ST.loc))
    if h:
        return h(f)
    raise FileNotFoundError(str(f))


def array_bytes(a, order='C'):
    """The elements of an array in memory order, without its shape."""
    a = asarr(a)
    v = list(a.flatten(order))
    return Blob('raw', (v, 'i' if is_int_array(a) else 'b' if is_boolish(a) else 'f'))


def np_frombuffer(b, dtype=float, count=-1, offset=0):
    if isinstance(b, Blob) and b.kind == 'sqlite':
        b = b.value
    if not isinstance(b, Blob) or b.kind != 'raw' or offset:
        raise Unsupported('frombuffer')
    v, k = b.value
    if low_float(dtype) or kind_of(dtype) != k:
        v = [terms.fn('bits', x) for x in v]
    out = np.empty(len(v) if count < 0 else count, dtype=object)
    if len(out) > len(v):
        raise ValueError('buffer is smaller than requested size')
    for i in range(len(out)):
        out[i] = v[i]
    return out


def pk_dumps(obj, protocol=None, **kw):
    return Blob('pickle', obj)


def pk_loads(b, **kw):
    if isinstance(b, Blob) and b.kind == 'sqlite':
        b = b.value
    if isinstance(b, Blob) and b.kind == 'pickle':
        return b.value
    raise UnpicklingError('could not find MARK')


class UnpicklingError(Exception):
    pass


class SqliteError(Exception):
    pass


class OperationalError(SqliteError):
    pass


class IntegrityError(SqliteError):
    pass


class Conn:
    def __init__(self, db, detect_types=0, **kw):
        self.db, self.detect_types, self.kw = db, detect_types, kw
        ST.effects.append(('connect', self, db, ST.loc))

    def cursor(self):
        return Cursor(self)

    def execute(self, sql, params=()):
        return Cursor(self).execute(sql, params)

    def executemany(self, sql, seq):
        return Cursor(self).executemany(sql, seq)

    def _tell(self, what):
        ST.effects.append((what, self, ST.loc))
        h = ST.hooks.get('sql')
        if h:
            h(self, what.upper(), ())

    def commit(self):
        self._tell('commit')

    def rollback(self):
        self._tell('rollback')

    def close(self):
        self._tell('close')

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is None:
            self.commit()
        else:
            self.rollback()
        return False


class Cursor:
    def __init__(self, conn):
        self.connection = conn
        self._last = None
        self._rows = None

    def execute(self, sql, params=()):
        if isinstance(sql, EngineObj):
            raise Unsupported('sql text')
        if params is not None and not isinstance(params, (list, tuple, dict)):
            raise Unsupported('sql parameters')
        n = str(sql).count('?')
        if isinstance(params, (list, tuple)) and n != len(params):
            raise SqliteError('Incorrect number of bindings supplied. The current statement uses %d, and there are %d '
                              'supplied.' % (n, len(params)))
        self._last = (str(sql), tuple(params) if not isinstance(params, dict) else dict(params))
        ST.effects.append(('execute', self.connection, str(sql), self._last[1], ST.loc))
        h = ST.hooks.get('sql')
        self._rows = list(h(self.connection, self._last[0], self._last[1]) or []) if h else None
        return self

    def executemany(self, sql, seq):
        for p in seq:
            self.execute(sql, p)
        return self

    def executescript(self, sql):
        self.commit = None
        for s in sql.split(';'):
            if s.strip():
                self.execute(s)
        return self

    def fetchall(self):
        if self._rows is not None:
            r, self._rows = self._rows, []
            return r
        h = ST.hooks.get('fetchall')
        if h is None:
            raise Unsupported('fetchall')
        return h(self._last[0], self._last[1])

    def fetchone(self):
        if self._rows is None:
            r = self.fetchall()
            return r[0] if r else None
        return self._rows.pop(0) if self._rows else None

    def fetchmany(self, size=1):
        if self._rows is None:
            return self.fetchall()[:size]
        r, self._rows = self._rows[:size], self._rows[size:]
        return r

    def __iter__(self):
        return iter(self.fetchall())

    @property
    def rowcount(self):
        raise Unsupported('rowcount')

    def close(self):
        pass


class SqlReg:
    adapters = {}
    converters = {}


# ---------------------------------------------------------------------- namespaces
class PathModel(pathlib.PurePosixPath):
    """pathlib.Path in the fixed working directory; touching the file system is an effect."""

    @classmethod
    def cwd(cls):
        return cls('/cwd')

    def absolute(self):
        return type(self)('/cwd') / self

    def resolve(self, strict=False):
        return type(self)(os.path.normpath('/cwd/' + str(self) if not self.is_absolute() else str(self)))

    def exists(self):
        return ST.hooks['exists'](str(self)) if 'exists' in ST.hooks else False

    is_file = is_dir = exists

    def mkdir(self, *a, **k):
        ST.effects.append(('makedirs', (str(self),) + a, ST.loc))

    def open(self, *a, **k):
        raise Unsupported('pathlib.Path.open')

    read_text = write_text = read_bytes = write_bytes = unlink = rename = open


class NS(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        if n in getattr(self, '_absent', ()):
            raise AttributeError("module '%s' has no attribute '%s'" % (self.__name__, n))
        return EngineObj('%s.%s' % (self.__name__, n))


def ns(name, d, absent=()):
    m = NS(name)
    m._absent = absent
    for k, v in d.items():
        setattr(m, k, guard(name + '.' + k, v))
    return m


PROGRAM_EXC = (LinAlgError, LinAlgWarning, ValueError, IndexError, KeyError, FileNotFoundError, SqliteError,
               UnpicklingError, ZeroDivisionError, AssertionError, StopIteration)


def guard(name, f):
    """Library transfer function: exceptions that are not part of the modelled behaviour are Unsupported."""
    if not isinstance(f, types.FunctionType):
        return f
    try:
        sig = inspect.signature(f)
    except (TypeError, ValueError):
        return f

    @functools.wraps(f)
    def g(*a, **k):
        try:
            sig.bind(*a, **k)
        except TypeError as e:
            raise Unsupported('%s: %s' % (name, e))
        try:
            return f(*a, **k)
        except (EngineError,) + PROGRAM_EXC:
            raise
        except TypeError as e:
            if getattr(e, '_sa_loc', None) is not None or getattr(e, '_sa_explicit', False):
                raise
            for x in a:
                if x is None or (isinstance(x, (list, tuple)) and any(v is None for v in x)):
                    raise
            if 'differentiate' in str(e) or 'integer' in str(e) or 'sequence type' in str(e):
                raise
            raise Unsupported('%s: TypeError %s' % (name, e))
        except Exception as e:
            if getattr(e, '_sa_loc', None) is not None or getattr(e, '_sa_explicit', False):
                raise
            if isinstance(e, np.exceptions.AxisError):
                raise ValueError(str(e))
            raise Unsupported('%s: %s %s' % (name, type(e).__name__, e))
    g._sa_name = name
    return g


class I_INT:
    pass


def np_namespace(it, name='numpy'):
    d = {}
    u1 = dict(sqrt=terms.sqrt, sin=terms.sin, cos=terms.cos, tan=terms.tan, exp=terms.exp, log=terms.log,
              arctan=terms.arctan, tanh=terms.tanh, abs=terms.absolute, absolute=terms.absolute, fabs=terms.absolute,
              square=lambda x: terms.mul(x, x), negative=lambda x: terms.mul(-1, x),
              deg2rad=lambda x: terms.mul(terms.div(x, 180), terms.mkpi()),
              radians=lambda x: terms.mul(terms.div(x, 180), terms.mkpi()),
              rad2deg=lambda x: terms.div(terms.mul(x, 180), terms.mkpi()),
              degrees=lambda x: terms.div(terms.mul(x, 180), terms.mkpi()),
              reciprocal=lambda x: terms.div(1, x),
              log1p=lambda x: terms.log(terms.add(1, x)),
              expm1=lambda x: terms.sub(terms.exp(x), 1),
              log2=lambda x: terms.div(terms.log(x), terms.log(2)),
              log10=lambda x: terms.div(terms.log(x), terms.log(10)),
              sinh=lambda x: terms.div(terms.sub(terms.exp(x), terms.exp(terms.mul(-1, x))), 2),
              cosh=lambda x: terms.div(terms.add(terms.exp(x), terms.exp(terms.mul(-1, x))), 2),
              floor=lambda x: terms.fn('floor', x) if isinstance(x, Sym) else F(x.__floor__()),
              ceil=lambda x: terms.fn('ceil', x) if isinstance(x, Sym) else F(x.__ceil__()))
    for k, f in u1.items():
        def mk(f):
            e = elementwise(lambda x: f(chk(x)))

            def g(x, out=None, where=None, dtype=None):
                return e(x, out=out, where=where)
            return g
        d[k] = mk(f)
    u2 = dict(arctan2=terms.arctan2, add=terms.add, subtract=terms.sub, multiply=terms.mul, divide=terms.div,
              true_divide=terms.div, power=terms.power, float_power=terms.power,
              hypot=lambda x, y: terms.sqrt(terms.add(terms.mul(x, x), terms.mul(y, y))))
    for k, f in u2.items():
        def mk2(f):
            e = elementwise(lambda x, y: f(chk(x), chk(y)))

            def g(x, y, out=None, where=None, dtype=None):
                return e(x, y, out=out, where=where)
            return g
        d[k] = guard(name + '.' + k, mk2(f))
        if k in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'power', 'arctan2', 'hypot'):
            d[k] = UFunc(k, d[k], f, None, {'add': np_sum, 'multiply': np_prod}.get(k))

    def mod(x, y):
        return binop(I.ast.Mod, asarr(x) if isinstance(x, (list, tuple)) else x, y)
    for k, op in dict(less=operator.lt, less_equal=operator.le, greater=operator.gt, greater_equal=operator.ge,
                      equal=operator.eq, not_equal=operator.ne).items():
        d[k] = (lambda op: lambda x, y: compare(op, asarr(x) if isinstance(x, (list, tuple)) else x, y))(op)
    d.update(mod=mod, remainder=mod,
             logical_and=lambda a, b: scal(umap(lambda x, y: truth(x) and truth(y), a, b)),
             logical_or=lambda a, b: scal(umap(lambda x, y: truth(x) or truth(y), a, b)),
             logical_not=lambda a: scal(umap(lambda x: not truth(x), a)),
             array=np_array, asarray=np_asarray, asanyarray=np_asarray, ascontiguousarray=np_contiguous,
             asfortranarray=lambda a, dtype=None: np.asfortranarray(np_asarray(a, dtype)), frombuffer=np_frombuffer,
             atleast_1d=_atleast(1), atleast_2d=_atleast(2), atleast_3d=_atleast(3),
             zeros=np_zeros, ones=np_ones, empty=np_empty, full=np_full, eye=eye,
             identity=lambda n, dtype=None: eye(n, dtype=dtype),
             zeros_like=like(np_zeros), ones_like=like(np_ones), empty_like=like(np_empty), full_like=np_full_like,
             diag=np_diag, trace=np_trace, dot=np_dot, matmul=np_matmul, outer=np_outer, kron=np_kron,
             inner=lambda a, b: scal(asarr(np.inner(asarr(a), asarr(b)))),
             vdot=lambda a, b: np_dot(asarr(a).ravel(), asarr(b).ravel()),
             einsum=np_einsum, tensordot=np_tensordot,
             vstack=wrapcat(np.vstack), hstack=wrapcat(np.hstack), stack=wrapcat(np.stack),
             concatenate=wrapcat(np.concatenate), column_stack=wrapcat(np.column_stack),
             row_stack=wrapcat(np.vstack), dstack=wrapcat(np.dstack), block=np_block, append=np_append,
             squeeze=np_squeeze, reshape=shape_fn(np.reshape), ravel=shape_fn(np.ravel),
             transpose=shape_fn(np.transpose), swapaxes=shape_fn(np.swapaxes), moveaxis=shape_fn(np.moveaxis),
             expand_dims=shape_fn(np.expand_dims), broadcast_to=shape_fn(np.broadcast_to), tile=shape_fn(np.tile),
             repeat=shape_fn(np.repeat), roll=np_roll, flip=shape_fn(np.flip), fliplr=shape_fn(np.fliplr),
             flipud=shape_fn(np.flipud), take=shape_fn(np.take), delete=shape_fn(np.delete),
             diagonal=shape_fn(np.diagonal), rollaxis=shape_fn(np.rollaxis), rot90=shape_fn(np.rot90),
             split=shape_fn(np.split), array_split=shape_fn(np.array_split), vsplit=shape_fn(np.vsplit),
             hsplit=shape_fn(np.hsplit),
             fromiter=np_fromiter, r_=Joined(False), c_=Joined(True),
             insert=lambda arr, obj, values, axis=None: floatify(np.insert(asarr(arr), _ints(obj), asarr(values),
                                                                           axis=axis)),
             arange=np_arange, linspace=np_linspace,
             meshgrid=lambda *x, **k: [asarr(v) for v in np.meshgrid(*[asarr(v) for v in x], **k)],
             sum=np_sum, mean=np_mean, average=np_average, var=np_var, std=np_std, cov=np_cov, prod=np_prod,
             cumsum=np_cumsum, max=np_max, min=np_min, amax=np_max, amin=np_min, argmax=_argext(True),
             argmin=_argext(False), where=np_where, any=np_any, all=np_all, isnan=np_isnan, isinf=np_isinf,
             isfinite=np_isfinite, isclose=np_isclose, allclose=np_allclose, array_equal=np_array_equal,
             maximum=np_maximum, minimum=np_minimum, fmax=np_maximum, fmin=np_minimum, clip=np_clip, sign=np_sign,
             shape=np_shape, ndim=lambda a: asarr(a).ndim, size=np_size, round=np_round, around=np_round, copy=np_copy,
             vectorize=np_vectorize, apply_along_axis=np_apply_along_axis, percentile=np_percentile,
             fill_diagonal=np_fill_diagonal, triu=np_triu, tril=np_tril,
             triu_indices=np_triu_indices, tril_indices=np_tril_indices, triu_indices_from=np_triu_indices_from,
             tril_indices_from=np_tril_indices_from, diag_indices=np_diag_indices,
             diag_indices_from=np_diag_indices_from, ix_=np_ix_, diff=np_diff, cumprod=np_cumprod,
             count_nonzero=np_count_nonzero, nonzero=np_nonzero, flatnonzero=lambda a: np_nonzero(asarr(a).ravel())[0],
             nansum=_nan_free(np_sum), nanmean=_nan_free(np_mean), nanmax=_nan_free(np_max), nanmin=_nan_free(np_min),
             nanstd=_nan_free(np_std), nanvar=_nan_free(np_var),
             unravel_index=lambda i, shape: tuple(int(v) for v in np.unravel_index(norm_int(i), shape)), save=np_save, load=np_load,
             ndindex=lambda *s: iter(list(np.ndindex(*s))), ndenumerate=lambda a: iter([(i, a[i]) for i in
                                                                                         np.ndindex(a.shape)]),
             isscalar=lambda x: is_scalar(x), nan_to_num=np_nan_to_num,
             errstate=lambda **k: NullCtx(), seterr=lambda **k: {}, set_printoptions=lambda **k: None,
             may_share_memory=lambda a, b: np.may_share_memory(a, b), shares_memory=lambda a, b: np.shares_memory(a, b),
             real=lambda x: x, result_type=lambda *a: float)
    d['trunc'] = lambda x: scal(asarr(I._trunc(asarr(x))))
    d['fix'] = d['trunc']
    extra = dict(pi=terms.mkpi(), e=terms.Sym(terms.H('e'), 0, 'atom', ('e',), None, 2.718281828459045, None, True),
                 inf=float('inf'), Inf=float('inf'), nan=float('nan'), NaN=float('nan'), newaxis=None,
                 float=it.builtins_f, float64=it.builtins_f, float32=LOW['float32'], single=LOW['float32'],
                 float16=LOW['float16'], half=LOW['float16'], longdouble=it.builtins_f, double=it.builtins_f,
                 float_=it.builtins_f, int=it.builtins_i, int64=it.builtins_i, int32=it.builtins_i,
                 int_=it.builtins_i, intp=it.builtins_i, bool=bool, bool_=bool, object=object, ndarray=np.ndarray,
                 number=it.numbers_number, floating=it.builtins_f, integer=it.builtins_i, generic=it.numbers_number,
                 ufunc=np.ufunc)
    m = ns(name, d)
    for k, v in extra.items():
        setattr(m, k, v)
    m.finfo = lambda t=None: types.SimpleNamespace(eps=F(1, 2 ** 52), tiny=F(1, 2 ** 1022), resolution=F(1, 10 ** 15),
                                                   max=F(2) ** 1023, min=-F(2) ** 1023)
    la = dict(eigvalsh=eigvals, eigvals=eigvals, cholesky=np_cholesky, solve=np_solve, inv=np_inv, pinv=pinv, cond=np_cond, det=det, slogdet=slogdet, norm=norm,
              multi_dot=lambda xs: functools.reduce(np_dot, xs),
              matrix_power=lambda a, n: np.linalg.matrix_power(asarr(a), n))
    m.linalg = ns(name + '.linalg', la)
    m.linalg.LinAlgError = LinAlgError
    rn = dict(seed=r_seed, multivariate_normal=r_mvn, normal=r_normal, randn=r_randn, standard_normal=r_std,
              rand=r_rand, uniform=r_uniform)
    m.random = ns(name + '.random', rn)
    m.random.RandomState = RandomStateModel
    m.random.default_rng = lambda seed=None: RandomStateModel(seed)
    m.random.Generator = RandomStateModel
    m.testing = EngineObj(name + '.testing')
    return m


class NullCtx:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Logger:
    def __init__(self, name='root'):
        self.name = name
        self.handlers = []

    def _log(self, *a, **k):
        return None
    debug = info = warning = error = critical = exception = log = warn = setLevel = addHandler = _log

    def isEnabledFor(self, *a):
        return False

    def getChild(self, n):
        return self


def make_modules(it):
    global CUR
    CUR = it

    class _FMeta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, (Fraction, Sym, float)) and not isinstance(x, (int, np.ndarray))

        def __subclasscheck__(cls, c):
            return c is cls or c is float

    class FloatT(metaclass=_FMeta):
        def __new__(cls, x=0):
            return to_float(x)

    FloatT.__name__ = FloatT.__qualname__ = 'float'

    class _IMeta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, (int, np.integer))

        def __subclasscheck__(cls, c):
            return c is cls or c is int

    class IntT(metaclass=_IMeta):
        def __new__(cls, x=0, *a):
            return to_int(x, *a)
    IntT.__name__ = IntT.__qualname__ = 'int'

    class _NMeta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, (int, Fraction, Sym, float, np.number))

    class NumberT(metaclass=_NMeta):
        pass
    it.builtins_f, it.builtins_i, it.numbers_number = FloatT, IntT, NumberT
    global I_INT
    I_INT = IntT
    mods = {}
    NP = np_namespace(it, 'numpy')
    mods['numpy'] = NP
    mods['numpy.linalg'] = NP.linalg
    mods['numpy.random'] = NP.random
    ag = NS('autograd')
    ANP = np_namespace(it, 'autograd.numpy')
    ag.numpy = ANP
    ag.jacobian = guard('autograd.jacobian', jacobian)
    ag.grad = guard('autograd.grad', grad)
    ag.scipy = NS('autograd.scipy')
    ag.scipy.stats = NS('autograd.scipy.stats')
    mv = MVN()
    ag.scipy.stats.multivariate_normal = mv
    mods['autograd'] = ag
    mods['autograd.numpy'] = ANP
    mods['autograd.numpy.linalg'] = ANP.linalg
    mods['autograd.scipy'] = ag.scipy
    mods['autograd.scipy.stats'] = ag.scipy.stats
    sp = NS('scipy')
    sp.linalg = ns('scipy.linalg', dict(solve=sp_solve, cholesky=sp_cholesky, cho_factor=cho_factor,
                                        cho_solve=cho_solve, eigvalsh=eigvals, eigvals=eigvals, solve_triangular=solve_triangular, inv=np_inv, pinv=pinv,
                                        det=det, norm=norm,
                                        block_diag=lambda *xs: _block_diag(xs)))
    sp.linalg.LinAlgError = LinAlgError
    sp.linalg.LinAlgWarning = LinAlgWarning
    sp.stats = NS('scipy.stats')
    sp.stats.multivariate_normal = mv
    mods['scipy'] = sp
    mods['scipy.linalg'] = sp.linalg
    mods['scipy.stats'] = sp.stats

    for n in ('functools', 'itertools', 'collections', 'typing', 'abc', 'operator', 'enum', 'dataclasses', 'types',
              'string', 're', 'textwrap', 'collections.abc', 'typing_extensions'):
        try:
            mods[n] = __import__(n, fromlist=['x'])
        except ImportError:
            pass
    ft = NS('functools')
    for k in dir(functools):
        if not k.startswith('__'):
            setattr(ft, k, getattr(functools, k))
    ft.wraps = lambda f, *a, **k: (lambda g: _wraps(f, g))
    ft.lru_cache = _lru_cache
    ft.cache = lambda f: _lru_cache(None)(f)
    ft.partial = Partial
    mods['functools'] = ft
    cl = NS('contextlib')
    cl.suppress = __import__('contextlib').suppress
    cl.closing = __import__('contextlib').closing
    cl.nullcontext = __import__('contextlib').nullcontext
    class GenCM:
        def __init__(self, f, a, k):
            self.g = CUR.call(f, a, k)

        def __enter__(self):
            return next(self.g)

        def __exit__(self, t, v, tb):
            if v is None:
                try:
                    next(self.g)
                except StopIteration:
                    return False
                raise RuntimeError("generator didn't stop")
            try:
                self.g.throw(v)
            except StopIteration:
                return True
            except BaseException as e:
                if e is v:
                    return False
                raise
            raise RuntimeError("generator didn't stop after throw()")
    cl.contextmanager = lambda f: _wraps(f, lambda *a, **k: GenCM(f, a, k))
    mods['contextlib'] = cl
    nb = NS('numbers')
    nb.Number = nb.Real = nb.Complex = NumberT
    nb.Integral = IntT
    mods['numbers'] = nb
    m = {}
    for k in ('sqrt', 'sin', 'cos', 'tan', 'exp', 'log', 'tanh'):
        f = getattr(terms, k)
        m[k] = (lambda f: lambda x: f(scal(asarr(x)) if not isinstance(x, np.ndarray) else x.item()))(f)
    m['atan'] = lambda x: terms.arctan(x)
    m['atan2'] = lambda y, x: terms.arctan2(y, x)
    m['fabs'] = lambda x: terms.absolute(x)
    m['hypot'] = lambda x, y: terms.sqrt(terms.add(terms.mul(x, x), terms.mul(y, y)))
    m['isnan'] = lambda x: np_isnan(x)
    m['isinf'] = lambda x: np_isinf(x)
    m['isfinite'] = lambda x: np_isfinite(x)
    m['isclose'] = lambda a, b, rel_tol=F(1, 10 ** 9), abs_tol=0: np_isclose(a, b, rel_tol, abs_tol)
    m['radians'] = lambda x: terms.mul(terms.div(x, 180), terms.mkpi())
    m['pow'] = lambda a, b: terms.power(a, b)
    m['fsum'] = lambda xs: functools.reduce(terms.add, list(CUR.iterate(xs)), F(0))
    m['prod'] = lambda xs, start=1: functools.reduce(terms.mul, list(CUR.iterate(xs)), start)
    m['log1p'] = lambda x: terms.log(terms.add(1, x))
    m['expm1'] = lambda x: terms.sub(terms.exp(x), 1)
    m['log2'] = lambda x: terms.div(terms.log(x), terms.log(2))
    m['log10'] = lambda x: terms.div(terms.log(x), terms.log(10))
    m['degrees'] = lambda x: terms.div(terms.mul(x, 180), terms.mkpi())
    m['copysign'] = lambda x, y: terms.mul(terms.absolute(x), np_sign(y))
    m['dist'] = lambda p, q: norm(asarr(p) - asarr(q))
    m['floor'] = lambda x: terms.fn('floor', x) if isinstance(x, Sym) else x.__floor__()
    m['ceil'] = lambda x: terms.fn('ceil', x) if isinstance(x, Sym) else x.__ceil__()
    mm = ns('math', m)
    mm.pi = terms.mkpi()
    mm.inf, mm.nan = float('inf'), float('nan')
    mods['math'] = mm
    cp = NS('copy')
    cp.copy = _copy.copy
    cp.deepcopy = _copy.deepcopy
    mods['copy'] = cp
    lg = NS('logging')
    for k in ('DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL', 'FATAL'):
        setattr(lg, k, k)
    lg.basicConfig = lambda *a, **k: None
    lg.getLogger = lambda *a: Logger()
    lg.Logger = Logger
    for k in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'log', 'disable'):
        setattr(lg, k, lambda *a, **k: None)
    lg.StreamHandler = lg.FileHandler = lg.Formatter = lg.NullHandler = lambda *a, **k: Logger()
    mods['logging'] = lg
    wn = NS('warnings')

    def filterwarnings(action, message='', category=Warning, module='', lineno=0, append=False):
        if category is not None and issubclass(LinAlgWarning, category):
            ST.warn_as_error = (action == 'error')
            ST.effects.append(('warnfilter', action, category.__name__, ST.loc))

    def simplefilter(action, category=Warning, lineno=0, append=False):
        filterwarnings(action, category=category)
    wn.filterwarnings = filterwarnings
    wn.simplefilter = simplefilter
    wn.warn = lambda *a, **k: None

    def resetwarnings():
        ST.warn_as_error = False
    wn.resetwarnings = resetwarnings

    class catch_warnings:
        def __init__(self, *a, **k):
            self.rec = k.get('record', False)

        def __enter__(self):
            self.s = ST.warn_as_error
            return [] if self.rec else None

        def __exit__(self, *a):
            ST.warn_as_error = self.s
            return False
    wn.catch_warnings = catch_warnings
    mods['warnings'] = wn
    sq = NS('sqlite3')
    sq.PARSE_DECLTYPES = 1
    sq.PARSE_COLNAMES = 2
    sq.connect = lambda database, timeout=5.0, detect_types=0, *a, **k: Conn(database, detect_types, **k)
    sq.Binary = lambda b: Blob('sqlite', b)
    sq.Connection, sq.Cursor = Conn, Cursor
    sq.Error, sq.OperationalError, sq.IntegrityError = SqliteError, OperationalError, IntegrityError
    sq.DatabaseError = SqliteError

    def reg_a(t, f):
        SqlReg.adapters[t] = f

    def reg_c(n, f):
        SqlReg.converters[n.upper()] = f
    sq.register_adapter, sq.register_converter = reg_a, reg_c
    mods['sqlite3'] = sq
    pk = NS('pickle')
    pk.dumps, pk.loads, pk.HIGHEST_PROTOCOL, pk.DEFAULT_PROTOCOL = pk_dumps, pk_loads, 5, 4
    pk.UnpicklingError = UnpicklingError

    def pk_dump(obj, f, *a, **k):
        if isinstance(f, BytesIOModel):
            f.write(Blob('pickle', obj))
            return
        raise Unsupported('pickle.dump')

    def pk_load(f, *a, **k):
        if isinstance(f, BytesIOModel):
            return pk_loads(f.read())
        raise Unsupported('pickle.load')
    pk.dump, pk.load = pk_dump, pk_load
    mods['pickle'] = pk
    io_ = NS('io')
    io_.BytesIO = BytesIOModel
    mods['io'] = io_
    os_ = NS('os')
    os_.getcwd = lambda: '/cwd'
    os_.sep = '/'
    os_.path = NS('os.path')
    for k in ('join', 'basename', 'dirname', 'splitext', 'split', 'normpath', 'isabs'):
        setattr(os_.path, k, getattr(os.path, k))
    os_.path.abspath = lambda p: os.path.normpath(os.path.join('/cwd', p))
    os_.path.exists = lambda p: ST.hooks['exists'](p) if 'exists' in ST.hooks else False
    os_.path.isfile = os_.path.isdir = os_.path.exists
    os_.makedirs = lambda *a, **k: ST.effects.append(('makedirs', a, ST.loc))
    os_.mkdir = os_.makedirs
    os_.fspath = os.fspath
    os_.environ = {}
    os_.getenv = lambda k, d=None: d
    mods['os'] = os_
    mods['os.path'] = os_.path
    pl = NS('pathlib')
    pl.Path = pl.PosixPath = PathModel
    pl.PurePath = pl.PurePosixPath = PathModel
    mods['pathlib'] = pl
    tm = NS('time')

    def nondet(name):
        def g(*a, **k):
            ST.effects.append(('nondet', name, ST.loc))
            Draws.log.append(('nondet', name, ST.loc, None))
            Draws.nd = getattr(Draws, 'nd', 0) + 1
            return terms.atom('nondet_%s_%d' % (name, Draws.nd), pos=True, plain=True)
        return g
    for k in ('time', 'perf_counter', 'monotonic', 'process_time', 'time_ns'):
        setattr(tm, k, nondet('time.' + k))
    tm.sleep = lambda *a: None
    tm.strftime = lambda *a: '<time>'
    mods['time'] = tm
    rd = NS('random')
    for k in ('random', 'gauss', 'uniform', 'randint', 'normalvariate', 'choice', 'randrange', 'sample', 'shuffle'):
        setattr(rd, k, nondet('random.' + k))

    def rseed(*a):
        ST.effects.append(('pyseed', a, ST.loc))
    rd.seed = rseed
    mods['random'] = rd
    ck = NS('click')
    ident = lambda *a, **k: (lambda f: f)
    ck.command = ck.option = ck.argument = ck.group = ck.pass_context = ident
    ck.Choice = lambda *a, **k: ('choice', a)
    ck.Path = lambda *a, **k: ('path',)
    ck.INT, ck.FLOAT, ck.STRING = 'INT', 'FLOAT', 'STRING'
    ck.echo = lambda *a, **k: None
    mods['click'] = ck
    sy = NS('sys')
    sy.path = []
    sy.argv = ['prog']
    sy.stdout = sy.stderr = Logger()
    sy.stdout.write = sy.stdout.flush = lambda *a: None
    sy.float_info = types.SimpleNamespace(epsilon=F(2220446049250313, 10 ** 31))
    mods['sys'] = sy
    tq = NS('tqdm')
    tq.tqdm = lambda x, *a, **k: x
    tq.trange = lambda *a, **k: range(*a)
    mods['tqdm'] = tq
    mods['__future__'] = EngineObj('__future__')
    return mods


def _block_diag(xs):
    arrs = [np.atleast_2d(asarr(x)) for x in xs]
    R, C = sum(a.shape[0] for a in arrs), sum(a.shape[1] for a in arrs)
    out = full((R, C), F(0))
    r = c = 0
    for a in arrs:
        out[r:r + a.shape[0], c:c + a.shape[1]] = a
        r += a.shape[0]
        c += a.shape[1]
    return floatify(out)


def _wraps(f, g):
    try:
        g.__name__ = getattr(f, '__name__', 'wrapped')
        g.__doc__ = getattr(f, '__doc__', None)
        g.__wrapped__ = f
    except AttributeError:
        pass
    return g


class Partial(functools.partial):
    """functools.partial whose call goes through the interpreter's call protocol."""

    def __call__(self, *a, **k):
        kw = dict(self.keywords)
        kw.update(k)
        return CUR.call(self.func, self.args + a, kw)


def cache_key(args, kw):
    def k(x):
        if isinstance(x, np.ndarray):
            raise TypeError("unhashable type: 'numpy.ndarray'")
        hash(x)
        return x
    return tuple(k(a) for a in args) + tuple(sorted((n, k(v)) for n, v in kw.items()))


def _lru_cache(maxsize=128, typed=False):
    def deco(f):
        memo = {}

        def g(*a, **k):
            key = cache_key(a, k)
            if key not in memo:
                memo[key] = CUR.call(f, a, k)
            return memo[key]
        return _wraps(f, g)
    if callable(maxsize):
        f, maxsize2 = maxsize, 128
        return _lru_cache(maxsize2)(f)
    return deco


def to_float(x):
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        x = x.reshape(-1)[0]
    if isinstance(x, Sym) or isinstance(x, Fraction):
        return x
    if isinstance(x, (int, np.integer)):
        return F(int(x))
    if isinstance(x, str):
        v = float(x)
        return F(const(v)) if const(v) is not None else v
    if isinstance(x, float):
        return F(const(x)) if const(x) is not None else x
    raise TypeError('float() argument must be a string or a number')


def to_int(x=0, *a):
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        x = x.reshape(-1)[0]
    if isinstance(x, Sym):
        return terms.fn('trunc', x)
    if isinstance(x, Fraction):
        return int(x)
    if isinstance(x, (str, bytes)):
        return int(x, *a)
    return int(x)


# ---------------------------------------------------------------------- builtins
def make_builtins(it):
    b = {}
    for n in ('True', 'False', 'None', 'Ellipsis', 'NotImplemented', 'list', 'tuple', 'dict', 'set', 'frozenset',
              'zip', 'enumerate', 'reversed', 'iter', 'object', 'property', 'staticmethod', 'classmethod',
              'super', 'BaseException', 'Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError',
              'AttributeError', 'RuntimeError', 'NotImplementedError', 'ZeroDivisionError', 'StopIteration',
              'AssertionError', 'ArithmeticError', 'FloatingPointError', 'OverflowError', 'LookupError', 'NameError',
              'OSError', 'IOError', 'FileNotFoundError', 'FileExistsError', 'ImportError', 'ModuleNotFoundError',
              'Warning', 'RuntimeWarning', 'UserWarning', 'DeprecationWarning', 'KeyboardInterrupt', 'SystemExit',
              'GeneratorExit', 'EOFError', 'RecursionError', 'UnboundLocalError', 'MemoryError', 'PermissionError',
              'callable', 'hasattr', 'issubclass', 'slice', 'bytes', 'bytearray', 'id', 'hash', 'range',
              'bool', 'delattr', '__build_class__', 'memoryview'):
        if hasattr(builtins, n):
            b[n] = getattr(builtins, n)
    b['int'], b['float'], b['bool'] = it.builtins_i, it.builtins_f, bool
    b['id'] = Identities()

    def b_isinstance(x, t):
        if isinstance(x, EngineObj) or isinstance(t, EngineObj):
            raise Unsupported('isinstance of an opaque value')
        if isinstance(t, tuple):
            return any(b_isinstance(x, u) for u in t)
        if t is float:
            t = it.builtins_f
        if isinstance(x, Cond) and t is bool:
            return True
        if isinstance(x, bool) and t is it.builtins_i:
            return True
        if t is collections.abc.Callable:
            return callable(x)
        return isinstance(x, t)

    def b_len(x):
        if isinstance(x, (Sym, Fraction)):
            raise TypeError("object of type 'float' has no len()")
        if isinstance(x, np.ndarray) and x.ndim == 0:
            raise TypeError('len() of unsized object')
        if isinstance(x, EngineObj):
            raise Unsupported('len of an opaque value')
        return len(x)

    def b_sum(x, start=0):
        acc = start
        for v in it.iterate(x):
            if isinstance(v, (Cond,)):
                v = int(bool(v))
            acc = binop(I.ast.Add, acc, v)
        return acc

    def b_ext(name, op):
        def g(*a, key=None, default=g_missing):
            vals = list(it.iterate(a[0])) if len(a) == 1 else list(a)
            if not vals:
                if default is not g_missing:
                    return default
                raise ValueError('%s() arg is an empty sequence' % name)
            ks = vals if key is None else [it.call(key, (v,), {}) for v in vals]
            bi = 0
            for i in range(1, len(vals)):
                if truth(compare(op, ks[i], ks[bi])):
                    bi = i
            return vals[bi]
        return g
    g_missing = object()

    def b_abs(x):
        if isinstance(x, np.ndarray):
            return scal(umap(terms.absolute, x))
        if terms.is_num(x):
            return terms.absolute(x)
        return abs(x)

    def b_round(x, n=None):
        if isinstance(x, Sym):
            return terms.fn('round%s' % n, x)
        if isinstance(x, Fraction):
            return round(x) if n is None else F(round(x, n))
        if isinstance(x, np.ndarray):
            return np_round(x, n or 0)
        return round(x) if n is None else round(x, n)

    def b_pow(a, c, m=None):
        return binop(I.ast.Pow, a, c)

    def b_divmod(a, c):
        return (binop(I.ast.FloorDiv, a, c), binop(I.ast.Mod, a, c))

    def b_any(x):
        for v in it.iterate(x):
            if truth(v):
                return True
        return False

    def b_all(x):
        for v in it.iterate(x):
            if not truth(v):
                return False
        return True

    def b_map(f, *its):
        return (it.call(f, a, {}) for a in zip(*[it.iterate(x) for x in its]))

    def b_filter(f, x):
        return (v for v in it.iterate(x) if truth(v if f is None else it.call(f, (v,), {})))

    def b_sorted(x, key=None, reverse=False):
        vals = list(it.iterate(x))
        ks = vals if key is None else [it.call(key, (v,), {}) for v in vals]

        def c(p, q):
            if truth(compare(operator.lt, p[0], q[0])):
                return -1
            if truth(compare(operator.lt, q[0], p[0])):
                return 1
            return 0
        pairs = sorted(zip(ks, vals), key=functools.cmp_to_key(c), reverse=bool(reverse))
        return [v for _, v in pairs]

    def b_getattr(o, n, *d):
        try:
            return it.getattr(o, n)
        except AttributeError:
            if d:
                return d[0]
            raise

    def b_setattr(o, n, v):
        it.setattr(o, n, v)

    def b_print(*a, **k):
        out = []
        for x in a:
            if isinstance(x, EngineObj):
                continue
            out.append(str(fmt_value(x)))
        if ST.hooks.get('print') is not None:
            ST.hooks['print']((k.get('sep') or ' ').join(out))
        ST.effects.append(('print', ST.loc))

    def b_next(x, *d):
        try:
            return next(x)
        except StopIteration:
            if d:
                return d[0]
            raise

    def b_type(*a):
        if len(a) == 1:
            if isinstance(a[0], (Fraction, Sym)):
                return it.builtins_f
            if isinstance(a[0], int) and not isinstance(a[0], bool):
                return it.builtins_i
            return type(a[0])
        return type(*a)

    def b_vars(o):
        return o.__dict__

    def b_str(x=''):
        return str(fmt_value(x))

    def b_open(*a, **k):
        raise Unsupported('open')

    def b_dir(*a):
        return dir(*a)

    class StrMeta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, builtins.str)

        def __subclasscheck__(cls, c):
            return c is cls or c is builtins.str

    class StrT(metaclass=StrMeta):
        def __new__(cls, x='', *a):
            return builtins.str(fmt_value(x)) if not a else builtins.str(x, *a)

        @staticmethod
        def format(f, *a, **k):
            return f.format(*[fmt_value(v) for v in a], **{n: fmt_value(v) for n, v in k.items()})
        join = builtins.str.join
        upper = builtins.str.upper
        lower = builtins.str.lower
        strip = builtins.str.strip
        split = builtins.str.split
        replace = builtins.str.replace
    StrT.__name__ = StrT.__qualname__ = 'str'

    b.update(isinstance=b_isinstance, len=b_len, sum=b_sum, max=b_ext('max', operator.gt),
             min=b_ext('min', operator.lt), abs=b_abs, round=b_round, pow=b_pow, divmod=b_divmod, any=b_any, all=b_all,
             map=b_map, filter=b_filter, sorted=b_sorted, getattr=b_getattr, setattr=b_setattr, print=b_print,
             next=b_next, type=b_type, vars=b_vars, str=StrT, open=b_open, dir=b_dir,
             repr=lambda x: repr(fmt_value(x)), format=lambda x, s='': format(fmt_value(x), s), locals=lambda: {},
             globals=lambda: {}, chr=chr, ord=ord, bin=bin, hex=hex, exit=lambda *a: (_ for _ in ()).throw(
                 SystemExit(*a)), input=b_open)
    b['list'] = ListT = _seqtype(it, list)
    b['tuple'] = _seqtype(it, tuple)
    b['set'] = set
    b['zip'] = lambda *xs, **k: zip(*[it.iterate(x) for x in xs])
    b['enumerate'] = lambda x, start=0: enumerate(it.iterate(x), start)

    def b_reversed(x):
        if isinstance(x, np.ndarray):
            return iter([x[i] for i in range(x.shape[0] - 1, -1, -1)])
        return reversed(x)
    b['reversed'] = b_reversed
    b['iter'] = lambda x, *a: it.iterate(x) if not a else iter(lambda: it.call(x, (), {}), a[0])
    return b


def _seqtype(it, base):
    """list / tuple as a callable that understands abstract arrays, and as a type for isinstance / bases."""
    class M(type):
        def __instancecheck__(cls, x):
            return isinstance(x, base)

        def __subclasscheck__(cls, c):
            return c is cls or issubclass(c, base)

        def __call__(cls, *a):
            return base(it.iterate(a[0])) if a else base()

        def __getitem__(cls, k):
            return base

    T = M(base.__name__, (), {})
    for n in dir(base):
        if not n.startswith('__'):
            setattr(T, n, getattr(base, n))
    T._sa_base = base
    return T


def intercept(it, f, args, kw):
    """Calls whose native meaning differs on abstract values."""
    s = getattr(f, '__self__', None)
    if isinstance(s, str) and getattr(f, '__name__', '') == 'format':
        return (s.format(*[fmt_value(a) for a in args], **{k: fmt_value(v) for k, v in kw.items()}),)
    if isinstance(s, str) and getattr(f, '__name__', '') == 'join':
        return (s.join(it.iterate(args[0])),)
    if f is builtins.str.format:
        return (args[0].format(*[fmt_value(a) for a in args[1:]], **{k: fmt_value(v) for k, v in kw.items()}),)
    if isinstance(s, list) and getattr(f, '__name__', '') in ('index', 'remove', 'count') and args:
        n = f.__name__
        if n == 'index':
            for i, v in enumerate(s):
                if v is args[0] or truth(compare(operator.eq, v, args[0])):
                    return (i,)
            raise ValueError('%r is not in list' % (args[0],))
    if isinstance(s, list) and getattr(f, '__name__', '') == 'extend':
        s.extend(it.iterate(args[0]))
        return (None,)
    if isinstance(s, list) and getattr(f, '__name__', '') == 'sort':
        s[:] = it.builtins['sorted'](list(s), **kw)
        return (None,)
    if isinstance(f, type) and issubclass(f, tuple) and hasattr(f, '_fields'):
        return None
    return None


_ARR_METHODS = {}


def array_attr(a, n):
    """Methods of ndarray whose native object-dtype behaviour is not the float behaviour."""
    if n in ('mean', 'sum', 'std', 'var', 'prod', 'cumsum', 'max', 'min', 'argmax', 'argmin', 'any', 'all', 'dot',
             'round', 'clip', 'trace'):
        f = {'mean': np_mean, 'sum': np_sum, 'std': np_std, 'var': np_var, 'prod': np_prod, 'cumsum': np_cumsum,
             'max': np_max, 'min': np_min, 'argmax': _argext(True), 'argmin': _argext(False), 'any': np_any,
             'all': np_all, 'dot': np_dot, 'round': np_round, 'clip': np_clip, 'trace': np_trace}[n]
        return guard('ndarray.' + n, lambda *x, **k: f(a, *x, **k))
    if n == 'astype':
        return lambda dtype, **k: cast(a.copy(), dtype)
    if n == 'reshape':
        def rs(*s, order=None, **k):
            if order not in (None, 'C'):
                raise Unsupported('reshape order')
            return a.reshape(*[_ints(x) for x in s])
        return rs
    if n == 'item':
        return lambda *i: a.item(*i) if a.size == 1 or i else _bad_item()
    if n == 'dtype':
        return I_INT if is_int_array(a) else (bool if is_boolish(a) else CUR.builtins_f)
    if n == 'fill':
        def fl(v):
            CUR.log_write(a)
            a[...] = v
        return fl
    if n in ('tobytes', 'tostring'):
        return lambda order='C': array_bytes(a, order)
    if n == 'sort':
        raise Unsupported('ndarray.sort')
    if n in ('argsort', 'nonzero', 'searchsorted', 'partition', 'ptp', 'tofile', 'dump', 'dumps', 'view',
             'byteswap', 'setflags', 'resize', 'put', 'itemset', 'flat', 'data', 'strides', 'nbytes', 'base', 'flags',
             'ctypes', 'itemsize'):
        if n == 'flat':
            return None
        if n in ('base', 'flags'):
            return None
        raise Unsupported('ndarray.%s' % n)
    if n in ('conj', 'conjugate', 'real'):
        return a if n == 'real' else (lambda: a)
    if n == 'tolist':
        return lambda: a.tolist()
    return None


def _bad_item():
    raise ValueError('can only convert an array of size 1 to a Python scalar')


def scalar_attr(x, n):
    """numpy scalars (float64) share the ndarray interface."""
    if n in ('squeeze', 'ravel', 'flatten', 'reshape', 'mean', 'sum', 'copy', 'item', 'astype', 'T', 'shape', 'ndim',
             'size', 'dtype', 'tolist', 'transpose', 'dot', 'any', 'all', 'min', 'max', 'std', 'var'):
        a = asarr(x)
        if n in ('shape', 'ndim', 'size'):
            return getattr(a, n)
        if n == 'T':
            return x
        if n == 'dtype':
            return CUR.builtins_f
        if n in ('copy', 'item', 'squeeze', 'tolist', 'transpose', 'mean', 'sum', 'min', 'max'):
            return lambda *p, **k: x
        if n == 'astype':
            return lambda t, **k: scal(cast(a, t))
        return CUR.getattr(a, n)
    return None


def sym_attr(x, n):
    if n in ('any', 'all', 'min', 'max', 'transpose'):
        return lambda *a, **k: x
    if n == 'dtype':
        return CUR.builtins_f
    if n == 'dot':
        return lambda y: binop(I.ast.Mult, x, y)
    if n == 'imag':
        return F(0)
    if n in ('std', 'var'):
        return lambda *a, **k: F(0)
    return None
