"""Scalar abstract domain: value numbers for terms over the reals.

A program scalar whose value is not a source constant is abstracted to a *term* (a hash-consed
expression graph).  Every term carries a value number: its image under a fixed homomorphism from
rational functions into the field GF(p^2), p = 2^127 - 309537 (atoms are sent to fixed residues
derived from their name).  Two terms which are equal as rational functions (modulo sqrt(a)^2 = a, and
parity of the odd/even elementary functions) always get the same value number; two terms which differ
collide with probability < degree / 2^127 (polynomial identity testing).  This is global value
numbering by random interpretation (Gulwani & Necula, POPL 2004) - no program is run, no solver used.

Source constants stay exact: int and fractions.Fraction (a float literal 0.1 is Fraction(1, 10)).
"""
import hashlib
import math
import numbers
from fractions import Fraction

import mpmath

P = 2 ** 127 - 309537
F = Fraction


class EngineError(BaseException):
    """Not an exception of the analysed program."""


class Unsupported(EngineError):
    pass


class Budget(EngineError):
    """The analysis budget of the scenario is used up."""


def H(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:24], 'big') % P


class State:
    """Per-exploration context: bindings of scenario atoms, oracle, current source location."""
    oracle = None
    loc = None
    bindings = {}
    ranges = {}
    specials = None   # set of (atom, value) equality special cases met
    special_ok = set()
    atoms = set()     # scenario atoms made on this path
    pos_atoms = set()
    spd = {}          # symmetric positive definite inputs: name -> dimension
    numeric = {}      # models of the inputs used by same(), with the values found so far
    deadline = None   # end of the analysis budget (monotonic clock)
    guards = {}       # equality predicates met and taken as false (the generic case)
    undefined = {}    # atoms standing for a not-a-number ('nan') or an infinite ('inf') value


ST = State


def const(x):
    """Exact constant, or None when x is not one."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):          # includes numpy.float64
        if math.isnan(x) or math.isinf(x):
            return None
        return Fraction(repr(float(x)))
    if isinstance(x, numbers.Integral):
        return int(x)
    if hasattr(x, 'dtype') and getattr(x, 'shape', None) == ():
        return const(x.item())
    return None


_inv_cache = {}


def _inv(a):
    r = _inv_cache.get(a)
    if r is None:
        r = pow(a, P - 2, P)
        if len(_inv_cache) < 100000:
            _inv_cache[a] = r
    return r


def residue(c):
    if isinstance(c, int):
        return c % P
    return c.numerator % P * _inv(c.denominator % P) % P


_SMALL = {n % P: Fraction(n) for n in range(-40, 41)}


def is_num(x):
    return isinstance(x, (int, Fraction, float)) or isinstance(x, Sym)


class Sym:
    __slots__ = ('re', 'im', 'op', 'args', 'lin', 'approx', 'dot', 'loc', 'pos', '__weakref__')
    __array_priority__ = -1

    def __init__(self, re, im, op, args, lin=None, approx=None, dot=None, pos=False):
        self.re, self.im, self.op, self.args = re, im, op, args
        self.lin, self.approx, self.dot, self.pos = lin, approx, dot, pos
        self.loc = ST.loc

    # ---- numpy scalar look-alike -------------------------------------------------
    shape = ()
    ndim = 0
    size = 1

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def conjugate(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _arr(self):
        import numpy as np
        a = np.empty((), dtype=object)
        a[()] = self
        return a

    def squeeze(self, axis=None):
        return self

    def astype(self, *a, **k):
        return self

    def ravel(self):
        return self._arr().ravel()

    flatten = ravel

    def reshape(self, *s, **k):
        return self._arr().reshape(*s, **k)

    def sum(self, *a, **k):
        return self

    mean = sum

    def tolist(self):
        return self

    # ---- arithmetic --------------------------------------------------------------
    def __add__(self, o):
        return add(self, o)

    def __radd__(self, o):
        return add(o, self)

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return mul(self, o)

    def __rmul__(self, o):
        return mul(o, self)

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __neg__(self):
        return mul(-1, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)

    def __pow__(self, o, mod=None):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __mod__(self, o):
        c = lift(o)
        if c is None:
            return NotImplemented
        return fn('mod', self, o)

    def __rmod__(self, o):
        return fn('mod', o, self)

    def __floordiv__(self, o):
        if lift(o) is None:
            return NotImplemented
        return fn('floordiv', self, o)

    def __rfloordiv__(self, o):
        return fn('floordiv', o, self)

    # ---- comparison --------------------------------------------------------------
    def __lt__(self, o):
        return cmp_lt(self, o)

    def __gt__(self, o):
        return cmp_lt(o, self)

    def __le__(self, o):
        c = cmp_lt(o, self)
        return c if c is NotImplemented else neg_cond(c)

    def __ge__(self, o):
        c = cmp_lt(self, o)
        return c if c is NotImplemented else neg_cond(c)

    def __eq__(self, o):
        return cmp_eq(self, o)

    def __ne__(self, o):
        c = cmp_eq(self, o)
        return c if c is NotImplemented else neg_cond(c)

    def __hash__(self):
        return hash((self.re, self.im))

    def __bool__(self):
        return bool(neg_cond(cmp_eq(self, 0)))

    def __float__(self):
        raise Unsupported('float() of an abstract scalar')

    def __int__(self):
        raise Unsupported('int() of an abstract scalar')

    def __index__(self):
        raise TypeError('an abstract real cannot be used as an index')

    def __matmul__(self, o):
        raise ValueError('matmul: Input operand 0 does not have enough dimensions')

    def __rmatmul__(self, o):
        raise ValueError('matmul: Input operand 1 does not have enough dimensions')

    def __getitem__(self, k):
        import numpy as np
        if k == () or k is Ellipsis or k is None or (isinstance(k, tuple) and all(e is None for e in k)):
            return self._arr()[k]
        raise IndexError('invalid index to scalar variable.')

    def __format__(self, spec):
        return '<%s>' % self.key()[0]

    def key(self):
        return (self.re, self.im)

    def __repr__(self):
        return show(self)

    # numpy object ufunc hooks (np.sin on object arrays calls .sin())
    def sqrt(self):
        return sqrt(self)

    def sin(self):
        return sin(self)

    def cos(self):
        return cos(self)

    def exp(self):
        return exp(self)

    def log(self):
        return log(self)


def fp(x):
    """Value number of a scalar."""
    if isinstance(x, Sym):
        return (x.re, x.im)
    c = const(x)
    if c is None:
        return ('other', repr(x))
    return (residue(c), 0)


def lift(x):
    """(re, im) of x, or None if x is not a scalar."""
    if isinstance(x, Sym):
        return x.re, x.im
    if isinstance(x, (list, tuple, dict, str)) or x is None:
        return None
    c = const(x)
    if c is None:
        return None
    return residue(c), 0


def mk(re, im, op, args, lin=None, approx=None, dot=None, pos=False):
    if im == 0 and dot is None:
        s = _SMALL.get(re)
        if s is not None:
            return s
    return Sym(re, im, op, args, lin, approx, dot, pos)


def _approx(x):
    if isinstance(x, Sym):
        return x.approx
    return float(const(x))


def _lin(x):
    if isinstance(x, Sym):
        return x.lin
    return (None, F(0), F(const(x)))


def _dot(x):
    return x.dot if isinstance(x, Sym) else None


def is_pos(x):
    if isinstance(x, Sym):
        return x.pos
    return const(x) > 0


def _scaldot(pairs):
    """sum of coeff * dotdict"""
    out = {}
    for c, d in pairs:
        if d:
            for k, v in d.items():
                t = mul(c, v)
                out[k] = add(out[k], t) if k in out else t
    return out or None


BIG = 3000


def cap(x):
    """A rational with very long digits is kept as an opaque constant, known by its value number."""
    if isinstance(x, Fraction) and (x.denominator.bit_length() > BIG or x.numerator.bit_length() > BIG):
        return _cap(x)
    return x


def _cap(x):
    try:
        ap = float(x)
    except OverflowError:
        ap = None
    return Sym(residue(x), 0, 'big', (x,), None, ap, None, x > 0)


def cap_array(a):
    for i, x in enumerate(a.flat):
        if isinstance(x, Fraction) and (x.denominator.bit_length() > BIG or x.numerator.bit_length() > BIG):
            out = a.copy()
            for j, v in enumerate(a.flat):
                out.flat[j] = cap(v)
            return out
    return a


def add(a, b):
    x, y = lift(a), lift(b)
    if x is None or y is None:
        return NotImplemented
    ca, cb = not isinstance(a, Sym), not isinstance(b, Sym)
    if ca and cb:
        return const(a) + const(b)
    if ca and const(a) == 0:
        return b
    if cb and const(b) == 0:
        return a
    la, lb = _lin(a), _lin(b)
    lin = None
    if la and lb and (la[0] is None or lb[0] is None or la[0] == lb[0]):
        lin = (la[0] or lb[0], la[1] + lb[1], la[2] + lb[2])
    pa, pb = _approx(a), _approx(b)
    da, db = _dot(a), _dot(b)
    d = _scaldot(((1, da), (1, db))) if (da or db) else None
    return mk((x[0] + y[0]) % P, (x[1] + y[1]) % P, 'add', (a, b), lin,
              pa + pb if pa is not None and pb is not None else None, d, is_pos(a) and is_pos(b))


def sub(a, b):
    x, y = lift(a), lift(b)
    if x is None or y is None:
        return NotImplemented
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return const(a) - const(b)
    return add(a, mul(-1, b))


def mul(a, b):
    x, y = lift(a), lift(b)
    if x is None or y is None:
        return NotImplemented
    ca, cb = not isinstance(a, Sym), not isinstance(b, Sym)
    if ca and cb:
        return cap(const(a) * const(b))
    if not ca and not cb and a.op == 'sqrt' and b.op == 'sqrt' and x == y and not a.dot and not b.dot:
        return a.args[0]
    if ca:
        c = const(a)
        if c == 0:
            return F(0)
        if c == 1:
            return b
        if b.op == 'mul' and not isinstance(b.args[0], Sym):
            return mul(mul(c, b.args[0]), b.args[1])
    if cb:
        c = const(b)
        if c == 0:
            return F(0)
        if c == 1:
            return a
        if a.op == 'mul' and not isinstance(a.args[0], Sym):
            return mul(mul(c, a.args[0]), a.args[1])
    lin = None
    la, lb = _lin(a), _lin(b)
    if ca and lb:
        k = F(const(a))
        lin = (lb[0], lb[1] * k, lb[2] * k)
    elif cb and la:
        k = F(const(b))
        lin = (la[0], la[1] * k, la[2] * k)
    if x[1] == 0 and y[1] == 0:
        re, im = x[0] * y[0] % P, 0
    else:
        re = (x[0] * y[0] - x[1] * y[1]) % P
        im = (x[0] * y[1] + x[1] * y[0]) % P
    pa, pb = _approx(a), _approx(b)
    da, db = _dot(a), _dot(b)
    d = _scaldot(((strip(b), da), (strip(a), db))) if (da or db) else None
    return mk(re, im, 'mul', (a, b), lin, pa * pb if pa is not None and pb is not None else None, d,
              is_pos(a) and is_pos(b))


def _finv(x):
    if x[1] == 0:
        return _inv(x[0]), 0
    n = _inv((x[0] * x[0] + x[1] * x[1]) % P)
    return x[0] * n % P, -x[1] * n % P


def div(a, b):
    x, y = lift(a), lift(b)
    if x is None or y is None:
        return NotImplemented
    ca, cb = not isinstance(a, Sym), not isinstance(b, Sym)
    if cb:
        c = const(b)
        if c == 0:
            raise ZeroDivisionError('division by zero')
        if ca:
            return F(const(a)) / F(c)
        return mul(F(1) / F(c), a)
    if ca and const(a) == 0:
        return F(0)
    if y == (0, 0):
        raise ZeroDivisionError('division by zero')
    z = _finv(y)
    if x[1] == 0 and z[1] == 0:
        re, im = x[0] * z[0] % P, 0
    else:
        re = (x[0] * z[0] - x[1] * z[1]) % P
        im = (x[0] * z[1] + x[1] * z[0]) % P
    pa, pb = _approx(a), _approx(b)
    da, db = _dot(a), _dot(b)
    d = None
    if da or db:
        ib = div(1, strip(b))
        d = _scaldot(((ib, da), (mul(mul(-1, strip(a)), mul(ib, ib)), db)))
    return mk(re, im, 'div', (a, b), None, pa / pb if pa is not None and pb else None, d, is_pos(a) and is_pos(b))


def strip(a):
    """The term without its derivative part."""
    if isinstance(a, Sym) and a.dot is not None:
        return Sym(a.re, a.im, a.op, a.args, a.lin, a.approx, None, a.pos)
    return a


def power(a, n):
    if lift(a) is None or lift(n) is None:
        return NotImplemented
    if not isinstance(n, Sym):
        c = const(n)
        if not isinstance(a, Sym):
            base = const(a)
            if F(c).denominator == 1:
                k = int(c)
                if k < 0:
                    return F(base) ** k
                r = base ** k
                return r if isinstance(c, int) else F(r)
            if c == F(1, 2):
                return sqrt(a)
            if F(c).denominator == 2:
                return mul(power(a, F(c) - F(1, 2)), sqrt(a))
            return exp(mul(c, log(a)))
        if F(c).denominator == 1:
            k = int(c)
            if k == 0:
                return F(1)
            if abs(k) > 64:
                return fn('pow', a, n)
            r = None
            for _ in range(abs(k)):
                r = a if r is None else mul(r, a)
            if k < 0:
                r = div(1, r)
            if isinstance(r, Sym) and k % 2 == 0 and not r.pos and isinstance(a, Sym) and a.pos:
                r.pos = True
            return r
        if c == F(1, 2):
            return sqrt(a)
        if F(c).denominator == 2:
            return mul(power(a, F(c) - F(1, 2)), sqrt(a))
        return fn('pow', a, n)
    return fn('pow', a, n)


def _factors(a, out, k, budget):
    """Factors of the term with their multiplicities; False when it is too large."""
    todo = [(a, k)]
    while todo:
        budget -= 1
        if budget < 0:
            return False
        x, e = todo.pop()
        if isinstance(x, Sym) and x.op in ('mul', 'div') and not x.dot:
            todo.append((x.args[0], e))
            todo.append((x.args[1], e if x.op == 'mul' else -e))
            continue
        key = fp(x)
        if key in out:
            out[key] = (out[key][0], out[key][1] + e)
        else:
            out[key] = (x, e)
    return True


def _square_root(a):
    """b when the term is manifestly b * b."""
    if not isinstance(a, Sym) or a.op not in ('mul', 'div') or a.dot:
        return None
    fs = {}
    if not _factors(a, fs, 1, 64):
        return None
    b = F(1)
    for x, e in fs.values():
        if not isinstance(x, Sym):
            c = F(const(x)) ** e if const(x) else F(0)
            if c < 0:
                return None
            r = sqrt(c)
            if isinstance(r, Sym):
                return None
            b = mul(b, r)
            continue
        if e % 2:
            return None
        for _ in range(abs(e) // 2):
            b = mul(b, x) if e > 0 else div(b, x)
    return b


def _magnitude(b, a, dot=None):
    """|b| as the root of a = b * b, for a term of unknown sign: its number is that of neither b nor -b."""
    k = fp(b)
    n = (-k[0] % P, -k[1] % P)
    ap = _approx(b)
    return mk(H('magnitude', min(k, n)), 0, 'sqrt', (a,), None, abs(ap) if ap is not None else None, dot)


def sqrt(a):
    if isinstance(a, Sym):
        b = _square_root(strip(a) if a.dot else a)
        if b is not None:
            if not isinstance(b, Sym):
                return abs(const(b))
            if not is_pos(b):
                m = _magnitude(b, strip(a) if a.dot else a)
                if not a.dot:
                    return m
                return Sym(m.re, m.im, 'sqrt', (a,), None, m.approx, _scaldot(((div(F(1, 2), m), a.dot),)))
    if not isinstance(a, Sym):
        c = F(const(a))
        if c < 0:
            return float('nan')
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return F(n, d)
    x = lift(a)
    re = im = None
    if x[1] == 0:
        r = pow(x[0], (P + 1) // 4, P)
        if r * r % P == x[0]:
            re, im = (r, 0)
            if pow(re, (P - 1) // 2, P) != 1:
                re = -re % P
        else:
            y = -x[0] % P
            r = pow(y, (P + 1) // 4, P)
            if pow(r, (P - 1) // 2, P) != 1:
                r = -r % P
            re, im = 0, r
    else:
        n = (x[0] * x[0] + x[1] * x[1]) % P
        s = pow(n, (P + 1) // 4, P)
        if s * s % P == n:
            h = _inv(2)
            for sg in (s, -s % P):
                t = (x[0] + sg) * h % P
                u = pow(t, (P + 1) // 4, P)
                if u * u % P == t and u:
                    re, im = u, x[1] * _inv(2 * u % P) % P
                    break
        if re is None:
            re, im = H('sqrt', x), 0
    d = None
    if isinstance(a, Sym) and a.dot:
        d = _scaldot(((div(F(1, 2), sqrt(strip(a))), a.dot),))
    ap = _approx(a)
    return mk(re, im, 'sqrt', (a,), None, math.sqrt(ap) if ap is not None and ap >= 0 else None, d, is_pos(a))


def absolute(a):
    if not isinstance(a, Sym):
        return abs(const(a))
    if a.pos:
        return a
    return sqrt(mul(a, a))


def _sgn_canon(x):
    """True when x is the canonical one of {x, -x}."""
    n = (-x[0] % P, -x[1] % P)
    return x <= n


_APPROX = {'sin': math.sin, 'cos': math.cos, 'exp': math.exp, 'log': math.log, 'arctan': math.atan,
           'tanh': math.tanh, 'arctan2': math.atan2, 'tan': math.tan}


def fn(name, *args, pos=False, deriv=None, approx=True):
    """Uninterpreted function application."""
    ap = None
    if approx and name in _APPROX:
        vals = [_approx(a) for a in args]
        if all(v is not None for v in vals):
            try:
                ap = _APPROX[name](*vals)
            except (ValueError, OverflowError):
                ap = None
    dots = [_dot(a) for a in args]
    d = None
    if any(dots):
        if deriv is None:
            raise Unsupported('derivative of %s' % name)
        d = _scaldot([(deriv(k), dd) for k, dd in enumerate(dots) if dd])
    return mk(H('fn', name, tuple(fp(a) for a in args)), 0, 'fn', (name,) + args, None, ap, d, pos)


def sin(a):
    if not isinstance(a, Sym) and const(a) == 0:
        return F(0)
    if not _sgn_canon(lift(a)):
        return mul(-1, sin(mul(-1, a)))
    return fn('sin', a, deriv=lambda k: cos(strip(a)))


def cos(a):
    if not isinstance(a, Sym) and const(a) == 0:
        return F(1)
    if not _sgn_canon(lift(a)):
        return cos(mul(-1, a))
    return fn('cos', a, deriv=lambda k: mul(-1, sin(strip(a))))


def tan(a):
    return div(sin(a), cos(a))


def exp(a):
    if not isinstance(a, Sym) and const(a) == 0:
        return F(1)
    if isinstance(a, Sym) and a.op == 'fn' and a.args[0] == 'log':
        return a.args[1]
    return fn('exp', a, pos=True, deriv=lambda k: exp(strip(a)))


def log(a):
    if not isinstance(a, Sym) and const(a) == 1:
        return F(0)
    if isinstance(a, Sym) and a.op == 'fn' and a.args[0] == 'exp':
        return a.args[1]
    return fn('log', a, deriv=lambda k: div(1, strip(a)))


def tanh(a):
    if not isinstance(a, Sym) and const(a) == 0:
        return F(0)
    if not _sgn_canon(lift(a)):
        return mul(-1, tanh(mul(-1, a)))
    return fn('tanh', a, deriv=lambda k: sub(1, mul(tanh(strip(a)), tanh(strip(a)))))


def arctan(a):
    if not isinstance(a, Sym) and const(a) == 0:
        return F(0)
    if not _sgn_canon(lift(a)):
        return mul(-1, arctan(mul(-1, a)))
    return fn('arctan', a, deriv=lambda k: div(1, add(1, mul(strip(a), strip(a)))))


def arctan2(y, x):
    ly = lift(y)
    lift(x)
    if ly != (0, 0) and not _sgn_canon(ly):
        return mul(-1, arctan2(mul(-1, y), x))
    if not isinstance(y, Sym) and not isinstance(x, Sym):
        cy, cx = const(y), const(x)     # (cy >= 0)
        if cy is not None and cx is not None:
            if cy == 0:
                return mkpi() if cx < 0 else F(0)
            if cx == 0:
                return div(mkpi(), 2)
            if cx == cy:
                return div(mkpi(), 4)
            if cx == -cy:
                return mul(Fraction(3, 4), mkpi())

    def dv(k):
        ys, xs = strip(y), strip(x)
        r = add(mul(ys, ys), mul(xs, xs))
        return div(xs, r) if k == 0 else div(mul(-1, ys), r)
    return fn('arctan2', y, x, deriv=dv)


def mkpi():
    return Sym(H('pi'), 0, 'atom', ('pi',), None, math.pi, None, True)


def atom(name, pos=False, plain=False):
    """Scenario atom.  A bound atom is replaced by its constant (equality special cases)."""
    if not plain and name in ST.bindings:
        return ST.bindings[name]
    if not plain:
        ST.atoms.add(name)
        if pos:
            ST.pos_atoms.add(name)
    r = H('atom', name)
    if pos:
        r = r * r % P
    return Sym(r, 0, 'atom', (name,), (name, F(1), F(0)), None, None, pos)


# ---------------------------------------------------------------------- substitution
def atoms_of(t, limit=20000):
    """Names of the atoms of a term (None when the term is too large)."""
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, Sym) or id(x) in seen:
            continue
        seen.add(id(x))
        if len(seen) > limit:
            return None
        if x.op == 'atom':
            out.add(x.args[0])
        todo.extend(a for a in x.args if isinstance(a, Sym))
    return out


def substitute(t, env, memo=None):
    """The term with atoms replaced."""
    memo = {} if memo is None else memo
    again = dict(sin=sin, cos=cos, exp=exp, log=log, tanh=tanh, arctan=arctan, arctan2=arctan2)

    def go(x):
        if not isinstance(x, Sym):
            return x
        k = id(x)
        if k in memo:
            return memo[k][0]
        if x.op == 'atom':
            r = env.get(x.args[0], x)
        else:
            a = [go(y) for y in x.args]
            if all(p is q for p, q in zip(a, x.args)):
                r = x
            elif x.op == 'add':
                r = add(*a)
            elif x.op == 'mul':
                r = mul(*a)
            elif x.op == 'div':
                r = div(*a)
            elif x.op == 'sqrt':
                r = sqrt(*a)
            elif x.op == 'fn':
                r = again[a[0]](*a[1:]) if a[0] in again else fn(a[0], *a[1:], pos=x.pos)
            else:
                raise Unsupported('substitution in %s' % x.op)
        memo[k] = (r, x)
        return r
    return go(t)


def is_zero(x):
    return fp(x) == (0, 0)


def is_nonneg(x):
    """Manifestly non-negative."""
    if not isinstance(x, Sym):
        return const(x) is not None and const(x) >= 0
    if x.pos or x.op == 'sqrt':
        return True
    if x.op == 'add' or x.op == 'div':
        return all(is_nonneg(a) for a in x.args)
    if x.op == 'mul':
        return fp(x.args[0]) == fp(x.args[1]) or all(is_nonneg(a) for a in x.args)
    return False


def solutions(t, known, ranges):
    """Bindings of scenario atoms under which the term vanishes: instances of the special case `t == 0`.

    Tried in order: whole arrays zero, two arrays equal, arrays the identity / the diagonal, one atom eliminated.
    """
    names = atoms_of(t)
    if names is None:
        return
    groups = {}
    for a, pos in known.items():
        if a in ST.bindings or a in ranges:
            continue
        g, b, idx = a.partition('[')
        groups.setdefault(g, {})[idx] = (a, pos)
    met = [g for g in sorted(groups) if any(a in names for a, _ in groups[g].values())]

    def zero(env):
        try:
            return is_zero(substitute(t, env))
        except (ZeroDivisionError, Unsupported, TypeError):
            return False
    cands = []
    for g in met:
        if not any(p for _, p in groups[g].values()):
            cands.append(dict((a, F(0)) for a, _ in groups[g].values()))
    for g in met:
        for h in met:
            if g < h and set(groups[g]) == set(groups[h]) and \
                    all(groups[g][i][1] == groups[h][i][1] for i in groups[g]):
                cands.append(dict((groups[h][i][0], H_(groups[g][i])) for i in groups[g]))
    for g in met:
        if any(p for _, p in groups[g].values()):
            cands.append(dict((a, F(0)) for a, p in groups[g].values() if not p))
            cands.append(dict((a, F(1 if p else 0)) for a, p in groups[g].values()))
    for env in cands:
        if env and zero(env):
            yield env
    free = set(a for a in names if a in known and a not in ranges and a not in ST.bindings)
    for env in eliminate(t, free, known):
        if zero(env):
            yield env


def eliminate(t, free, known, width=4):
    """Solve t == 0 for atoms it is affine in, factor by factor; a sum of non-negative terms vanishes term by term."""
    if not isinstance(t, Sym):
        if const(t) == 0:
            yield {}
        return
    if is_zero(t):
        yield {}
        return
    if t.op == 'sqrt':
        yield from eliminate(t.args[0], free, known, width)
        return
    if t.op == 'div':
        yield from eliminate(t.args[0], free, known, width)
        return
    if t.op == 'mul':
        for f in t.args[:1] if fp(t.args[0]) == fp(t.args[1]) else t.args:
            if isinstance(f, Sym):
                yield from eliminate(f, free, known, width)
        return
    if t.op == 'add' and all(is_nonneg(a) for a in t.args):
        for e in eliminate(t.args[0], free, known, 2):
            try:
                rest = substitute(t.args[1], e)
            except (ZeroDivisionError, Unsupported, TypeError):
                continue
            for g in eliminate(rest, free - set(e), known, 2):
                out = dict((k, substitute(v, g)) for k, v in e.items())
                out.update(g)
                yield out
        return
    n = 0
    for a in sorted(atoms_of(t) or ()):
        if a not in free:
            continue
        try:
            r = [substitute(t, {a: F(k)}) for k in range(3)]
            s = sub(r[1], r[0])
            if is_zero(s) or not is_zero(sub(sub(r[2], r[1]), s)):
                continue
            v = div(mul(-1, r[0]), s)
        except (ZeroDivisionError, Unsupported, TypeError):
            continue
        if known[a] and not is_pos(v):
            continue
        yield {a: v if isinstance(v, Sym) else F(v)}
        n += 1
        if n >= width:
            return


def H_(ap):
    """A fresh copy of a scenario atom."""
    r = H('atom', ap[0])
    if ap[1]:
        r = r * r % P
    return Sym(r, 0, 'atom', (ap[0],), (ap[0], F(1), F(0)), None, None, ap[1])


# ---------------------------------------------------------------------- conditions
class Cond:
    """An unknown predicate on terms; deciding it partitions the analysis (no feasibility solving)."""
    __slots__ = ('kind', 'term', 'neg', 'loc', 'small', 'edge')

    def __init__(self, kind, term, neg=False, small=None, edge=None):
        self.kind, self.term, self.neg, self.small, self.edge = kind, term, neg, small, edge
        self.loc = ST.loc

    def __bool__(self):
        v = ST.oracle.decide_cond(self)
        return (not v) if self.neg else v

    def key(self):
        return (self.kind, fp(self.term))

    def __repr__(self):
        s = {'lt': '%s < 0', 'eq': '%s == 0', 'raw': '%s'}[self.kind] % (self.term,)
        return 'not(%s)' % s if self.neg else s

    def __invert__(self):
        return neg_cond(self)

    def __and__(self, o):
        return bool(self) and bool(o)

    __rand__ = __and__

    def __or__(self, o):
        return bool(self) or bool(o)

    __ror__ = __or__

    def any(self):
        return self

    all = any

    def item(self):
        return self

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(self) * o

    __rmul__ = __mul__


def neg_cond(c):
    if isinstance(c, Cond):
        return Cond(c.kind, c.term, not c.neg, c.small, c.edge)
    return not c


def special_case(name):
    """May the equality of this scenario atom with a constant be analysed apart (by substitution)?"""
    return name in ST.special_ok or (not ST.bindings and name in ST.atoms)


def _range_lt0(t):
    """Decide t < 0 from declared ranges of the single atom t is affine in; None when unknown."""
    if not isinstance(t, Sym):
        return const(t) < 0
    if (t.re, t.im) == (0, 0):
        return False
    if t.approx is not None and abs(t.approx) > 1e-12:
        return t.approx < 0
    if t.pos:
        return False
    if t.op == 'mul' and not isinstance(t.args[0], Sym) and const(t.args[0]) < 0 and is_pos(t.args[1]):
        return True
    if t.lin and t.lin[0] in ST.ranges:
        (lo, lo_open), (hi, hi_open) = ST.ranges[t.lin[0]]
        a, b = t.lin[1], t.lin[2]
        ends = []
        for v, op in ((lo, lo_open), (hi, hi_open)):
            ends.append(((None, op) if v is None else (a * v + b, op)))
        if a < 0:
            ends.reverse()
        (mn, mn_open), (mx, mx_open) = ends
        if mx is not None and (mx < 0 or (mx == 0 and mx_open)):
            return True
        if mn is not None and mn >= 0:
            return False
        if mx == 0 and special_case(t.lin[0]):
            # only the end point of the range decides otherwise: analysed apart
            ST.specials.add((t.lin[0], -b / a))
            return True
    return None


def undefined(x):
    """'nan' or 'inf' when the value depends on an atom standing for one (no cancellation is considered)."""
    if isinstance(x, float):
        return 'nan' if x != x else 'inf' if math.isinf(x) else None
    if not ST.undefined or not isinstance(x, Sym):
        return None
    names = atoms_of(x) or ()
    kinds = {ST.undefined[n] for n in names if n in ST.undefined}
    return 'nan' if 'nan' in kinds else 'inf' if kinds else None


TINY = F(1, 10 ** 9)     # thresholds up to this separate "numerically zero" from the rest


def cmp_lt(a, b):
    """a < b"""
    if ST.undefined:
        u, v = undefined(a), undefined(b)
        if u or v:
            return not u and v == 'inf'
    if isinstance(a, float) and (math.isinf(a) or math.isnan(a)):
        return a < 0 if math.isinf(a) else False
    if isinstance(b, float) and (math.isinf(b) or math.isnan(b)):
        return b > 0 if math.isinf(b) else False
    if lift(a) is None or lift(b) is None:
        return NotImplemented
    t = sub(a, b)
    r = _range_lt0(t)
    if r is not None:
        return r
    # a comparison with a tiny positive threshold: which outcome means "numerically zero"
    # (a quantity which may well be negative is below the threshold for another reason: an ordinary predicate)
    small = edge = None
    if isinstance(a, Sym) != isinstance(b, Sym):
        # x below c, or x above c
        x, c, below = (a, F(const(b)), True) if isinstance(a, Sym) else (b, F(const(a)), False)
        if abs(c) <= TINY:
            g = sign(x)
            if g and g * c <= 0:
                return below == (g < 0)
            if g:
                small = below == (c > 0)
        k = fp(x)
        edge = (k, c, below) if _sgn_canon(k) else (fp(mul(-1, x)), -c, not below)
    return Cond('lt', t, small=small, edge=edge)


def cmp_eq(a, b):
    if ST.undefined and (undefined(a) or undefined(b)):
        return undefined(a) == undefined(b) == 'inf'
    if isinstance(b, float) and (math.isinf(b) or math.isnan(b)):
        return False
    if lift(a) is None or lift(b) is None:
        return NotImplemented
    t = sub(a, b)
    if not isinstance(t, Sym):
        return const(t) == 0
    if (t.re, t.im) == (0, 0):
        return True
    if t.approx is not None and abs(t.approx) > 1e-12:
        return False
    if t.pos or (t.op == 'mul' and not isinstance(t.args[0], Sym) and is_pos(t.args[1])):
        return False
    if t.lin and t.lin[0] is not None:
        v = -t.lin[2] / t.lin[1]
        rg = ST.ranges.get(t.lin[0])
        if rg:
            (lo, lo_open), (hi, hi_open) = rg
            if lo is not None and (v < lo or (v == lo and lo_open)):
                return False
            if hi is not None and (v > hi or (v == hi and hi_open)):
                return False
        if special_case(t.lin[0]):
            ST.specials.add((t.lin[0], v))
            return False
    k = fp(t)
    if not _sgn_canon(k):
        t = mul(-1, t)
    return Cond('eq', t)


# ---------------------------------------------------------------------- printing
_PREC = {'add': 1, 'mul': 2, 'div': 2}


def show(x, depth=6):
    if not isinstance(x, Sym):
        c = const(x)
        if c is None:
            return repr(x)
        if isinstance(c, Fraction) and c.denominator != 1:
            return str(float(c)) if len(str(c)) > 9 else str(c)
        return str(c)
    if x.op == 'atom':
        return x.args[0]
    if x.op == 'big':
        return '~%g' % x.approx if x.approx is not None else '(long constant)'
    if depth <= 0:
        return '..'
    if x.op == 'fn':
        if len(x.args) > 5:
            return '%s(..)' % x.args[0]
        return '%s(%s)' % (x.args[0], ', '.join(show(a, depth - 2) for a in x.args[1:]))
    if x.op == 'sqrt':
        return 'sqrt(%s)' % show(x.args[0], depth - 1)
    a, b = x.args
    if x.op == 'mul' and not isinstance(a, Sym) and const(a) == -1:
        return '-%s' % _par(b, depth - 1, 2)
    if x.op == 'add':
        if isinstance(b, Sym) and b.op == 'mul' and not isinstance(b.args[0], Sym) and const(b.args[0]) == -1:
            return '%s - %s' % (show(a, depth - 1), _par(b.args[1], depth - 1, 2))
        return '%s + %s' % (show(a, depth - 1), show(b, depth - 1))
    if x.op == 'mul':
        return '%s*%s' % (_par(a, depth - 1, 2), _par(b, depth - 1, 2))
    return '%s/%s' % (_par(a, depth - 1, 2), _par(b, depth - 1, 3))


def _par(x, depth, prec):
    s = show(x, depth)
    if isinstance(x, Sym) and _PREC.get(x.op, 9) < prec:
        return '(%s)' % s
    if isinstance(x, Sym) and prec == 3 and x.op in ('mul', 'div'):
        return '(%s)' % s
    return s


# ---------------------------------------------------------------------- second tier
def evaluate(x, env, memo):
    """Value of the term in the real model `env` (name -> mpf); functions are modelled by env too."""
    if not isinstance(x, Sym):
        c = const(x)
        if c is None:
            return mpmath.mpf(x)
        c = F(c)
        return mpmath.mpf(c.numerator) / c.denominator
    # the parts of long sums are valued first, one after another
    todo = [x]
    while todo:
        y = todo[-1]
        if id(y) in memo:
            todo.pop()
            continue
        parts = [v for v in y.args if isinstance(v, Sym) and id(v) not in memo] if y.op != 'big' else ()
        if parts:
            todo.extend(parts)
        else:
            todo.pop()
            _value(y, env, memo)
    return memo[id(x)][0]


def _value(x, env, memo):
    """Value of one term whose parts are in `memo`."""
    k = id(x)
    if x.op == 'big':
        r = mpmath.mpf(x.args[0].numerator) / x.args[0].denominator
    elif x.op == 'atom':
        r = mpmath.pi if x.args[0] == 'pi' else env(x.args[0], x.pos)
    elif x.op == 'sqrt':
        r = mpmath.sqrt(_part(x.args[0], env, memo))
    elif x.op == 'fn':
        a = [_part(v, env, memo) for v in x.args[1:]]
        n = x.args[0]
        real = {'sin': mpmath.sin, 'cos': mpmath.cos, 'exp': mpmath.exp, 'log': mpmath.log,
                'arctan': mpmath.atan, 'tanh': mpmath.tanh, 'arctan2': mpmath.atan2,
                'pow': mpmath.power}.get(n)
        if real:
            r = real(*a)
        else:
            acc = env('fn0:' + n, False)
            for i, v in enumerate(a):
                acc = acc + env('fn%d:%s' % (i + 1, n), False) * v / 3
            r = mpmath.sin(acc) + 2
            if x.pos:
                r = abs(r)
    else:
        a, b = _part(x.args[0], env, memo), _part(x.args[1], env, memo)
        r = a + b if x.op == 'add' else a * b if x.op == 'mul' else a / b
    memo[k] = (r, x)


def _part(v, env, memo):
    return memo[id(v)][0] if isinstance(v, Sym) else evaluate(v, env, memo)


def _env(seed):
    cache = {}

    def env(name, pos):
        v = cache.get(name)
        if v is None:
            u = mpmath.mpf(H('env', seed, name)) / P
            v = (u + 1 if pos else u - 0.5) * scale
            cache[name] = v
        return v
    # identities of angles and roots which hold near zero only are told apart further out
    scale = (1, 1, 1, 37, 911)[seed]
    return env


def sign(x):
    """1 / -1 when the term is of one sign over the scenario's inputs, else None.

    Signs not manifest from the term are read off models of the inputs (positive definite matrices stay so) of widely
    different scale; only terms free of uninterpreted functions are classified this way.
    """
    if is_nonneg(x):
        return 1
    if x.op == 'fn':
        return 1        # a quantity out of the domain: assume the regular outcome
    names = atoms_of(x, 4000)
    if names is None or _opaque(x):
        return None
    key = (fp(x), tuple(sorted(ST.spd)))
    if key in _sign_memo:
        return _sign_memo[key]
    s = set()
    with mpmath.workdps(60):
        for seed in range(24):
            try:
                v = evaluate(x, _env_spd(seed), {})
            except (ZeroDivisionError, ValueError):
                continue
            if not isinstance(v, mpmath.mpf):
                s.add(0)
                break
            s.add(1 if v > 0 else -1 if v < 0 else 0)
            if len(s) > 1:
                break
    r = s.pop() if len(s) == 1 else 0
    _sign_memo[key] = r or None
    return r or None


_sign_memo = {}


def _opaque(x):
    seen, todo = set(), [x]
    while todo:
        y = todo.pop()
        if not isinstance(y, Sym) or id(y) in seen:
            continue
        seen.add(id(y))
        if y.op == 'fn' and y.args[0] not in ('sin', 'cos', 'exp', 'log', 'arctan', 'tanh', 'arctan2'):
            return True
        todo.extend(y.args)
    return False


def _env_spd(seed):
    """A model of the inputs at a random scale in which the symmetric positive definite inputs are such."""
    cache = {}

    def u(*k):
        return mpmath.mpf(H('envs', seed, *k)) / P

    def env(name, pos):
        if name not in cache:
            g, b, idx = name.partition('[')
            n = ST.spd.get(g)
            if n and b:
                sc = mpmath.mpf(10) ** (12 * u('scale', g) - 6)
                A = [[u('A', g, i, j) - 0.5 for j in range(n)] for i in range(n)]
                for i in range(n):
                    for j in range(n):
                        v = sum(A[i][k] * A[j][k] for k in range(n)) + (mpmath.mpf('0.01') if i == j else 0)
                        cache['%s[%d,%d]' % (g, i, j)] = v * sc
            else:
                sc = mpmath.mpf(10) ** (6 * u('scale', g) - 3)
                cache[name] = (u('v', name) + mpmath.mpf('0.01') if pos else u('v', name) - 0.5) * sc
                rg = ST.ranges.get(name)
                if rg and rg[0][0] is not None and rg[1][0] is not None:
                    lo, hi = (mpmath.mpf(float(rg[k][0])) for k in (0, 1))
                    cache[name] = lo + (hi - lo) * u('v', name)
        return cache[name]
    return env


def same(a, b):
    """Equality of two scalars in the domain: value numbers first, then the transcendental tier."""
    if isinstance(a, Sym) or isinstance(b, Sym):
        if lift(a) is None or lift(b) is None:
            return False
        if fp(a) == fp(b):
            return True
        if not (_has_fn(a) or _has_fn(b)):
            return False
        with mpmath.workdps(60):
            for s in range(5):
                if s not in ST.numeric:
                    ST.numeric[s] = (_env(s), {})
                e, m = ST.numeric[s]
                try:
                    va, vb = evaluate(a, e, m), evaluate(b, e, m)
                except (ZeroDivisionError, ValueError):
                    return False
                if abs(va - vb) > mpmath.mpf(10) ** -38 * (1 + abs(va) + abs(vb)):
                    return False
        return True
    ca, cb = const(a), const(b)
    if ca is None or cb is None:
        if isinstance(a, float) and isinstance(b, float):
            return a == b or (a != a and b != b)
        return a is b or a == b
    return ca == cb


def _has_fn(x, memo=None):
    if memo is None:
        memo = {}
    if not isinstance(x, Sym):
        return False
    st = [x]
    seen = set()
    n = 0
    while st:
        y = st.pop()
        if id(y) in seen or not isinstance(y, Sym):
            continue
        seen.add(id(y))
        n += 1
        if n > 20000:
            return False
        if y.op == 'sqrt':
            return True
        if y.op == 'fn':
            return True
        if y.op != 'atom':
            st.extend(y.args)
    return False
