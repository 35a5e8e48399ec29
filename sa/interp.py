"""Abstract interpreter over the syntax trees of /repo.

Transfer functions are given per AST node; scalars live in the value-number domain of terms.py, array
values are numpy object arrays of such scalars (so views, aliasing and in-place updates keep their
meaning: the store is allocation-site exact), library calls have transfer functions in lib.py, and a
branch or library failure that the domain cannot decide is *partitioned*: every outcome is analysed
(explore.py).  No code of /repo is imported or executed by Python.
"""
import ast
import builtins
import operator
import os
import sys
import threading
import time
import types
import warnings
from fractions import Fraction

import numpy as np

from . import terms
from .terms import ST, Sym, Cond, Unsupported, EngineError, F, const

REPO = os.environ.get('SA_REPO', '/repo')
MAX_LOOP = 6000


class Returned(Exception):
    pass


class _Signal:
    __slots__ = ('kind', 'value')

    def __init__(self, kind, value=None):
        self.kind, self.value = kind, value


BRK, CONT = _Signal('break'), _Signal('continue')


class Scope:
    __slots__ = ('vars', 'parent', 'glob', 'local', 'kind', 'fn', 'args0', 'yields', 'clsname', 'globals_decl',
                 'nonlocals')

    def __init__(self, parent, glob, kind, local=frozenset(), fn=None, clsname=None):
        self.vars = {}
        self.parent, self.glob, self.kind, self.local, self.fn = parent, glob, kind, local, fn
        self.args0 = None
        self.yields = None
        self.clsname = clsname if clsname else (parent.clsname if parent else None)
        self.globals_decl = set()
        self.nonlocals = set()


class _Locals(ast.NodeVisitor):
    """Names bound in a function body (not descending into nested scopes)."""

    def __init__(self):
        self.names, self.glob, self.nonloc, self.gen = set(), set(), set(), False

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
        for d in n.decorator_list + n.args.defaults + [k for k in n.args.kw_defaults if k]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        # the walrus target leaks; the first iterable is evaluated here
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.names.add(x.target.id)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Import(self, n):
        for a in n.names:
            self.names.add(a.asname or a.name.split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.names.add(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_Global(self, n):
        self.glob.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonloc.update(n.names)

    def visit_Yield(self, n):
        self.gen = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield

    def visit_MatchAs(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.names.add(n.name)


class GenExit(BaseException):
    """Unwinds the body of a generator which is not wanted any more."""


class Channel:
    """Hands control back and forth between a generator body (in its own thread) and its consumer."""

    def __init__(self, run):
        self.run, self.go, self.ready = run, threading.Semaphore(0), threading.Semaphore(0)
        self.value = self.sent = self.exc = self.throw = None
        self.started = self.done = self.closing = False
        self.n = 0

    def __len__(self):
        return self.n

    def append(self, v):
        self.n += 1
        self.value = v
        self.ready.release()
        self.go.acquire()
        if self.closing:
            raise GenExit()
        if self.throw is not None:
            e, self.throw = self.throw, None
            raise e
        s, self.sent = self.sent, None
        return s

    def body(self):
        self.go.acquire()
        self.result = None
        try:
            if not self.closing:
                self.result = self.run(self)
        except GenExit:
            pass
        except BaseException as e:
            self.exc = e
        self.run = None
        self.done = True
        self.ready.release()

    def step(self):
        if not self.started:
            self.started = True
            size = threading.stack_size(64 * 1024 * 1024)
            try:
                threading.Thread(target=self.body, daemon=True).start()
            finally:
                threading.stack_size(size)
        saved = ST.loc
        self.go.release()
        self.ready.acquire()
        ST.loc = saved

    def close(self):
        if self.started and not self.done:
            self.closing = True
            self.step()
        self.done = True


class GenObj:
    """A generator of the program; its body runs up to the next yield at each request."""

    def __init__(self, run):
        self._c = Channel(run)

    def __iter__(self):
        return self

    def __next__(self):
        c = self._c
        if c.done:
            raise StopIteration
        c.step()
        if c.done:
            if c.exc is not None:
                e, c.exc = c.exc, None
                raise e
            raise StopIteration(c.result)
        v, c.value = c.value, None
        return v

    def send(self, v):
        self._c.sent = v
        return next(self)

    def throw(self, t, v=None, tb=None):
        e = v if isinstance(v, BaseException) else (t() if isinstance(t, type) else t)
        c = self._c
        if c.done or not c.started:
            c.done = True
            raise e
        c.throw = e
        return next(self)

    def close(self):
        self._c.close()

    def __del__(self):
        try:
            self._c.close()
        except Exception:
            pass


class Fn:
    """A function of the program."""

    def __init__(self, interp, node, scope, module, name, qual):
        self.interp, self.node, self.scope, self.module = interp, node, scope, module
        self.__name__ = name
        self.__qualname__ = qual
        self.__module__ = module.__name__
        self.owner = None
        body = node.body if isinstance(node.body, list) else None
        self.__doc__ = ast.get_docstring(node) if body and not isinstance(node, ast.Lambda) else None
        a = node.args
        self.posonly = [x.arg for x in a.posonlyargs]
        self.pos = self.posonly + [x.arg for x in a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults, self.kwdefaults = (), {}
        key = id(node)
        info = interp.fninfo.get(key)
        if info is None:
            v = _Locals()
            if body is None:
                v.visit(node.body)
                v.names = {x.target.id for x in ast.walk(node.body) if isinstance(x, ast.NamedExpr)}
                v.gen = False
            else:
                for s in body:
                    v.visit(s)
            names = v.names | set(self.pos) | set(self.kwonly)
            names |= {n for n in (self.vararg, self.kwarg) if n}
            info = (frozenset(names - v.glob - v.nonloc), frozenset(v.glob), frozenset(v.nonloc), v.gen)
            interp.fninfo[key] = info
        self.info = info
        self._sa_wrapped = None

    @property
    def __wrapped_sig__(self):
        return self.pos

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return types.MethodType(self, obj)

    def __repr__(self):
        return '<function %s>' % self.__qualname__

    def __deepcopy__(self, memo):
        return self

    def bind(self, args, kwargs):
        vals = {}
        npos = len(self.pos)
        if len(args) > npos and self.vararg is None:
            raise TypeError('%s() takes %d positional arguments but %d were given'
                            % (self.__name__, npos, len(args)))
        for n, v in zip(self.pos, args):
            vals[n] = v
        if self.vararg is not None:
            vals[self.vararg] = tuple(args[npos:])
        extra = {}
        for k, v in kwargs.items():
            if (k in self.pos and k not in self.posonly) or k in self.kwonly:
                if k in vals:
                    raise TypeError("%s() got multiple values for argument '%s'" % (self.__name__, k))
                vals[k] = v
            elif self.kwarg is not None:
                extra[k] = v
            else:
                raise TypeError("%s() got an unexpected keyword argument '%s'" % (self.__name__, k))
        if self.kwarg is not None:
            vals[self.kwarg] = extra
        nd = len(self.defaults)
        for i, n in enumerate(self.pos):
            if n not in vals:
                j = i - (npos - nd)
                if j >= 0:
                    vals[n] = self.defaults[j]
                else:
                    raise TypeError("%s() missing required positional argument: '%s'" % (self.__name__, n))
        for n in self.kwonly:
            if n not in vals:
                if n in self.kwdefaults:
                    vals[n] = self.kwdefaults[n]
                else:
                    raise TypeError("%s() missing keyword-only argument '%s'" % (self.__name__, n))
        return vals

    def __call__(self, *args, **kwargs):
        it = self.interp
        vals = self.bind(args, kwargs)
        local, glob, nonloc, gen = self.info
        sc = Scope(self.scope, self.module.__dict__, 'function', local, self)
        sc.globals_decl, sc.nonlocals = glob, nonloc
        sc.vars.update(vals)
        if self.pos:
            sc.args0 = vals.get(self.pos[0])
        elif args:
            sc.args0 = args[0]
        it.analysed.add((self.module.__file__, self.__qualname__))
        if isinstance(self.node, ast.Lambda):
            saved = ST.loc
            it.depth += 1
            it.check_depth()
            try:
                return it.eval(self.node.body, sc)
            finally:
                ST.loc = saved
                it.depth -= 1
        if gen:
            def run(items):
                sc.yields = items
                return it.run_body(self.node.body, sc)
            return GenObj(run)
        saved = ST.loc
        it.depth += 1
        it.check_depth()
        it.stack.append(self)
        try:
            return it.run_body(self.node.body, sc)
        finally:
            it.stack.pop()
            it.depth -= 1
            ST.loc = saved


_BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.MatMult: operator.matmul,
        ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.LShift: operator.lshift,
        ast.RShift: operator.rshift, ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.BitAnd: operator.and_}
_IBIN = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.MatMult: operator.imatmul,
         ast.FloorDiv: operator.ifloordiv, ast.Mod: operator.imod, ast.LShift: operator.ilshift,
         ast.RShift: operator.irshift, ast.BitOr: operator.ior, ast.BitXor: operator.ixor,
         ast.BitAnd: operator.iand}


def isint(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, bool)


def is_int_array(a):
    return a.size > 0 and all(isinstance(x, (int, np.integer)) for x in a.flat)


def is_boolish(a):
    return a.dtype == bool or (a.dtype == object and a.size > 0 and
                               all(isinstance(x, (bool, Cond, np.bool_)) for x in a.flat))


_div_u = np.frompyfunc(terms.div, 2, 1)
_pow_u = np.frompyfunc(terms.power, 2, 1)


def objarr(x):
    """Native arrays become object arrays of exact scalars."""
    if isinstance(x, np.ndarray) and x.dtype != object:
        if x.dtype == bool:
            return x.astype(object)
        out = np.empty(x.shape, dtype=object)
        isf = x.dtype.kind == 'f'
        for i in np.ndindex(x.shape):
            v = x[i].item()
            out[i] = const(v) if const(v) is not None else v
            if isf and isinstance(out[i], int):
                out[i] = F(out[i])
        return out
    return x


def unwrap0(x):
    """0-d results of ufuncs on object arrays are scalars."""
    return x


def binop(op, a, b):
    """a op b in the abstract domain."""
    an, bn = isinstance(a, np.ndarray), isinstance(b, np.ndarray)
    if an and a.dtype != object and a.dtype != bool:
        a = objarr(a)
    if bn and b.dtype != object and b.dtype != bool:
        b = objarr(b)
    if isinstance(a, float) and const(a) is not None:
        a = const(a)
    if isinstance(b, float) and const(b) is not None:
        b = const(b)
    if an or bn:
        o = b if an else a
        if isinstance(o, (list, tuple)) and not (an and bn):
            from . import lib
            o = lib.to_array(o)
            if an:
                b = o
            else:
                a = o
        elif o is None or isinstance(o, (str, dict)):
            raise TypeError('unsupported operand type(s) for array operation: %s' % type(o).__name__)
    if op is ast.Div:
        if an or bn:
            an2, bn2 = isinstance(a, np.ndarray), isinstance(b, np.ndarray)
            if (an2 or terms.is_num(a) or isint(a)) and (bn2 or terms.is_num(b) or isint(b)):
                return _div0(a, b)
            return operator.truediv(a, b)
        if (isint(a) or isinstance(a, (Fraction, bool))) and (isint(b) or isinstance(b, (Fraction, bool))):
            if b == 0:
                raise ZeroDivisionError('division by zero')
            return F(int(a) if isint(a) else a) / F(int(b) if isint(b) else b)
        return operator.truediv(a, b)
    if op is ast.Pow:
        if an or bn:
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
                oa = a if not isinstance(a, np.ndarray) else None
                ob = b if not isinstance(b, np.ndarray) else None
                if (oa is None or terms.is_num(oa)) and (ob is None or terms.is_num(ob)):
                    return _pow_u(a, b)
            return operator.pow(a, b)
        if terms.is_num(a) and terms.is_num(b):
            return terms.power(a, b)
        return operator.pow(a, b)
    if op is ast.Mod and isinstance(a, (str, bytes)):
        return pct_format(a, b)
    r = _BIN[op](a, b)
    if op is ast.Mult:
        if isinstance(r, np.ndarray):
            if r.dtype == object:
                r = terms.cap_array(r)
        else:
            r = terms.cap(r)
    if isinstance(r, np.ndarray) and r.dtype != object and r.dtype != bool:
        r = objarr(r)
    return r


def _div0(a, b):
    try:
        return _div_u(a, b)
    except ZeroDivisionError:
        # numpy yields inf / nan with a warning
        def d(x, y):
            try:
                return terms.div(x, y)
            except ZeroDivisionError:
                return float('nan') if terms.fp(x) == (0, 0) else terms.fn('inf', x)
        return np.frompyfunc(d, 2, 1)(a, b)


def fmt_value(v):
    """A value as str.format and f-strings see it."""
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, (Sym, Cond)):
        return Placeholder(v)
    if isinstance(v, np.ndarray):
        return Placeholder(v)
    if isinstance(v, (list, tuple)) and any(isinstance(x, (Fraction, Sym, np.ndarray)) for x in v):
        if type(v) in (list, tuple):
            return type(v)(fmt_value(x) for x in v)
    return v


class Placeholder:
    """The text of an abstract value inside a formatted string."""

    def __init__(self, v):
        self.v = v

    def __format__(self, spec):
        return str(self)

    def __str__(self):
        v = self.v
        h = ST.hooks.get('text')
        if h is not None:
            return '\u00ab%s\u00bb' % h(v)
        if isinstance(v, Sym):
            return '\u00ab%s\u00bb' % terms.show(v, 4)
        if isinstance(v, np.ndarray):
            return '\u00abarray%s\u00bb' % (v.shape,)
        return '\u00abcond\u00bb'

    __repr__ = __str__

    def __getattr__(self, n):
        return getattr(self.v, n)

    def __getitem__(self, k):
        return fmt_value(self.v[k])


def pct_format(a, b):
    if isinstance(b, tuple):
        b = tuple(_pct(x) for x in b)
    elif isinstance(b, dict):
        b = {k: _pct(v) for k, v in b.items()}
    else:
        b = _pct(b)
    try:
        return a % b
    except (TypeError, ValueError):
        if '\u00ab' in repr(b):
            return a + str(b)
        raise


def _pct(v):
    v = fmt_value(v)
    return str(v) if isinstance(v, Placeholder) else v


def truth(x):
    if isinstance(x, Cond):
        return bool(x)
    if isinstance(x, np.ndarray):
        if x.size == 1:
            return truth(x.reshape(-1)[0])
        if x.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. '
                         'Use a.any() or a.all()')
    if isinstance(x, EngineObj):
        raise Unsupported('truth value of %r' % x)
    return bool(x)


class EngineObj:
    """A library object outside the modelled fragment: any use of it is Unsupported."""

    def __init__(self, name):
        object.__setattr__(self, '_sa_name', name)

    def __repr__(self):
        return '<opaque %s>' % self._sa_name

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return EngineObj('%s.%s' % (self._sa_name, n))

    def __call__(self, *a, **k):
        raise Unsupported('call of unmodelled library function %s' % self._sa_name)


class Module(types.ModuleType):
    pass


_FNINFO, _TREES = {}, {}


def simple(e):
    """An expression of names, numbers and attributes, compared or combined: evaluating it has no effect."""
    return all(isinstance(x, (ast.Name, ast.Constant, ast.Attribute, ast.UnaryOp, ast.BinOp, ast.Compare, ast.operator,
                              ast.unaryop, ast.cmpop, ast.expr_context)) for x in ast.walk(e))


def between(a, b, both):
    """Outcome of `a and b` (`a or b`) where together they separate "numerically zero" from the rest; None otherwise."""
    if not (isinstance(a, Cond) and isinstance(b, Cond) and a.edge and b.edge and a.edge[0] == b.edge[0]) or \
            not getattr(ST.oracle, 'regular', False):
        return None
    ends = []
    for c in (a, b):
        # the side on which the conjunction (the complement of the disjunction) lies
        below = c.edge[2] != c.neg if both else c.edge[2] == c.neg
        ends.append((below, c.edge[1]))
    if ends[0][0] == ends[1][0] or any(abs(c) > terms.TINY for _, c in ends):
        return None
    return not both


class Interp:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.fninfo = _FNINFO
        self.modules = {}
        self.clients = []
        self.trees = _TREES
        self.analysed = set()
        self.writes = []
        self.attr_writes = []
        self.depth = 0
        self.stack = []
        self.track_attr = False
        from . import lib
        self.lib = lib
        self.libmods = lib.make_modules(self)
        self.builtins = lib.make_builtins(self)

    def check_depth(self):
        if self.depth > 300:
            raise Unsupported('call depth')

    # ------------------------------------------------------------------ modules
    def find(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        if os.path.isdir(p) and name not in self.libmods:
            return p, None
        return None, None

    def parse(self, path):
        t = self.trees.get(path)
        if t is None:
            with open(path, 'rb') as f, warnings.catch_warnings():
                warnings.simplefilter('ignore')
                t = ast.parse(f.read(), path)
            self.trees[path] = t
        return t

    def load(self, name, as_main=False):
        key = name if not as_main else name + ':main'
        if key in self.modules:
            return self.modules[key]
        top = name.split('.')[0]
        path, pkg = self.find(name)
        if path is None:
            if top in self.libmods or name in self.libmods:
                return self.lib_module(name)
            return self.external(name)
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
        m = Module('__main__' if as_main else name)
        m.__file__ = path
        m.__path__ = [os.path.dirname(path)] if pkg else ([path] if pkg is None else None)
        m._sa_pkg = name if (pkg or pkg is None) else name.rpartition('.')[0]
        self.modules[key] = m
        if pkg is not None:
            saved = ST.loc
            sc = Scope(None, m.__dict__, 'module')
            sc.vars = m.__dict__
            try:
                sig = self.exec_block(self.parse(path).body, sc)
            except BaseException:
                self.modules.pop(key, None)
                raise
            finally:
                ST.loc = saved
        if '.' in name and not as_main:
            parent, _, leaf = name.rpartition('.')
            if parent in self.modules:
                setattr(self.modules[parent], leaf, m)
        return m

    def client(self, name, text):
        """Analyse a client program of the library given as text."""
        path = 'client:' + name
        t = self.trees.get(path)
        if t is None:
            t = self.trees[path] = ast.parse(text, path)
        m = Module(name)
        m.__file__ = path
        m.__path__ = None
        m._sa_pkg = ''
        self.clients.append(m)
        saved = ST.loc
        sc = Scope(None, m.__dict__, 'module')
        sc.vars = m.__dict__
        try:
            self.exec_block(t.body, sc)
        finally:
            ST.loc = saved
        return m

    def lib_module(self, name):
        if name in self.libmods:
            return self.libmods[name]
        parts = name.split('.')
        m = self.libmods[parts[0]]
        for p in parts[1:]:
            try:
                m = getattr(m, p)
            except AttributeError:
                raise ModuleNotFoundError("No module named '%s'" % name)
        return m

    def external(self, name):
        top = name.split('.')[0]
        if top in sys.stdlib_module_names or self.lib.installed(name):
            return EngineObj(name)
        raise ModuleNotFoundError("No module named '%s'" % name)

    # ------------------------------------------------------------------ blocks
    def run_body(self, body, sc):
        sig = self.exec_block(body, sc)
        if sig is not None and sig.kind == 'return':
            return sig.value
        return None

    def exec_block(self, body, sc):
        for s in body:
            sig = self.exec(s, sc)
            if sig is not None:
                return sig
        return None

    def setloc(self, node, sc):
        if ST.deadline is not None and time.monotonic() > ST.deadline:
            raise terms.Budget('analysis budget used up')
        ST.loc = (sc.glob.get('__file__', '?'), getattr(node, 'lineno', 0),
                  sc.fn.__qualname__ if sc.fn else '<module>')

    def exec(self, s, sc):
        self.setloc(s, sc)
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        try:
            return m(s, sc)
        except Exception as e:
            if not hasattr(e, '_sa_loc'):
                try:
                    e._sa_loc = (sc.glob.get('__file__', '?'), s.lineno, sc.fn.__qualname__ if sc.fn else '<module>')
                except AttributeError:
                    pass
            raise

    def x_Expr(self, s, sc):
        self.eval(s.value, sc)

    def x_Pass(self, s, sc):
        pass

    def x_Return(self, s, sc):
        return _Signal('return', self.eval(s.value, sc) if s.value else None)

    def x_Break(self, s, sc):
        return BRK

    def x_Continue(self, s, sc):
        return CONT

    def x_Global(self, s, sc):
        if sc.kind != 'function':
            sc.globals_decl |= set(s.names)

    x_Nonlocal = x_Pass

    def x_Assign(self, s, sc):
        v = self.eval(s.value, sc)
        for t in s.targets:
            self.assign(t, v, sc)

    def x_AnnAssign(self, s, sc):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, sc), sc)
        if sc.kind == 'class' and isinstance(s.target, ast.Name):
            ann = sc.vars.setdefault('__annotations__', {})
            try:
                ann[s.target.id] = self.eval(s.annotation, sc)
            except Exception:
                ann[s.target.id] = object

    def x_AugAssign(self, s, sc):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, sc)
            v = self.eval(s.value, sc)
            self.setloc(s, sc)
            self.store(t.id, self.iop(type(s.op), cur, v), sc)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, sc)
            n = self.mangle(t.attr, sc)
            cur = self.getattr(o, n)
            v = self.eval(s.value, sc)
            self.setloc(s, sc)
            self.setattr(o, n, self.iop(type(s.op), cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, sc)
            k = self.index(t.slice, sc)
            cur = self.getitem(o, k)
            v = self.eval(s.value, sc)
            self.setloc(s, sc)
            if isinstance(cur, np.ndarray) and isinstance(o, np.ndarray):
                cur = self.iop(type(s.op), cur, v)
                if not (isinstance(cur, np.ndarray) and np.shares_memory(cur, o)):
                    self.setitem(o, k, cur)
            else:
                self.setitem(o, k, self.iop(type(s.op), cur, v))
        else:
            raise Unsupported('augmented assignment target')

    def iop(self, op, cur, v):
        if isinstance(cur, np.ndarray):
            if cur.dtype != object and cur.dtype != bool:
                raise Unsupported('in-place operation on a native array')
            r = binop(op, cur, v)
            r = np.asarray(r, dtype=object) if not isinstance(r, np.ndarray) else r
            if is_int_array(cur) and not is_int_array(r) and cur.dtype == object:
                raise TypeError("ufunc: Cannot cast ufunc output from float64 to int64 with casting rule 'same_kind'")
            if r.shape != cur.shape:
                raise ValueError('non-broadcastable output operand with shape %s doesn\'t match the broadcast shape %s'
                                 % (cur.shape, r.shape))
            self.log_write(cur)
            cur[...] = r
            return cur
        if terms.is_num(cur) or isint(cur) or isinstance(cur, (str, bool)):
            return binop(op, cur, v)
        f = _IBIN.get(op)
        if isinstance(cur, list) and op is ast.Add:
            cur += list(v) if not isinstance(v, np.ndarray) else v
            return cur
        if f is None or op in (ast.Div, ast.Pow):
            if op is ast.Div and hasattr(type(cur), '__itruediv__'):
                return operator.itruediv(cur, v)
            if op is ast.Pow and hasattr(type(cur), '__ipow__'):
                return operator.ipow(cur, v)
            return binop(op, cur, v)
        return f(cur, v)

    def log_write(self, arr):
        if len(self.writes) < 5000:
            self.writes.append((ST.loc, arr))

    def x_Delete(self, s, sc):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id in sc.vars:
                    del sc.vars[t.id]
                else:
                    raise NameError("name '%s' is not defined" % t.id)
            elif isinstance(t, ast.Attribute):
                delattr(self.eval(t.value, sc), self.mangle(t.attr, sc))
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, sc)
                del o[self.index(t.slice, sc)]
            elif isinstance(t, (ast.Tuple, ast.List)):
                self.x_Delete(ast.Delete(targets=t.elts), sc)

    def x_If(self, s, sc):
        c = truth(self.eval(s.test, sc))
        return self.exec_block(s.body if c else s.orelse, sc)

    def x_While(self, s, sc):
        n = 0
        while truth(self.eval(s.test, sc)):
            n += 1
            if n > MAX_LOOP:
                raise Unsupported('loop bound')
            sig = self.exec_block(s.body, sc)
            if sig is BRK:
                return None
            if sig is not None and sig is not CONT:
                return sig
            self.setloc(s, sc)
        return self.exec_block(s.orelse, sc)

    def x_For(self, s, sc):
        n = 0
        for v in self.iterate(self.eval(s.iter, sc)):
            n += 1
            if n > MAX_LOOP:
                raise Unsupported('loop bound')
            self.assign(s.target, v, sc)
            sig = self.exec_block(s.body, sc)
            if sig is BRK:
                return None
            if sig is not None and sig is not CONT:
                return sig
        return self.exec_block(s.orelse, sc)

    def iterate(self, v):
        if isinstance(v, np.ndarray):
            if v.ndim == 0:
                raise TypeError('iteration over a 0-d array')
            return iter(objarr(v))
        if isinstance(v, Sym) or isinstance(v, Fraction):
            raise TypeError("'float' object is not iterable")
        if isinstance(v, EngineObj):
            raise Unsupported('iteration over %r' % v)
        return iter(v)

    def x_With(self, s, sc):
        return self._with(s.items, s.body, sc)

    def _with(self, items, body, sc):
        if not items:
            return self.exec_block(body, sc)
        it = items[0]
        cm = self.eval(it.context_expr, sc)
        v = type(cm).__enter__(cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, sc)
        try:
            sig = self._with(items[1:], body, sc)
        except Exception as e:
            if truth(type(cm).__exit__(cm, type(e), e, None)):
                return None
            raise
        type(cm).__exit__(cm, None, None, None)
        return sig

    def x_Raise(self, s, sc):
        if s.exc is None:
            e = self.cur_exc[-1] if getattr(self, 'cur_exc', None) else None
            if e is None:
                raise RuntimeError('No active exception to reraise')
            raise e
        e = self.eval(s.exc, sc)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = e()
        if not isinstance(e, BaseException):
            raise TypeError('exceptions must derive from BaseException')
        if s.cause is not None:
            self.eval(s.cause, sc)
        e._sa_explicit = True
        raise e

    def x_Assert(self, s, sc):
        if not truth(self.eval(s.test, sc)):
            raise AssertionError(fmt_value(self.eval(s.msg, sc)) if s.msg else '')

    def x_Try(self, s, sc):
        sig = None
        try:
            try:
                sig = self.exec_block(s.body, sc)
            except EngineError:
                raise
            except BaseException as e:
                if isinstance(e, RecursionError):
                    raise Unsupported('recursion')
                for h in s.handlers:
                    if self.matches(h, e, sc):
                        if not hasattr(self, 'cur_exc'):
                            self.cur_exc = []
                        self.cur_exc.append(e)
                        if h.name:
                            sc_store = h.name
                            self.store(h.name, e, sc)
                        try:
                            self.setloc(h, sc)
                            sig = self.exec_block(h.body, sc)
                        finally:
                            self.cur_exc.pop()
                        break
                else:
                    raise
            else:
                if sig is None:
                    sig = self.exec_block(s.orelse, sc)
        except EngineError:
            raise
        except BaseException:
            if s.finalbody:
                fs = self.exec_block(s.finalbody, sc)
                if fs is not None:
                    return fs
            raise
        if s.finalbody:
            fs = self.exec_block(s.finalbody, sc)
            if fs is not None:
                return fs
        return sig

    def matches(self, h, e, sc):
        if h.type is None:
            return True
        t = self.eval(h.type, sc)
        if isinstance(t, EngineObj):
            raise Unsupported('except clause over %r' % t)
        return isinstance(e, t)

    def x_FunctionDef(self, s, sc):
        f = self.make_fn(s, sc, s.name)
        v = f
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, sc), (v,), {})
        self.store(s.name, v, sc)

    def make_fn(self, node, sc, name):
        mod = self.cur_module(sc)
        qual = name
        if sc.kind == 'class':
            qual = '%s.%s' % (sc.clsname, name)
        elif sc.fn is not None:
            qual = '%s.<locals>.%s' % (sc.fn.__qualname__, name)
        parent = sc
        if sc.kind == 'module':
            parent = None
        f = Fn(self, node, parent, mod, name, qual)
        f.defaults = tuple(self.eval(d, sc) for d in node.args.defaults)
        for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults):
            if d is not None:
                f.kwdefaults[a.arg] = self.eval(d, sc)
        f._sa_cls = sc.clsname
        return f

    def cur_module(self, sc):
        g = sc.glob
        for m in list(self.modules.values()) + self.clients:
            if m.__dict__ is g:
                return m
        raise Unsupported('module of scope')

    def x_ClassDef(self, s, sc):
        bases = []
        for b in s.bases:
            v = self.eval(b, sc)
            if isinstance(v, EngineObj):
                raise Unsupported('base class %r' % v)
            bases.append(v)
        kw = {k.arg: self.eval(k.value, sc) for k in s.keywords}
        meta = kw.pop('metaclass', None)
        cs = Scope(None if sc.kind == 'module' else sc, sc.glob, 'class', fn=None, clsname=s.name)
        cs.vars['__module__'] = sc.glob.get('__name__')
        cs.vars['__qualname__'] = s.name
        doc = ast.get_docstring(s)
        if doc:
            cs.vars['__doc__'] = doc
        self.exec_block(s.body, cs)
        bases = tuple(bases) or (object,)
        for n, w in (('__new__', staticmethod), ('__init_subclass__', classmethod), ('__class_getitem__', classmethod)):
            if isinstance(cs.vars.get(n), Fn):
                cs.vars[n] = w(cs.vars[n])
        if meta is None:
            meta = type(bases[0])
            for b in bases[1:]:
                if issubclass(type(b), meta):
                    meta = type(b)
        cls = meta(s.name, bases, dict(cs.vars), **kw)
        for v in cs.vars.values():
            for f in self.inner_fns(v):
                if f.owner is None:
                    f.owner = cls
        for d in reversed(s.decorator_list):
            cls = self.call(self.eval(d, sc), (cls,), {})
        self.store(s.name, cls, sc)

    def inner_fns(self, v):
        if isinstance(v, Fn):
            return [v]
        if isinstance(v, (staticmethod, classmethod)):
            return self.inner_fns(v.__func__)
        if isinstance(v, property):
            return [f for g in (v.fget, v.fset, v.fdel) if g is not None for f in self.inner_fns(g)]
        w = getattr(v, '__dict__', {}).get('__wrapped__') or getattr(v, '__dict__', {}).get('func') \
            if not isinstance(v, type) else None
        if w is not None:
            return self.inner_fns(w)
        return []

    def x_Import(self, s, sc):
        for a in s.names:
            m = self.load(a.name)
            if a.asname:
                self.store(a.asname, m, sc)
            else:
                self.store(a.name.split('.')[0], self.load(a.name.split('.')[0]), sc)

    def x_ImportFrom(self, s, sc):
        name = s.module or ''
        if s.level:
            pkg = sc.glob.get('_sa_pkg', '')
            parts = pkg.split('.') if pkg else []
            if s.level > 1:
                parts = parts[:len(parts) - (s.level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        m = self.load(name)
        for a in s.names:
            if a.name == '*':
                names = m.__dict__.get('__all__') or [n for n in m.__dict__ if not n.startswith('_')]
                for n in names:
                    self.store(n, getattr(m, n), sc)
                continue
            try:
                v = getattr(m, a.name)
            except AttributeError:
                sub = name + '.' + a.name
                p, _ = self.find(sub)
                if p is not None and isinstance(m, Module):
                    v = self.load(sub)
                else:
                    raise ImportError("cannot import name '%s' from '%s'" % (a.name, name))
            self.store(a.asname or a.name, v, sc)

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            self.store(t.id, v, sc)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise ValueError('not enough values to unpack')
                mid = vals[i:len(vals) - after]
                parts = vals[:i] + [mid] + (vals[len(vals) - after:] if after else [])
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, sc)
            else:
                if len(vals) != len(t.elts):
                    raise ValueError('%s values to unpack (expected %d)' %
                                     ('too many' if len(vals) > len(t.elts) else 'not enough', len(t.elts)))
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, sc), self.mangle(t.attr, sc), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, sc), self.index(t.slice, sc), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, list(self.iterate(v)), sc)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def setattr(self, o, n, v):
        if isinstance(o, EngineObj):
            raise Unsupported('attribute store on %r' % o)
        if self.track_attr and len(self.attr_writes) < 20000:
            self.attr_writes.append((ST.loc, o, n))
        if isinstance(o, np.ndarray) and n == 'shape':
            raise Unsupported('assignment to ndarray.shape')
        setattr(o, n, v)

    def setitem(self, o, k, v):
        if isinstance(o, EngineObj):
            raise Unsupported('item store on %r' % o)
        if isinstance(o, np.ndarray):
            if o.dtype != object and o.dtype != bool:
                raise Unsupported('store into a native array')
            if isinstance(v, (list, tuple)):
                v = self.lib.to_array(v)
            v = objarr(v)
            self.log_write(o)
            if o.dtype == object and not isinstance(v, (bool, Cond, str)) and is_int_array(o):
                v = _trunc(v)
            elif isint(v) and not is_int_array(o):
                v = F(int(v))
            elif isinstance(v, np.ndarray) and is_int_array(v) and not is_int_array(o):
                v = np.vectorize(lambda e: F(int(e)), otypes=[object])(v)
            o[k] = v
            return
        if isinstance(o, Sym) or isinstance(o, Fraction):
            raise TypeError("'float' object does not support item assignment")
        o[k] = v

    def store(self, name, v, sc):
        if sc.kind == 'function' or sc.kind == 'comp':
            if name in sc.globals_decl:
                sc.glob[name] = v
                return
            if name in sc.nonlocals:
                p = sc.parent
                while p is not None:
                    if p.kind == 'function' and (name in p.local or name in p.vars):
                        p.vars[name] = v
                        return
                    p = p.parent
                raise Unsupported('nonlocal %s' % name)
        sc.vars[name] = v

    def lookup(self, name, sc):
        s = sc
        first = True
        while s is not None:
            if s.kind == 'class' and not first:
                s = s.parent
                continue
            if name in s.vars:
                return s.vars[name]
            if s.kind == 'function' and name in s.local:
                raise UnboundLocalError("local variable '%s' referenced before assignment" % name)
            if s.kind != 'comp':
                first = False
            s = s.parent
        if name in sc.glob:
            return sc.glob[name]
        if name in self.builtins:
            return self.builtins[name]
        if hasattr(builtins, name):
            raise Unsupported('builtin %s' % name)
        raise NameError("name '%s' is not defined" % name)

    def mangle(self, n, sc):
        if n.startswith('__') and not n.endswith('__') and sc.clsname:
            return '_%s%s' % (sc.clsname.lstrip('_'), n)
        return n

    # ------------------------------------------------------------------ expressions
    def eval(self, e, sc):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, sc)

    def e_Constant(self, e, sc):
        v = e.value
        if isinstance(v, float):
            c = const(v)
            return F(c) if c is not None else v
        if isinstance(v, complex):
            raise Unsupported('complex literal')
        return v

    def e_Name(self, e, sc):
        return self.lookup(e.id, sc)

    def e_Tuple(self, e, sc):
        return tuple(self.elts(e.elts, sc))

    def e_List(self, e, sc):
        return self.elts(e.elts, sc)

    def e_Set(self, e, sc):
        return set(self.elts(e.elts, sc))

    def elts(self, elts, sc):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, sc)))
            else:
                out.append(self.eval(x, sc))
        return out

    def e_Dict(self, e, sc):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, sc))
            else:
                kk = self.eval(k, sc)
                d[kk] = self.eval(v, sc)
        return d

    def e_BinOp(self, e, sc):
        a = self.eval(e.left, sc)
        b = self.eval(e.right, sc)
        if isinstance(a, EngineObj) or isinstance(b, EngineObj):
            raise Unsupported('operation on an opaque value')
        return binop(type(e.op), a, b)

    def e_UnaryOp(self, e, sc):
        v = self.eval(e.operand, sc)
        if isinstance(e.op, ast.Not):
            return not truth(v)
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return +v
        if isinstance(v, np.ndarray) and is_boolish(v):
            return np.frompyfunc(terms.neg_cond, 1, 1)(v)
        if isinstance(v, Cond):
            return terms.neg_cond(v)
        return ~v

    def e_BoolOp(self, e, sc):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            u, v = v, self.eval(x, sc)
            if x is e.values[0] and len(e.values) == 2 and isinstance(v, Cond) and v.edge and simple(e.values[1]):
                w = self.eval(e.values[1], sc)
                r = between(v, w, isand)
                if r is not None:
                    return r
            t = truth(v)
            if isinstance(v, (Cond, Sym)):
                v = t if isinstance(v, Cond) else v
            if t != isand:
                return v
        return v

    def e_Compare(self, e, sc):
        a = self.eval(e.left, sc)
        r = True
        n = len(e.ops)
        for i, (op, x) in enumerate(zip(e.ops, e.comparators)):
            b = self.eval(x, sc)
            r = self.compare(type(op), a, b)
            if i < n - 1:
                if n == 2 and isinstance(r, Cond) and r.edge and simple(e.comparators[1]):
                    w = between(r, self.compare(type(e.ops[1]), b, self.eval(e.comparators[1], sc)), True)
                    if w is not None:
                        return w
                if not truth(r):
                    return r
            a = b
        return r

    _CMP = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
            ast.Eq: operator.eq, ast.NotEq: operator.ne}

    def compare(self, op, a, b):
        if op is ast.Is:
            return self.identity(a, b)
        if op is ast.IsNot:
            return not self.identity(a, b)
        if op in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            return r if op is ast.In else not r
        if isinstance(a, EngineObj) or isinstance(b, EngineObj):
            raise Unsupported('comparison of an opaque value')
        return compare(self._CMP[op], a, b)

    def identity(self, a, b):
        if isinstance(a, (Fraction, Sym)) and isinstance(b, (Fraction, Sym)):
            return a is b
        return a is b

    def contains(self, c, x):
        if isinstance(c, np.ndarray):
            return any(truth(compare(operator.eq, v, x)) for v in c.flat)
        if isinstance(c, (list, tuple)):
            for v in c:
                if v is x:
                    return True
                r = compare(operator.eq, v, x)
                if isinstance(r, np.ndarray) and r.size != 1:
                    raise ValueError('The truth value of an array with more than one element is ambiguous.')
                if truth(r):
                    return True
            return False
        if isinstance(c, EngineObj):
            raise Unsupported('membership in an opaque value')
        return x in c

    def e_IfExp(self, e, sc):
        return self.eval(e.body if truth(self.eval(e.test, sc)) else e.orelse, sc)

    def e_Lambda(self, e, sc):
        return self.make_fn(e, sc, '<lambda>')

    def e_NamedExpr(self, e, sc):
        v = self.eval(e.value, sc)
        s = sc
        while s.kind == 'comp':
            s = s.parent
        self.store(e.target.id, v, s)
        return v

    def e_Attribute(self, e, sc):
        return self.getattr(self.eval(e.value, sc), self.mangle(e.attr, sc))

    def getattr(self, o, n):
        if isinstance(o, np.ndarray):
            m = self.lib.array_attr(o, n)
            if m is not None:
                return m
        elif isinstance(o, (Fraction, int)) and not isinstance(o, bool):
            m = self.lib.scalar_attr(o, n)
            if m is not None:
                return m
        elif isinstance(o, Sym):
            m = self.lib.sym_attr(o, n)
            if m is not None:
                return m
        return getattr(o, n)

    def e_Subscript(self, e, sc):
        o = self.eval(e.value, sc)
        k = self.eval(e.slice, sc)
        return self.getitem(o, k if getattr(o, 'raw_index', False) is True else self.norm_index(k))

    def getitem(self, o, k):
        if isinstance(o, EngineObj):
            raise Unsupported('subscript of %r' % o)
        if isinstance(o, np.ndarray):
            return objarr(o[k])
        if isinstance(o, Fraction):
            raise TypeError("'float' object is not subscriptable")
        if isinstance(o, type) or not hasattr(o, '__getitem__'):
            try:
                return o[k]
            except TypeError:
                raise
        return o[k]

    def index(self, s, sc):
        return self.norm_index(self.eval(s, sc))

    def norm_index(self, k):
        if isinstance(k, tuple):
            return tuple(self.norm_index(x) for x in k)
        if isinstance(k, np.ndarray) and k.dtype == object:
            if is_boolish(k):
                return np.array([truth(x) for x in k.flat], dtype=bool).reshape(k.shape)
            if is_int_array(k):
                return k.astype(np.intp)
            if k.size == 0:
                return k.astype(np.intp)
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        if isinstance(k, list) and k and all(isinstance(x, (bool, Cond)) for x in k):
            return [truth(x) for x in k]
        if isinstance(k, Cond):
            return truth(k)
        return k

    def e_Slice(self, e, sc):
        return slice(*[self.eval(x, sc) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def e_ExtSlice(self, e, sc):
        return tuple(self.eval(d, sc) for d in e.dims)

    def e_Starred(self, e, sc):
        raise Unsupported('starred expression')

    def e_JoinedStr(self, e, sc):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.eval(v.value, sc)
                spec = self.eval(v.format_spec, sc) if v.format_spec else ''
                if v.conversion == ord('r'):
                    x = repr(fmt_value(x))
                elif v.conversion == ord('s'):
                    x = str(fmt_value(x))
                else:
                    x = fmt_value(x)
                out.append(format(x, spec))
        return ''.join(out)

    def e_FormattedValue(self, e, sc):
        return self.e_JoinedStr(ast.JoinedStr(values=[e]), sc)

    def comp(self, gens, sc, emit):
        cs = Scope(sc, sc.glob, 'comp', fn=sc.fn, clsname=sc.clsname)

        def rec(i):
            if i == len(gens):
                emit(cs)
                return
            g = gens[i]
            it = self.eval(g.iter, sc if i == 0 else cs)
            n = 0
            for v in self.iterate(it):
                n += 1
                if n > MAX_LOOP:
                    raise Unsupported('loop bound')
                self.assign(g.target, v, cs)
                if all(truth(self.eval(c, cs)) for c in g.ifs):
                    rec(i + 1)
        rec(0)

    def e_ListComp(self, e, sc):
        out = []
        self.comp(e.generators, sc, lambda cs: out.append(self.eval(e.elt, cs)))
        return out

    def e_SetComp(self, e, sc):
        return set(self.e_ListComp(e, sc))

    def e_GeneratorExp(self, e, sc):
        # the first iterable is evaluated at creation
        it0 = self.eval(e.generators[0].iter, sc)
        pos = list(self.iterate(it0)) if not isinstance(it0, GenObj) and not hasattr(it0, '__next__') else it0

        def run(items):
            g0 = e.generators[0]
            cs = Scope(sc, sc.glob, 'comp', fn=sc.fn, clsname=sc.clsname)

            def rec(i):
                if i == len(e.generators):
                    items.append(self.eval(e.elt, cs))
                    return
                g = e.generators[i]
                n = 0
                for v in (self.iterate(pos) if i == 0 else self.iterate(self.eval(g.iter, cs))):
                    n += 1
                    if n > MAX_LOOP:
                        raise Unsupported('loop bound')
                    self.assign(g.target, v, cs)
                    if all(truth(self.eval(c, cs)) for c in g.ifs):
                        rec(i + 1)
            rec(0)
        return GenObj(run)

    def e_DictComp(self, e, sc):
        d = {}

        def emit(cs):
            k = self.eval(e.key, cs)
            d[k] = self.eval(e.value, cs)
        self.comp(e.generators, sc, emit)
        return d

    def _fnscope(self, sc):
        while sc is not None and sc.kind != 'function':
            sc = sc.parent
        return sc

    def e_Yield(self, e, sc):
        v = self.eval(e.value, sc) if e.value else None
        items = self._fnscope(sc).yields
        if len(items) > MAX_LOOP:
            raise Unsupported('generator bound')
        return items.append(v)

    def e_YieldFrom(self, e, sc):
        items = self._fnscope(sc).yields
        src = self.iterate(self.eval(e.value, sc))
        while True:
            try:
                v = next(src)
            except StopIteration as stop:
                return stop.value
            items.append(v)

    def e_Call(self, e, sc):
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'super' and not e.args:
            return self.zero_super(sc)
        fv = self.eval(f, sc)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, sc)))
            else:
                args.append(self.eval(a, sc))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, sc)
                for kk in d:
                    if kk in kw:
                        raise TypeError("got multiple values for keyword argument '%s'" % kk)
                    kw[kk] = d[kk]
            else:
                kw[k.arg] = self.eval(k.value, sc)
        loc = ST.loc
        ST.loc = (sc.glob.get('__file__', '?'), e.lineno, sc.fn.__qualname__ if sc.fn else '<module>')
        try:
            if isinstance(f, ast.Name) and f.id in ('locals', 'vars') and not args and \
                    fv is self.builtins.get(f.id):
                return dict(sc.vars)
            if isinstance(f, ast.Name) and f.id == 'globals' and fv is self.builtins.get('globals'):
                return sc.glob
            return self.call(fv, args, kw)
        finally:
            ST.loc = loc

    def zero_super(self, sc):
        s = sc
        while s is not None:
            if s.kind == 'function' and s.fn is not None and s.fn.owner is not None:
                return super(s.fn.owner, s.args0)
            s = s.parent
        raise RuntimeError('super(): no arguments')

    def call(self, f, args, kw):
        if isinstance(f, Fn):
            return f(*args, **kw)
        if isinstance(f, EngineObj):
            return f(*args, **kw)
        m = self.lib.intercept(self, f, args, kw)
        if m is not None:
            return m[0]
        if f is None or not callable(f):
            raise TypeError("'%s' object is not callable" % type(f).__name__)
        return f(*args, **kw)

    def e_Await(self, e, sc):
        raise Unsupported('await')


def _trunc(v):
    def t(x):
        if isinstance(x, (int, np.integer)):
            return int(x)
        if isinstance(x, Fraction):
            return int(x)
        if isinstance(x, Sym):
            return terms.fn('trunc', x)
        return x
    if isinstance(v, np.ndarray):
        return np.frompyfunc(t, 1, 1)(v) if v.ndim else t(v.item())
    return t(v)


def _norm_scalar(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.item() if x.dtype == object else const(x.item())
    if isinstance(x, (np.integer, np.floating)):
        return const(x.item()) if const(x.item()) is not None else x.item()
    if isinstance(x, float) and const(x) is not None:
        return const(x)
    return x


def compare(op, a, b):
    a, b = _norm_scalar(a), _norm_scalar(b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        o = b if isinstance(a, np.ndarray) else a
        if o is None or isinstance(o, str):
            if op is operator.eq:
                return np.full(np.shape(a if isinstance(a, np.ndarray) else b), False).astype(object)
            if op is operator.ne:
                return np.full(np.shape(a if isinstance(a, np.ndarray) else b), True).astype(object)
            raise TypeError('comparison with %s' % type(o).__name__)
        if isinstance(o, (list, tuple)):
            from . import lib
            if isinstance(a, np.ndarray):
                b = lib.to_array(b)
            else:
                a = lib.to_array(a)
        try:
            r = np.frompyfunc(lambda x, y: _cmp1(op, x, y), 2, 1)(a, b)
        except ValueError:
            if op is operator.eq:
                return False
            if op is operator.ne:
                return True
            raise
        return r
    return _cmp1(op, a, b)


def _cmp1(op, a, b):
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, Cond) or isinstance(b, Cond):
        if isinstance(a, Cond):
            a = bool(a)
        if isinstance(b, Cond):
            b = bool(b)
    an, bn = terms.is_num(a), terms.is_num(b)
    if an and bn and (isinstance(a, Sym) or isinstance(b, Sym)):
        if op is operator.lt:
            return terms.cmp_lt(a, b)
        if op is operator.gt:
            return terms.cmp_lt(b, a)
        if op is operator.le:
            return terms.neg_cond(terms.cmp_lt(b, a))
        if op is operator.ge:
            return terms.neg_cond(terms.cmp_lt(a, b))
        r = terms.cmp_eq(a, b)
        return r if op is operator.eq else terms.neg_cond(r)
    if isinstance(a, Sym) or isinstance(b, Sym):
        if op is operator.eq:
            return False
        if op is operator.ne:
            return True
        raise TypeError('comparison not supported')
    return op(a, b)
