"""Sizes at which the program may start to behave differently: taken from the constants in its own source.

A dimension, chain length or iteration count is covered up to a small default bound, and in addition around every whole
number the source compares with, divides by, or slices at.
"""
import ast
import functools
import os
import warnings

from sa import interp as I

SKIP = ('tests', 'Notebooks', '.git')


@functools.lru_cache(None)
def constants():
    out = set()
    for root, dirs, files in os.walk(I.REPO):
        dirs[:] = [d for d in dirs if d not in SKIP and not d.startswith('.')]
        for f in files:
            if f.endswith('.py') and f != 'setup.py':
                try:
                    with open(os.path.join(root, f)) as h, warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        tree = ast.parse(h.read())
                except (SyntaxError, UnicodeDecodeError):
                    continue
                out |= _in(tree)
    return frozenset(out)


@functools.lru_cache(None)
def exact():
    """Constants the source tests for equality: only that very size tells."""
    constants()
    return frozenset(_EXACT)


_EXACT = set()


def _ints(node):
    for x in ast.walk(node):
        if isinstance(x, ast.Constant) and type(x.value) in (int, float) and abs(x.value) < 1e6 and \
                x.value == int(x.value):
            yield abs(int(x.value))


def _names(node):
    for x in ast.walk(node):
        if isinstance(x, ast.Name):
            yield x.id
        elif isinstance(x, ast.Attribute):
            yield x.attr


def _in(tree):
    out, named = set(), {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Constant, ast.UnaryOp, ast.BinOp)):
            for t in n.targets:
                for name in _names(t):
                    named.setdefault(name, set()).update(_ints(n.value))
        elif isinstance(n, ast.arguments):
            a = n.posonlyargs + n.args
            for p, d in list(zip(a[len(a) - len(n.defaults):], n.defaults)) + list(zip(n.kwonlyargs, n.kw_defaults)):
                if d is not None:
                    named.setdefault(p.arg, set()).update(_ints(d))
    for n in ast.walk(tree):
        parts = []
        if isinstance(n, ast.Compare):
            parts = [n.left] + n.comparators
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv)) and not (
                isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            parts = [n.right]
        elif isinstance(n, ast.Slice):
            parts = [p for p in (n.lower, n.upper, n.step) if p is not None]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('min', 'max', 'islice'):
            parts = n.args
        equal = isinstance(n, ast.Compare) and any(isinstance(o, (ast.Eq, ast.NotEq, ast.In, ast.NotIn)) for o in n.ops)
        for p in parts:
            got = set(_ints(p))
            for name in _names(p):
                got |= named.get(name, set())
            out |= got
            if equal or isinstance(n, ast.BinOp):
                _EXACT.update(got)
    return out


def around(hi, lo=1, known=(), most=6):
    """Sizes next to the constants of the source, between `lo` and `hi`, which are not `known`."""
    out = set()
    for c in constants():
        for n in (c - 1, c, c + 1):
            if lo <= n <= hi and n not in known:
                out.add(n)
    if len(out) > most:
        # keep the largest ones reached at once: a size n exercises every smaller index of a loop
        out = set(sorted(out)[-most:]) | {n for n in out if n in exact()}
    return sorted(out)


def dims(tier, most=None):
    """Larger state dimensions."""
    t = tier == 'thorough'
    known = (1, 2, 3)
    out = set(around(40 if t else 24, 4, known, most or (10 if t else 4)))
    return sorted(out | {4, 5} | ({7} if t else set()))


def lengths(tier, lo=6, hi=110, most=None):
    """Longer chains, series and iteration counts."""
    t = tier == 'thorough'
    out = set(around(150 if t else hi, lo, (), most or (8 if t else 4)))
    return sorted(out | {7, 12} | ({25, 70} if t else set()))


def huge(hi=1600, lo=151, most=3):
    """Very long series: only where the source has a constant of that size."""
    return around(hi, lo, (), most)
