"""Partitioning of undecided predicates and library faults (depth-first over the partition tree)."""
from . import terms
from .terms import ST, EngineError, Unsupported
from . import lib


class PathLimit(EngineError):
    pass


def tiny(lo, hi):
    return lo is not None and hi is not None and -terms.TINY <= lo and hi <= terms.TINY


class Oracle:
    def __init__(self, prefix, max_fault, max_len=60, regular=True):
        self.prefix, self.max_fault, self.max_len, self.regular = prefix, max_fault, max_len, regular
        self.trace = []      # [key, n, choice, label]
        self.memo = {}
        self.faults = 0
        self.bounds = {}     # what the path says of a quantity compared with numbers: (lowest, highest)

    def pick(self, key, n, label):
        if key in self.memo:
            return self.memo[key]
        if n == 1:
            return 0
        i = len(self.trace)
        if i >= self.max_len:
            raise PathLimit('too many undecided predicates on one path')
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((key, n, c, label, ST.loc))
        self.memo[key] = c
        return c

    def decide_cond(self, cond):
        # default outcome: False
        if cond.small is not None and self.regular:
            return not cond.small
        if cond.kind == 'eq' and self.regular:
            ST.guards.setdefault(cond.key(), cond)
            return False
        if cond.edge is None:
            return bool(self.pick(('cond',) + cond.key(), 2, ('cond', cond)))
        k, c, below = cond.edge
        lo, hi = self.bounds.get(k, (None, None))
        under = (lo, c if hi is None else min(c, hi))
        over = (c if lo is None else max(c, lo), hi)
        r = None
        if hi is not None and hi <= c:
            r = below
        elif lo is not None and lo >= c:
            r = not below
        elif self.regular and tiny(*under) != tiny(*over):
            r = below == tiny(*over)       # not the outcome which means "numerically zero"
        if r is None:
            r = bool(self.pick(('cond',) + cond.key(), 2, ('cond', cond)))
        self.bounds[k] = under if r == below else over
        return r

    def fault(self, key, options, what):
        if key in self.memo:
            return options[self.memo[key]]
        n = len(options) if self.faults < self.max_fault and ST.faults_on else 1
        c = self.pick(('fault',) + key, n, ('fault', what, options))
        if c:
            self.faults += 1
        return options[c]

    def describe(self):
        out = []
        for key, n, c, label, loc in self.trace:
            if label[0] == 'cond':
                out.append('%s is %s' % (terms.show(label[1].term) + {'lt': ' < 0', 'eq': ' == 0'}.get(
                    label[1].kind, ''), bool(c)))
            elif c:
                out.append('%s raises %s at %s' % (label[1], label[2][c], fmt_loc(loc)))
        return '; '.join(out)


def fmt_loc(loc):
    if not loc:
        return '?'
    f = str(loc[0])
    from .interp import REPO
    if f.startswith(REPO + '/'):
        f = f[len(REPO) + 1:]
    return '%s:%s (%s)' % (f, loc[1], loc[2])


def reset(bindings=None, ranges=None, special_ok=()):
    ST.loc = None
    ST.bindings = dict(bindings or {})
    ST.ranges = dict(ranges or {})
    ST.specials = set()
    ST.atoms = set()
    ST.pos_atoms = set()
    ST.spd = {}
    ST.special_ok = set(special_ok)
    ST.effects = []
    ST.guards = {}
    ST.undefined = {}
    ST.numeric = {}
    ST.hooks = {}
    ST.pd = set()
    ST.pd_scaled = {}
    ST.examined, ST.inverse = {}, {}
    ST.warn_as_error = False
    ST.faults_on = True
    lib.Draws.pos = {}
    lib.Draws.log = []
    lib.Draws.meta = {}
    lib.Draws.nd = 0
    lib.Draws.seeded = None
    lib.RandomStateModel._count = 0
    lib._uninit[0] = 0
    lib.SqlReg.adapters = {}
    lib.SqlReg.converters = {}


class PathResult:
    __slots__ = ('value', 'exc', 'exc_engine', 'oracle', 'loc')


def explore(run, max_fault=1, max_paths=400, bindings=None, ranges=None, special_ok=(), stats=None, regular=True):
    """Yield the result of `run` on every partition."""
    prefix = []
    n = 0
    while True:
        n += 1
        if n > max_paths:
            if stats is not None:
                stats['truncated'] = stats.get('truncated', 0) + 1
            return
        reset(bindings, ranges, special_ok)
        o = Oracle(prefix, max_fault, regular=regular)
        ST.oracle = o
        r = PathResult()
        r.value = r.exc = r.exc_engine = None
        r.oracle = o
        try:
            r.value = run()
        except terms.Budget:
            raise
        except EngineError as e:
            r.exc_engine = e
        except (KeyboardInterrupt, GeneratorExit):
            raise
        except BaseException as e:
            r.exc = e
        r.loc = ST.loc
        yield r, set(ST.specials)
        tr = [list(t[:3]) for t in o.trace]
        while tr and tr[-1][2] + 1 >= tr[-1][1]:
            tr.pop()
        if not tr:
            return
        tr[-1][2] += 1
        prefix = [t[2] for t in tr]
