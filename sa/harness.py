"""Obligations, verdicts and evidence."""
import ctypes
import json
import multiprocessing
import os
import sys
import threading
import time
import traceback
import types
from fractions import Fraction

import numpy as np

from . import terms, lib, explore
from . import interp as I
from .terms import ST, Sym, F, EngineError, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class AnchorLost(EngineError):
    """A public name the property is stated over is not in the source any more."""


class Skip(EngineError):
    """This partition is outside the property's quantifier."""


class Stop(EngineError):
    """The path already failed an obligation on which the rest depends."""


class Scenario:
    def __init__(self, name, fn, max_fault=0, max_paths=200, special=(), ranges=None, regular=True, tier='quick',
                 allow=(), limit=None, forbid_mutation=True):
        self.name, self.fn, self.max_fault, self.max_paths = name, fn, max_fault, max_paths
        self.special, self.ranges, self.regular, self.tier = tuple(special), dict(ranges or {}), regular, tier
        self.allow = allow
        self.limit = limit


class Ctx:
    """What a scenario sees: the interpreter, and the obligation recorder."""

    def __init__(self, it, sc, bindings):
        self.it, self.sc, self.bindings = it, sc, bindings
        self.ok = []            # labels discharged
        self.bad = []           # dicts
        self.samples = []
        self.info = {}

    # ---- anchors
    def get(self, mod, name=None):
        try:
            m = self.it.load(mod)
        except ModuleNotFoundError as e:
            if mod.split('.')[0] in str(e) or mod in str(e):
                raise AnchorLost('module %s' % mod)
            raise
        if name is None:
            return m
        try:
            return getattr(m, name)
        except AttributeError:
            raise AnchorLost('%s.%s' % (mod, name))

    # ---- obligations
    def _rec(self, label, good, want=None, got=None, loc=None, why=''):
        if good:
            self.ok.append(label)
            if len(self.samples) < 3 and want is not None:
                self.samples.append('%s: %s' % (label, short(got)))
        else:
            self.bad.append(dict(label=label, want=short(want), got=short(got), why=why,
                                 loc=explore.fmt_loc(loc) if loc else None))
        return good

    def eq(self, label, got, want, shape=True):
        """The two values are equal in every component (and have the same shape)."""
        good, why, loc = same_value(got, want, shape)
        return self._rec(label, good, want, got, loc, why)

    def true(self, label, cond, got=None, want=None, loc=None):
        return self._rec(label, bool(cond), want, got, loc)

    def fail(self, label, got=None, want=None, loc=None, why=''):
        return self._rec(label, False, want, got, loc, why)

    def skip(self, why=''):
        raise Skip(why)

    def call(self, f, *a, **k):
        return self.it.call(f, a, k)


def short(x, n=400):
    if x is None:
        return None
    try:
        if isinstance(x, np.ndarray):
            if x.size <= 4:
                s = 'array%s[%s]' % (x.shape, ', '.join(terms.show(v, 4) for v in x.flat))
            else:
                s = 'array%s[%s, ..]' % (x.shape, ', '.join(terms.show(v, 4) for v in list(x.flat)[:2]))
        elif isinstance(x, (Sym, Fraction, int)):
            s = terms.show(x)
        else:
            s = repr(x)
    except Exception as e:
        s = '<%s>' % type(x).__name__
    return s if len(s) <= n else s[:n] + '..'


def same_value(got, want, shape=True):
    if isinstance(got, terms.Cond) or isinstance(want, terms.Cond):
        return (bool(got) == bool(want)), 'truth values differ', None
    if isinstance(want, (np.ndarray, Sym, Fraction, int, float, np.number)) and not isinstance(want, bool):
        if got is None or isinstance(got, (str, dict, bool)):
            return False, 'not a numeric value', None
        if isinstance(got, I.EngineObj):
            raise Unsupported('opaque result')
        try:
            g = lib.asarr(got)
        except ValueError:
            return False, 'ragged', None
        w = lib.asarr(want)
        if g.shape != w.shape:
            if shape or g.size != w.size:
                return False, 'shape %s instead of %s' % (g.shape, w.shape), first_loc(g)
            g = g.reshape(w.shape)
        for i in np.ndindex(w.shape):
            a, b = g[i], w[i]
            if not terms.same(a, b):
                return False, 'component %s: %s instead of %s' % (list(i), terms.show(a, 5) if terms.is_num(a) else a,
                                                                 terms.show(b, 5) if terms.is_num(b) else b), \
                    getattr(a, 'loc', None)
        return True, '', None
    return (got == want) is True or got is want, 'differs', None


def first_loc(a):
    for v in a.flat:
        if isinstance(v, Sym) and v.loc:
            return v.loc
    return None


def conv_exc(e):
    loc = getattr(e, '_sa_loc', None)
    return '%s: %s' % (type(e).__name__, str(e)[:200]), explore.fmt_loc(loc) if loc else '?'


def engine_slip(e):
    """A NameError which the analysis itself ran into: not one that a name lookup of the program reported."""
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    return isinstance(e, NameError) and (tb is None or tb.tb_frame.f_code.co_name not in ('lookup', 'x_Delete', 'x_Raise'))


SCENARIO_BUDGET = {'quick': 240, 'thorough': 700}
CHECK_BUDGET = {'quick': 600, 'thorough': 800}
GUARD_BUDGET = {'quick': 40, 'thorough': 200}


def run_scenario(sc, deadline=None):
    """Analyse one scenario on every partition, within the budget.  Runs in a worker process."""
    out = dict(name=sc.name, obligations=0, discharged=0, paths=0, skipped=0, undecided=[], bad=[], samples=[],
               functions=set(), lost=None, truncated=0, specials=[], error=None)
    ST.deadline = deadline
    t0 = time.time()
    try:
        _explore_scenario(sc, out)
    except terms.Budget:
        out['truncated'] += 1
        out['undecided'].append('analysis budget used up after %d partitions' % out['paths'])
    finally:
        ST.deadline = None
    out['functions'] = sorted(out['functions'])
    out['wall'] = time.time() - t0
    return out


def _explore_scenario(sc, out):
    todo = [dict()]
    done = set()
    guard_budget = 12
    guard_time = GUARD_BUDGET[os.environ.get('VERIF_TIER', 'quick')]
    depth = {}
    t0 = time.time()
    while todo:
        b = todo.pop(0)
        key = bkey(b)
        if key in done:
            continue
        done.add(key)
        if b:
            out['specials'].append(dict((k, str(v)) for k, v in b.items()))
        cur = {}

        def run():
            it = I.Interp()
            lib.CUR = it
            cur['it'] = it
            c = Ctx(it, sc, b)
            cur['c'] = c
            sc.fn(c)
            return c
        stats = {}
        for r, specials in explore.explore(run, max_fault=sc.max_fault, max_paths=sc.max_paths, bindings=b,
                                           ranges=sc.ranges, special_ok=set(sc.special) - set(b), stats=stats,
                                           regular=sc.regular):
            out['paths'] += 1
            c = cur.get('c')
            for a, v in specials:
                if a not in b and len(done) + len(todo) < 24:
                    nb = dict(b)
                    nb[a] = F(v)
                    todo.append(nb)
            if time.time() - t0 > guard_time:
                todo = [x for x in todo if bkey(x) not in depth]
                guard_budget = 0
            if guard_budget > 0 and ST.guards and (r.exc_engine is None or isinstance(r.exc_engine, Stop)):
                new = guard_cases(sc, b, done, todo) if depth.get(key, 0) < 4 else []
                guard_budget -= len(new)
                for k in new:
                    depth[k] = depth.get(key, 0) + 1
            out['functions'] |= {(str(f), q) for f, q in cur['it'].analysed}
            desc = r.oracle.describe()
            if r.exc_engine is not None:
                e = r.exc_engine
                if isinstance(e, Skip):
                    out['skipped'] += 1
                elif isinstance(e, AnchorLost):
                    out['lost'] = str(e)
                elif isinstance(e, Stop):
                    pass
                else:
                    if len(out['undecided']) < 20:
                        out['undecided'].append('%s at %s' % (e, explore.fmt_loc(r.loc)))
            elif r.exc is not None:
                what, loc = conv_exc(r.exc)
                if isinstance(r.exc, (MemoryError, RecursionError)) or engine_slip(r.exc):
                    out['undecided'].append('%s' % what)
                else:
                    out['obligations'] += 1
                    tb = ''
                    if os.environ.get('SA_DEBUG'):
                        tb = ''.join(traceback.format_exception(r.exc))
                    if len(out['bad']) < 20:
                        out['bad'].append(dict(label='no exception escapes', want='normal completion', got=what, why='',
                                               loc=loc, path=desc, binding=fmt_b(b), tb=tb))
            if c is not None:
                out['obligations'] += len(c.ok) + len(c.bad)
                out['discharged'] += len(c.ok)
                for x in c.bad:
                    if len(out['bad']) < 20:
                        x['path'] = desc
                        x['binding'] = fmt_b(b)
                        out['bad'].append(x)
                for s in c.samples:
                    if len(out['samples']) < 3:
                        out['samples'].append(s)
            cur.clear()
        out['truncated'] += stats.get('truncated', 0)


def bkey(b):
    return tuple(sorted((k, str(v)) for k, v in b.items()))


def guard_cases(sc, b, done, todo):
    """Queue instances of the special cases the program tells apart by an equality test (x == 0, A equal to B, ...)."""
    known = dict((a, a in ST.pos_atoms) for a in ST.atoms)
    keys = set(done) | set(bkey(t) for t in todo)
    new = []
    for c in list(ST.guards.values())[:6]:
        got = 0
        for env in terms.solutions(c.term, known, sc.ranges):
            nb = dict(b)
            nb.update(env)
            k = bkey(nb)
            if k in keys:
                continue
            keys.add(k)
            todo.append(nb)
            new.append(k)
            got += 1
            if got >= 2 or len(new) >= 4:
                break
        if len(new) >= 4:
            break
    return new


def fmt_b(b):
    return ', '.join('%s = %s' % (k, v) for k, v in sorted(b.items()))


def _big_stack(f, *a, deadline=None):
    res = {}

    def g():
        try:
            res['v'] = f(*a)
        except BaseException as e:
            res['e'] = e
            res['tb'] = traceback.format_exc()
    sys.setrecursionlimit(250000)
    threading.stack_size(1024 * 1024 * 1024)
    t = threading.Thread(target=g)
    t.start()
    while t.is_alive():
        t.join(5)
        # the interpreter checks the budget at each statement; this reaches it inside a long computation
        if deadline is not None and time.monotonic() > deadline + 15 and t.is_alive():
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(terms.Budget))
    if 'e' in res:
        return dict(name='?', crash=res['tb'])
    return res['v']


_SCS = []
_END = [float('inf')]


def _work(i):
    tier = os.environ.get('VERIF_TIER', 'quick')
    deadline = min(time.monotonic() + SCENARIO_BUDGET[tier], _END[0])
    r = _big_stack(run_scenario, _SCS[i], deadline, deadline=deadline)
    if 'crash' in r:
        r['name'] = _SCS[i].name
    return r


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                out.append(line[len('finding: property=%s ' % pid):])
    return out


def main(pid, title, rule, scenarios, extra=None, assumptions=(), argv=None):
    """Entry point of every check."""
    global _SCS
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if argv and argv[0] in ('quick', 'thorough'):
        tier = argv[0]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = os.environ.get('SA_ONLY')
    scs = [s for s in scenarios if tier == 'thorough' or s.tier == 'quick']
    if only:
        scs = [s for s in scs if only in s.name]
    if os.environ.get('SA_SKIP'):
        scs = [s for s in scs if os.environ['SA_SKIP'] not in s.name]
    _SCS = scs
    _END[0] = time.monotonic() + CHECK_BUDGET[tier]
    jobs = int(os.environ.get('SA_JOBS', '0') or 0) or min(8, os.cpu_count() or 1)
    results = []
    if scs:
        if jobs == 1 or len(scs) == 1:
            results = [_work(i) for i in range(len(scs))]
        else:
            ctx = multiprocessing.get_context('fork')
            with ctx.Pool(min(jobs, len(scs)), maxtasksperchild=8) as pool:
                results = list(pool.imap(_work, range(len(scs)), 1))
    if extra:
        results += extra(tier)
    fns, undecided, bad, lost, crash, samples = set(), [], [], [], [], []
    tot = dict(obligations=0, discharged=0, paths=0, skipped=0, truncated=0)
    per = []
    for r in results:
        if r.get('crash'):
            crash.append('%s: %s' % (r['name'], r['crash']))
            continue
        for k in tot:
            tot[k] += r.get(k, 0)
        fns |= {tuple(f) for f in r.get('functions', ())}
        undecided += ['%s: %s' % (r['name'], u) for u in r.get('undecided', ())]
        for x in r.get('bad', ()):
            x['scenario'] = r['name']
            bad.append(x)
        if r.get('lost'):
            lost.append('%s: %s' % (r['name'], r['lost']))
        samples += ['%s | %s' % (r['name'], s) for s in r.get('samples', ())[:1]]
        per.append(dict(scenario=r['name'], obligations=r.get('obligations', 0), discharged=r.get('discharged', 0),
                        paths=r.get('paths', 0), special_values=r.get('specials', [])))
    known = known_findings(pid)
    reported, knownhit = [], []
    for x in bad:
        key = '%s | %s' % (x['scenario'], x['label'])
        k = [f for f in known if f.startswith(key)]
        (knownhit if k else reported).append(x)
    wall = time.time() - t0
    repo = I.REPO
    flist = sorted('%s:%s' % (f[len(repo) + 1:] if f.startswith(repo + '/') else f, q) for f, q in fns)
    ev = dict(property=pid, tier=tier, seed=seed, level='other',
              coverage=dict(explanation=rule, obligations=tot['obligations'], discharged=tot['discharged'],
                            partitions=tot['paths'], partitions_outside_quantifier=tot['skipped'],
                            scenarios=len(results), undecided=undecided[:40], undecided_count=len(undecided),
                            functions_analysed=flist, function_count=len(flist), samples=samples[:12],
                            per_scenario=per[:120],
                            not_analysed=(lost + crash)[:20]),
              assumptions=list(assumptions), wall_s=round(wall, 3), violations=len(reported))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for x in knownhit:
        print('KNOWN-FINDING: property=%s %s | %s' % (pid, x['scenario'], x['label']))
    for u in undecided[:8]:
        print('UNDECIDED: property=%s %s' % (pid, u))
    print('%s %s: %d obligations, %d discharged, %d partitions, %d scenarios, %d functions, %.1fs' % (
        pid, title, tot['obligations'], tot['discharged'], tot['paths'], len(results), len(flist), wall))
    if reported:
        path = os.path.join(VERIF, 'evidence', 'violation_%s.txt' % pid)
        with open(path, 'w') as f:
            f.write('property %s (%s)\nrule: %s\n' % (pid, title, rule))
            for x in reported:
                f.write('\nscenario: %s\nobligation: %s\n' % (x['scenario'], x['label']))
                for k in ('loc', 'want', 'got', 'why', 'binding', 'path', 'tb'):
                    if x.get(k):
                        f.write('  %s: %s\n' % ({'loc': 'construct', 'want': 'required', 'got': 'found'}.get(k, k), x[k]))
            f.write('\nreplay: cd %s && SA_ONLY=%r python3 run.py %s\n' % (VERIF, reported[0]['scenario'], pid))
        for x in reported[:6]:
            print('  %s / %s: %s (construct: %s; required %s; found %s)%s' % (
                x['scenario'], x['label'], x.get('why') or '', x.get('loc'), x.get('want'), x.get('got'),
                ' [when %s]' % '; '.join(t for t in (x.get('binding'), x.get('path')) if t)
                if x.get('binding') or x.get('path') else ''))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    # parts which could not be analysed are reported; the verdict is about what was
    for c in crash[:3]:
        print('ANALYSIS-ERROR', c)
    for l in lost[:5]:
        print('ANCHOR-LOST', l)
    if tot['discharged'] == 0:
        print('ANALYSIS-BROKEN: nothing discharged')
        return 2
    return 0
