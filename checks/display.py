"""C33, C34: plots and the display of results."""
import inspect
import re
import types

import numpy as np

from sa import lib, terms
from sa.harness import Scenario
from sa.terms import ST, F, Sym, atom, fn, sqrt, add, sub, mul, div
from sa.model import vec, mat, spd, zeros, gaussian
from . import sizes
from .gaussian import mean_of
from .store import order
from .scripts import World, SEEDS, bind, params


# ------------------------------------------------------------------ plotting
class Axes:
    """A drawing surface which records lines and bands."""

    def __init__(self, own=True):
        self.lines, self.bands = [], []
        self.own = own

    def plot(self, *a, **k):
        k = dict(k)
        a = list(a)
        while a:
            x = a.pop(0)
            y = None
            if a and not isinstance(a[0], str):
                y = a.pop(0)
            fmt = a.pop(0) if a and isinstance(a[0], str) else None
            y, x = (x, None) if y is None else (y, x)
            Y = lib.asarr(y)
            X = lib.asarr(x) if x is not None else lib.asarr([F(i) for i in range(Y.shape[0])])
            if X.ndim == 1:
                X = X.reshape(-1, 1)
            if Y.ndim == 1:
                Y = Y.reshape(-1, 1)
            if X.shape[0] != Y.shape[0]:
                raise ValueError('x and y must have same first dimension, but have shapes %s and %s' % (X.shape, Y.shape))
            for j in range(Y.shape[1]):
                self.lines.append((X[:, j if X.shape[1] > 1 else 0], Y[:, j], fmt, k))
        return []

    def fill_between(self, *a, **k):
        b = inspect.Signature([inspect.Parameter(n, inspect.Parameter.POSITIONAL_OR_KEYWORD, default=d)
                               for n, d in (('x', None), ('y1', None), ('y2', F(0)), ('where', None))] +
                              [inspect.Parameter('kw', inspect.Parameter.VAR_KEYWORD)]).bind(*a, **k)
        b.apply_defaults()
        g = b.arguments
        x = lib.asarr(g['x'])
        lo, hi = [np.broadcast_to(lib.asarr(v), x.shape) if lib.asarr(v).ndim == 0 else lib.asarr(v)
                  for v in (g['y1'], g['y2'])]
        if lo.ndim != 1 or hi.ndim != 1:
            raise ValueError("'y1' is not 1-dimensional")
        if lo.shape != x.shape or hi.shape != x.shape:
            raise ValueError('operands could not be broadcast together')
        self.bands.append((x, lo, hi, g['where'], g['kw']))

    def __getattr__(self, n):
        if n.startswith('__') or n.startswith('_sa'):
            raise AttributeError(n)
        return lambda *a, **k: None


def pyplot(c):
    """matplotlib.pyplot with one current set of axes."""
    m = types.ModuleType('matplotlib.pyplot')
    state = dict(ax=None, made=[])

    def new():
        state['ax'] = Axes()
        state['made'].append(state['ax'])
        return state['ax']

    def gca(*a, **k):
        return state['ax'] or new()
    m.gca = gca
    m.figure = lambda *a, **k: (state.update(ax=None), Fig())[1]
    m.subplots = lambda *a, **k: (Fig(), new())
    m.plot = lambda *a, **k: gca().plot(*a, **k)
    m.fill_between = lambda *a, **k: gca().fill_between(*a, **k)
    m.state = state

    class Fig:
        def gca(self, *a, **k):
            return gca()

        def add_subplot(self, *a, **k):
            return new()
    for n in ('xlabel', 'ylabel', 'title', 'legend', 'grid', 'xlim', 'ylim', 'show', 'tight_layout'):
        setattr(m, n, lambda *a, **k: None)
    top = types.ModuleType('matplotlib')
    top.pyplot = m
    c.it.modules['matplotlib'] = top
    c.it.modules['matplotlib.pyplot'] = m
    return m, state


Z95 = F(196, 100)


def drawn(c, ax, T, first, mean=None, band=None, truth=None):
    """The axes show the given line, band and truth over steps first, first + 1, ..."""
    t = lib.asarr([F(first + i) for i in range(T)])

    def at_(x, what):
        return c.eq(what + ' is drawn over the time steps', x, t)
    if mean is not None:
        want = [mean[:, j] for j in range(mean.shape[1])]
        if truth is not None:
            want += [truth] if truth.ndim == 1 else [truth[:, j] for j in range(truth.shape[1])]
        if not c.true('number of lines', len(ax.lines) == len(want), len(ax.lines), len(want)):
            return
        left = list(ax.lines)
        for j, w in enumerate(want):
            what = 'ground truth' if j >= mean.shape[1] else 'line of the mean'
            hit = [l for l in left if l[1].shape == w.shape and all(terms.same(a, b) for a, b in zip(l[1], w))]
            if c.true('%s %d is drawn' % (what, j), len(hit) >= 1, [l[1] for l in left], w):
                at_(hit[0][0], what)
                left = [l for l in left if l is not hit[0]]
    if band is None:
        c.true('no band', not ax.bands, len(ax.bands), 0)
        return
    if not c.true('one band', len(ax.bands) == 1, len(ax.bands), 1):
        return
    x, lo, hi, where, kw = ax.bands[0]
    at_(x, 'band')
    c.true('the whole band', where is None)
    c.eq('lower (or upper) limit of the band', add_(lo, hi), add_(*band))
    for i in range(T):
        # limits in either order
        ok = (terms.same(lo[i], band[0][i]) and terms.same(hi[i], band[1][i])) or \
             (terms.same(lo[i], band[1][i]) and terms.same(hi[i], band[0][i]))
        c.true('limits of the band at step %d' % i, ok, (lo[i], hi[i]), (band[0][i], band[1][i]))


def add_(a, b):
    return lib.asarr([add(x, y) for x, y in zip(a, b)])


class NodeLike:
    def __init__(self, marginal):
        self.marginal = marginal


def c33(tier):
    out = []
    lengths = (1, 2, 5) + tuple(n for n in sizes.lengths(tier) if n <= 40)

    def states(c, T, d, mode):
        return [gaussian(c, 'x%d' % i, d, mode) for i in range(T)]

    def moments(gs):
        return [(lib.asarr(g.mean).copy(), lib.asarr(g.cov).copy()) for g in gs]

    def limits(ms):
        s = [mul(Z95, sqrt(C[0, 0])) for m, C in ms]
        return (lib.asarr([sub(m[0], x) for (m, C), x in zip(ms, s)]), lib.asarr([add(m[0], x) for (m, C), x in zip(ms, s)]))

    def node_plot(T, d, own, truth, mode, **more):
        def f(c):
            plt, st = pyplot(c)
            gs = states(c, T, d, mode)
            ms = moments(gs)
            ax = Axes()
            kw = dict(more, ax=ax) if own else dict(more)
            tr = None if not truth else vec('truth', T) if truth is True else mat('truth', T, truth)
            if truth:
                kw['ground_truth'] = tr.copy()
            r = c.call(c.get('Utils.Plot_Helper', 'plot_gaussian_node'), [NodeLike(g) for g in gs], **kw)
            if not own:
                if not c.true('one new set of axes', len(st['made']) == 1, len(st['made']), 1):
                    return
                ax = st['made'][0]
            else:
                c.true('the axes given are used', not any(a.lines or a.bands for a in st['made']))
            c.true('returns the axes', r is ax)
            M = np.array([m for m, C in ms], dtype=object).reshape(T, d)
            drawn(c, ax, T, 1, M, limits(ms), tr)
            for (m, C), g in zip(ms, gs):
                c.eq('states keep their mean', g.mean, m)
                c.eq('states keep their covariance', g.cov, C)
        return f

    def state_plot(T, d, mode):
        def f(c):
            plt, st = pyplot(c)
            gs = states(c, T, d, mode)
            ms = moments(gs)
            c.call(c.get('Utils.Plot_Helper', 'plot_gaussian'), gs, 'name')
            ax = plt.gca()
            drawn(c, ax, T, 0, None, limits(ms))
            if len(ax.bands) == 1:
                c.true('label', ax.bands[0][4].get('label') == 'name', ax.bands[0][4].get('label'), 'name')
            for (m, C), g in zip(ms, gs):
                c.eq('states keep their mean', g.mean, m)
                c.eq('states keep their covariance', g.cov, C)
        return f

    def data_plot(N, T, own, **more):
        def f(c):
            plt, st = pyplot(c)
            D = mat('data', N, T)
            keep = D.copy()
            ax = Axes()
            kw = dict(more, ax=ax) if own else dict(more)
            r = c.call(c.get('Utils.Plot_Helper', 'plot_1d_data'), D, label='name', c='C3', **kw)
            if not own:
                if not c.true('one new set of axes', len(st['made']) == 1, len(st['made']), 1):
                    return
                ax = st['made'][0]
            else:
                c.true('the axes given are used', not any(a.lines or a.bands for a in st['made']))
            c.true('returns the axes', r is ax)
            mean = lib.asarr([mean_of(list(keep[:, j])) for j in range(T)])
            sd = [sqrt(mean_of([mul(sub(v, mean[j]), sub(v, mean[j])) for v in keep[:, j]])) for j in range(T)]
            band = None
            if N > 1:
                band = (lib.asarr([sub(a, b) for a, b in zip(mean, sd)]), lib.asarr([add(a, b) for a, b in zip(mean, sd)]))
            drawn(c, ax, T, 1, mean.reshape(T, 1), band)
            if ax.lines:
                c.true('label of the line', ax.lines[0][3].get('label') == 'name', ax.lines[0][3].get('label'), 'name')
            c.eq('data are kept', D, keep)
        return f

    for T in lengths:
        for own in (False, True):
            for truth in (False, True):
                out.append(Scenario('nodes, %d steps%s%s' % (T, ', given axes' if own else '', ', ground truth' if truth else ''),
                                    node_plot(T, 1, own, truth, 'moment')))
        out.append(Scenario('states, %d steps' % T, state_plot(T, 1, 'moment')))
    for T, d in ((3, 2), (2, 3)):
        out.append(Scenario('nodes of dimension %d' % d, node_plot(T, d, True, False, 'moment')))
        out.append(Scenario('states of dimension %d' % d, state_plot(T, d, 'moment')))
    for T, d, k in ((3, 1, 2), (2, 3, 3), (2, 5, 5), (4, 4, 4), (1, 2, 6)):
        out.append(Scenario('nodes of dimension %d, %d steps, ground truth of %d components' % (d, T, k),
                            node_plot(T, d, True, k, 'moment')))
    out.append(Scenario('nodes in natural parameters', node_plot(3, 1, True, True, 'natural')))
    out.append(Scenario('states in natural parameters', state_plot(3, 1, 'natural')))
    style = dict(figsize=(6, 3), linewidth=F(1, 2))
    for own in (False, True):
        out.append(Scenario('nodes with a style of their own%s' % (', given axes' if own else ''),
                            node_plot(4, 1, own, True, 'moment', colors=['C3', 'C7'], **style)))
        for N in (1, 3):
            out.append(Scenario('%d series with a style of their own%s' % (N, ', given axes' if own else ''),
                                data_plot(N, 4, own, **style)))
    for N in (1, 2, 3, 7):
        for T in (1, 2, 4):
            for own in (False, True):
                out.append(Scenario('%d series of %d steps%s' % (N, T, ', given axes' if own else ''), data_plot(N, T, own)))
    return out


# ------------------------------------------------------------------ result display
class Display(World):
    """The display script on an abstract database, with the printed text recorded."""

    def __init__(self, c, seeds=(101, 201, 301)):
        super().__init__(c)
        self.lines, self.terms_ = [], []
        self.seeds = seeds
        ST.hooks['print'] = self.lines.append
        ST.hooks['text'] = self.text
        ST.hooks['sql'] = self.serve
        self.rows = {}

    def text(self, v):
        if isinstance(v, np.ndarray):
            if v.size != 1:
                return 'array'
            v = v.reshape(-1)[0]
        self.terms_.append(v)
        return '#%d' % (len(self.terms_) - 1)

    def value(self, what, key):
        return atom('%s %s' % (what, ' '.join('%s=%s' % (k, key[k]) for k in sorted(key))))

    def fill(self, f):
        """The records of the sweeps, over more settings than are shown."""
        keys = []
        if 'ieks' in f.lower():
            name = 'UNGM_EXP' if 'ungm' in f.lower() else 'BOTT_EXP' if 'bott' in f.lower() else 'L96_EXP'
            last = 10 if name == 'L96_EXP' else 50
            for s in SEEDS:
                for it in (5, last):
                    k = dict(Seed=s, Iter=it)
                    if name == 'BOTT_EXP':
                        keys += [dict(k, Quantity=q) for q in ('position', 'velocity', 'angle')]
                    elif name == 'L96_EXP':
                        keys += [dict(k, dim=d) for d in (5, 10, 20, 40, 100, 200)]
                    else:
                        keys.append(k)
            return name, keys
        powers = (F(1), F(4, 5), F(3, 5), F(2, 5), F(1, 5), F(1, 10))
        if 'l96' in f.lower():
            for tr in ('UT', 'TT', 'MCT'):
                for s in self.seeds:
                    for d in (5, 10, 20, 40, 100, 200):
                        for it in (0, 1, 8, 9):
                            for p in (F(1), F(4, 5), F(1, 10)):
                                keys.append(dict(Transform=tr, Seed=s, dim=d, Iter=it, Power=p, Damping=F(1)))
            return 'L96_EXP', keys
        bott = 'bott' in f.lower()
        for tr in ('UT', 'TT', 'MCT'):
            for s in self.seeds:
                for it in (1, 2, 49, 50):
                    for p in powers:
                        for g in (F(1), F(4, 5), F(1, 5)):
                            k = dict(Transform=tr, Seed=s, Iter=it, Power=p, Damping=g)
                            keys += [dict(k, Quantity=q) for q in ('position', 'velocity', 'angle')] if bott else [k]
        return 'BOTT_EXP' if bott else 'UNGM_EXP', keys

    def serve(self, conn, text, params_):
        if text in ('COMMIT', 'ROLLBACK', 'CLOSE'):
            return None
        f = str(conn.db)
        if f not in self.rows:
            self.rows[f] = self.fill(f)
        name, keys = self.rows[f]
        from . import sql
        q = sql.parse(text)
        if q['verb'] != 'SELECT':
            raise lib.OperationalError('the display changes the results: %s' % text)
        if q['table'].lower() != name.lower():
            raise lib.OperationalError('no such table: %s' % q['table'])
        cols = {k.lower(): k for k in keys[0]}
        given = params_ if isinstance(params_, dict) else list(params_)

        def column(k):
            def f(n):
                if n not in cols:
                    raise lib.OperationalError('no such column: %s' % n)
                return k[cols[n]], None
            return f

        def param(t, i):
            return given[t[1:]] if t[0] == ':' else given[i]

        def same(a, b):
            if isinstance(a, str) or isinstance(b, str):
                return a == b
            return terms.same(a, b)
        where = q['where'] or []
        hit = [k for k in keys if not where or
               sql.Cond(where, column(k), param, same, order, lambda t, v: v, terms.Unsupported).result()]
        up = [t.upper() for t in q['tokens']]
        if any(t in up for t in ('GROUP', 'JOIN', 'DISTINCT', 'OFFSET')):
            raise terms.Unsupported('sql %s' % text)
        by = sql.order_by(q)
        if by is None:
            raise terms.Unsupported('sql order')
        for n, down in reversed(by):
            if n in ('rmse', 'nll'):
                hit = sorted(hit, key=lambda k: sql.rank(self.value(n.upper(), k)), reverse=down)
            elif n in cols:
                hit = sorted(hit, key=lambda k: sql.rank(k[cols[n]]), reverse=down)
            else:
                raise lib.OperationalError('no such column: %s' % n)
        if 'LIMIT' in up:
            hit = hit[:int(q['tokens'][up.index('LIMIT') + 1])]
        res = []
        for k in hit:
            row = []
            for p in q['select']:
                n = p[0].split('.')[-1]
                if len(p) != 1:
                    raise terms.Unsupported('sql expression')
                if n.lower() in cols:
                    row.append(k[cols[n.lower()]])
                elif n.lower() in ('rmse', 'nll'):
                    row.append(self.value(n.upper(), k))
                else:
                    raise lib.OperationalError('no such column: %s' % n)
            res.append(tuple(row))
        return res

    def stats(self, what, f_has, **key):
        """Mean and standard deviation over the matching records."""
        out = []
        for f, (name, keys) in self.rows.items():
            if all((h in f.lower()) == v for h, v in f_has.items()):
                out = [self.value(what, k) for k in keys if all(k[n] == v for n, v in key.items())]
        m = mean_of(out)
        return m, sqrt(mean_of([mul(sub(v, m), sub(v, m)) for v in out]))

    def numbers(self, line):
        return [self.terms_[int(n)] for n in re.findall('\u00ab#(\\d+)\u00bb', line)]


def c34(tier):
    def shown(seeds):
        return lambda c: f(c, seeds)

    def f(c, seeds):
        w = Display(c, seeds)
        c.it.load('Experiments.DisplayResults')
        n = dict(base=0, power=0, iter=0)
        trans = quant = dim = None
        files = dict(ungm=dict(ungm=True, ieks=False), bott=dict(bott=True, ieks=False), l96=dict(l96=True, ieks=False))
        section = 0          # experiments shown so far
        block = None
        ieks = []
        for line in w.lines:
            if 'Physical quantity' in line:
                quant = 'angle' if 'Angular' in line else 'velocity' if 'Velocity' in line else 'position'
            h = re.search(r'Trans type:\s*(\w+)', line)
            if h:
                trans = h.group(1)
                block = 'bott' if quant else 'ungm'
                continue
            h = re.search(r'Dimension:\s*(\d+)', line)
            if h:
                dim, block = int(h.group(1)), 'l96'
                continue
            num = w.numbers(line)
            if not num:
                continue
            if 'Kalman Smoother' in line or 'Power EP' in line:
                base = 'Kalman Smoother' in line
                p = F(1)
                if not base:
                    h = re.search(r'\(\s*([\d.]+)', line)
                    if not c.true('the power is shown', h is not None, line):
                        continue
                    p = F(h.group(1))
                key = dict(Power=p)
                if base:
                    key['Iter'] = 0 if block == 'l96' else 1
                else:
                    key['Iter'] = 9 if block == 'l96' else 50
                if block == 'bott':
                    key['Quantity'] = quant
                if block == 'l96':
                    key['dim'] = dim
                    options = [dict(Transform=t, Damping=F(1)) for t in ('UT', 'TT', 'MCT')]
                else:
                    options = [dict(Transform=trans, Damping=g) for g in ((F(1),) if base else (F(1), F(4, 5), F(1, 5)))]
                fits = []
                for o in options:
                    want = w.stats('RMSE', files[block], **dict(key, **o)) + w.stats('NLL', files[block], **dict(key, **o))
                    if len(num) == 4 and all(terms.same(a, b) for a, b in zip(num, want)):
                        fits.append(tuple(sorted(o.items())))
                what = '%s%s: %s' % (block, ' dim %d' % dim if block == 'l96' else '', 'smoother' if base else 'power %s' % p)
                c.true(what + ' shows mean and deviation of RMSE, then of NLL, over the seeds at that setting', len(fits) == 1,
                       num, 'records with %s' % sorted((k, str(v)) for k, v in key.items()))
                n['base' if base else 'power'] += 1
                if fits and not base:
                    prev = n.setdefault(('setting', block), fits[0])
                    c.true(what + ' uses the same setting as the other lines', prev == fits[0], fits[0], prev)
            elif re.match(r'\s*(RMSE|NLL)', line):
                ieks.append((re.match(r'\s*(RMSE|NLL)', line).group(1), num))
        c.true('experiments shown', n['base'] >= 8 and n['power'] >= 16, (n['base'], n['power']), (8, 16))
        want = []
        for h, key in (('ungm', dict(Iter=50)), ('bott', dict(Iter=50)), ('l96', dict(Iter=10))):
            opts = [dict(key)]
            if h == 'bott':
                opts = [dict(key, Quantity=q) for q in ('position', 'velocity', 'angle')]
            if h == 'l96':
                opts = [dict(key, dim=d) for d in (5, 10, 20, 40, 100, 200)]
            for what in ('RMSE', 'NLL'):
                want.append((h, what, opts))
        if c.true('results of the iterated smoother', len(ieks) == len(want), len(ieks), len(want)):
            chosen = {}
            for (got, num), (h, what, opts) in zip(ieks, want):
                c.true('%s of the smoother on %s comes in its place' % (what, h), got == what, got, what)
                fits = [tuple(sorted(o.items())) for o in opts if len(num) == 2 and
                        all(terms.same(a, b) for a, b in zip(num, w.stats(what, {h: True, 'ieks': True}, **o)))]
                c.true('%s of the smoother on %s: mean and deviation over the seeds' % (what, h), len(fits) == 1, num)
                if fits:
                    c.true('%s: RMSE and NLL of the same setting' % h, chosen.setdefault(h, fits[0]) == fits[0])
    return [Scenario('results of %d seeds displayed' % n, shown(tuple(101 + 100 * i for i in range(n))))
            for n in ((3, 12) if tier == 'quick' else (2, 3, 12, 35))]
