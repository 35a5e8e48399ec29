"""Abstract interpretation of the SQL effects of the program: tables, constraints, rows, commits."""
import re

import numpy as np

from sa import lib, terms
from sa import interp as I
from sa.terms import ST, Sym, Unsupported
from . import sql

def order(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return (a > b) - (a < b)
    if not terms.is_num(a) or not terms.is_num(b):
        raise Unsupported('sql comparison')
    d = terms.sub(a, b)
    if isinstance(d, Sym):
        raise Unsupported('sql comparison')
    return d


class Store:
    """Collecting semantics of the SQL statements the program issues: tables, constraints, rows, commits."""

    def __init__(self, it):
        self.it = it
        self.tables = {}
        self.committed = {}
        self.log = []           # (verb, table, row, loc)
        self.pending = 0        # inserts since the last commit
        self.max_pending = 0
        self.commits = []       # what each commit left behind
        ST.hooks['sql'] = self.apply

    # -- values
    def bind(self, v):
        if v is None or isinstance(v, (str, int, Sym, lib.Blob)) or type(v) is I.Fraction:
            return v
        if isinstance(v, (float, np.number, np.bool_)):
            return v
        for t, f in lib.SqlReg.adapters.items():
            if type(v) is getattr(t, '_sa_base', t) or (t is np.ndarray and isinstance(v, np.ndarray)):
                r = self.it.call(f, (v,), {})
                if isinstance(r, (bytes, lib.Blob, str, Sym, int)) or type(r) is I.Fraction:
                    return r
                raise lib.SqliteError('Error binding parameter - adapter returned %s' % type(r).__name__)
        if isinstance(v, I.EngineObj):
            raise Unsupported('sql parameter')
        raise lib.SqliteError('Error binding parameter - probably unsupported type %s' % type(v).__name__)

    def out(self, conn, typ, v):
        if v is None or not conn.detect_types:
            return v
        f = lib.SqlReg.converters.get(re.split(r'[\s(]', typ.upper())[0]) if typ else None
        if f is None:
            return v
        if not isinstance(v, lib.Blob):
            v = lib.Blob('text', v)
        return self.it.call(f, (v,), {})

    @staticmethod
    def affinity(typ, v):
        t = (typ or '').upper()
        if isinstance(v, str) and ('INT' in t or 'REAL' in t or 'FLOA' in t or 'DOUB' in t):
            try:
                return I.Fraction(v)
            except ValueError:
                return v
        if 'TEXT' in t or 'CHAR' in t or 'CLOB' in t:
            if terms.is_num(v) and not isinstance(v, Sym):
                return str(float(v)) if not isinstance(v, int) else str(v)
        return v

    @staticmethod
    def same(a, b):
        if a is None or b is None:
            return False
        if terms.is_num(a) and terms.is_num(b):
            return terms.same(a, b)
        return type(a) is type(b) and a == b

    def operand(self, toks, params, table, row):
        if len(toks) == 2 and toks[0] in '+-' and re.match(r'\d', toks[1]):
            v = I.Fraction(toks[1])
            return -v if toks[0] == '-' else v
        if len(toks) != 1:
            raise Unsupported('sql expression %s' % ' '.join(toks))
        t = toks[0]
        if t.startswith('?'):
            return self.bind(params.pop(0))
        if t[0] == ':':
            return self.bind(params[t[1:]])
        if t[0] == "'":
            return t[1:-1].replace("''", "'")
        if re.match(r'\d', t):
            return I.Fraction(t)
        if t.lower() in [c.lower() for c in table['columns']]:
            return row[t.lower()]
        if t.upper() == 'NULL':
            return None
        raise lib.OperationalError('no such column: %s' % t)

    def table(self, name):
        t = self.tables.get(name.lower())
        if t is None:
            raise lib.OperationalError('no such table: %s' % name)
        return t

    def match(self, t, row, where, params, skip=0):
        if not where:
            return True
        given = params if isinstance(params, dict) else list(params)

        def column(n):
            if n not in t['types']:
                raise lib.OperationalError('no such column: %s' % n)
            return row[n], t['types'][n]

        def param(tok, k):
            return self.bind(given[tok[1:]] if tok[0] == ':' else given[k + skip])

        return sql.Cond(where, column, param, self.same, order, self.affinity, Unsupported).result()

    def apply(self, conn, text, params):
        if text in ('COMMIT', 'ROLLBACK', 'CLOSE'):
            if text == 'COMMIT':
                self.pending = 0
                self.committed = {k: [dict(r) for r in t['rows']] for k, t in self.tables.items()}
                self.commits.append(self.committed)
            elif text == 'ROLLBACK':
                for k, t in self.tables.items():
                    t['rows'] = [dict(r) for r in self.committed.get(k, [])]
            return None
        q = sql.parse(text)
        v = q['verb']
        if v in ('PRAGMA', 'BEGIN'):
            return None
        if v == 'CREATE':
            if q['table'].lower() in self.tables:
                if not q['if_not_exists']:
                    raise lib.OperationalError('table %s already exists' % q['table'])
                return None
            low = [c.lower() for c in q['columns']]
            if len(set(low)) != len(low):
                raise lib.OperationalError('duplicate column name')
            for u in q['unique']:
                for c in u:
                    if c.lower() not in low:
                        raise lib.OperationalError('no such column: %s' % c)
            self.tables[q['table'].lower()] = dict(columns=q['columns'], types=q['types'], rows=[],
                                                   unique=[[c.lower() for c in u] for u in q['unique']])
            return None
        if v in ('INSERT', 'REPLACE'):
            t = self.table(q['table'])
            cols = q['columns'] or t['columns']
            for c in cols:
                if c.lower() not in t['types']:
                    raise lib.OperationalError('table %s has no column named %s' % (q['table'], c))
            if q['values'] is None:
                raise Unsupported('INSERT without VALUES')
            if len(q['values']) != len(cols):
                raise lib.OperationalError('%d values for %d columns' % (len(q['values']), len(cols)))
            ps = list(params) if not isinstance(params, dict) else params
            row = {c.lower(): None for c in t['columns']}
            for c, toks in zip(cols, q['values']):
                row[c.lower()] = self.affinity(t['types'][c.lower()], self.operand(toks, ps, dict(columns=[]), {}))
            hit = [r for r in t['rows'] if any(all(self.same(r[c], row[c]) for c in u) for u in t['unique'])]
            if hit:
                if q['conflict'] == 'IGNORE':
                    self.log.append(('IGNORED', q['table'].lower(), row, ST.loc))
                    return None
                if q['conflict'] != 'REPLACE':
                    raise lib.IntegrityError('UNIQUE constraint failed: %s' % q['table'])
                t['rows'] = \
                    [r for r in t['rows'] if not any(r is h for h in hit)]
            t['rows'].append(row)
            self.pending += 1
            self.max_pending = max(self.max_pending, self.pending)
            self.log.append(('INSERT', q['table'].lower(), row, ST.loc))
            return None
        if v == 'SELECT':
            t = self.table(q['table'])
            up = [x.upper() for x in q['tokens']]
            if any(x in up for x in ('JOIN', 'GROUP', 'HAVING', 'UNION')):
                raise Unsupported('sql %s' % text)
            rows = [r for r in t['rows'] if self.match(t, r, q['where'], params)]
            if not t['rows']:
                self.match(t, {c: None for c in t['types']}, q['where'], params)
            res = []
            heads = [' '.join(p) for p in q['select']]
            if any(h.upper().startswith('COUNT (') for h in heads):
                return [(len(rows),)]
            by = sql.order_by(q)
            if by is None:
                raise Unsupported('sql %s' % text)
            for col, down in reversed(by):
                if col not in t['types']:
                    raise lib.OperationalError('no such column: %s' % col)
                try:
                    rows = sorted(rows, key=lambda r: sql.rank(r[col]), reverse=down)
                except TypeError:
                    raise Unsupported('sql %s' % text)
            for r in rows:
                o = []
                for p in q['select']:
                    if p == ['*']:
                        o += [self.out(conn, t['types'][c.lower()], r[c.lower()]) for c in t['columns']]
                    elif len(p) == 1 and re.match(r'\d', p[0]):
                        o.append(I.Fraction(p[0]))
                    else:
                        c = p[0].split('.')[-1].lower()
                        if c == 'distinct':
                            raise Unsupported('sql DISTINCT')
                        if c not in t['types']:
                            raise lib.OperationalError('no such column: %s' % p[0])
                        o.append(self.out(conn, t['types'][c], r[c]))
                res.append(tuple(o))
            for p in q['select']:
                c = p[0].split('.')[-1].lower()
                if p != ['*'] and not re.match(r'\d', p[0]) and c not in t['types']:
                    raise lib.OperationalError('no such column: %s' % p[0])
            if 'LIMIT' in up:
                res = res[:int(q['tokens'][up.index('LIMIT') + 1])]
            return res
        if v == 'DELETE':
            t = self.table(q['table'])
            up = [x.upper() for x in q['tokens']]
            where = q['tokens'][up.index('WHERE') + 1:] if 'WHERE' in up else []
            t['rows'] = [r for r in t['rows'] if not self.match(t, r, where, params)]
            self.log.append(('DELETE', q['table'].lower(), None, ST.loc))
            return None
        if v == 'UPDATE':
            t = self.table(q['table'])
            up = [x.upper() for x in q['tokens']]
            i, j = up.index('SET') + 1, up.index('WHERE') if 'WHERE' in up else len(up)
            sets, cur = [], []
            for x in q['tokens'][i:j] + [',']:
                if x == ',':
                    sets.append(cur)
                    cur = []
                else:
                    cur.append(x)
            ps = list(params) if not isinstance(params, dict) else params
            new = []
            for x in sets:
                if len(x) < 3 or x[1] != '=':
                    raise Unsupported('sql %s' % text)
                if x[0].lower() not in t['types']:
                    raise lib.OperationalError('no such column: %s' % x[0])
                new.append((x[0].lower(), self.affinity(t['types'][x[0].lower()],
                                                        self.operand(x[2:], ps, dict(columns=[]), {}))))
            for r in [r for r in t['rows'] if self.match(t, r, q['tokens'][j + 1:], ps)]:
                r.update(new)
                self.pending += 1
                self.max_pending = max(self.max_pending, self.pending)
                self.log.append(('UPDATE', q['table'].lower(), r, ST.loc))
            return None
        if v == 'DROP':
            self.tables.pop(q['tokens'][-1].lower(), None)
            self.log.append(('DROP', q['tokens'][-1].lower(), None, ST.loc))
            return None
        raise Unsupported('sql %s' % text)

    # -- for the checks
    def rows(self, name):
        t = self.tables.get(name.lower())
        return t['rows'] if t else []

    def kept(self, name):
        """Rows a crash now would leave behind."""
        return self.committed.get(name.lower(), [])

    def crash(self, left=None):
        """The program ends here (or right after the commit which left `left`): what was not committed is gone."""
        left = self.committed if left is None else left
        for k, t in self.tables.items():
            t['rows'] = [dict(r) for r in left.get(k, [])]
        self.committed = {k: [dict(r) for r in t['rows']] for k, t in self.tables.items()}
        self.pending = 0

    def put(self, name, **row):
        """A row which an earlier run has left."""
        r = {c.lower(): None for c in self.tables[name.lower()]['columns']}
        r.update((k.lower(), v) for k, v in row.items())
        self.tables[name.lower()]['rows'].append(r)
        self.committed = {k: [dict(r) for r in t['rows']] for k, t in self.tables.items()}
