"""Just enough SQL to resolve tables, columns and value positions of the statements in this code base."""
import re
from fractions import Fraction
from sa.terms import Sym

TOK = re.compile(r"\s*(?:(--[^\n]*)|('(?:[^']|'')*')|(\"(?:[^\"]|\"\")*\")|([A-Za-z_][A-Za-z_0-9$.]*)|(\d+\.?\d*(?:[eE][-+]?\d+)?)|"
                 r"(\?\d*|:[A-Za-z_]\w*)|(<=|>=|<>|!=|==|.))", re.S)


class Quoted(str):
    """A double-quoted name."""


def tokens(s):
    out = []
    i = 0
    s = s.strip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            break
        i = m.end()
        if m.group(1):
            continue
        t = m.group(0).strip()
        if t:
            if m.group(3):
                t = Quoted(t[1:-1])
            out.append(t)
    return out


def _group(ts, i):
    """ts[i] is '(': (inner tokens split at top-level commas, index after ')')."""
    depth, parts, cur = 0, [], []
    while i < len(ts):
        t = ts[i]
        if t == '(':
            depth += 1
            if depth > 1:
                cur.append(t)
        elif t == ')':
            depth -= 1
            if depth == 0:
                if cur:
                    parts.append(cur)
                return parts, i + 1
            cur.append(t)
        elif t == ',' and depth == 1:
            parts.append(cur)
            cur = []
        else:
            cur.append(t)
        i += 1
    return parts, i


def parse(sql):
    ts = tokens(sql)
    if ts and ts[-1] == ';':
        ts = ts[:-1]
    up = [t.upper() for t in ts]
    q = dict(verb=up[0] if up else '', text=sql, tokens=ts)
    if not up:
        return q
    if up[0] == 'CREATE' and 'TABLE' in up:
        i = up.index('TABLE') + 1
        q['verb'] = 'CREATE'
        q['if_not_exists'] = up[i:i + 3] == ['IF', 'NOT', 'EXISTS']
        if q['if_not_exists']:
            i += 3
        q['table'] = ts[i]
        parts, _ = _group(ts, i + 1)
        q['columns'], q['types'], q['unique'] = [], {}, []
        for p in parts:
            if p[0].upper() in ('UNIQUE', 'PRIMARY'):
                g, _ = _group(p, p.index('('))
                q['unique'].append([c[0] for c in g])
            elif p[0].upper() in ('FOREIGN', 'CHECK', 'CONSTRAINT'):
                continue
            else:
                q['columns'].append(p[0])
                q['types'][p[0].lower()] = p[1] if len(p) > 1 else ''
                if 'UNIQUE' in [x.upper() for x in p] or 'PRIMARY' in [x.upper() for x in p]:
                    q['unique'].append([p[0]])
    elif up[0] in ('INSERT', 'REPLACE'):
        i = up.index('INTO') + 1
        q['verb'] = 'INSERT'
        q['conflict'] = 'REPLACE' if up[0] == 'REPLACE' else up[2] if up[1] == 'OR' else None
        q['table'] = ts[i]
        i += 1
        if ts[i] == '(':
            parts, i = _group(ts, i)
            q['columns'] = [p[0] for p in parts]
        else:
            q['columns'] = None
        if i < len(ts) and up[i] == 'VALUES':
            parts, i = _group(ts, i + 1)
            q['values'] = parts
        else:
            q['values'] = None
        if 'CONFLICT' in up[i:]:
            j = up.index('CONFLICT', i)
            q['conflict'] = 'IGNORE' if 'NOTHING' in up[j:] else 'REPLACE'
    elif up[0] == 'SELECT':
        i = up.index('FROM') if 'FROM' in up else len(up)
        parts, cur, depth = [], [], 0
        for t in ts[1:i]:
            if t == '(':
                depth += 1
            if t == ')':
                depth -= 1
            if t == ',' and depth == 0:
                parts.append(cur)
                cur = []
            else:
                cur.append(t)
        if cur:
            parts.append(cur)
        q['select'] = parts
        q['table'] = ts[i + 1] if i + 1 < len(ts) else None
        w = up.index('WHERE') if 'WHERE' in up else None
        q['where'] = ts[w + 1:] if w is not None else []
        if w is not None:
            for stop in ('GROUP', 'ORDER', 'LIMIT'):
                if stop in up[w:]:
                    q['where'] = ts[w + 1:up.index(stop, w)]
                    break
        q['names'] = columns_in(parts) + columns_in([q['where']]) + _tail(ts, up)
    elif up[0] in ('DELETE', 'UPDATE', 'DROP', 'PRAGMA'):
        q['table'] = ts[up.index('FROM') + 1] if 'FROM' in up else ts[1] if len(ts) > 1 else None
    return q


WORDS = {'AND', 'OR', 'NOT', 'IN', 'IS', 'NULL', 'BETWEEN', 'LIKE', 'DISTINCT', 'AS', 'ASC', 'DESC', 'SELECT', 'FROM',
         'WHERE', 'GROUP', 'BY', 'ORDER', 'LIMIT', 'HAVING', 'ON', 'EXISTS', 'CASE', 'WHEN', 'THEN', 'ELSE', 'END',
         'CAST', 'REAL', 'INTEGER', 'TEXT', 'OFFSET', 'ALL'}


def columns_in(parts):
    out = []
    for p in parts:
        skip = False
        for k, t in enumerate(p):
            if skip:
                skip = False
                continue
            if t.upper() == 'AS':
                skip = True
                continue
            if re.match(r'[A-Za-z_]', t) and t.upper() not in WORDS and not (k + 1 < len(p) and p[k + 1] == '('):
                out.append(t.split('.')[-1])
    return out


def _tail(ts, up):
    out = []
    for kw in ('GROUP', 'ORDER'):
        if kw in up:
            i = up.index(kw) + 2
            while i < len(ts) and up[i] not in ('ORDER', 'LIMIT', 'HAVING'):
                if re.match(r'[A-Za-z_]', ts[i]) and up[i] not in WORDS:
                    out.append(ts[i].split('.')[-1])
                i += 1
    return out


def order_by(q):
    """Columns of the ORDER BY clause with the direction of each; None for what is not a list of columns."""
    up = [t.upper() for t in q['tokens']]
    if 'ORDER' not in up:
        return []
    out, i, fresh = [], up.index('ORDER') + 2, True
    while i < len(up) and up[i] not in ('LIMIT', 'OFFSET', ';'):
        if up[i] == ',':
            fresh = True
        elif up[i] in ('ASC', 'DESC'):
            if not out or fresh:
                return None
            out[-1] = (out[-1][0], up[i] == 'DESC')
        elif fresh and re.match(r'[A-Za-z_]', up[i]):
            out.append((q['tokens'][i].split('.')[-1].lower(), False))
            fresh = False
        else:
            return None
        i += 1
    return out


def rank(v):
    """A total order of the values of a column: undetermined numbers come in one arbitrary order of their own."""
    if v is None:
        return (0, 0)
    if isinstance(v, str):
        return (3, v)
    if isinstance(v, Sym):
        return (2, hash(v))
    return (1, v)


class Cond:
    """Evaluator of one WHERE clause: three-valued logic over columns, literals and bound parameters.

    `column(name)` gives (value, declared type) and raises for an unknown name, `param(token, k)` the k-th parameter,
    `same(a, b)` equality of values, `order(a, b)` the sign of a - b, `affine(type, v)` the conversion to a type.
    """

    COMPARE = ('=', '==', '!=', '<>', '<', '<=', '>', '>=')

    def __init__(self, toks, column, param, same, order, affine, bad):
        self.t, self.column, self.param, self.same, self.order = list(toks), column, param, same, order
        self.affine, self.bad = affine, bad
        self.i = self.np = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ''

    def word(self):
        t = self.peek()
        return '' if isinstance(t, Quoted) else t.upper()

    def take(self):
        t = self.peek()
        self.i += 1
        return t

    def expect(self, w):
        if self.word() != w:
            raise self.bad('sql condition near %s' % self.peek())
        self.i += 1

    def result(self):
        v = self.either()
        if self.i < len(self.t):
            raise self.bad('sql condition near %s' % self.peek())
        return self.truth(v) is True

    def truth(self, v):
        v = v[0]
        if v is None or isinstance(v, bool):
            return v
        return not self.same(v, 0)

    def either(self):
        a = self.both()
        while self.word() == 'OR':
            self.i += 1
            x, y = self.truth(a), self.truth(self.both())
            a = (True if x or y else None if x is None or y is None else False, None)
        return a

    def both(self):
        a = self.neg()
        while self.word() == 'AND':
            self.i += 1
            x, y = self.truth(a), self.truth(self.neg())
            a = (False if x is False or y is False else None if x is None or y is None else True, None)
        return a

    def neg(self):
        if self.word() == 'NOT':
            self.i += 1
            x = self.truth(self.neg())
            return None if x is None else not x, None
        return self.comparison()

    def two(self, a, b):
        """Both values after the conversion a column's type asks for."""
        (x, tx), (y, ty) = a, b
        if tx is not None:
            y = self.affine(tx, y)
        elif ty is not None:
            x = self.affine(ty, x)
        return x, y

    def equal(self, a, b):
        x, y = self.two(a, b)
        return None if x is None or y is None else bool(self.same(x, y))

    def comparison(self):
        a = self.arith()
        while True:
            w = self.word()
            if w in self.COMPARE:
                self.i += 1
                b = self.arith()
                if w in ('=', '=='):
                    r = self.equal(a, b)
                elif w in ('!=', '<>'):
                    r = self.equal(a, b)
                    r = None if r is None else not r
                else:
                    x, y = self.two(a, b)
                    if x is None or y is None:
                        r = None
                    else:
                        d = self.order(x, y)
                        r = {'<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0}[w]
                a = (r, None)
            elif w == 'IS':
                self.i += 1
                no = self.word() == 'NOT'
                self.i += no
                x, y = self.two(a, self.arith())
                r = x is None and y is None if x is None or y is None else bool(self.same(x, y))
                a = (r != no, None)
            elif w in ('NOT', 'IN', 'BETWEEN', 'LIKE'):
                no = w == 'NOT'
                if no:
                    self.i += 1
                    w = self.word()
                if w == 'IN':
                    self.i += 1
                    self.expect('(')
                    hits = []
                    while self.word() != ')':
                        hits.append(self.equal(a, (self.arith()[0], None)))
                        if self.word() == ',':
                            self.i += 1
                        elif self.word() != ')':
                            raise self.bad('sql condition near %s' % self.peek())
                    self.i += 1
                    r = True if True in hits else None if None in hits else False
                elif w == 'BETWEEN':
                    self.i += 1
                    lo = self.arith()
                    self.expect('AND')
                    hi = self.arith()
                    x, l = self.two(a, lo)
                    x, h = self.two(a, hi)
                    r = None if None in (x, l, h) else self.order(x, l) >= 0 and self.order(x, h) <= 0
                elif w == 'LIKE':
                    self.i += 1
                    x, y = a[0], self.arith()[0]
                    if x is None or y is None:
                        r = None
                    elif isinstance(x, str) and isinstance(y, str):
                        pat = ''.join('.*' if ch == '%' else '.' if ch == '_' else re.escape(ch) for ch in y)
                        r = re.fullmatch(pat, x, re.I | re.S) is not None
                    else:
                        raise self.bad('sql LIKE on numbers')
                else:
                    raise self.bad('sql condition near %s' % self.peek())
                a = (None if r is None else r != no, None)
            else:
                return a

    def arith(self):
        a = self.term()
        while self.word() in ('+', '-'):
            op = self.take()
            b = self.term()
            a = (None if a[0] is None or b[0] is None else a[0] + b[0] if op == '+' else a[0] - b[0], None)
        return a

    def term(self):
        a = self.atom()
        while self.word() == '*':
            self.i += 1
            b = self.atom()
            a = (None if a[0] is None or b[0] is None else a[0] * b[0], None)
        return a

    def atom(self):
        t = self.take()
        up = '' if isinstance(t, Quoted) else t.upper()
        if not t:
            raise self.bad('sql condition ends early')
        if up == '(':
            v = self.either()
            self.expect(')')
            return v
        if up in ('-', '+'):
            v = self.atom()
            return (None if v[0] is None else -v[0] if up == '-' else v[0], None)
        if up in ('ABS', 'LOWER', 'UPPER', 'CAST', 'TRIM') and self.peek() == '(':
            self.i += 1
            v = self.either()[0]
            if up == 'CAST':
                self.expect('AS')
                if self.take().upper() not in ('REAL', 'NUMERIC', 'FLOAT', 'DOUBLE'):
                    raise self.bad('sql CAST')
            self.expect(')')
            if v is None:
                return None, None
            if up == 'ABS':
                return (-v if self.order(v, 0) < 0 else v), None
            if up in ('LOWER', 'UPPER', 'TRIM'):
                return getattr(v, {'TRIM': 'strip'}.get(up, up.lower()))(), None
            return v, None
        if t.startswith('?') or t[0] == ':':
            self.np += 1
            return self.param(t, int(t[1:]) - 1 if t[1:].isdigit() else self.np - 1), None
        if t[0] == "'" and not isinstance(t, Quoted):
            return t[1:-1].replace("''", "'"), None
        if re.match(r'\d', t) and not isinstance(t, Quoted):
            return Fraction(t), None
        if up == 'NULL':
            return None, None
        if up in ('TRUE', 'FALSE'):
            return Fraction(up == 'TRUE'), None
        try:
            return self.column(t.split('.')[-1].lower() if not isinstance(t, Quoted) else t.lower())
        except Exception:
            if isinstance(t, Quoted):       # sqlite reads an unknown quoted name as a string
                return str(t), None
            raise
