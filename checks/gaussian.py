"""C01-C04: Gaussian states, their algebra, and the error metrics."""
from itertools import permutations
import types

import numpy as np

from sa import lib, terms, explore
from sa.harness import Scenario, Stop
from sa.terms import F, ST, atom, sqrt, log, add, mul, sub
from sa.model import (vec, mat, spd, symm, inv, eye, zeros, scale, mm, Ref, zero_factor, ref_of, gaussian, relatives,
                      natural_of, snapshot, unchanged, write_loc, make_system)
from . import sizes

MODES = ('moment', 'natural')


def sees(c, label, g, ref, cov=True):
    """The Gaussian shows the natural parameters, and the moments, of the reference."""
    c.eq(label + ': precision', g.precision, ref.P)
    c.eq(label + ': shift', g.shift, ref.h)
    if cov:
        c.eq(label + ': mean', g.mean, ref.mean)
        c.eq(label + ': cov', g.cov, ref.cov)


# ------------------------------------------------------------------ C01
def c01(tier):
    out = []
    dims = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)

    def binary(d, ma, mb, order):
        def f(c):
            a, b = gaussian(c, 'a', d, ma), gaussian(c, 'b', d, mb)
            ra, rb = natural_of(c, 'a', d, ma), natural_of(c, 'b', d, mb)
            if order == 'moments first':
                for g in (a, b):
                    g.mean, g.cov, g.precision, g.shift, g.dim
            for name, g, r in (('product', a * b, ra * rb), ('quotient', a / b, ra / rb)):
                sees(c, name, g, r)
            sees(c, 'left operand afterwards', a, ra)
            sees(c, 'right operand afterwards', b, rb)
        return f

    def related(d, mode, keep=True):
        """Products, quotients and powers of states which agree with each other in part, one after the other."""
        def f(c):
            L = relatives(c, d, mode)
            L = list(L) if keep else L
            b, rb = gaussian(c, 'b', d, 'natural'), natural_of(c, 'b', d, 'natural')
            for label, g, r in (L + L[:1] if keep else L):
                sees(c, label + ': product', g * b, r * rb, cov=False)
                sees(c, label + ': product from the left', b * g, rb * r, cov=False)
                sees(c, label + ': quotient', g / b, r / rb, cov=False)
                sees(c, label + ': quotient of the other', b / g, rb / r, cov=False)
                sees(c, label + ': square', g ** 2, r ** 2, cov=False)
            sees(c, 'the other afterwards', b, rb)
        return f

    def laws(d, mode):
        def f(c):
            G = c.get('StateModel', 'Gaussian')
            a, b, e = gaussian(c, 'a', d, mode), gaussian(c, 'b', d, 'natural'), gaussian(c, 'e', d, 'moment')
            ra, rb, re = natural_of(c, 'a', d, mode), natural_of(c, 'b', d, 'natural'), natural_of(c, 'e', d, 'moment')
            sees(c, 'multiplying then dividing by the same factor', (a * b) / b, ra)
            sees(c, 'dividing then multiplying by the same factor', (a / b) * b, ra)
            sees(c, 'three factors, left first', (a * b) * e, ra * rb * re)
            sees(c, 'three factors, right first', a * (b * e), ra * rb * re)
            one = c.call(G.as_factor, d)
            c.eq('identity factor: precision', one.precision, zeros(d, d))
            c.eq('identity factor: shift', one.shift, zeros(d))
            sees(c, 'times the identity factor', a * one, ra)
            sees(c, 'the identity factor times', one * a, ra)
            sees(c, 'divided by the identity factor', a / one, ra)
            sees(c, 'identity factor divided by', one / a, zero_factor(d) / ra)
            k = a / a
            c.eq('divided by itself: precision', k.precision, zeros(d, d))
            c.eq('divided by itself: shift', k.shift, zeros(d))
            p = one ** atom('c')
            c.eq('power of the identity factor', p.precision, zeros(d, d))
            c.eq('power of the identity factor: shift', p.shift, zeros(d))
            sees(c, 'copy', c.call(a.copy), ra)
        return f

    def messages(d, ma, mb):
        """Factors need not be proper: the algebra is that of natural parameters for any symmetric precision."""
        def f(c):
            G = c.get('StateModel', 'Gaussian')

            def make(name, mode):
                if mode == 'message':
                    P, h = symm(name + '.prec', d), vec(name + '.shift', d)
                    return c.call(G.from_natural, P, h), Ref(P.copy(), h.copy())
                if mode == 'flat':
                    P, h = zeros(d, d), vec(name + '.shift', d)
                    return c.call(G.from_natural, P, h), Ref(P.copy(), h.copy())
                return gaussian(c, name, d, mode), natural_of(c, name, d, mode)
            a, ra = make('a', ma)
            b, rb = make('b', mb)
            k = atom('c', pos=True)
            one = c.call(G.as_factor, d)
            for name, g, r in (('product', a * b, ra * rb), ('product, other order', b * a, ra * rb),
                               ('quotient', a / b, ra / rb), ('quotient, other way', b / a, rb / ra),
                               ('power', a ** k, ra ** k), ('negative power', a ** -1, ra ** -1),
                               ('power 1', a ** 1, ra),
                               ('multiplied then divided', (a * b) / b, ra), ('divided then multiplied', (b / a) * a, rb),
                               ('times the identity', a * one, ra), ('the identity times', one * a, ra),
                               ('divided by the identity', a / one, ra), ('copy', c.call(a.copy), ra),
                               ('left operand afterwards', a, ra), ('right operand afterwards', b, rb)):
                sees(c, name, g, r, cov=False)
        return f

    def flat(d, kind, first):
        """A state whose precision is (nearly) zero keeps its natural parameters, whatever was read before."""
        def f(c):
            G = c.get('StateModel', 'Gaussian')
            if kind == 'identity':
                a, ra = c.call(G.as_factor, d), zero_factor(d)
            else:
                P = zeros(d, d) if kind == 'zero' else scale(F(1, 10 ** 30), eye(d))
                h = vec('h', d)
                a, ra = c.call(G.from_natural, P.copy(), h.copy()), Ref(P, h)
            b, rb = gaussian(c, 'b', d, 'moment'), natural_of(c, 'b', d, 'moment')
            for n in first:
                getattr(a, n)
                getattr(b, n)
            k = atom('c', pos=True)
            for name, g, r in (('product', a * b, ra * rb), ('product, other order', b * a, rb * ra),
                               ('divided by it', b / a, rb / ra), ('copy times', c.call(a.copy) * b, ra * rb)):
                sees(c, 'moments of the ' + name, g, r)
            for name, g, r in (('read again', a, ra), ('copy', c.call(a.copy), ra), ('product', a * b, ra * rb),
                               ('product, other order', b * a, rb * ra), ('divided by it', b / a, rb / ra),
                               ('divided', a / b, ra / rb), ('power', a ** k, ra ** k),
                               ('power of the product', (a * b) ** k, (ra * rb) ** k),
                               ('times itself', a * a, ra * ra), ('divided by itself', a / a, zero_factor(d)),
                               ('copy of a copy times', c.call(c.call(a.copy).copy) * b, ra * rb)):
                sees(c, name, g, r, cov=False)
        return f

    def powers(d, mode):
        def f(c):
            a, ra = gaussian(c, 'a', d, mode), natural_of(c, 'a', d, mode)
            k, l = atom('c', pos=True), atom('l', pos=True)
            sees(c, 'power', a ** k, ra ** k)
            sees(c, 'power of a power', (a ** k) ** l, ra ** mul(k, l))
            sees(c, 'product of powers', (a ** k) * (a ** l), ra ** add(k, l))
            for n in (1, 2, F(1, 2), F(9, 10), -1):
                sees(c, 'power %s' % n, a ** n, ra ** n)
            z = a ** 0
            c.eq('power 0: precision', z.precision, zeros(d, d))
            c.eq('power 0: shift', z.shift, zeros(d))
            b, rb = gaussian(c, 'b', d, mode), natural_of(c, 'b', d, mode)
            sees(c, 'power of a product', (a * b) ** k, (ra * rb) ** k)
            sees(c, 'power of a quotient', (a / b) ** k, (ra / rb) ** k)
        return f

    def wide(d):
        def f(c):
            G = c.get('StateModel', 'Gaussian')
            w = c.call(G.as_marginal, d)
            c.eq('uninformative marginal: mean', w.mean, zeros(d))
            cov = lib.asarr(w.cov)
            c.true('uninformative marginal: covariance is a large multiple of the identity',
                   cov.shape == (d, d) and not isinstance(cov[0, 0], terms.Sym) and cov[0, 0] >= 10 ** 6 and
                   all(terms.same(cov[i, j], cov[0, 0] if i == j else 0) for i in range(d) for j in range(d)), cov)
            c.eq('dimension', w.dim, d)
            c.eq('dimension of a factor', c.call(G.as_factor, d).dim, d)
        return f

    def equality(d, how, other):
        """Equal exactly when mean and covariance agree, whichever way either was given."""
        def f(c):
            G = c.get('StateModel', 'Gaussian')

            def make(m, C, how):
                m, C = lib.to_array(m), lib.to_array(C)
                g = c.call(G, m, C)
                if how != 'moment':
                    g = c.call(G.from_natural, lib.asarr(g.precision).copy(), lib.asarr(g.shift).copy())
                if how == 'natural, read':
                    g.mean, g.cov
                return g
            m = [F(i + 1) for i in range(d)]
            C = [[F(1, 2) if i != j else F(2 + i) for j in range(d)] for i in range(d)]
            a = make(m, C, how)
            c.true('equal to itself', bool(a == a))
            c.true('equal to an equal state', bool(a == make(m, C, other)))
            c.true('equal to its copy', bool(a == c.call(a.copy)))
            near = [[x * (1 + F(1, 10 ** 7)) for x in row] for row in C]
            c.true('equal up to rounding', bool(a == make([x * (1 + F(1, 10 ** 7)) for x in m], near, other)))
            for i in range(d):
                n = list(m)
                n[i] = n[i] + 1
                c.true('different mean component %d' % i, not bool(a == make(n, C, other)))
                c.true('different mean component %d, other way round' % i, not bool(make(n, C, other) == a))
                for j in range(i + 1):
                    D = [list(r) for r in C]
                    D[i][j] = D[j][i] = C[i][j] + F(1, 4)
                    c.true('different covariance entry %d,%d' % (i, j), not bool(a == make(m, D, other)))
                    c.true('different covariance entry %d,%d, other way round' % (i, j),
                           not bool(make(m, D, other) == a))
                # the same precision with another shift; the same shift with another precision
                P, h = lib.asarr(a.precision).copy(), lib.asarr(a.shift).copy()
                h[i] = h[i] + 1
                c.true('same precision, different shift %d' % i, not bool(a == c.call(G.from_natural, P, h)))
                P, h = lib.asarr(a.precision).copy(), lib.asarr(a.shift).copy()
                P[i, i] = P[i, i] + 1
                c.true('same shift, different precision %d' % i, not bool(a == c.call(G.from_natural, P, h)))
        return f

    for d in dims:
        for ma in MODES:
            for mb in MODES:
                for o in ('fresh', 'moments first'):
                    out.append(Scenario('binary operations d=%d %s/%s %s' % (d, ma, mb, o), binary(d, ma, mb, o)))
        for m in MODES:
            out.append(Scenario('laws d=%d %s' % (d, m), laws(d, m)))
            out.append(Scenario('powers d=%d %s' % (d, m), powers(d, m)))
            out.append(Scenario('states which agree in part d=%d %s' % (d, m), related(d, m)))
            out.append(Scenario('states which agree in part, one at a time, d=%d %s' % (d, m), related(d, m, False)))
        for ma, mb in (('message', 'message'), ('message', 'moment'), ('moment', 'message'), ('natural', 'message'),
                       ('flat', 'message'), ('flat', 'moment'), ('flat', 'flat')):
            out.append(Scenario('improper factors d=%d %s/%s' % (d, ma, mb), messages(d, ma, mb)))
        for kind in ('identity', 'zero', 'nearly zero'):
            for first in ((), ('mean',), ('cov',), ('mean', 'cov', 'precision', 'shift'), ('shift', 'mean')):
                out.append(Scenario('flat state d=%d %s after reading %s' % (d, kind, ','.join(first) or 'nothing'),
                                    flat(d, kind, first)))
        out.append(Scenario('uninformative states d=%d' % d, wide(d)))
    for d in sizes.dims(tier):
        for ma, mb in (('moment', 'natural'), ('natural', 'natural')):
            out.append(Scenario('binary operations d=%d %s/%s' % (d, ma, mb), binary(d, ma, mb, 'fresh')))
        out.append(Scenario('improper factors d=%d' % d, messages(d, 'message', 'natural')))
        out.append(Scenario('powers d=%d natural' % d, powers(d, 'natural')))
        out.append(Scenario('uninformative states d=%d' % d, wide(d)))
    def shared_parts(d):
        """States made of the same arrays, of which only one part differs, are different."""
        def f(c):
            G = c.get('StateModel', 'Gaussian')
            m, n = lib.to_array([F(i + 1) for i in range(d)]), lib.to_array([F(i + 2) for i in range(d)])
            A = lib.to_array([[F(1, 2) if i != j else F(2 + i) for j in range(d)] for i in range(d)])
            B = lib.to_array([[F(1, 4) if i != j else F(3 + i) for j in range(d)] for i in range(d)])
            for how, make in (('moments', lambda x, M: c.call(G, x, M)),
                              ('natural parameters', lambda x, M: c.call(G.from_natural, M, x))):
                for read in ((), ('mean', 'cov'), ('precision', 'shift')):
                    t = 'by %s%s: ' % (how, ', read before' if read else '')
                    a, b, e, k = make(m, A), make(m, B), make(n, A), make(m, A)
                    for g in (a, b, e, k):
                        for at in read:
                            getattr(g, at)
                    c.true(t + 'same first part only', not bool(a == b))
                    c.true(t + 'same first part only, other way round', not bool(b == a))
                    c.true(t + 'same second part only', not bool(a == e))
                    c.true(t + 'both the same', bool(a == k))
        return f

    def scale_free(d, how, other):
        """Equality is judged on the moments: a difference that is plain in them is one however small it is in the natural
        parameters, and one that is within the tolerance is none however large there."""
        def f(c):
            G = c.get('StateModel', 'Gaussian')

            def make(m, C, how):
                if how == 'moment':
                    return c.call(G, lib.to_array(m), lib.to_array(C))
                P = inv(lib.to_array(C))
                return c.call(G.from_natural, P, P @ lib.to_array(m))
            zero = [F(0)] * d

            def iso(v):
                return [[v if i == j else F(0) for j in range(d)] for i in range(d)]
            wide = [F(10 ** 6), F(5, 2) * 10 ** 6]
            a, b = make(zero, iso(wide[0]), how), make(zero, iso(wide[1]), other)
            c.true('wide states of different width', not bool(a == b))
            c.true('wide states of different width, other way round', not bool(b == a))
            one = [F(3)] * d
            a, b = make(zero, iso(wide[0]), how), make(one, iso(wide[0]), other)
            c.true('wide states with different means', not bool(a == b))
            a, b = make(one, iso(F(1, 10 ** 7)), how), make(one, iso(F(3, 10 ** 7)), other)
            c.true('narrow states, equal up to the tolerance', bool(a == b))
        return f

    ways = ('moment', 'natural', 'natural, read')
    for d in dims:
        out.append(Scenario('equality d=%d of states sharing arrays' % d, shared_parts(d)))
        for h in ways[:2]:
            for o in ways[:2]:
                out.append(Scenario('equality d=%d of wide and narrow states given as %s and %s' % (d, h, o),
                                    scale_free(d, h, o)))
        for h in ways:
            for o in ways:
                out.append(Scenario('equality d=%d of states given as %s and %s' % (d, h, o), equality(d, h, o)))
    return out


# ------------------------------------------------------------------ C02
ATTRS = ('mean', 'cov', 'precision', 'shift', 'dim', 'chol_cov')


def near_identity(E, bound=F(1, 10 ** 8)):
    """E = eps * I with 0 <= eps <= bound."""
    n = E.shape[0]
    if E.shape != (n, n):
        return False
    e = E[0, 0]
    v = small_const(e)
    if v is None or not 0 <= v <= bound:
        return False
    return all(terms.same(E[i, j], e if i == j else 0) for i in range(n) for j in range(n))


_SMALL = {}


def small_const(e):
    """The constant this term equals, searched among powers of ten times small integers."""
    if not isinstance(e, terms.Sym):
        return terms.const(e)
    if not _SMALL:
        for k in range(6, 17):
            for m in range(0, 21):
                v = F(m, 10 ** k)
                _SMALL[terms.fp(v)] = v
    return _SMALL.get(terms.fp(e))


def c02(tier):
    out = []
    dims = (1, 2, 3)

    def coherent(d, mode, order):
        def f(c):
            g, r = gaussian(c, 'a', d, mode), natural_of(c, 'a', d, mode)
            for a in order:
                getattr(g, a)
            want = dict(mean=r.mean, cov=r.cov, precision=r.P, shift=r.h)
            for again in ('', ' (second access)'):
                for a in ATTRS[:4]:
                    c.eq(a + again, getattr(g, a), want[a])
            C = lib.asarr(g.cov)
            c.true('covariance is symmetric', all(terms.same(C[i, j], C[j, i]) for i in range(d) for j in range(d)), C)
            c.true('dimension', int(g.dim) == d, g.dim, d)
            L = lib.asarr(g.chol_cov)
            c.eq('the Cholesky factor squares to the covariance', L @ L.T, r.cov)
            c.true('the Cholesky factor is lower triangular',
                   all(terms.same(L[i, j], 0) for i in range(d) for j in range(i + 1, d)), L)
        return f

    def related(d, mode, order, keep=True):
        """States which agree with each other in part, converted one after the other."""
        def f(c):
            L = relatives(c, d, mode)
            L = list(L) if keep else L
            for label, g, r in (L + L[:2] if keep else L):
                want = dict(mean=r.mean, cov=r.cov, precision=r.P, shift=r.h)
                for a in order:
                    c.eq('%s: %s' % (label, a), getattr(g, a), want[a])
                C = lib.asarr(g.chol_cov)
                c.eq(label + ': the Cholesky factor squares to the covariance', C @ C.T, r.cov)
        return f

    def given(d, how):
        """Construction from lists, scalars, keyword forms."""
        def f(c):
            G = c.get('StateModel', 'Gaussian')
            m, C = vec('m', d), spd('C', d)
            r = Ref.moments(m, C)
            if how == 'list mean':
                g = c.call(G, list(m), C)
            elif how == 'scalar mean':
                g = c.call(G, m[0], C)
            elif how == 'keywords':
                g = c.call(G, mean_vec=m, cov_mat=C)
            elif how == 'natural keywords':
                g = c.call(G, precision_mat=C, shift_vec=m)
                r = Ref(C, m)
            else:
                g = c.call(G.from_natural, precision=C, shift=m)
                r = Ref(C, m)
            for a, w in (('precision', r.P), ('shift', r.h), ('mean', r.mean), ('cov', r.cov)):
                c.eq(a, getattr(g, a), w)
        return f

    def shared(d, mode, order):
        """States made of the same arrays are states of their own."""
        def f(c):
            G = c.get('StateModel', 'Gaussian')
            A, B, v, w = spd('A', d), spd('B', d), vec('v', d), vec('w', d)
            states = []
            for M, x in ((A, v), (A, w), (B, v), (A, v)):
                states.append((c.call(G, x, M), Ref.moments(x, M)) if mode == 'moment' else
                              (c.call(G.from_natural, precision=M, shift=x), Ref(M, x)))
            for rnd in ('', ' (second access)'):
                for i, (g, r) in enumerate(states):
                    want = dict(mean=r.mean, cov=r.cov, precision=r.P, shift=r.h)
                    for a in order:
                        c.eq('%s of state %d%s' % (a, i + 1, rnd), getattr(g, a), want[a])
            L = lib.asarr(states[2][0].chol_cov)
            c.eq('Cholesky factor of state 3', L @ L.T, states[2][1].cov)
            L = lib.asarr(states[1][0].chol_cov)
            c.eq('Cholesky factor of state 2', L @ L.T, states[1][1].cov)
        return f

    def rough(d, mode):
        """Every fallback of the conversion: failed factorisation, flat precision."""
        def f(c):
            G = c.get('StateModel', 'Gaussian')
            A, v = symm('A', d), vec('v', d)
            try:
                if mode == 'moment':
                    g = c.call(G, v, A)
                    X, y = lib.asarr(g.precision), lib.asarr(g.shift)
                else:
                    g = c.call(G.from_natural, A, v)
                    X, y = lib.asarr(g.cov), lib.asarr(g.mean)
            except (lib.LinAlgError, lib.LinAlgWarning):
                c.true('a failed conversion raises only after a factorisation failed', ST.oracle.faults > 0)
                return
            flat = [t for t in ST.oracle.trace if t[3][0] == 'cond' and t[3][1].small is not None and
                    bool(t[2]) == t[3][1].small] or [b for b in ST.oracle.bounds.values() if explore.tiny(*b)]
            if flat and mode == 'natural' and not ST.oracle.faults:
                if terms.same(X[0, 0], add(X[0, 0], 0)) and not isinstance(X[0, 0], terms.Sym):
                    c.eq('flat precision: mean', y, zeros(d))
                    c.true('flat precision: covariance is a large multiple of the identity', X[0, 0] >= 10 ** 6 and
                           all(terms.same(X[i, j], X[0, 0] if i == j else 0) for i in range(d) for j in range(d)), X)
                    for order in ('mean', 'cov', 'precision', 'shift'):
                        getattr(g, order)
                    c.eq('flat precision: precision kept', g.precision, A)
                    c.eq('flat precision: shift kept', g.shift, v)
                    return
            E = inv(X) - A
            if ST.oracle.faults:
                c.true('%s after a failed factorisation inverts the matrix plus at most 1e-8 I' % (
                    'precision' if mode == 'moment' else 'cov'), near_identity(E), E)
            else:
                c.eq('precision' if mode == 'moment' else 'cov', X, inv(A))
            c.eq('shift agrees with precision' if mode == 'moment' else 'mean agrees with cov', y, X @ v)
            c.true('converted matrix is symmetric',
                   all(terms.same(X[i, j], X[j, i]) for i in range(d) for j in range(d)), X)
            if mode == 'moment':
                c.eq('given mean kept', g.mean, v)
                c.eq('given cov kept', g.cov, A)
            else:
                c.eq('given precision kept', g.precision, A)
                c.eq('given shift kept', g.shift, v)
        return f

    def kept(d, mode, kind, order):
        """What was given stays what is read, on the object and on its copies, whatever was read before."""
        def f(c):
            G = c.get('StateModel', 'Gaussian')
            if mode == 'natural':
                P, h = {'zero': zeros(d, d), 'tiny': scale(F(1, 10 ** 30), eye(d)), 'regular': spd('P', d)}[kind], vec('h', d)
                given, names = (P, h), ('precision', 'shift')
                g = c.call(G.from_natural, P.copy(), h.copy())
            else:
                C, m = {'regular': spd('C', d)}[kind], vec('m', d)
                given, names = (m, C), ('mean', 'cov')
                g = c.call(G, m.copy(), C.copy())
            k = c.call(g.copy)
            for n in order:
                getattr(g, n)
            for what, x in (('object', g), ('copy taken before', k), ('copy taken after', c.call(g.copy)),
                            ('copy of a copy', c.call(c.call(g.copy).copy))):
                for n, v in zip(names, given):
                    c.eq('%s of the %s' % (n, what), getattr(x, n), v)
                if kind == 'regular':
                    for n in order:
                        if n in ATTRS[:4]:
                            c.eq('%s agrees on the %s' % (n, what), getattr(x, n), getattr(g, n))
        return f

    def scales(mode, M):
        """Matrices of any scale are inverted: only a zero trace means no information."""
        def f(c):
            G = c.get('StateModel', 'Gaussian')
            A = lib.to_array([[F(x) for x in r] for r in M])
            d = A.shape[0]
            v = vec('v', d)
            if mode == 'moment':
                g, r = c.call(G, v, A.copy()), Ref.moments(v, A)
            else:
                g, r = c.call(G.from_natural, A.copy(), v), Ref(A, v)
            for n, w in (('precision', r.P), ('shift', r.h), ('mean', r.mean), ('cov', r.cov)):
                c.eq(n, getattr(g, n), w)
        return f

    e = F(1, 10 ** 9)
    shapes = [('small', [[e, e / 2], [e / 2, e]]), ('small determinant', [[e, 0], [0, 1]]),
              ('one small direction', [[1, 0], [0, e / 1000]]), ('small 1d', [[e]]), ('large', [[10 ** 9, 0], [0, 10 ** 8]]),
              ('wide range', [[10 ** 8, 1], [1, F(1, 10 ** 7)]]), ('nearly singular', [[1, 1 - e], [1 - e, 1]]),
              ('small, 3d', [[e, 0, 0], [0, 2 * e, e], [0, e, 2 * e]]), ('negative off-diagonal', [[2, -1], [-1, 1]])]
    for name, M in shapes:
        for m in MODES:
            out.append(Scenario('scale: %s, %s' % (name, m), scales(m, M)))
    orders = list(permutations(ATTRS[:4])) + [('dim', 'chol_cov'), ('chol_cov', 'precision'), ('chol_cov',), ()]
    for d in dims:
        for m in MODES:
            for o in orders if d == 2 or tier == 'thorough' else orders[::5] + [orders[-1]]:
                out.append(Scenario('access d=%d %s order %s' % (d, m, ','.join(o)), coherent(d, m, o)))
            for kind in ('regular',) + (('zero', 'tiny') if m == 'natural' else ()):
                for o in (ATTRS[:4], ('cov',), ('mean',), ('shift', 'mean'), ('cov', 'precision'), ('dim', 'precision')) + (
                        (('chol_cov', 'shift'),) if kind == 'regular' else ()):
                    out.append(Scenario('given parameters kept d=%d %s %s order %s' % (d, m, kind, ','.join(o)),
                                        kept(d, m, kind, o)))
            for o in (ATTRS[:4], ATTRS[3::-1]):
                out.append(Scenario('shared arrays d=%d %s order %s' % (d, m, ','.join(o)), shared(d, m, o)))
            out.append(Scenario('conversion fallbacks d=%d %s' % (d, m), rough(d, m), max_fault=4, regular=False))
            for o in (ATTRS[:4], ('precision', 'shift', 'mean', 'cov')):
                out.append(Scenario('states which agree in part d=%d %s order %s' % (d, m, ','.join(o)), related(d, m, o)))
                out.append(Scenario('states which agree in part, one at a time, d=%d %s order %s' % (d, m, ','.join(o)),
                                    related(d, m, o, False)))
        for how in ('list mean', 'keywords', 'natural keywords', 'from_natural'):
            out.append(Scenario('construction d=%d %s' % (d, how), given(d, how)))
    out.append(Scenario('construction d=1 scalar mean', given(1, 'scalar mean')))
    for d in sizes.dims(tier):
        for m in MODES:
            out.append(Scenario('access d=%d %s' % (d, m), coherent(d, m, ATTRS[:4])))
            out.append(Scenario('given parameters kept d=%d %s' % (d, m), kept(d, m, 'regular', ('cov', 'precision'))))
    return out


# ------------------------------------------------------------------ C04
def ref_nll(m, C, x):
    d = m.size
    r = sub_vec(lib.asarr(x).reshape(-1), m)
    q = r @ inv(C) @ r
    return mul(F(1, 2), add(add(mul(d, log(mul(2, terms.mkpi()))), log(lib.det(C))), q))


def sub_vec(a, b):
    return a - b


def ref_se(m, x):
    r = lib.asarr(x).reshape(-1) - m
    return r @ r


def mean_of(xs):
    s = F(0)
    for x in xs:
        s = add(s, x)
    return terms.div(s, len(xs))


def c04(tier):
    out = []

    def single(d, mode, shape):
        def f(c):
            g, r = gaussian(c, 'a', d, mode), natural_of(c, 'a', d, mode)
            x = vec('x', d)
            X = x if shape == 'flat' else list(x)
            if shape == 'scalar':
                X = x[0]
            c.eq('negative log likelihood', g.nll(X), ref_nll(r.mean, r.cov, x), shape=False)
            if shape != 'list':
                c.eq('squared error', g.squared_error(X), ref_se(r.mean, x), shape=False)
            c.eq('mean afterwards', g.mean, r.mean)
            c.eq('cov afterwards', g.cov, r.cov)
        return f

    def related(d, mode, keep=True):
        """States which agree with each other in part, evaluated one after the other."""
        def f(c):
            L = relatives(c, d, mode)
            L = list(L) if keep else L
            x = vec('x', d)
            X = x.copy()
            for label, g, r in (L + L[:2] if keep else L):
                c.eq(label + ': negative log likelihood', g.nll(X), ref_nll(r.mean, r.cov, x), shape=False)
                c.eq(label + ': squared error', g.squared_error(X), ref_se(r.mean, x), shape=False)
            c.eq('truth kept', X, x)
            L = list(L)
            nll, rmse = c.get('Utils.Metrics', 'nll'), c.get('Utils.Metrics', 'rmse')
            c.eq('nll of a path of them', c.call(nll, [g for _, g, _ in L], [X] * len(L)),
                 mean_of([ref_nll(r.mean, r.cov, x) for _, _, r in L]), shape=False)
            c.eq('rmse of a path of them', c.call(rmse, [g for _, g, _ in L], [X] * len(L)),
                 sqrt(mean_of([ref_se(r.mean, x) for _, _, r in L])), shape=False)
        return f

    def states(c, N, d):
        gs = [gaussian(c, 'g%d' % i, d, MODES[i % 2]) for i in range(N)]
        rs = [natural_of(c, 'g%d' % i, d, MODES[i % 2]) for i in range(N)]
        xs = mat('x', N, d)
        return gs, rs, xs

    def lists(N, d, how):
        def f(c):
            nll, rmse = c.get('Utils.Metrics', 'nll'), c.get('Utils.Metrics', 'rmse')
            gs, rs, xs = states(c, N, d)
            X = xs if how == 'array' else [xs[i] for i in range(N)]
            if how == 'tuple':
                X, gs = tuple(X), tuple(gs)
            c.eq('nll is the mean over time', c.call(nll, gs, X),
                 mean_of([ref_nll(r.mean, r.cov, x) for r, x in zip(rs, xs)]), shape=False)
            c.eq('rmse is the root of the mean squared error', c.call(rmse, gs, X),
                 sqrt(mean_of([ref_se(r.mean, x) for r, x in zip(rs, xs)])), shape=False)
        return f

    def diverged(kind, where, first):
        """A step whose mean is not a number (or infinite) counts like any other: it is not left out of the mean."""
        def f(c):
            N = 3
            ST.undefined = {'g%d.mean[0]' % where: kind} if not first else {'x[%d,0]' % where: kind}
            G = c.get('StateModel', 'Gaussian')
            nll, rmse, nm = (c.get('Utils.Metrics', n) for n in ('nll', 'rmse', 'node_metrics'))
            ms, Cs = [vec('g%d.mean' % i, 1) for i in range(N)], [spd('g%d.cov' % i, 1) for i in range(N)]
            gs, xs = [c.call(G, m, C) for m, C in zip(ms, Cs)], mat('x', N, 1)
            used = {n for a in ms + [xs] for v in a.flat for n in terms.atoms_of(v)}
            c.true('the scenario has an undefined value', set(ST.undefined) <= used, sorted(used))
            wn = mean_of([ref_nll(m, C, x) for m, C, x in zip(ms, Cs, xs)])
            wr = sqrt(mean_of([ref_se(m, x) for m, x in zip(ms, xs)]))
            c.eq('nll is the mean over time', c.call(nll, gs, list(xs)), wn, shape=False)
            c.eq('rmse is the root of the mean squared error', c.call(rmse, gs, list(xs)), wr, shape=False)
            ns = [types.SimpleNamespace(marginal=g) for g in gs]
            r = c.call(nm, ns, list(xs))
            c.eq('RMSE of a chain', r[0], wr, shape=False)
            c.eq('mean NLL of a chain', r[1], wn, shape=False)
        return f

    def nodes(N, d):
        def f(c):
            nm = c.get('Utils.Metrics', 'node_metrics')
            gs, rs, xs = states(c, N, d)
            wrong = [gaussian(c, 'w%d' % i, d) for i in range(N)]
            ns = [types.SimpleNamespace(marginal=g, forward_factor=w, measurement_factor=w, back_factor=w, prior=w, t=i,
                                        factors=[w, w, w])
                  for i, (g, w) in enumerate(zip(gs, wrong))]
            r = c.call(nm, ns, [xs[i] for i in range(N)])
            c.true('two metrics', len(r) == 2, r)
            c.eq('first metric is the RMSE of the marginal means', r[0],
                 sqrt(mean_of([ref_se(q.mean, x) for q, x in zip(rs, xs)])), shape=False)
            c.eq('second metric is the mean NLL under the marginals', r[1],
                 mean_of([ref_nll(q.mean, q.cov, x) for q, x in zip(rs, xs)]), shape=False)
        return f

    for d in (1, 2, 3):
        for m in MODES:
            for s in ('flat', 'list') + (('scalar',) if d == 1 else ()):
                out.append(Scenario('one state d=%d %s %s truth' % (d, m, s), single(d, m, s)))
            out.append(Scenario('states which agree in part d=%d %s' % (d, m), related(d, m)))
            out.append(Scenario('states which agree in part, one at a time, d=%d %s' % (d, m), related(d, m, False)))
        for N in (1, 2, 3, 5):
            out.append(Scenario('node metrics d=%d N=%d' % (d, N), nodes(N, d)))
            for how in ('array', 'rows', 'tuple'):
                out.append(Scenario('state lists d=%d N=%d %s' % (d, N, how), lists(N, d, how)))
    for kind in ('nan', 'inf'):
        for where in range(3):
            for truth in (False, True):
                out.append(Scenario('%s in the %s of step %d' % (kind, 'truth' if truth else 'mean', where),
                                    diverged(kind, where, truth)))
    for N in sizes.lengths(tier):
        out.append(Scenario('node metrics d=2 N=%d' % N, nodes(N, 2)))
        out.append(Scenario('state lists d=2 N=%d rows' % N, lists(N, 2, 'rows')))
    for N in sizes.huge():
        out.append(Scenario('node metrics d=1 N=%d' % N, nodes(N, 1)))
        out.append(Scenario('state lists d=1 N=%d rows' % N, lists(N, 1, 'rows')))
    for d in sizes.dims(tier):
        out.append(Scenario('one state d=%d' % d, single(d, 'moment', 'flat')))
        out.append(Scenario('node metrics d=%d N=2' % d, nodes(2, d)))
        out.append(Scenario('state lists d=%d N=2 rows' % d, lists(2, d, 'rows')))
    return out
