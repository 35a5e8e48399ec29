"""C08-C11: node updates; C18: sweeps; C19: factor graph; C23: agreement with the Gaussian smoother."""
import types

import numpy as np

from sa import lib, terms
from sa.harness import Scenario, Skip
from sa.terms import F, ST, atom, sqrt, add, sub, mul, div
from sa.model import (vec, mat, spd, symm, inv, eye, zeros, scale, mm, sym, Ref, ref_of, gaussian, natural_of, relatives,
                      snapshot, unchanged, write_loc, Opaque, OpaqueTransform, make_system, zero_factor)
from .gaussian import sees, near_identity, ref_nll, ref_se, mean_of
from .store import Store
from . import sizes

RANGE = dict(power=((F(0), True), (F(1), False)), damping=((F(0), True), (F(1), False)))
S = dict(special=('power', 'damping'), ranges=RANGE)
DIMS = ((2, 3), (2, 1), (1, 1), (1, 2), (2, 2))


class Setup:
    """A chain built through the public API over an uninterpreted system and uninterpreted transforms."""

    def __init__(self, c, N, d, m, power=None, damping=None, uses=('t',), how='build', transforms=None, noise=None):
        self.c, self.N, self.d, self.m = c, N, d, m
        self.p = atom('power', pos=True) if power is None else power
        self.g = atom('damping', pos=True) if damping is None else damping
        self.sys = make_system(c, d, m, uses=uses, meas_uses=())
        sa = self.sys.sa
        self.f, self.h, self.Q, self.R, self.dt = sa['f'], sa['h'], sa['Q'], sa['R'], sa['dt']
        self.prior = Ref.moments(sa['m0'], sa['P0'])
        E = c.get('MomentMatching.Estimator', 'Estimator')
        if transforms is None:
            self.tf, self.th = OpaqueTransform(c.it, 'TM', d, d), OpaqueTransform(c.it, 'MM', d, m)
        else:
            self.tf, self.th = transforms
        self.est = c.call(E, trans_map=self.tf, meas_map=self.th, trans_noise=spd('Q', d) if noise is None else noise[0](d),
                          meas_noise=spd('R', m) if noise is None else noise[1](m),
                          power=self.p, damping=self.g)
        self.z = [vec('z%d' % i, m) for i in range(N)]
        build = c.get('ExpectationPropagation.Nodes', 'build_nodes')
        if how == 'build':
            self.nodes = list(c.call(build, N, d, self.est, self.sys, [z.copy() for z in self.z]))
        elif isinstance(how, int):
            # every node but this one is attached to an estimator of its own settings
            ns = list(c.call(build, N=N, dim=d))
            attach = c.get('ExpectationPropagation.Nodes', 'node_estimator')
            for j in range(N):
                e = self.est if j == how else c.call(
                    E, trans_map=self.tf, meas_map=self.th, trans_noise=spd('Q', d), meas_noise=spd('R', m),
                    power=atom('power%d' % j, pos=True), damping=atom('damping%d' % j, pos=True))
                ns[j] = list(c.call(attach, [ns[j]], e))[0]
            self.nodes = list(c.call(c.get('ExpectationPropagation.Nodes', 'node_system'), ns, self.sys,
                                     [z.copy() for z in self.z]))
        else:
            ns = c.call(build, N=N, dim=d)
            ns = c.call(c.get('ExpectationPropagation.Nodes', 'node_estimator'), ns, self.est)
            self.nodes = list(c.call(c.get('ExpectationPropagation.Nodes', 'node_system'), ns, self.sys,
                                     [z.copy() for z in self.z]))
        self.probe = vec('probe%d' % d, d)

    # ---- arbitrary history
    def arbitrary(self, which=None, improper=False, tag=''):
        """Give every node an arbitrary marginal and arbitrary factors (any state a history can lead to)."""
        G = self.c.get('StateModel', 'Gaussian')
        self.st = []
        for i, n in enumerate(self.nodes):
            if which is not None and i not in which:
                self.st.append(None)
                continue
            s = dict(marginal=Ref((symm if improper else spd)('Lam%s%d' % (tag, i), self.d),
                                  vec('lam%s%d' % (tag, i), self.d)))
            for k in ('forward_factor', 'measurement_factor', 'back_factor'):
                s[k] = Ref(symm('%s%s%d' % (k[0], tag, i), self.d), vec('%ss%s%d' % (k[0], tag, i), self.d))
            for k, r in s.items():
                setattr(n, k, self.c.call(G.from_natural, r.P.copy(), r.h.copy()))
            self.st.append(s)

    def arbitrary_at(self, which, tag):
        old = self.st
        self.arbitrary(which, tag=tag)
        self.st = [b if b is not None else a for a, b in zip(old, self.st)]

    def fresh(self):
        self.st = [dict((k, ref_of(getattr(n, k))) for k in KEYS) for n in self.nodes]

    # ---- reference
    def trans(self, i, mean, cov):
        return self.tf.ref(self.f.ref(self.probe, mul(i, self.dt), F(0)), mean, cov)

    def meas(self, mean, cov):
        return self.th.ref(self.h.ref(self.probe), mean, cov)

    def fwd(self, i):
        st = self.st
        p, g = self.p, self.g
        n = st[i]
        cav = self.prior if i == 0 else st[i - 1]['marginal'] / (st[i - 1]['back_factor'] ** div(1, p))
        mu, C, X = self.trans(i, cav.mean, cav.cov)
        q = Ref.moments(mu, scale(div(1, p), C + self.Q))
        new = (n['forward_factor'] ** sub(1, g)) * (q ** g)
        marg = n['marginal'] * ((new / n['forward_factor']) ** div(1, p))
        n['forward_factor'], n['marginal'] = new, marg

    def power_update(self, n, key, proj):
        p, g = self.p, self.g
        ratio = proj / n['marginal']
        n[key] = n[key] * (ratio ** g)
        n['marginal'] = n['marginal'] * (ratio ** div(g, p))

    def upd(self, i):
        n = self.st[i]
        cav = n['marginal'] / n['measurement_factor']
        mu, C, X = self.meas(cav.mean, cav.cov)
        V = C + scale(div(1, self.p), self.R)
        K = X @ inv(V)
        self.power_update(n, 'measurement_factor',
                          Ref.moments(cav.mean + K @ (self.z[i] - mu), cav.cov - K @ X.T))

    def back(self, i):
        if i == self.N - 1:
            return
        st, p = self.st, self.p
        n, k = st[i], st[i + 1]
        cav = n['marginal'] / n['back_factor']
        nxt = k['marginal'] / (k['forward_factor'] ** div(1, p))
        mu, C, X = self.trans(i + 1, cav.mean, cav.cov)
        A = C + scale(div(1, p), self.Q)
        J = X @ inv(A)
        if terms.const(p) == 1 if not isinstance(p, terms.Sym) else False:
            tgt = k['marginal']
        else:
            tgt = Ref.moments(mu, A) * (nxt ** p)
        self.power_update(n, 'back_factor',
                          Ref.moments(cav.mean + J @ (tgt.mean - mu), cav.cov + J @ (tgt.cov - A) @ J.T))

    # ---- obligations
    def compare(self, label, only=None):
        for i, n in enumerate(self.nodes):
            if self.st[i] is None:
                continue
            for k in KEYS:
                if only and (i, k) not in only:
                    continue
                g, r = getattr(n, k), self.st[i][k]
                if not (self.c.eq('%snode %d %s: precision' % (label, i, k), g.precision, r.P) &
                        self.c.eq('%snode %d %s: shift' % (label, i, k), g.shift, r.h)):
                    return False
        return True

    def inputs_kept(self):
        c, sa = self.c, self.sys.sa
        c.eq('system noise kept', self.sys.system_noise.cov, self.Q)
        c.eq('measurement noise kept', self.sys.measurement_noise.cov, self.R)
        for i, n in enumerate(self.nodes):
            c.eq('measurement kept', lib.asarr(n.meas).reshape(-1), self.z[i])
        sees(c, 'prior', self.nodes[0].prior, self.prior, cov=False)


KEYS = ('marginal', 'forward_factor', 'measurement_factor', 'back_factor')


def one_update(kind, N, i, d, m, how='build'):
    def f(c):
        s = Setup(c, N, d, m, how=how)
        s.arbitrary()
        n = s.nodes[i]
        if kind == 'fwd':
            c.call(n.fwd_update)
            s.fwd(i)
        elif kind == 'meas':
            c.call(n.meas_update)
            s.upd(i)
        else:
            c.call(n.back_update)
            s.back(i)
        s.compare('')
        s.inputs_kept()
        # moments shown by the new marginal agree with its natural parameters
        r = s.st[i]['marginal']
        c.eq('new marginal: mean', n.marginal.mean, r.mean)
        c.eq('new marginal: cov', n.marginal.cov, r.cov)
    return f


def in_turn(kind, N, i, d, m, replace):
    """Nothing is remembered between updates: each one sees the states and factors of the moment."""
    def f(c):
        s = Setup(c, N, d, m)
        for k in range(3):
            s.arbitrary(tag='abc'[k]) if replace == 'all' or k == 0 else s.arbitrary_at(
                [j for j in range(N) if (j != i) == (replace == 'neighbours')], 'abc'[k])
            do(c, s.nodes[i], kind)
            dict(fwd=s.fwd, meas=s.upd, back=s.back)[kind](i)
            if not s.compare('update %d: ' % (k + 1)):
                return
    return f


def relatives_in_turn(kind, N, i, d, m, j):
    """Updates of node i while the marginal of node j takes values which agree with each other in part."""
    def f(c):
        s = Setup(c, N, d, m)
        for label, g, r in relatives(c, d, 'natural', ('Rel', 'Oth')):
            s.arbitrary()
            s.nodes[j].marginal, s.st[j]['marginal'] = g, r
            do(c, s.nodes[i], kind)
            dict(fwd=s.fwd, meas=s.upd, back=s.back)[kind](i)
            if not s.compare(label + ': '):
                return
    return f


def in_turns(out, kind, N, i):
    for d, m in ((1, 1), (2, 1)):
        for j in {i, i - 1 if kind == 'fwd' else i + 1 if kind == 'back' else i}:
            out.append(Scenario('updates of node %d in turn, marginals of node %d which agree in part, d=%d N=%d' % (
                i, j, d, N), relatives_in_turn(kind, N, i, d, m, j), **S))
        for r in ('all', 'neighbours', 'own'):
            out.append(Scenario('three updates in turn, %s replaced between, d=%d N=%d node %d' % (
                {'all': 'everything', 'neighbours': 'neighbours', 'own': 'own state'}[r], d, N, i),
                in_turn(kind, N, i, d, m, r), **S))


def larger(tier, out, kind):
    for d, m, N in ((1, 1, 2), (2, 1, 3)):
        for i in range(N):
            out.append(Scenario('estimators of other settings at the other nodes, d=%d N=%d node %d' % (d, N, i),
                                one_update(kind, N, i, d, m, i), **S))
    in_turns(out, kind, 3, 1)
    in_turns(out, kind, 2, {'fwd': 1, 'meas': 1, 'back': 0}[kind])
    for d in sizes.dims(tier):
        out.append(Scenario('d=%d m=2 N=2 node 0' % d, one_update(kind, 2, 0, d, 2), **S))
        out.append(Scenario('d=2 m=%d N=2 node 1' % d, one_update(kind, 2, 1, 2, d), **S))
    for N in sizes.lengths(tier):
        for i in (N // 2, N - 2, N - 1):
            out.append(Scenario('d=1 m=1 N=%d node %d' % (N, i), one_update(kind, N, i, 1, 1), **S))


def c08(tier):
    out = []
    for d, m in DIMS:
        for N, i in ((1, 0), (3, 0), (3, 1), (3, 2)):
            out.append(Scenario('d=%d m=%d N=%d node %d' % (d, m, N, i), one_update('fwd', N, i, d, m), **S))
    out.append(Scenario('d=3 m=2 N=2 node 1', one_update('fwd', 2, 1, 3, 2), **S))
    out.append(Scenario('estimator and system attached separately', one_update('fwd', 3, 1, 2, 3, 'separate'), **S))
    larger(tier, out, 'fwd')

    def free(d):
        """With no earlier information the message is the projected transition itself."""
        def f(c):
            s = Setup(c, 2, d, 1)
            s.fresh()
            c.call(s.nodes[0].fwd_update)
            s.fwd(0)
            s.compare('fresh chain: ')
        return f
    for d in (1, 2):
        out.append(Scenario('fresh chain d=%d' % d, free(d), **S))
    return out


def c09(tier):
    out = []
    for d, m in DIMS:
        for N, i in ((1, 0), (3, 1), (3, 2)):
            out.append(Scenario('d=%d m=%d N=%d node %d' % (d, m, N, i), one_update('meas', N, i, d, m), **S))
    out.append(Scenario('d=3 m=2 N=2 node 1', one_update('meas', 2, 1, 3, 2), **S))
    out.append(Scenario('estimator and system attached separately', one_update('meas', 3, 1, 2, 3, 'separate'), **S))
    larger(tier, out, 'meas')

    def undefined(kind, d=1, m=1, k=0):
        inner = one_update('meas', 1, 0, d, m)

        def f(c):
            ST.undefined = {'z0[%d]' % k: kind}
            c.true('the scenario has an undefined value', set(terms.atoms_of(vec('z0', m)[k])) == set(ST.undefined))
            inner(c)
        return f

    for kind in ('nan', 'inf'):
        out.append(Scenario('%s in the measurement' % kind, undefined(kind), **S))
        for d, m, k in ((1, 2, 0), (1, 3, 1), (2, 2, 1)):
            out.append(Scenario('%s in component %d of the measurement, d=%d m=%d' % (kind, k, d, m),
                                undefined(kind, d, m, k), **S))
    return out


def c10(tier):
    out = []
    for d, m in DIMS:
        for N, i in ((1, 0), (2, 0), (3, 0), (3, 1), (3, 2)):
            out.append(Scenario('d=%d m=%d N=%d node %d' % (d, m, N, i), one_update('back', N, i, d, m), **S))
    out.append(Scenario('d=3 m=2 N=2 node 0', one_update('back', 2, 0, 3, 2), **S))
    out.append(Scenario('estimator and system attached separately', one_update('back', 3, 1, 2, 3, 'separate'), **S))
    larger(tier, out, 'back')
    return out


# ------------------------------------------------------------------ C11
def invariant(c, s, before, i, moved_key, label=''):
    """Other nodes and factors untouched; the marginal moved by the same factor ratio."""
    for j, n in enumerate(s.nodes):
        for k in KEYS:
            if j == i and k in ('marginal', moved_key):
                continue
            r = before[j][k]
            c.eq(label + 'node %d %s untouched: precision' % (j, k), getattr(n, k).precision, r.P)
            c.eq(label + 'node %d %s untouched: shift' % (j, k), getattr(n, k).shift, r.h)
    n = s.nodes[i]
    old, new = before[i], dict((k, ref_of(getattr(n, k))) for k in KEYS)
    ratio = (new[moved_key] / old[moved_key]) ** div(1, s.p)
    want = old['marginal'] * ratio
    c.eq(label + 'marginal and factor move together: precision', new['marginal'].P, want.P)
    c.eq(label + 'marginal and factor move together: shift', new['marginal'].h, want.h)
    return not (terms.same(new['marginal'].P[0, 0], old['marginal'].P[0, 0]) and
                all(terms.same(x, y) for x, y in zip(new['marginal'].P.flat, old['marginal'].P.flat)) and
                all(terms.same(x, y) for x, y in zip(new['marginal'].h.flat, old['marginal'].h.flat)))


def shown_pd(P):
    """This path established that the precision P belongs to a proper distribution.

    Either P or its inverse was found positive definite (up to the jitter of a fallback conversion).
    """
    if lib.known_pd(P) or lib.matkey(P) in ST.examined:
        return True
    C = inv(P)
    if lib.known_pd(C) or lib.matkey(C) in ST.examined:
        return True
    for X in list(ST.examined.values()):
        if X.shape != P.shape:
            continue
        if near_identity(P - X) or near_identity(C - X) or near_identity(X - P) or near_identity(X - C):
            return True
        Y = ST.inverse.get(lib.matkey(X))
        if Y is None:
            Y = ST.inverse[lib.matkey(X)] = inv(X)
        if near_identity(Y - P) or near_identity(Y - C) or near_identity(P - Y) or near_identity(C - Y):
            return True
    return False


def verified(c, s, before, i, kind):
    """An accepted update rests on a projection and a marginal which were found to be proper."""
    key = MOVED[kind]
    n = s.nodes[i]
    d = ref_of(getattr(n, key)).P - before[i][key].P
    q = scale(div(1, s.g), d) + (before[i][key].P if kind == 'fwd' else before[i]['marginal'].P)
    c.true('accepted only after the new marginal was found positive definite', shown_pd(ref_of(n.marginal).P),
           n.marginal.precision)
    c.true('accepted only after the projected state was found positive definite', shown_pd(q), q)


MOVED = dict(fwd='forward_factor', meas='measurement_factor', back='back_factor')


def do(c, n, kind):
    c.call(getattr(n, kind + '_update'))


def c11(tier):
    out = []

    def faults(kind, N, i, d, m, improper=False):
        def f(c):
            s = Setup(c, N, d, m)
            s.arbitrary(improper=improper)
            before = [dict(x) for x in s.st]
            do(c, s.nodes[i], kind)
            ST.faults_on = False
            if invariant(c, s, before, i, MOVED[kind]) and not improper:
                verified(c, s, before, i, kind)
        return f

    class Raising:
        def __init__(self, exc):
            self.exc = exc

        def __call__(self, func, state):
            raise self.exc('raised by the transform')

    def refuse(kind, exc, N, i):
        """A numerical failure inside the projection leaves the node as it was; others get through."""
        def f(c):
            E = dict(LinAlgError=lib.LinAlgError, LinAlgWarning=lib.LinAlgWarning, ValueError=ValueError,
                     TypeError=TypeError, AttributeError=AttributeError)[exc]
            T = Raising(E)
            s = Setup(c, N, 2, 2, transforms=(T, T))
            s.arbitrary()
            try:
                do(c, s.nodes[i], kind)
            except E as e:
                c.true('%s in a projection is %s' % (exc, 'absorbed' if 'LinAlg' in exc else 'reported'),
                       'LinAlg' not in exc, exc, loc=getattr(e, '_sa_loc', None))
            else:
                c.true('%s in a projection is %s' % (exc, 'absorbed' if 'LinAlg' in exc else 'reported'),
                       'LinAlg' in exc, 'no exception')
            s.compare('after %s: ' % exc)
        return f

    class Fixed:
        def __init__(self, mean, cov, cross):
            self.r = mean, cov, cross

        def __call__(self, func, state):
            return tuple(np.frompyfunc(F, 1, 1)(np.array(x, dtype=object)) for x in self.r)

    def indefinite(kind, what, power, damping, d=2):
        """An update whose result would not be a proper distribution is not accepted."""
        def f(c):
            one, zero = [[int(a == b) for a in range(d)] for b in range(d)], [[0] * d for _ in range(d)]
            three = [[3 * x for x in r] for r in one]
            bad = [[-5 if a == b == (d - 1) * (d > 2) else x for a, x in enumerate(r)] for b, r in enumerate(one)]
            ones = [1] * d
            if what == 'projection':
                # the projected state itself is indefinite
                T = Fixed(ones, bad if kind == 'fwd' else one, zero if kind == 'fwd' else three)
            else:
                T = Fixed(ones, one, zero)
            s = Setup(c, 3, d, d, power=power, damping=damping, transforms=(T, T), noise=(lib.eye, lib.eye))
            G = c.get('StateModel', 'Gaussian')
            key = MOVED[kind]
            i = 1
            for j, n in enumerate(s.nodes):
                for k in KEYS:
                    P, h = lib.eye(d), lib.to_array([F(1), F(2), F(3), F(4)][:d])
                    if k != 'marginal':
                        P = scale(F(1, 10), P)
                    if what == 'marginal' and j == i:
                        # removing the old factor leaves a broad cavity
                        P = scale(10 if k == 'marginal' else 9 if kind != 'fwd' else 20, lib.eye(d)) \
                            if k in ('marginal', key) else P
                    setattr(n, k, c.call(G.from_natural, P, h))
            s.fresh()
            do(c, s.nodes[i], kind)
            s.compare('%s not positive definite: ' % what)
        return f

    def accepted(kind):
        """The same constants with a proper result are accepted (the refusal is not vacuous)."""
        def f(c):
            T = Fixed([1, 1], [[1, 0], [0, 1]], [[F(1, 2), 0], [0, F(1, 2)]])
            s = Setup(c, 3, 2, 2, power=F(1), damping=F(1), transforms=(T, T), noise=(lib.eye, lib.eye))
            G = c.get('StateModel', 'Gaussian')
            for n in s.nodes:
                for k in KEYS:
                    P = lib.eye(2) if k == 'marginal' else scale(F(1, 10), lib.eye(2))
                    setattr(n, k, c.call(G.from_natural, P, lib.to_array([F(1), F(2)])))
            s.fresh()
            do(c, s.nodes[1], kind)
            c.true('a proper update is accepted',
                   not terms.same(lib.asarr(s.nodes[1].marginal.precision)[0, 0], s.st[1]['marginal'].P[0, 0]))
        return f

    for kind in ('fwd', 'meas', 'back'):
        for d, m in DIMS:
            for N, i in ((3, 1), (2, 0), (1, 0)):
                if kind == 'back' and N == 1:
                    continue
                out.append(Scenario('%s update d=%d m=%d N=%d node %d, every single numerical failure' % (
                    kind, d, m, N, i), faults(kind, N, i, d, m), max_fault=1, max_paths=400, **S))
        for d, m in ((1, 1), (2, 1)):
            out.append(Scenario('%s update d=%d m=%d of an improper marginal, every single numerical failure' % (
                kind, d, m), faults(kind, 2, 0, d, m, True), max_fault=1, max_paths=600, **S))
        out.append(Scenario('%s update, every pair of numerical failures' % kind, faults(kind, 3, 1, 2, 1),
                            max_fault=2, max_paths=1500, tier='quick', **S))
        out.append(Scenario('%s update, every triple of numerical failures' % kind, faults(kind, 3, 1, 2, 2),
                            max_fault=3, max_paths=20000, tier='thorough', **S))
        for e in ('LinAlgError', 'LinAlgWarning', 'ValueError', 'TypeError', 'AttributeError'):
            for N, i in ((3, 0), (3, 1)):
                out.append(Scenario('%s update node %d, %s in the transform' % (kind, i, e), refuse(kind, e, N, i), **S))
        for d in (1, 2, 3, 4):
            for w, p in (('projection', F(1)), ('marginal', F(1, 2))):
                out.append(Scenario('%s update, indefinite %s d=%d' % (kind, w, d), indefinite(kind, w, p, F(1), d)))
        out.append(Scenario('%s update, proper result' % kind, accepted(kind)))
    return out


# ------------------------------------------------------------------ C18
def sweep_ref(s, name):
    N = s.N
    if name == 'kalman_filter':
        for i in range(N):
            s.fwd(i)
            s.upd(i)
    elif name == 'kalman_smoother':
        for i in reversed(range(N)):
            s.back(i)
    elif name == 'ep_fwd_back_updates':
        for i in range(N):
            s.fwd(i)
            s.upd(i)
        for i in reversed(range(N)):
            s.back(i)
    elif name == 'ep_update':
        for i in range(N):
            s.fwd(i)
            s.upd(i)
            s.back(i)


def c18(tier):
    out = []

    def sweeps(names, N, d, m, start):
        def f(c):
            s = Setup(c, N, d, m)
            if start == 'fresh':
                s.fresh()
            else:
                s.arbitrary()
            for k, name in enumerate(names):
                c.call(c.get('ExpectationPropagation.Iterations', name), s.nodes)
                sweep_ref(s, name)
                if not s.compare('after %d sweep(s): ' % (k + 1)):
                    return
            s.inputs_kept()
        return f

    def iterations(N, d, m, K, truth, how, printing=False):
        def f(c):
            it = c.it
            s = Setup(c, N, d, m)
            s.fresh()
            ED = c.get('Utils.Database', 'Exp_Data')
            start = dict(Transform='TT', Seed=F(101), Iter=0, Power=atom('recorded power', pos=True),
                         Damping=atom('recorded damping', pos=True), RMSE=0, NLL=0, Mean=[], Variance=[], Nodes=[])
            e = c.call(ED, **dict((k, v) for k, v in start.items()))
            x = mat('x', N, d)
            X = [x[i] for i in range(N)] if truth == 'rows' else None if truth is None else x
            conn = lib.Conn('test.db')
            db = Store(it)
            c.call(c.get('Utils.Database', 'create_experiment_table'), conn.cursor(), 'MY_TABLE')
            conn.commit()
            states, metrics = [], []
            ep = c.get('ExpectationPropagation.Iterations', 'ep_iterations')
            kw = dict(max_iter=K, x_true=X, conn=conn, exp_data=e, table_name='MY_TABLE', print_result=printing)
            waiting = []
            first = s.nodes[0].fwd_update

            def fwd_update(*a, **k):
                waiting.append(db.pending)
                return c.call(first, *a, **k)
            s.nodes[0].fwd_update = fwd_update
            c.call(ep, s.nodes, **kw)
            c.true('records are committed before the next sweep starts', not any(waiting), waiting, [0] * len(waiting))
            for k in range(K):
                sweep_ref(s, 'ep_fwd_back_updates')
                ms = [q['marginal'] for q in s.st]
                metrics.append((sqrt(mean_of([ref_se(r.mean, z) for r, z in zip(ms, x)])),
                                mean_of([ref_nll(r.mean, r.cov, z) for r, z in zip(ms, x)])))
            s.compare('after %d iterations: ' % K)
            c.true('each record is committed before the next one', db.max_pending <= 1, db.max_pending, 1)
            c.true('the last record is committed', db.pending == 0, db.pending, 0)
            rows = [(r, loc) for verb, t, r, loc in db.log if verb == 'INSERT']
            c.true('records go to the requested table', all(t == 'my_table' for v, t, r, loc in db.log),
                   sorted({t for v, t, r, loc in db.log}), ['my_table'])
            want = K if truth else 0
            if not c.true('one record per iteration', len(rows) == want and len(db.kept('my_table')) == want,
                          len(rows), want, rows[0][1] if rows else None):
                return
            for k, (row, loc) in enumerate(rows):
                t = 'record %d: ' % (k + 1)
                c.eq(t + 'Iter', row.get('iter'), k + 1)
                c.eq(t + 'RMSE of this iteration', row.get('rmse'), metrics[k][0], shape=False)
                c.eq(t + 'NLL of this iteration', row.get('nll'), metrics[k][1], shape=False)
                for key in ('Transform', 'Seed', 'Power', 'Damping'):
                    c.eq(t + key, row.get(key.lower()), start[key])
            for k, v in start.items():
                if k not in ('Mean', 'Variance', 'Nodes'):
                    c.eq('experiment settings kept: %s' % k, getattr(e, k), v)
        return f

    def scripted(values):
        """Whatever the metrics are, every iteration is carried out and recorded."""
        def f(c):
            mod = c.get('ExpectationPropagation.Iterations')
            s = Setup(c, 2, 1, 1)
            s.fresh()
            K = len(values)
            used = []

            def metrics(nodes, x_true=None, *a, **k):
                used.append(1)
                return values[(len(used) - 1) % K]
            if not hasattr(mod, 'node_metrics'):
                c.skip('metrics are not looked up by name')
            mod.node_metrics = metrics
            ED = c.get('Utils.Database', 'Exp_Data')
            e = c.call(ED, Transform='TT', Seed=1, Iter=0, Power=F(1), Damping=F(1), RMSE=0, NLL=0, Mean=[], Variance=[],
                       Nodes=[])
            conn = lib.Conn('test.db')
            db = Store(c.it)
            c.call(c.get('Utils.Database', 'create_experiment_table'), conn.cursor(), 'MY_TABLE')
            conn.commit()
            c.call(mod.ep_iterations, s.nodes, max_iter=K, x_true=[vec('x%d' % i, 1) for i in range(2)], conn=conn,
                   exp_data=e, table_name='MY_TABLE', print_result=False)
            if not used:
                c.skip('metrics are not looked up by name')
            for k in range(K):
                sweep_ref(s, 'ep_fwd_back_updates')
            s.compare('after %d iterations: ' % K)
            rows = [(r, loc) for verb, t, r, loc in db.log if verb == 'INSERT']
            c.true('the last record is committed', db.pending == 0, db.pending, 0)
            if not c.true('one record per iteration', len(rows) == K, len(rows), K, rows[0][1] if rows else None):
                return
            for k, (row, loc) in enumerate(rows):
                c.eq('record %d: Iter' % (k + 1), row.get('iter'), k + 1)
                for key, v in zip(('rmse', 'nll'), values[k]):
                    g = row.get(key)
                    c.true('record %d: %s' % (k + 1, key), terms.same(g, v) or (
                        v != v and (g is None or (isinstance(g, float) and g != g))), g, v, loc)
        return f

    NAN, INF = float('nan'), float('inf')
    for what, values in (('stay the same', [(F(1), F(2))] * 4),
                         ('grow', [(F(1), F(1)), (F(10), F(50)), (F(10) ** 4, F(10) ** 8), (F(10) ** 9, F(10) ** 12)]),
                         ('vanish', [(F(1), F(1)), (F(0), F(0)), (F(0), F(-5)), (F(0), F(-5))]),
                         ('alternate', [(F(1), F(2)), (F(3), F(4)), (F(1), F(2)), (F(3), F(4))]),
                         ('are undefined', [(F(1), F(2)), (NAN, NAN), (F(3), NAN), (F(1), F(2))]),
                         ('are infinite', [(F(1), F(2)), (INF, INF), (F(3), -INF), (F(1), F(2))])):
        out.append(Scenario('metrics which %s' % what, scripted(values), **S))

    NAMES = ('kalman_filter', 'kalman_smoother', 'ep_fwd_back_updates', 'ep_update')
    for n in NAMES:
        for N in (1, 2, 3, 5):
            for d, m in ((1, 1), (2, 1)):
                st = 'arbitrary' if n == 'kalman_smoother' else 'fresh'
                out.append(Scenario('%s N=%d d=%d m=%d' % (n, N, d, m), sweeps((n,), N, d, m, st), **S))
        out.append(Scenario('%s from an arbitrary state' % n, sweeps((n,), 3, 1, 1, 'arbitrary'), **S))
        out.append(Scenario('%s twice' % n, sweeps((n, n), 3, 1, 1, 'arbitrary' if 'smoother' in n else 'fresh'), **S))
    out.append(Scenario('filter then smoother', sweeps(NAMES[:2], 4, 2, 2, 'fresh'), **S))
    out.append(Scenario('three EP sweeps', sweeps(('ep_fwd_back_updates',) * 3, 3, 1, 1, 'fresh'), **S))
    for K in (0, 1, 2, 3):
        out.append(Scenario('ep_iterations, %d iterations' % K, iterations(2, 1, 1, K, 'rows', 'x'), **S))
    for N in sizes.lengths(tier):
        out.append(Scenario('ep_iterations, %d iterations' % N, iterations(2, 1, 1, N, 'rows', 'x'), **S))
        for n in NAMES:
            out.append(Scenario('%s N=%d' % (n, N), sweeps((n,), N, 1, 1, 'arbitrary'), **S))
    out.append(Scenario('ep_iterations N=3 d=2', iterations(3, 2, 2, 2, 'rows', 'x'), **S))
    out.append(Scenario('ep_iterations, truth as an array, printing', iterations(3, 2, 1, 2, 'array', 'x', True), **S))
    out.append(Scenario('ep_iterations without a known truth', iterations(3, 2, 1, 2, None, 'x'), **S))
    return out


# ------------------------------------------------------------------ C19
def c19(tier):
    out = []

    def chain(N, d, m, how, zkind):
        def f(c):
            G = c.get('StateModel', 'Gaussian')
            B = 'ExpectationPropagation.Nodes'
            sysm = make_system(c, d, m)
            sa = sysm.sa
            E = c.get('MomentMatching.Estimator', 'Estimator')
            tf, th = OpaqueTransform(c.it, 'TM', d, d), OpaqueTransform(c.it, 'MM', d, m)
            p, g = atom('power', pos=True), atom('damping', pos=True)
            est = c.call(E, trans_map=tf, meas_map=th, trans_noise=spd('Q', d), meas_noise=spd('R', m), power=p,
                         damping=g)
            z = [vec('z%d' % i, m) for i in range(N)]
            Z = {'list': [v.copy() for v in z], 'rows': [v.reshape(1, -1) for v in z],
                 'array': np.stack(z), 'columns': [v.reshape(-1, 1) for v in z], 'tuple': tuple(v.copy() for v in z)}[zkind]
            times = [mul(i, sa['dt']) for i in range(N)]
            us = [F(0)] * N
            build = c.get(B, 'build_nodes')
            if how == 'at once':
                nodes = list(c.call(build, N=N, dim=d, estimator=est, system=sysm, measurements=Z))
            elif how == 'positional':
                nodes = list(c.call(build, N, d, est, sysm, Z))
            else:
                nodes = c.call(build, N=N, dim=d)
                args = (Z,)
                if how == 'given inputs':
                    times = [atom('T%d' % i) for i in range(N)]
                    us = [atom('U%d' % i) for i in range(N)]
                    args = (Z, [dict(t=t, u=u) for t, u in zip(times, us)])
                if how == 'system first':
                    nodes = c.call(c.get(B, 'node_system'), nodes, sysm, *args)
                    nodes = list(c.call(c.get(B, 'node_estimator'), nodes, est))
                else:
                    nodes = c.call(c.get(B, 'node_estimator'), nodes, est)
                    nodes = list(c.call(c.get(B, 'node_system'), nodes, sysm, *args))
            if not c.true('one node per time step', len(nodes) == N, len(nodes), N):
                return
            c.true('nodes are distinct', len({id(n) for n in nodes}) == N)
            x = vec('probe', d)
            for i, n in enumerate(nodes):
                t = 'node %d: ' % i
                c.eq(t + 'transition at its own time', c.call(n.trans_func, x), sa['f'].ref(x, times[i], us[i]),
                     shape=False)
                c.true(t + 'measurement function of the system',
                       len(lib.asarr(c.call(n.meas_func, x)).reshape(-1)) == m)
                c.eq(t + 'measurement', lib.asarr(n.meas).reshape(-1), z[i])
                c.eq(t + 'power', n.power, p)
                c.eq(t + 'damping', n.damping, g)
                for k in KEYS[1:]:
                    q = getattr(n, k)
                    c.eq(t + 'initial %s is the identity' % k, q.precision, zeros(d, d))
                    c.eq(t + 'initial %s is the identity (shift)' % k, q.shift, zeros(d))
                P = lib.asarr(n.marginal.precision)
                c.true(t + 'initial marginal is uninformative', not isinstance(P[0, 0], terms.Sym) and
                       0 <= P[0, 0] <= F(1, 10 ** 6), P)
            sees(c, 'prior of the first node', nodes[0].prior, Ref.moments(sa['m0'], sa['P0']), cov=False)
            c.true('given measurements kept', all(terms.same(a, b) for a, b in zip(
                lib.asarr(list(Z) if not isinstance(Z, np.ndarray) else Z).reshape(-1), np.concatenate(z))))
        return f

    def bare(N, d):
        """A chain without estimator and system: initial beliefs, and neighbours."""
        def f(c):
            nodes = c.call(c.get('ExpectationPropagation.Nodes', 'build_nodes'), N, d)
            c.true('one node per time step', len(nodes) == N)
            for i, n in enumerate(nodes):
                c.true('previous node of node %d' % i, n.prev_node is (nodes[i - 1] if i else None))
                c.true('next node of node %d' % i, n.next_node is (nodes[i + 1] if i + 1 < N else None))
                c.true('dimension', n.marginal.dim == d and n.forward_factor.dim == d)
        return f

    def estimator_settings(c):
        """Two chains with different estimators in one program keep their own settings."""
        B = 'ExpectationPropagation.Nodes'
        E = c.get('MomentMatching.Estimator', 'Estimator')
        mk = []
        for i, (p, g) in enumerate(((F(1), F(1)), (F(1, 2), F(3, 4)))):
            e = c.call(E, trans_map=None, meas_map=None, power=p, damping=g)
            mk.append((c.call(c.get(B, 'build_nodes'), 3, 2, e), p, g))
        for nodes, p, g in mk:
            for n in nodes:
                c.eq('power', n.power, p)
                c.eq('damping', n.damping, g)

    for N in (1, 2, 3, 6):
        for how in ('at once', 'positional', 'estimator first', 'system first', 'given inputs'):
            out.append(Scenario('N=%d %s' % (N, how), chain(N, 2, 3, how, 'list'), **S))
        for zk in ('rows', 'array', 'tuple', 'columns'):
            out.append(Scenario('N=%d measurements as %s' % (N, zk), chain(N, 2, 2, 'at once', zk), **S))
        out.append(Scenario('N=%d scalar chain' % N, chain(N, 1, 1, 'at once', 'rows'), **S))
        out.append(Scenario('N=%d scalar measurements' % N, chain(N, 3, 1, 'at once', 'list'), **S))
    def partial_inputs(N, which):
        """Given arguments of the transition are passed on as they are, without others."""
        def f(c):
            B = 'ExpectationPropagation.Nodes'
            s = make_system(c, 2, 1)
            Z = [vec('z%d' % i, 1) for i in range(N)]
            args = [dict(t=atom('T%d' % i)) if which == 't' else dict(u=atom('U%d' % i)) if which == 'u' else
                    dict() if which == 'none' else dict(t=atom('T%d' % i), **(dict(u=atom('U%d' % i)) if i % 2 else {}))
                    for i in range(N)]
            keep = [dict(a) for a in args]
            nodes = list(c.call(c.get(B, 'node_system'), c.call(c.get(B, 'build_nodes'), N, 2), s, Z, args))
            x = vec('probe', 2)
            for i, n in enumerate(nodes):
                c.eq('node %d: transition with its own arguments' % i, c.call(n.trans_func, x),
                     s.sa['f'].ref(x, keep[i].get('t'), keep[i].get('u')), shape=False)
            c.true('given arguments kept', all(list(a) == list(b) and all(terms.same(a[k], b[k]) for k in a)
                                               for a, b in zip(args, keep)))
        return f

    def standing_time(N):
        """A step of zero length: every step is at the same time."""
        def f(c):
            B = 'ExpectationPropagation.Nodes'
            s = make_system(c, 2, 1, dt=F(0))
            nodes = list(c.call(c.get(B, 'node_system'), c.call(c.get(B, 'build_nodes'), N, 2), s,
                                [vec('z%d' % i, 1) for i in range(N)]))
            x = vec('probe', 2)
            for i, n in enumerate(nodes):
                c.eq('node %d: transition at its own time' % i, c.call(n.trans_func, x), s.sa['f'].ref(x, F(0), F(0)), shape=False)
        return f

    def attached_again(N):
        """A chain given to another system and other measurements belongs to these from then on."""
        def f(c):
            B = 'ExpectationPropagation.Nodes'
            nodes = c.call(c.get(B, 'build_nodes'), N, 2)
            x = vec('probe', 2)
            for k, pre in enumerate(('', 'b', '')):
                s = make_system(c, 2, 1, prefix=pre)
                Z = [vec('%sz%d' % (pre, i), 1) for i in range(N)]
                nodes = list(c.call(c.get(B, 'node_system'), nodes, s, [z.copy() for z in Z]))
                t = 'system %d: ' % (k + 1)
                for i, n in enumerate(nodes):
                    c.eq(t + 'transition of node %d' % i, c.call(n.trans_func, x),
                         s.sa['f'].ref(x, mul(i, s.sa['dt']), F(0)), shape=False)
                    c.eq(t + 'measurement function of node %d' % i, c.call(n.meas_func, x), s.sa['h'].ref(x), shape=False)
                    c.eq(t + 'measurement of node %d' % i, lib.asarr(n.meas).reshape(-1), Z[i])
                sees(c, t + 'prior of the first node', nodes[0].prior, Ref.moments(s.sa['m0'], s.sa['P0']), cov=False)
        return f

    for N in (1, 3):
        out.append(Scenario('another system later, N=%d' % N, attached_again(N), **S))
        out.append(Scenario('steps of no length, N=%d' % N, standing_time(N), **S))
        for w in ('t', 'u', 'none', 'mixed'):
            out.append(Scenario('some arguments given (%s), N=%d' % (w, N), partial_inputs(N, w), **S))

    def undefined(kind, where, N, how):
        inner = chain(N, 2, 2, how, 'list')

        def f(c):
            ST.undefined = {'z%d[%d]' % w: kind for w in where}
            inner(c)
        return f

    for kind in ('nan', 'inf'):
        for where in (((0, 0), (0, 1)), ((1, 0), (1, 1)), ((2, 0), (2, 1)), ((1, 1),)):
            for how in ('at once', 'system first'):
                out.append(Scenario('%s in measurement %d%s, %s' % (kind, where[0][0], ' (all components)' * (len(where) > 1),
                                                                   how), undefined(kind, where, 3, how), **S))
    for N in (1, 2, 3, 5):
        out.append(Scenario('links N=%d' % N, bare(N, 2)))
    for N in sizes.lengths(tier):
        out.append(Scenario('N=%d' % N, chain(N, 2, 2, 'at once', 'list'), **S))
    for N in sizes.huge():
        out.append(Scenario('N=%d' % N, chain(N, 1, 1, 'at once', 'list'), **S))
    for d in sizes.dims(tier):
        out.append(Scenario('N=3 d=%d' % d, chain(3, d, 2, 'at once', 'rows'), **S))
        out.append(Scenario('N=3 m=%d' % d, chain(3, 2, d, 'at once', 'rows'), **S))
    out.append(Scenario('long chain', chain(130, 1, 1, 'at once', 'list'), **S))
    out.append(Scenario('two chains', estimator_settings))
    return out


# ------------------------------------------------------------------ C23
class Affine:
    """x -> A x + b + t k"""

    def __init__(self, name, d, m, timed):
        self.A, self.b, self.k = mat(name, m, d), vec(name + 'b', m), vec(name + 'k', m)
        self.timed = timed

    def __call__(self, x, t=None, u=None):
        r = lib.asarr(x) @ self.A.T + self.b
        if self.timed and t is not None:
            r = r + scale(t, self.k)
        return r

    def off(self, t):
        return self.b + scale(t, self.k) if self.timed else self.b


class Linear:
    """A linear-Gaussian system of the program and its exact posterior."""

    def __init__(self, c, N, d, m, transform, power=F(1), damping=F(1), timed=True):
        self.c, self.N, self.d, self.m, self.p = c, N, d, m, power
        DSM, GN = c.get('Systems', 'DynamicSystemModel'), c.get('Systems', 'GaussianNoise')
        G = c.get('StateModel', 'Gaussian')
        self.f, self.h = Affine('A', d, d, timed), Affine('H', d, m, False)
        Q, R, m0, P0 = spd('Q', d), spd('R', m), vec('m0', d), spd('P0', d)
        self.Q, self.R, self.m0, self.P0 = Q.copy(), R.copy(), m0.copy(), P0.copy()
        self.dt = atom('dt', pos=True)
        self.sys = c.call(DSM, system_dim=d, measurement_dim=m, transition=self.f, measurement=self.h,
                          system_noise=c.call(GN, dimension=d, cov=Q), measurement_noise=c.call(GN, dimension=m, cov=R),
                          init_distribution=c.call(G, m0, P0), dt=self.dt)
        self.z = [vec('z%d' % i, m) for i in range(N)]
        if transform == 'Taylor':
            mk = lambda: c.call(c.get('MomentMatching', 'TaylorTransform'), d)
        else:
            mk = lambda: c.call(c.get('MomentMatching', 'UnscentedTransform'), d, 1, 2, 1)
        self.mk = mk
        E = c.get('MomentMatching.Estimator', 'Estimator')
        self.est = c.call(E, trans_map=mk(), meas_map=mk(), trans_noise=self.sys.system_noise.cov,
                          meas_noise=self.sys.measurement_noise.cov, power=power, damping=damping)
        self.nodes = c.call(c.get('ExpectationPropagation.Nodes', 'build_nodes'), N, d, self.est, self.sys,
                            [z.copy() for z in self.z])
        for n in self.nodes:
            n.marginal = c.call(G.as_factor, d)

    def posterior(self):
        """Marginals of the joint posterior of x_0..x_N given all measurements (information form)."""
        N, d = self.N, self.d
        n = (N + 1) * d
        L, h = zeros(n, n), zeros(n)

        def term(blocks, b, W):
            # 1/2 (sum_i B_i x_i - b)' W (...)
            for i, Bi in blocks:
                h[i * d:(i + 1) * d] = h[i * d:(i + 1) * d] + Bi.T @ W @ b
                for j, Bj in blocks:
                    L[i * d:(i + 1) * d, j * d:(j + 1) * d] = L[i * d:(i + 1) * d, j * d:(j + 1) * d] + Bi.T @ W @ Bj
        I = lib.eye(d)
        term([(0, I)], self.m0, inv(self.P0))
        Qi, Ri = inv(self.Q), inv(self.R)
        for i in range(N):
            term([(i + 1, I), (i, scale(-1, self.f.A))], self.f.off(mul(i, self.dt)), Qi)
            term([(i + 1, self.h.A)], self.z[i] - self.h.b, Ri)
        C = inv(L)
        mu = C @ h
        return [Ref.moments(mu[(i + 1) * d:(i + 2) * d], C[(i + 1) * d:(i + 2) * d, (i + 1) * d:(i + 2) * d])
                for i in range(N)]

    def messages(self):
        """Exact forward, measurement and backward messages to every state."""
        N, d = self.N, self.d
        f, m, b = [], [], []
        prev = Ref.moments(self.m0, self.P0)
        Ri, H = inv(self.R), self.h.A
        for i in range(N):
            A = self.f.A
            pred = Ref.moments(A @ prev.mean + self.f.off(mul(i, self.dt)), A @ prev.cov @ A.T + self.Q)
            lik = Ref(H.T @ Ri @ H, H.T @ Ri @ (self.z[i] - self.h.b))
            f.append(pred)
            m.append(lik)
            prev = pred * lik
        nxt = None
        for i in reversed(range(N)):
            if nxt is None:
                b.append(zero_factor(d))
                nxt = m[i]
            else:
                # integrate N(x'; A x + c, Q) * nxt(x')
                A, c0 = self.f.A, self.f.off(mul(i + 1, self.dt))
                Qi = inv(self.Q)
                W = inv(Qi + nxt.P)
                P = A.T @ (Qi - Qi @ W @ Qi) @ A
                # in terms of y = A x + c0:  precision Qi - Qi W Qi, shift Qi W nxt.h
                K = Qi - Qi @ W @ Qi
                b.append(Ref(P, A.T @ (Qi @ W @ nxt.h - K @ c0)))
                nxt = m[i] * b[-1]
        b.reverse()
        return f, m, b


def c23(tier):
    out = []

    def smoother(N, d, m, same):
        """Nonlinear: one sweep at power one is the Gaussian smoother, whatever the moment matching."""
        def f(c):
            one = F(1)
            s = Setup(c, N, d, m, power=one, damping=one)
            G = c.get('StateModel', 'Gaussian')
            K = c.get('Filters.KalmanFilter', 'KalmanFilterSmoother')
            kf = c.call(K, s.tf, s.sys, s.th)
            filt = list(c.call(kf.kalman_filter, [z.copy() for z in s.z]))
            smo = list(c.call(kf.kalman_smoother, filt))
            for n in s.nodes:
                n.marginal = c.call(G.as_factor, d)
            It = 'ExpectationPropagation.Iterations'
            if same == 'two passes':
                c.call(c.get(It, 'kalman_filter'), s.nodes)
                for i, n in enumerate(s.nodes):
                    c.eq('filter, step %d: mean' % i, n.marginal.mean, filt[i].mean)
                    c.eq('filter, step %d: cov' % i, n.marginal.cov, filt[i].cov)
                c.call(c.get(It, 'kalman_smoother'), s.nodes)
            else:
                c.call(c.get(It, 'ep_fwd_back_updates'), s.nodes)
            for i, n in enumerate(s.nodes):
                c.eq('smoother, step %d: mean' % i, n.marginal.mean, smo[i].mean)
                c.eq('smoother, step %d: cov' % i, n.marginal.cov, smo[i].cov)
        return f

    def exact(N, d, m, tr, sweeps):
        def f(c):
            L = Linear(c, N, d, m, tr)
            post = L.posterior()
            for k in range(sweeps):
                c.call(c.get('ExpectationPropagation.Iterations', 'ep_fwd_back_updates'), L.nodes)
                for i, n in enumerate(L.nodes):
                    c.eq('sweep %d, step %d: exact posterior mean' % (k + 1, i), n.marginal.mean, post[i].mean)
                    c.eq('sweep %d, step %d: exact posterior cov' % (k + 1, i), n.marginal.cov, post[i].cov)
        return f

    def smoother_exact(N, d, m, tr):
        def f(c):
            L = Linear(c, N, d, m, tr)
            post = L.posterior()
            K = c.get('Filters.KalmanFilter', 'KalmanFilterSmoother')
            kf = c.call(K, L.mk(), L.sys)
            filt = list(c.call(kf.kalman_filter, [z.copy() for z in L.z]))
            smo = list(c.call(kf.kalman_smoother, filt))
            for i in range(N):
                c.eq('step %d: exact posterior mean' % i, smo[i].mean, post[i].mean)
                c.eq('step %d: exact posterior cov' % i, smo[i].cov, post[i].cov)
        return f

    def fixed_point(N, d, m, tr, sweep):
        def f(c):
            p, g = atom('power', pos=True), atom('damping', pos=True)
            L = Linear(c, N, d, m, tr, p, g)
            G = c.get('StateModel', 'Gaussian')
            fw, me, bk = L.messages()
            post = [a * b * e for a, b, e in zip(fw, me, bk)]
            ref = L.posterior()
            for i in range(N):
                c.eq('reference consistent: %d' % i, post[i].cov, ref[i].cov)
                c.eq('reference consistent (mean): %d' % i, post[i].mean, ref[i].mean)
            for i, n in enumerate(L.nodes):
                for k, r in (('marginal', post[i]), ('forward_factor', fw[i] ** p), ('measurement_factor', me[i] ** p),
                             ('back_factor', bk[i] ** p)):
                    setattr(n, k, c.call(G.from_natural, r.P.copy(), r.h.copy()))
            c.call(c.get('ExpectationPropagation.Iterations', sweep), L.nodes)
            for i, n in enumerate(L.nodes):
                c.eq('step %d: exact posterior kept (precision)' % i, n.marginal.precision, post[i].P)
                c.eq('step %d: exact posterior kept (shift)' % i, n.marginal.shift, post[i].h)
                c.eq('step %d: forward message kept' % i, n.forward_factor.precision, (fw[i] ** p).P)
                c.eq('step %d: measurement message kept' % i, n.measurement_factor.precision, (me[i] ** p).P)
                c.eq('step %d: backward message kept' % i, n.back_factor.precision, (bk[i] ** p).P)
        return f

    for N in (1, 2, 3, 4):
        for d, m in DIMS:
            for how in ('two passes', 'one sweep'):
                out.append(Scenario('Gaussian smoother N=%d d=%d m=%d, %s' % (N, d, m, how), smoother(N, d, m, how)))
    for tr in ('Taylor', 'unscented'):
        for N in (1, 2, 3):
            for d, m in ((1, 1), (2, 1), (2, 2), (1, 2)):
                out.append(Scenario('linear system %s N=%d d=%d m=%d' % (tr, N, d, m), exact(N, d, m, tr, 2)))
                out.append(Scenario('linear system, Gaussian smoother %s N=%d d=%d m=%d' % (tr, N, d, m),
                                    smoother_exact(N, d, m, tr)))
                for sw in ('ep_fwd_back_updates', 'ep_update'):
                    out.append(Scenario('fixed point at any power: %s %s N=%d d=%d m=%d' % (sw, tr, N, d, m),
                                        fixed_point(N, d, m, tr, sw), **S))
    for N in sizes.lengths(tier, hi=24):
        if N > 24:
            continue
        for how in ('two passes', 'one sweep'):
            out.append(Scenario('Gaussian smoother N=%d, %s' % (N, how), smoother(N, 1, 1, how)))
        out.append(Scenario('linear system Taylor N=%d' % N, exact(N, 1, 1, 'Taylor', 1)))
        out.append(Scenario('linear system, Gaussian smoother Taylor N=%d' % N, smoother_exact(N, 1, 1, 'Taylor')))
        out.append(Scenario('fixed point at any power: Taylor N=%d' % N,
                            fixed_point(N, 1, 1, 'Taylor', 'ep_fwd_back_updates'), **S))
    for d in sizes.dims(tier):
        out.append(Scenario('linear system Taylor d=%d' % d, exact(2, d, 2, 'Taylor', 1)))
        out.append(Scenario('linear system, Gaussian smoother unscented d=%d' % d, smoother_exact(2, d, 2, 'unscented')))
        out.append(Scenario('Gaussian smoother d=%d' % d, smoother(2, d, 2, 'one sweep')))
    return out
