"""Concrete ensembles: replays a counterexample on the real output with plain
sympy calculus on explicit polynomial fields (independent of sem/poly).

The normalised error is eps = +-2*w_k, k=1..4, each with probability 1/8, where
w is a unit-vector field given by a rational parametrisation, truncated at a
degree that leaves every derivative used exact at the evaluation point 0."""
import random
from itertools import product

import sympy
from sympy import Rational, Integer, Derivative
from sympy.core.function import AppliedUndef


def trunc(p, coords, K):
    p = sympy.Poly(sympy.expand(p), *coords)
    return sympy.Poly({m: c for m, c in p.terms() if sum(m) <= K} or {(0,) * len(coords): 0}, *coords).as_expr()


def unit_field(rng, coords, K):
    ps = [rpoly(rng, coords, 2) for _ in range(3)]
    n = trunc(sum(trunc(p * p, coords, K) for p in ps), coords, K)
    n0 = n.subs({c: 0 for c in coords})
    # 1/(1+n) as a truncated series
    d0 = 1 + n0
    x = -(n - n0) / d0
    inv, pw = Integer(1), Integer(1)
    for _ in range(K):
        pw = trunc(pw * x, coords, K)
        inv += pw
    inv = trunc(inv / d0, coords, K)
    w = [trunc(2 * p * inv, coords, K) for p in ps] + [trunc((n - 1) * inv, coords, K)]
    return w


def rpoly(rng, coords, deg, nonzero=False):
    e = Rational(rng.randint(1, 3), rng.choice([1, 2])) if nonzero else Rational(rng.randint(-2, 2))
    for a in product(range(deg + 1), repeat=len(coords)):
        if 0 < sum(a) <= deg:
            t = Rational(rng.randint(-3, 3), rng.choice([1, 2, 3]))
            for c, k in zip(coords, a):
                t = t * c ** k
            e = e + t
    return e


class Concrete(object):
    def __init__(self, st, seed, K=6):
        """st: pkfsem.Stat (only its metadata is used)"""
        rng = random.Random(seed)
        self.rng, self.st = rng, st
        self.coords = st.coords
        self.space = st.space
        S = self.space
        self.atoms = [(s, k) for k in range(4) for s in (1, -1)]
        self.ubar, self.sig, self.eps, self.err = {}, {}, {}, {}
        for u in st.fields:
            self.ubar[u] = rpoly(rng, S, 3, True)
            self.sig[u] = rpoly(rng, S, 3, True)
            w = unit_field(rng, S, K)
            self.eps[u] = [s * 2 * w[k] for s, k in self.atoms]
            self.err[u] = [self.sig[u] * e for e in self.eps[u]]
        self.other = {}
        self.table()

    def mean(self, vals):
        return sympy.expand(sum(vals) / Integer(len(self.atoms)))

    def table(self):
        st = self.st
        T = {}
        for u in st.fields:
            mf = st.mf[u]
            T[(st.names[u], False)] = self.ubar[u]
            T[(st.names[u], True)] = [self.ubar[u] + e for e in self.err[u]]
            T[(mf.epsilon.func.__name__, True)] = self.eps[u]
            T[(mf.error.func.__name__, True)] = self.err[u]
            T[(mf.variance.func.__name__, False)] = self.sig[u] ** 2
            T[(mf.std.func.__name__, False)] = self.sig[u]
            d = len(self.space)
            for i in range(d):
                for j in range(i, d):
                    T[(mf.metric[i, j].func.__name__, False)] = self.mean(
                        [e.diff(self.space[i]) * e.diff(self.space[j]) for e in self.eps[u]])
        for a, u in enumerate(st.fields):
            for v in st.fields[a + 1:]:
                f1, f2 = st.order(u, v)
                lab = st.pkf.get_covariance(f1, f2).func.__name__
                T[(lab, False)] = self.mean([x * y for x, y in zip(self.err[u], self.err[v])])
        self.T = T

    def leaf(self, f, atom):
        omega = [a for a in f.args if str(a) == 'omega']
        key = (f.func.__name__, bool(omega))
        if key in self.T:
            v = self.T[key]
            if isinstance(v, list):
                if atom is None:
                    raise ValueError('random quantity %s outside an expectation' % f)
                v = v[atom]
            return v
        if omega:
            raise ValueError('unknown random %s' % f)
        if key not in self.other:
            self.other[key] = rpoly(random.Random('%s%s' % (key[0], self.rng.random())),
                                    [c for c in f.args if c in self.space], 3, True)
        return self.other[key]

    def const(self, s):
        if s in self.coords:
            return s
        if s not in self.other:
            self.other[s] = Rational(self.rng.randint(1, 5), self.rng.choice([1, 2, 3]))
        return self.other[s]

    def conc(self, e, atom=None):
        if not isinstance(e, sympy.Basic):
            e = sympy.sympify(e)
        if type(e).__name__ == 'Expectation':
            return sum(self.conc(e.args[0], k) for k in range(len(self.atoms))) / Integer(len(self.atoms))
        if isinstance(e, AppliedUndef):
            return self.leaf(e, atom)
        if isinstance(e, Derivative):
            r = self.conc(e.expr, atom)
            for v, n in e.variable_count:
                r = sympy.diff(r, v, int(n))
            return r
        if isinstance(e, sympy.Symbol):
            return self.const(e)
        if not e.args:
            return e
        return e.func(*[self.conc(a, atom) for a in e.args])

    def at0(self, e):
        return sympy.nsimplify(sympy.simplify(sympy.sympify(e).subs({c: 0 for c in self.coords})))

    # -- reference ----------------------------------------------------------
    def F(self, u):
        """[(F0, F1, F2) per atom] functions of space"""
        eta = sympy.Symbol('eta__')
        rhs = [eq for eq in self.st.equations if eq.args[0].args[0] == u][0].args[1]
        out = []
        old = dict(self.T)
        for k in range(len(self.atoms)):
            for w in self.st.fields:
                self.T[(self.st.names[w], False)] = self.ubar[w] + eta * self.err[w][k]
            r = self.conc(rhs, k)
            out.append((r.subs(eta, 0), r.diff(eta).subs(eta, 0), r.diff(eta, 2).subs(eta, 0) / 2))
        self.T = old
        return out

    def tendency(self, kind, u, i=None, j=None, v=None):
        F = self.F(u)
        n = Integer(len(self.atoms))
        if kind == 'mean':
            return sum(f[0] + f[2] for f in F) / n
        if kind == 'error':
            return [f[1] for f in F]
        if kind == 'var':
            return sum(2 * f[1] * e for f, e in zip(F, self.err[u])) / n
        if kind == 'std':
            return sum(2 * f[1] * e for f, e in zip(F, self.err[u])) / n / (2 * self.sig[u])
        if kind in ('eps', 'metric'):
            VT = sum(2 * f[1] * e for f, e in zip(F, self.err[u])) / n
            et = [f[1] / self.sig[u] - e * VT / (2 * self.sig[u] ** 2) for f, e in zip(F, self.eps[u])]
            if kind == 'eps':
                return et
            xi, xj = self.space[i], self.space[j]
            return sum(a.diff(xi) * e.diff(xj) + a.diff(xj) * e.diff(xi) for a, e in zip(et, self.eps[u])) / n
        if kind == 'cross':
            G = self.F(v)
            return sum(f[1] * e2 + g[1] * e1 for f, g, e1, e2 in zip(F, G, self.err[u], self.err[v])) / n
        raise ValueError(kind)

    def compare(self, expr, kind, u, i=None, j=None, v=None, trials=None):
        """(differs, text) at the point 0"""
        ref = self.tendency(kind, u, i, j, v)
        if isinstance(ref, list):
            for k, r in enumerate(ref):
                a, b = self.at0(self.conc(expr, k)), self.at0(r)
                if sympy.simplify(a - b) != 0:
                    return True, 'member %d: code gives %s, exact value %s' % (k, a, b)
            return False, 'equal'
        a, b = self.at0(self.conc(expr)), self.at0(ref)
        if sympy.simplify(a - b) != 0:
            return True, 'code gives %s, exact value %s' % (a, b)
        return False, 'equal (%s)' % a
