"""Statistical semantics of the PKF: independent oracle for the evolution of
mean, variance, normalised error, metric, cross-covariance, computed from the
PDE alone by jet arithmetic (no computer algebra of the code under test)."""
from fractions import Fraction

import sympy

from .poly import Poly, ZERO, ONE, vid, vname, truncation, declare_invertible
from .sem import (Env, ev, value, zev, gram_mean, leibniz, provider_of, below,
                  t_pow, t_from_provider, t_mul, t_add, t_scale, t_deriv, t_get,
                  add_idx, binom, mfact)
from . import z3q

ETA = ('eta',)


class Stat(object):
    """Generic ensemble of solutions of a PDE system around a generic point."""

    def __init__(self, pkf, equations):
        self.pkf = pkf
        self.equations = equations              # list of sympy Eq: the input PDE
        self.fields = [eq.args[0].args[0] for eq in equations]
        self.mf = {u: pkf.fields[u] for u in self.fields}
        u0 = self.fields[0]
        self.coords = tuple(u0.args)            # (t, x, ...)
        self.space = self.coords[1:]
        self.zero = (0,) * len(self.coords)
        self.units = set()
        self.names = {u: u.func.__name__ for u in self.fields}
        self._mk_providers()

    def e(self, i):
        a = list(self.zero)
        a[self.coords.index(self.space[i])] = 1
        return tuple(a)

    def _mk_providers(self):
        self.ubar, self.V, self.sig, self.isig, self.eps, self.err = {}, {}, {}, {}, {}, {}
        for u in self.fields:
            n = self.names[u]
            s0 = ('q', 'sigma', n)
            self.units.add(vid(s0))

            def V(alpha, n=n, s0=s0):
                if alpha == self.zero:
                    return Poly.var(s0, 2)
                return Poly.var(('u', 'V_' + n, alpha))

            def T(box, V=V, r=Fraction(1, 2)):
                env = Env(self.coords)
                return t_pow(t_from_provider(V, box), r, box, env)
            self.V[u] = V
            self.sig[u] = provider_of(T, None)
            self.ubar[u] = lambda alpha, n=n: Poly.var(('u', n, alpha))
            self.eps[u] = lambda alpha, n=n: Poly.var(('h', n, alpha))
            self.err[u] = leibniz(self.sig[u], self.eps[u])

    # -- environments ----------------------------------------------------------
    def g(self, u, i, j):
        n = self.names[u]
        ei, ej = self.e(i), self.e(j)

        def p(alpha):
            r = ZERO
            for be in below(alpha):
                de = tuple(a - b for a, b in zip(alpha, be))
                r = r + gram_mean(self.eps[u](add_idx(ei, be)) * self.eps[u](add_idx(ej, de))) * binom(alpha, be)
            return r
        return p

    def cross(self, u, v):
        """E[e_u e_v] jets"""
        def p(alpha):
            r = ZERO
            for be in below(alpha):
                de = tuple(a - b for a, b in zip(alpha, be))
                r = r + gram_mean(self.err[u](be) * self.err[v](de)) * binom(alpha, be)
            return r
        return p

    def env_out(self):
        """environment interpreting the expressions produced by the code"""
        env = Env(self.coords, omega=sympy.Symbol('omega'))
        env.mean = gram_mean
        P = env.providers
        for u in self.fields:
            mf = self.mf[u]
            P[(self.names[u], False)] = self.ubar[u]
            P[(self.names[u], True)] = lambda al, u=u: self.ubar[u](al) + self.err[u](al)
            P[(mf.epsilon.func.__name__, True)] = self.eps[u]
            P[(mf.error.func.__name__, True)] = self.err[u]
            P[(mf.variance.func.__name__, False)] = self.V[u]
            P[(mf.std.func.__name__, False)] = self.sig[u]
            d = len(self.space)
            for i in range(d):
                for j in range(i, d):
                    P[(mf.metric[i, j].func.__name__, False)] = self.g(u, i, j)
        for a, u in enumerate(self.fields):
            for v in self.fields[a + 1:]:
                # the code labels a couple in the order of its field list
                f1, f2 = self.order(u, v)
                lab = self.pkf.get_covariance(f1, f2).func.__name__
                P[(lab, False)] = self.cross(u, v)
        return env

    def order(self, u, v):
        keys = list(self.pkf.fields.keys())
        return (u, v) if keys.index(u) < keys.index(v) else (v, u)

    # -- oracle -----------------------------------------------------------------
    def F(self, u, box):
        """Taylor of the PDE right-hand side on ubar + eta*e (eta^0..eta^2)"""
        env = Env(self.coords)
        for w in self.fields:
            env.providers[(self.names[w], False)] = \
                lambda al, w=w: self.ubar[w](al) + Poly.var(ETA) * self.err[w](al)
        rhs = [eq for eq in self.equations if eq.args[0].args[0] == u][0].args[1]
        with truncation({vid(ETA): 2}):
            t = ev(rhs, env, box)
        out = []
        for k in range(3):
            out.append({a: p.coeffs(vid(ETA)).get(k, ZERO) for a, p in t.items()})
        return out

    def mean_tendency(self, u):
        F0, F1, F2 = self.F(u, self.zero)
        return t_get(F0, self.zero) + gram_mean(t_get(F2, self.zero))

    def error_tendency(self, u, box=None):
        box = box or self.zero
        return self.F(u, box)[1]

    def tp(self, prov, box):
        return t_from_provider(prov, box)

    def var_tendency(self, u, box=None):
        box = box or self.zero
        F1 = self.error_tendency(u, box)
        t = t_mul(t_scale(F1, 2), self.tp(self.err[u], box), box)
        return {k: gram_mean(p) for k, p in t.items()}

    def eps_tendency(self, u, box=None):
        box = box or self.zero
        env = Env(self.coords)
        F1 = self.error_tendency(u, box)
        Vt = self.var_tendency(u, box)
        sig = self.tp(self.sig[u], box)
        isig = t_pow(sig, -1, box, env)
        a = t_mul(F1, isig, box)
        # - eps V_t/(2V)
        b = t_mul(self.tp(self.eps[u], box), Vt, box)
        b = t_mul(b, t_mul(isig, isig, box), box)
        return t_add(a, t_scale(b, Fraction(-1, 2)))

    def metric_tendency(self, u, i, j):
        ei, ej = self.e(i), self.e(j)
        box = tuple(max(a, b) for a, b in zip(ei, ej))
        et = self.eps_tendency(u, box)
        di = t_get(t_deriv(et, ei, self.zero), self.zero)
        dj = t_get(t_deriv(et, ej, self.zero), self.zero)
        return gram_mean(di * self.eps[u](ej) + dj * self.eps[u](ei))

    def cross_tendency(self, u, v):
        a = t_get(self.error_tendency(u), self.zero) * self.err[v](self.zero)
        b = t_get(self.error_tendency(v), self.zero) * self.err[u](self.zero)
        return gram_mean(a + b)

    # -- axioms -----------------------------------------------------------------
    def axioms(self, order):
        """E[eps_f^2] = 1 identically: all its space derivatives vanish"""
        out = []
        import itertools
        d = len(self.coords)
        for u in self.fields:
            for alpha in itertools.product(*[range(order + 1) if c != self.coords[0] else [0]
                                             for c in self.coords]):
                if sum(alpha) > order:
                    continue
                r = ZERO
                for be in below(alpha):
                    de = tuple(a - b for a, b in zip(alpha, be))
                    r = r + gram_mean(self.eps[u](be) * self.eps[u](de)) * binom(alpha, be)
                rhs = ONE if sum(alpha) == 0 else ZERO
                (ta, tb), _ = z3q.clear(z3q.as_zl(r), z3q.as_zl(rhs))
                out.append(ta == tb)
        return out

    def prove(self, got_expr, want_poly, env=None, order=None, axioms=True):
        env = env or self.env_out()
        a = zev(got_expr, env)
        b = z3q.as_zl(want_poly)
        ax = []
        if axioms:
            if order is None:
                order = 0
                seen = set(want_poly.vars()) | value(got_expr, env).vars()
                for v in seen:
                    n = vname(v)
                    if n[0] == 'M':
                        order = max(order, sum(sum(x[1]) for x in n[1]))
            ax = self.axioms(order)
        return z3q.equal(a, b, assume=ax, positive=self.units)
