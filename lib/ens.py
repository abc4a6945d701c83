"""Finite-ensemble semantics of expressions with random functions: members
k = 1..N with symbolic weights (sum 1), every jet of every function and member
symbolic.  Used by C01, C02, C22."""
import random

import sympy
from sympy import Function, Derivative, Integral, symbols, Integer, Rational, exp, sin, cos
from sympy.core.function import AppliedUndef

from .poly import Poly, ZERO, ONE, vid, vname
from .sem import Env, ev, value, zev, t_add, t_scale
from . import z3q
from .z3q import Inconclusive

N = 3
t, x, y, omega = symbols('t x y omega')
COORDS = (t, x, y)


class Ensemble(object):
    """N environments (one per member) sharing the deterministic functions"""

    def __init__(self, n=N):
        self.n = n
        ws = [Poly.var(('c', 'w%d' % k)) for k in range(1, n)]
        self.w = ws + [ONE - sum(ws, ZERO)]
        self.envs = []
        for k in range(n):
            e = Env(COORDS, omega)
            e.member = k
            e.mean_node = lambda expr, box: self.mean(expr.args[0], box)
            e.integral = lambda expr, box, e=e: integral(expr, box, e)
            e.jet = self.make_jet(k)
            e.consts[omega] = Poly.var(('hm', 'omega', (), k))
            self.envs.append(e)
        self.memo = {}

    @staticmethod
    def make_jet(k):
        def jet(name, rnd, alpha):
            if rnd:
                return Poly.var(('hm', name, alpha, k))
            return Poly.var(('u', name, alpha))
        return jet

    def mean(self, expr, box):
        key = (expr, box)
        if key not in self.memo:
            r = {}
            for k in range(self.n):
                r = t_add(r, t_scale(ev(expr, self.envs[k], box), self.w[k]))
            self.memo[key] = r
        return self.memo[key]

    def values(self, expr):
        return [value(expr, e) for e in self.envs]

    def average(self, expr):
        s = ZERO
        for k in range(self.n):
            s = s + value(expr, self.envs[k]) * self.w[k]
        return s


DEPS = {}        # function name -> arguments it is applied on


def note_deps(expr):
    for f in expr.atoms(AppliedUndef):
        DEPS.setdefault(f.func.__name__, tuple(f.args))


def _depends(v, coord):
    return name_depends(vname(v), coord)


def name_depends(n, coord):
    if n[0] == 'c':
        return n[1] == 'at_' + str(coord)
    if n[0] in ('u', 'hm') and n[1] != 'omega':
        return coord in DEPS.get(n[1], COORDS)
    if n[0] == 'J':
        # a definite integral does not depend on its own variable
        inner = any(name_depends(m, coord) for m, _ in n[2])
        return inner and (n[1][1:] == ('prim',) or n[1][0] != str(coord))
    if n[:2] == ('q', 'exp'):
        return any(name_depends(m, coord) for m, _ in n[2])
    return n[1] != 'omega'


def undummy(expr):
    """integration over dummy variables: put back the coordinate they stand for
    (the one at their place in the signature of the functions)"""
    if not expr.args or not expr.has(Integral):
        return expr
    args = [undummy(a) if isinstance(a, sympy.Basic) and not isinstance(a, sympy.Tuple) else a for a in expr.args]
    if not isinstance(expr, Integral):
        if all(a is b for a, b in zip(args, expr.args)):
            return expr
        return expr.func(*args, evaluate=False) if type(expr).__name__ == 'Expectation' else expr.func(*args)
    inner, lims = args[0], args[1:]
    m = {}
    for f in inner.atoms(AppliedUndef):
        sig = DEPS.get(f.func.__name__, ())
        for a, s in zip(f.args, sig):
            if a in [l[0] for l in lims] and a not in COORDS:
                if m.setdefault(a, s) != s:
                    raise Inconclusive('variable %s of %s' % (a, expr))
    if any(s in inner.free_symbols for s in m.values()):
        raise Inconclusive('variable of %s' % expr)
    return Integral(inner.xreplace(m), *[tuple([m.get(l[0], l[0])] + list(l[1:])) for l in lims])


def integral(expr, box, env):
    """linear functional; factors free of the integration variable come out;
    the derivative of a primitive is the integrand"""
    inner, limits = expr.args[0], list(expr.args[1:])
    lim, rest = limits[-1], limits[:-1]
    sub = Integral(inner, *rest) if rest else inner
    v = lim[0]
    tag = []
    for b in lim[1:]:
        p = value(sympy.sympify(b), env)
        vs = {w for m in p.d for w, _ in m}
        if sum(box) and any(name_depends(vname(w), c) for w in vs for c in env.coords):
            raise Inconclusive('bounds of %s' % expr)
        tag.append(repr(p))
    tag = tuple(tag)
    out = {}
    if v not in env.coords:
        if len(lim) == 1 or sub.has(v):
            raise Inconclusive('integral %s' % expr)
        return t_scale(ev(sub, env, box), Poly.var(('J', ('',) + tag, ())))
    i = env.coords.index(v)
    if len(lim) == 1:                       # primitive
        for al, p in ev(sub, env, box).items():
            if al[i] == 0:
                out[al] = functional(p, v, ('prim',))
            be = list(al)
            be[i] += 1
            be = tuple(be)
            if all(a <= b for a, b in zip(be, box)):
                out[be] = p * Rational(1, be[i])
        return out
    for al, p in ev(sub, env, tuple(0 if k == i else b for k, b in enumerate(box))).items():
        out[al] = functional(p, v, tag)
    return out


def functional(p, v, tag):
    out = ZERO
    for m, c in p.d.items():
        inside = tuple((w, e) for w, e in m if _depends(w, v))
        outside = tuple((w, e) for w, e in m if not _depends(w, v))
        name = ('J', (str(v) if inside or tag == ('prim',) else '',) + tag, tuple((vname(w), e) for w, e in inside))
        out = out + Poly({outside: c}) * Poly.var(name)
    return out


# expressions -------------------------------------------------------------------

def F(n, *a):
    return Function(n)(*a)


def shapes():
    """hand-written shapes: each is a program handed to the real code"""
    from sympkf import Expectation as E
    X, Y = F('X', t, x, omega), F('Y', t, x, omega)
    Z, W = F('Z', omega), F('W', t, x, y, omega)
    f, g, h, c = F('f', t, x), F('g', x), F('h', t, x, y), symbols('c')
    D, I = Derivative, Integral
    L = [
        X, f, c, Integer(2), omega, Z, X * f, X + f, 2 * X, -X, c * X * f * g, X * Y, f * X * Y, X**2, X**3 * f,
        (X + f)**2, (X + Y + f)**2, (f * X + g * Y + c)**2 * Y, (X - E(X))**2, (X - E(X)) * (Y - E(Y)), X * E(X), E(X) * E(Y),
        E(X)**2 * Y + f, E(X * Y) * X, E(f * X) + Y, E(E(X) * X), f * E(X),
        D(X, x), D(X, t), D(X, x, 2), D(W, x, y), D(W, x, 2, y), D(W, x, y, 2), D(W, t, x, y), D(W, t, 2, x), f * D(W, x, y),
        D(f * X, x), D(f * X * Y, x), D(X * Y, x, t), D(f, x) * X, D(f, x) * D(X, x), D(X, x)**2, D(X, x) * D(Y, t),
        X * D(X, x), f * X * D(Y, x, 2), D(E(X), x), D(E(X) * X, x), D(E(X), x) * X, X * D(f * D(X, x), x), D(X + Y * f, x, 2),
        D(h * W, x, y), D(D(W, x) * h, y), D(W**2, x, y), h * W * D(W, x, y),
        I(X, x), I(f * X, x), I(X, (x, 0, 1)), I(W, (x, 0, 1), (y, 0, 2)), I(f * X, (x, 0, c)), f * I(X * g, (x, 0, 1)), I(h * W, x, y),
        I(f, (x, 0, Z)), I(X, (x, Z, 1)) * c, I(f, (x, 0, E(Z))) * X, I(g, (x, 0, X)) * f,
        I(f, (x, Z, 1)), I(h, (x, 0, 1), (y, 0, Z)), I(h, (x, Z, 1), (y, 0, 1)) * X, I(f, (x, E(Z), Z)) + c,
        I(X, (x, 0, 1)) * Y, I(D(W, x), y), D(I(W, y), x), I(W, (y, 0, 1)) * f, I(X + f, (x, 0, 1)), D(I(W * h, (y, 0, 1)), x, t),
        exp(X), sin(X) * f, exp(f) * X, cos(f * X) * Y, f / X, X / Y, X / f, X / (f + g), (X + f)**-1, sympy.sqrt(f) * X, X * Y / E(X),
        X * exp(f + X), x * X, t * X + x, x * t * D(X, x), c**2 * X + c, (X + 1) * (Y + 2) * (f + 3), (X + f) * (Y - g) * W,
        D(X, x) * E(Y) * f + D(Y, x) * E(X) * g, X * Y * Z * f, Z**2, F('X_1', t, omega) * F('\\alpha', t), F('{\\varepsilon_{u}}', t, x, omega) * f,
        F('V', omega, x) * f, D(F('V', omega, x), x) * f, (f + g) * X, (f + g)**2 * X, X * (1 + E(X))**-1, X + x - X, D(x * X, x),
    ]
    return L


def gen(rng, depth, rnd):
    from sympkf import Expectation as E
    X, Y = F('X', t, x, omega), F('Y', t, x, omega)
    W, Z = F('W', t, x, y, omega), F('Z', omega)
    f, g, h, c = F('f', t, x), F('g', x), F('h', t, x, y), symbols('c')
    if depth == 0:
        return rng.choice([X, Y, W, Z]) if rnd else rng.choice([f, g, h, c, x, Integer(rng.choice([-2, 2, 3])), Rational(1, 2)])
    k = rng.random()
    if k < .25:
        return gen(rng, depth - 1, rnd) + gen(rng, depth - 1, rng.random() < .5)
    if k < .55:
        return gen(rng, depth - 1, rnd) * gen(rng, depth - 1, rng.random() < .5)
    if k < .65:
        return gen(rng, depth - 1, rnd)**2
    if k < .85:
        a = gen(rng, depth - 1, rnd)
        vs = rng.choice([[x], [t], [(x, 2)], [x, y], [t, x], [y], [x, y, t]])
        return Derivative(a, *vs)
    if k < .9:
        return Integral(gen(rng, depth - 1, rnd), *rng.choice([[x], [(x, 0, 1)], [(y, 0, 2)], [(x, 0, 1), (y, -1, 1)]]))
    if k < .97:
        return E(gen(rng, depth - 1, True)) * gen(rng, depth - 1, rnd)
    return rng.choice([exp, sin])(gen(rng, depth - 1, rnd))


def expression(src, seed, i):
    if src == 'shape':
        return shapes()[i]
    rng = random.Random(seed * 100003 + i)
    return gen(rng, rng.choice([2, 3, 3, 4]), rng.random() < .8)


def free_omega(e):
    """omega occurs outside every expectation"""
    if type(e).__name__ == 'Expectation':
        return False
    if e == omega:
        return True
    return any(free_omega(a) for a in e.args)


# concrete replay ------------------------------------------------------------------

class ConcreteEnsemble(object):
    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.fun = {}
        ws = [Rational(self.rng.randint(1, 5)) for _ in range(N)]
        self.w = [a / sum(ws) for a in ws]
        self.const = {}

    def poly(self, args):
        p = Rational(self.rng.randint(1, 5))
        for a in args:
            for k in range(1, 4):
                p = p + Rational(self.rng.randint(-3, 3), self.rng.randint(1, 3)) * a**k
        if len(args) > 1:
            p = p + Rational(self.rng.randint(1, 3)) * sympy.Mul(*args) + self.rng.randint(-2, 2) * sympy.Mul(*args) * args[0]
        return p

    def ev(self, e, k):
        if type(e).__name__ == 'Expectation':
            return sum(self.w[j] * self.ev(e.args[0], j) for j in range(N))
        if isinstance(e, AppliedUndef):
            r = omega in e.args
            key = (e.func.__name__, k if r else None)
            if key not in self.fun:
                self.fun[key] = self.poly([a for a in e.args if a != omega])
            return self.fun[key]
        if isinstance(e, sympy.Symbol):
            if e in COORDS:
                return e
            if e == omega:
                return Integer(k + 1) / 7
            if e not in self.const:
                self.const[e] = Rational(self.rng.randint(1, 5), 3)
            return self.const[e]
        if not e.args:
            return e
        if isinstance(e, (Derivative, Integral)):
            a = self.ev(e.args[0], k)
            lim = [tuple(self.ev(z, k) if z not in COORDS else z for z in l) for l in e.args[1:]]
            if isinstance(e, Derivative):
                for v, n in lim:
                    a = sympy.diff(a, v, int(n))
                return a
            return Integral(a, *lim).doit()
        return e.func(*[self.ev(a, k) for a in e.args])

    def num(self, e, k):
        r = self.ev(e, k)
        return sympy.N(r.subs({t: Rational(1, 3), x: Rational(2, 5), y: Rational(-3, 7)}), 40)


def components(e):
    """scalar expressions of an equation or a matrix, with a label"""
    if isinstance(e, sympy.Eq):
        return [('lhs', e.args[0]), ('rhs', e.args[1])]
    if isinstance(e, sympy.MatrixBase):
        return [('%d,%d' % (i, j), e[i, j]) for i in range(e.shape[0]) for j in range(e.shape[1])]
    return [('', e)]
