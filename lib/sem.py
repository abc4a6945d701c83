"""Semantic evaluator: a sympy expression (input or output of the code under
test) -> truncated Taylor series whose coefficients are Poly values, or -> raw
Z3 terms (zev)."""
from fractions import Fraction
from itertools import product as iproduct
from math import factorial, comb

import sympy
from sympy.core.function import AppliedUndef

from .poly import Poly, ZERO, ONE, vid, vname, NotInvertible, TRUNC, TOTAL, inverse_of, smooth, general_root
from . import z3q
from .z3q import ZL, zsum, Inconclusive


class Unsupported(Inconclusive):
    pass


def mfact(a):
    r = 1
    for k in a:
        r *= factorial(k)
    return r


def below(box):
    return list(iproduct(*[range(k + 1) for k in box]))


def add_idx(a, b):
    return tuple(x + y for x, y in zip(a, b))


class Env(object):
    """coords: tuple of sympy symbols; providers: {(name, has_omega): alpha->Poly}"""

    def __init__(self, coords, omega=None, shift_vars=None):
        self.coords = tuple(coords)
        self.omega = omega if omega is not None else sympy.Symbol('omega')
        self.providers = {}
        self.consts = {}
        self.shift_vars = shift_vars or {}   # sympy symbol -> Poly (nilpotent step)
        self.shift_order = 0
        self.mean = None
        self.mean_node = None      # (expr, box) -> Taylor dict of an Expectation node
        self.integral = None       # (expr, box) -> Taylor dict of an Integral node
        self.is_mean = lambda node: type(node).__name__ == 'Expectation'
        self.laurent = None        # variable id in which values are Laurent series
        self.memo = {}

    def zero(self):
        return (0,) * len(self.coords)

    def jet(self, name, random, alpha):
        p = self.providers.get((name, random))
        if p is None:
            p = self.providers.get((name, None))
        if p is None:
            return Poly.var(('h' if random else 'u', name, alpha))
        return p(alpha)

    def const(self, s):
        c = self.consts.get(s)
        if c is None:
            return Poly.var(('c', str(s)))
        return c


# Taylor coefficient dictionaries -------------------------------------------

def t_mul(a, b, box):
    out = {}
    for al, p in a.items():
        if not p.d:
            continue
        for be, r in b.items():
            ga = add_idx(al, be)
            if any(x > y for x, y in zip(ga, box)) or not r.d:
                continue
            x = p * r
            out[ga] = out[ga] + x if ga in out else x
    return out


def t_add(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = out[k] + v if k in out else v
    return out


def t_scale(a, c):
    return {k: v * c for k, v in a.items()}


def t_const(p, env):
    return {env.zero(): p}


def t_get(a, idx):
    return a.get(idx, ZERO)


def t_deriv(a, gamma, box):
    out = {}
    for al in below(box):
        x = a.get(add_idx(al, gamma))
        if x is not None:
            out[al] = x * Fraction(mfact(add_idx(al, gamma)), mfact(al))
    return out


def t_from_provider(fn, box):
    return {al: fn(al) * Fraction(1, mfact(al)) for al in below(box)}


def _split_nil(p):
    tv = set(TRUNC)
    for vs, _ in TOTAL:
        tv |= set(vs)
    lead, nil = {}, {}
    for m, c in p.d.items():
        (nil if sum(e for v, e in m if v in tv) > 0 else lead)[m] = c
    return Poly(lead), Poly(nil)


def t_compose(a, derivs, box, env):
    """f(a) where derivs(lead, k) -> Poly value of f^(k)(lead)"""
    z = env.zero()
    lead, nil = _split_nil(a.get(z, ZERO))
    delta = {k: v for k, v in a.items() if k != z}
    if nil.d:
        delta[z] = nil
    out = {z: derivs(lead, 0)}
    p = {z: ONE}
    limit = sum(box) + sum(TRUNC.values()) + sum(l for _, l in TOTAL) + 2
    for k in range(1, limit + 1):
        p = {i: v for i, v in t_mul(p, delta, box).items() if v.d}
        if not p:
            break
        out = t_add(out, t_scale(p, derivs(lead, k) * Fraction(1, factorial(k))))
    return out


def t_pow(a, r, box, env):
    r = Fraction(r)
    z = env.zero()
    if r.denominator == 1 and r >= 0:
        out = {z: ONE}
        for _ in range(int(r)):
            out = t_mul(out, a, box)
        return out
    c0 = a.get(z, ZERO)
    lead = c0 ** r if r.denominator == 1 else c0.root(r)
    ic0 = c0.inv()
    x = {k: v * ic0 for k, v in a.items() if k != z}
    out, p, coef = {z: ONE}, {z: ONE}, Fraction(1)
    for k in range(1, sum(box) + 2):
        p = {i: v for i, v in t_mul(p, x, box).items() if v.d}
        if not p:
            break
        coef = coef * (r - (k - 1)) / k
        out = t_add(out, t_scale(p, coef))
    return t_scale(out, lead)


def _key(p):
    return repr(p)


_SMOOTH = {}


def _smooth(name):
    def derivs(lead, k):
        key = _key(lead)
        if name == 'exp':
            return smooth('exp', lead)
        if name in ('sin', 'cos'):
            s, c = smooth('sin', lead), smooth('cos', lead)
            seq = [s, c, -s, -c]
            return seq[(k + (0 if name == 'sin' else 1)) % 4]
        if name == 'log':
            if k == 0:
                return Poly.var(('c', 'log', key))
            return inverse_of(lead) ** k * ((-1) ** (k - 1) * factorial(k - 1))
        if name in ('sinh', 'cosh', 'tanh'):
            e, f = smooth('exp', lead), smooth('exp', -lead)
            if name != 'tanh':
                return (e + f if (name == 'cosh') == (k % 2 == 0) else e - f) * Fraction(1, 2)
            T = (e - f) * Fraction(1, 2) * inverse_of((e + f) * Fraction(1, 2))
            p = {1: 1}                     # the k-th derivative as a polynomial of tanh: T' = 1 - T**2
            for _ in range(k):
                q = {}
                for n, c in p.items():
                    if n:
                        q[n - 1] = q.get(n - 1, 0) + n * c
                        q[n + 1] = q.get(n + 1, 0) - n * c
                p = q
            out = ZERO
            for n, c in p.items():
                out = out + T ** n * c
            return out
        return Poly.var(('c', 'fun:' + name, key, k))
    return derivs


def _powfun(r):
    """lead**r for a non-integer r and a general lead"""
    def derivs(lead, k):
        coef = Fraction(1)
        for i in range(k):
            coef = coef * (r - i)
        if r.denominator == 1:
            if r >= 0:
                return lead ** int(r - k) * coef if k <= r else ZERO
            return inverse_of(lead) ** int(k - r) * coef
        return general_root(lead, r - k) * coef
    return derivs


def laurent_inverse(p, lam):
    """1/p as a series in lam (truncated by TRUNC[lam])"""
    co = p.coeffs(lam)
    co = {k: v for k, v in co.items() if v.d}
    if not co:
        raise ZeroDivisionError('zero denominator')
    low = min(co)
    lead = inverse_of(co[low])
    x = ZERO
    for k, v in co.items():
        if k > low:
            x = x - v * lead * Poly({((lam, k - low),): Fraction(1)})
    out, q = ONE, ONE
    for _ in range(TRUNC[lam] + 1):
        q = q * x
        if not q.d:
            break
        out = out + q
    return out * lead * (Poly({((lam, -low),): Fraction(1)}) if low else ONE)


def ev(expr, env, box=None):
    """Taylor coefficients of expr at the generic point, for indices <= box"""
    if box is None:
        box = env.zero()
    key = (expr, box)
    r = env.memo.get(key)
    if r is None:
        r = _ev(expr, env, box)
        env.memo[key] = r
    return r


def _ev(expr, env, box):
    z = env.zero()
    if not isinstance(expr, sympy.Basic):
        expr = sympy.sympify(expr)
    if expr.is_Number or isinstance(expr, sympy.Rational):
        p = Poly.coerce(expr)
        if p is None:
            raise Unsupported('number %r' % expr)
        return {z: p}
    if isinstance(expr, sympy.Symbol):
        if expr in env.coords:
            i = env.coords.index(expr)
            out = {z: Poly.var(('c', 'at_' + str(expr)))}
            if box[i] > 0:
                e = list(z)
                e[i] = 1
                out[tuple(e)] = ONE
            return out
        if expr in env.shift_vars:
            return {z: env.shift_vars[expr]}
        return {z: env.const(expr)}
    if isinstance(expr, sympy.Add):
        out = {}
        for a in expr.args:
            out = t_add(out, ev(a, env, box))
        return out
    if isinstance(expr, sympy.Mul):
        out = {z: ONE}
        for a in expr.args:
            out = t_mul(out, ev(a, env, box), box)
        return out
    if isinstance(expr, sympy.Pow):
        b, e = expr.args
        if e.is_Number:
            r = Poly.coerce(e)
            f = r.d.get((), Fraction(0)) if r is not None else None
            if f is None:
                raise Unsupported('exponent %r' % e)
            a = ev(b, env, box)
            if env.laurent is not None and f < 0 and f.denominator == 1 and not sum(box):
                return {z: laurent_inverse(t_get(a, z), env.laurent) ** int(-f)}
            try:
                return t_pow(a, f, box, env)
            except NotInvertible:
                return t_compose(a, _powfun(f), box, env)
        raise Unsupported('power %r' % expr)
    if isinstance(expr, sympy.Integral) and env.integral is not None:
        return env.integral(expr, box)
    if env.is_mean(expr):
        if env.mean_node is not None:
            return env.mean_node(expr, box)
        if env.mean is None:
            raise Unsupported('expectation in a deterministic context')
        a = ev(expr.args[0], env, box)
        return {k: env.mean(v) for k, v in a.items()}
    if isinstance(expr, sympy.Derivative):
        gamma = list(z)
        for v, n in expr.variable_count:
            if v not in env.coords:
                return {}
            gamma[env.coords.index(v)] += int(n)
        gamma = tuple(gamma)
        a = ev(expr.expr, env, add_idx(box, gamma))
        return t_deriv(a, gamma, box)
    if isinstance(expr, AppliedUndef):
        return _leaf(expr, env, box)
    if isinstance(expr, sympy.Function) and len(expr.args) == 1:
        name = type(expr).__name__
        return t_compose(ev(expr.args[0], env, box), _smooth(name), box, env)
    raise Unsupported('cannot interpret %s: %r' % (type(expr).__name__, str(expr)[:120]))


def _leaf(node, env, box):
    """undefined function applied on coordinates, possibly shifted by steps"""
    name = node.func.__name__
    random = False
    own = []          # (coordinate index, shift Poly or None)
    for a in node.args:
        if a == env.omega:
            random = True
            continue
        if a in env.coords:
            own.append((env.coords.index(a), None))
            continue
        cs = [c for c in env.coords if a.has(c)]
        if len(cs) != 1:
            raise Unsupported('argument %s of %s' % (a, node))
        step = sympy.expand(a - cs[0])
        if step.has(cs[0]):
            raise Unsupported('argument %s of %s' % (a, node))
        sp = ev(step, env)[env.zero()]
        own.append((env.coords.index(cs[0]), sp))
    idx = [i for i, _ in own]
    if len(set(idx)) != len(idx):
        raise Unsupported('repeated coordinate in %s' % node)
    n = len(env.coords)
    shifts = {i: s for i, s in own if s is not None and s.d}

    def jet(alpha):
        for i in range(n):
            if alpha[i] and i not in idx:
                return ZERO
        return env.jet(name, random, alpha)
    if not shifts:
        return t_from_provider(jet, box)
    # Taylor expansion of the shifted function
    out = {}
    si = sorted(shifts)
    N = env.shift_order
    pw = {i: [ONE] for i in si}
    for i in si:
        for _ in range(N):
            pw[i].append(pw[i][-1] * shifts[i])
    for be in below(box):
        s = ZERO
        for ga in iproduct(*[range(N + 1) for _ in si]):
            if sum(ga) > N:
                continue
            al = list(be)
            f = 1
            w = ONE
            for i, k in zip(si, ga):
                al[i] += k
                f *= factorial(k)
                w = w * pw[i][k]
            if not w.d:
                continue
            s = s + jet(tuple(al)) * w * Fraction(1, f)
        out[be] = s * Fraction(1, mfact(be))
    return out


def value(expr, env):
    return t_get(ev(expr, env), env.zero())


# raw Z3 translation (structure-preserving at the top of the expression) ------

def zev(expr, env):
    if not isinstance(expr, sympy.Basic):
        expr = sympy.sympify(expr)
    if isinstance(expr, sympy.Add):
        return zsum([zev(a, env) for a in expr.args])
    if isinstance(expr, sympy.Mul):
        out = None
        for a in expr.args:
            t = zev(a, env)
            out = t if out is None else out * t
        return out
    if isinstance(expr, sympy.Pow) and expr.exp.is_Integer and expr.exp > 0:
        b = zev(expr.base, env)
        out = b
        for _ in range(int(expr.exp) - 1):
            out = out * b
        return out
    return ZL.from_poly(value(expr, env))


# expectation semantics --------------------------------------------------------

_rand = {}


def is_random_var(v):
    r = _rand.get(v)
    if r is None:
        r = vname(v)[0] == 'h'
        _rand[v] = r
    return r


def gram_mean(p):
    """E[.] on polynomials in centred random jets: moments become variables"""
    out = {}
    for m, c in p.d.items():
        det, rnd = [], []
        for v, e in m:
            if is_random_var(v):
                if e < 0:
                    raise Unsupported('inverse of a random quantity')
                rnd.extend([vname(v)[1:]] * e)
            else:
                det.append((v, e))
        if len(rnd) == 1:
            continue                      # centred
        base = Poly({tuple(det): c})
        if rnd:
            base = base * Poly.var(('M', tuple(sorted(rnd))))
        for k, x in base.d.items():
            y = out.get(k, 0) + x
            if y:
                out[k] = y
            else:
                out.pop(k, None)
    return Poly(out)


def binom(a, b):
    r = 1
    for x, y in zip(a, b):
        r *= comb(x, y)
    return r


def leibniz(f, g):
    """provider of the product of two jet providers"""
    memo = {}

    def fg(alpha):
        r = memo.get(alpha)
        if r is None:
            r = ZERO
            for be in below(alpha):
                r = r + f(be) * g(tuple(a - b for a, b in zip(alpha, be))) * binom(alpha, be)
            memo[alpha] = r
        return r
    return fg


def provider_of(tfun, env):
    """jet provider from a function box -> Taylor dict (memoised per alpha)"""
    memo = {}

    def p(alpha):
        r = memo.get(alpha)
        if r is None:
            r = t_get(tfun(alpha), alpha) * mfact(alpha)
            memo[alpha] = r
        return r
    return p
