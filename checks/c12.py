"""C12: finite differences are second-order consistent on the regular grid"""
import random

import sympy
from sympy import Function, Derivative as D, symbols, exp, sin, Rational, Integer
from sympy.core.function import AppliedUndef

from lib import z3q
from lib.harness import Violation
from lib.poly import Poly, ZERO, ONE, vid, truncation
from lib.sem import Env, value

PROPERTY = 'C12'
PLAIN_INPUTS = True
LEVEL = 'translation_validation'
EXPLANATION = (
    'The real finite_difference (and the finite_difference of systems) is applied to expressions with derivatives. Input and '
    'output are evaluated on generic smooth functions (every jet symbolic), all steps being lam * a_x with symbolic ratios; '
    'Z3 decides that every coefficient of lam^k of the difference vanishes for k <= 1 (negative powers included). '
    'Displacements must be integer multiples of the steps and no derivative may remain.')
OUTSIDE = 'expressions outside the listed/generated ones (orders up to 12 in one dimension, up to 9 per coordinate otherwise)'
ASSUMPTIONS = ['smooth functions', 'steps of comparable size tending to zero', 'denominators do not vanish']

t, x, y, z, th = symbols('t x y z theta')
c = symbols('c')
F = lambda n, *a: Function(n)(*a)


def exprs():
    u, v, g = F('u', t, x), F('v', t, x), F('g', x)
    w, h = F('w', t, x, y), F('h', x, y)
    p, q = F('p', t, y, x), F('q', t, y, x)
    r, s = F('r', t, x, y, z), F('s', t, th)
    L1 = [D(u, x, n) for n in range(1, 7)] + [
        u * D(u, x), D(u, x)**2 * v, D(u * v, x), D(u * D(u, x), x), D(exp(u), x), D(u**3, x, 2), D(u, x, 2) / u,
        D(u, t), D(u, t, 2), D(u, t, x), D(u, t, 1, x, 2), D(u, x, 3) + D(u, x) + D(u, x, 2) * D(u, x) * u,
        exp(D(u, x)), 1 / (1 + D(u, x)), D(g * D(u, x), x), c * D(u, x, 4) - u**2 + x * D(v, x, 3), D(g, x, 3) * g,
        D(u, x, 5) * D(v, x), D(u, x, 3)**2, sin(u * D(v, x)), D(u, x, 2)**3, D(D(u, x) * D(v, x, 2), x), D(u, x) * D(u, x, 2) * D(u, x, 3),
        D(u / v, x), D(u, x) / D(v, x), D(u, x, 6) + D(u, x, 4) + D(u, x, 2), u + v * c, D(x**2 * u, x, 2), D(sin(g) * u, x, 2), D(s, th, 3), D(s, th) * s] + [
        D(u, x, n) for n in range(7, 13)] + [D(g, x, 11) * D(u, x, 2), D(D(u, x, 4) * u, x, 4)]
    L2 = [D(w, x, y), D(w, x, 2, y), D(w, x, y, 2), D(w, x, 2, y, 2), D(w, x, 3, y), D(w, x, 3, y, 3), D(w, x, 4, y), D(w, x, y, 4),
          D(w, x, 2) + D(w, y, 2), D(w, x) * D(w, y), D(h * D(w, x), y), D(h * D(w, x), x) + D(h * D(w, y), y), D(w * h, x, y),
          D(w, t, x, y), D(w, x, y)**2 - D(w, x, 2) * D(w, y, 2), w * D(w, x) + h * D(w, y), D(w, x, 4) + 2 * D(w, x, 2, y, 2) + D(w, y, 4),
          D(p, y), D(p, x), D(p, y, x), D(p, y, 2, x), D(q * D(p, x), y), D(p, x, 3, y, 2), D(w, x, y) * D(w, x) * D(w, y), D(D(w, x, y) * w, x), D(w, x, 5, y), D(w, x, 7, y), D(w, x, 2, y, 6), D(w, x, 9, y)]
    L3 = [D(r, x, y, z), D(r, x, 2, z), D(r, y, 2, z, 2), D(r, x, 2) + D(r, y, 2) + D(r, z, 2), D(r, x, y, 2, z), D(r * D(r, z), y), D(r, t, x, z)]
    return dict(d1=L1, d2=L2, d3=L3)


def rand_expr(seed, i):
    rng = random.Random(seed * 7919 + i)
    two = rng.random() < .4
    fs = [F('w', t, x, y), F('h', t, x, y)] if two else [F('u', t, x), F('v', t, x), F('g', x)]
    cs = [x, y] if two else [x]
    e = Integer(0)
    for _ in range(rng.randint(1, 2)):
        m = Rational(rng.choice([-3, -1, 1, 2, 5]), rng.choice([1, 1, 2, 3]))
        budget = 6
        for _ in range(rng.randint(1, 3)):
            f = rng.choice(fs)
            k = rng.random()
            if k < .25:
                m = m * f
                continue
            vs = [(a, n) for a in cs for n in [rng.choice([0, 1, 1, 2, 3])] if n]
            o = sum(n for _, n in vs)
            if not vs or o > budget:
                m = m * f
                continue
            budget -= o
            if k < .4:
                f = f * rng.choice(fs)
            if k > .92:
                f = exp(f)
            m = m * D(f, *vs)
        e = e + m
    return e


def get(src, seed, i):
    return exprs()[src][i] if src in ('d1', 'd2', 'd3') else rand_expr(seed, i)


def cases(tier, seed):
    E = exprs()
    out = []
    for s in ('d1', 'd2', 'd3'):
        n = len(E[s])
        k = 5 if s == 'd1' else 3 if s == 'd2' else 1
        out += [('%s/%d' % (s, a), 'case', dict(src=s, lo=a, hi=min(n, a + k))) for a in range(0, n, k)]
    m = 8 if tier == 'quick' else 80
    out += [('random/%d' % k, 'case', dict(src='random', lo=k * 6, hi=(k + 1) * 6)) for k in range(m)]
    return out + [('system', 'system', {})]


def coords_of(e):
    s = set()
    for f in e.atoms(AppliedUndef):
        s |= set(f.args)
    return tuple(a for a in (t, x, y, z, th) if a in s)


def step(cc):
    return sympy.Symbol('d' + str(cc))


def check_points(out, coords):
    """text when the output has derivatives or evaluates outside the grid"""
    if out.atoms(sympy.Derivative, sympy.Subs):
        return 'derivatives remain in %s' % out
    for f in out.atoms(AppliedUndef):
        for a in f.args:
            cs = [k for k in coords if a.has(k)]
            if len(cs) != 1:
                return 'evaluation at %s' % f
            k = sympy.expand(a - cs[0]).coeff(step(cs[0]))
            if not k.is_Integer or sympy.expand(a - cs[0] - k * step(cs[0])) != 0:
                return 'evaluation at %s is not on the grid' % f
    return None


def depth(out, coords):
    """largest power of the inverse of the steps in a term (nested included)"""
    st = [step(k) for k in coords]
    lam = sympy.Symbol('LAM')
    d = 0
    flat = out.replace(lambda e: isinstance(e, AppliedUndef), lambda e: sympy.Symbol('F_' + str(abs(hash(e)))))
    flat = flat.subs({s: lam for s in st})

    def low(e):
        """lower bound of the valuation in lam, cancellations ignored"""
        if e == lam:
            return 1
        if not e.has(lam):
            return 0
        if isinstance(e, sympy.Add):
            return min(low(a) for a in e.args)
        if isinstance(e, sympy.Mul):
            return sum(low(a) for a in e.args)
        if isinstance(e, sympy.Pow) and e.exp.is_Rational:
            if e.exp > 0 or e.base == lam:
                return int(sympy.floor(low(e.base) * e.exp))
            return 0            # the base is non zero at the limit
        return min([0] + [low(a) for a in e.args])

    def worst(e):
        return min([low(e)] + [worst(a) for a in e.args])
    return max(0, -worst(flat))


def decide(e, out, key, replay, args):
    coords = coords_of(e)
    txt = check_points(out, coords)
    if txt:
        raise Violation(key, 'finite_difference(%s): %s' % (e, txt), replay, args)
    lam = ('q', 'LAM')
    N = depth(out, coords) + 1
    if any(isinstance(q, sympy.Pow) and q.exp.is_negative and q.base.atoms(AppliedUndef) for q in out.atoms(sympy.Pow)):
        N += 6          # precision lost in quotients of small quantities
    with truncation(single={vid(lam): N}):
        env = Env(coords)
        env.shift_vars = {step(k): Poly.var(lam) * Poly.var(('q', 'a_' + str(k))) for k in coords}
        env.shift_order = N
        env.laurent = vid(lam)
        got = value(out, env).coeffs(vid(lam))
        want = value(e, Env(coords))
    n = 0
    for k in sorted(set(got) | {0, 1}):
        if k > 1:
            continue
        ok, m = z3q.equal(got.get(k, ZERO), want if k == 0 else ZERO)
        n += 1
        if not ok:
            raise Violation(key, 'finite_difference(%s) = %s: the terms of order %d in the step %s' % (
                e, str(out)[:500], k, 'differ from the derivative' if k == 0 else 'do not vanish'), replay, args)
    return n


def case(ctx, src, lo, hi):
    from sympkf.symbolic.finite_difference import finite_difference
    ctx.fn('finite_difference', 'finite_difference_derivative', 'get_subs_derivative')
    for i in range(lo, hi):
        e = get(src, ctx.seed, i)
        args = dict(src=src, seed=ctx.seed, i=i)
        key = '%s/%s' % (src, e)
        try:
            out = finite_difference(e)
        except Exception as err:
            raise Violation(key, 'finite_difference(%s) raises %r' % (e, err), 'r_fd', args)
        ctx.programs += 1
        decide(e, out, key, 'r_fd', args)
        ctx.obligation(key)
        ctx.sample('forall jets, steps lam*a: %s -> %s differ by O(lam^2)' % (e, str(out)[:200]))
    ctx.bound(source=src, expressions=[lo, hi])


def sysdef():
    u, v, k = F('u', t, x), F('v', t, x), F('k', x)
    w = F('w', t, x, y)
    return [
        [(D(u, t), -u * D(u, x) + c * D(u, x, 2)), (D(v, t), D(k * D(v, x), x) - D(u * v, x))],
        [(D(w, t), D(w, x, y) + D(w, x, 2))],
        [(D(v, t), D(u, x, 3)), (D(u, t), D(v, x, 3) * u), (D(k, x), D(u, x, 4))][:2],
    ]


def run_system(i, how):
    from sympkf.symbolic.util import Eq, PDESystem
    from sympkf.symbolic.finite_difference import finite_difference_system
    eqs = [Eq(a, b) for a, b in sysdef()[i]]
    out = PDESystem(eqs).finite_difference if how == 'pde' else finite_difference_system(eqs)
    if len(out) != len(eqs):
        raise ValueError('%d equations' % len(out))
    for a, b in zip(eqs, out):
        if a.args[0] != b.args[0]:
            raise ValueError('left-hand side %s became %s' % (a.args[0], b.args[0]))
    return [(a.args[1], b.args[1]) for a, b in zip(eqs, out)]


def system(ctx):
    ctx.fn('PDESystem.finite_difference', 'finite_difference_system')
    for i in range(len(sysdef())):
        for how in ('pde', 'function'):
            args = dict(i=i, how=how)
            try:
                prs = run_system(i, how)
            except Exception as err:
                raise Violation('system/%d/%s' % (i, how), repr(err), 'r_sys', args)
            for e, out in prs:
                ctx.programs += 1
                decide(e, out, 'system/%d/%s' % (i, how), 'r_sys', args)


# -- replay ---------------------------------------------------------------------

def differs(e, out):
    coords = coords_of(e)
    txt = check_points(out, coords)
    if txt:
        return True, 'finite_difference(%s): %s' % (e, txt)
    lam = sympy.Symbol('lam')
    for seed in range(4):
        rng = random.Random(seed)
        ratio = {k: Rational(rng.randint(1, 5), rng.randint(1, 3)) for k in coords}
        pt = {k: Rational(rng.randint(-3, 3), 4) for k in coords}
        top = max([6] + [n for d in e.atoms(sympy.Derivative) for _, n in d.variable_count])
        deg = top if len(coords) < 4 else 3
        fun = {}
        for f in e.atoms(AppliedUndef):
            fun[f.func] = (f.args, sum(Rational(rng.randint(-4, 4), 3) * sympy.Mul(*[k**rng.randint(0, deg) for k in f.args])
                                       for _ in range(10)) + rng.randint(2, 5))

        def conc(g):
            return g.replace(lambda a: isinstance(a, AppliedUndef),
                             lambda a: fun[a.func][1].subs(dict(zip(fun[a.func][0], a.args)), simultaneous=True))
        cst = {s: Rational(3, 7) for s in (c,)}
        want = conc(e).doit().subs(cst).subs(pt)
        got = conc(out).subs(cst).subs(pt)
        h = Rational(1, 10**10)
        val = sympy.N(got.subs({step(k): ratio[k] * h for k in coords}), 120)
        want = sympy.N(want, 120)
        if not (val.is_finite and want.is_finite):
            continue
        err = abs(val - want)
        if err > (1 + abs(want)) * sympy.Float('1e-14'):
            return True, 'finite_difference(%s) = %s on polynomial functions, steps %s/10^10: value %s, derivative %s, error %s' % (
                e, out, ratio, sympy.N(val, 20), sympy.N(want, 20), sympy.N(err, 5))
    return False, 'second order'


def r_fd(src, seed, i):
    from sympkf.symbolic.finite_difference import finite_difference
    e = get(src, seed, i)
    try:
        out = finite_difference(e)
    except Exception as err:
        return True, 'finite_difference(%s) raises %r' % (e, err)
    return differs(e, out)


def r_sys(i, how):
    try:
        prs = run_system(i, how)
    except Exception as err:
        return True, repr(err)
    for e, out in prs:
        bad, txt = differs(e, out)
        if bad:
            return True, txt
    return False, 'ok'
