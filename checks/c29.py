"""C29: comparison of expressions and equations, inspection of equations and matrices"""
import itertools
import random

import sympy
from sympy import Derivative as D, Function, symbols, Integer, Rational, sin, exp, S

from lib import z3q
from lib.harness import Violation
from lib.poly import Poly, ZERO
from lib.sem import Env, value

PROPERTY = 'C29'
PLAIN_INPUTS = True
LEVEL = 'translation_validation'
EXPLANATION = (
    'The real comparison is run on couples of expressions (families and random ones); every term of its result is evaluated on symbolic '
    'values (every jet of the functions is a real): Z3 decides for all values that the common and the specific terms recompose each '
    'expression, and that no term of one specific part is a term of the other. Triangles are taken of matrices of symbolic values.')
OUTSIDE = 'terms that are equal without having the same expanded form; equations with mixed time derivatives (trends)'
ASSUMPTIONS = ['smooth functions']

t, x, y = symbols('t x y')
a, b, c, d, k = symbols('a b c d k')
u, v, w = [Function(n)(t, x) for n in 'uvw']
MONO = [a, b * c, a * d, S.One, a**2, u * D(u, x), D(u, x, 2), k * D(v, x), u * v, sin(a) * u, D(u, t), exp(b), D(u, x)**2, a * u * v]


def cases(tier, seed):
    out = [('overlap/%d' % m, 'overlap', dict(lo=m)) for m in range(4)]
    out += [('forms', 'forms', {}), ('equations', 'equations', {}), ('triangles', 'triangles', dict(N=5 if tier == 'quick' else 8)), ('trends', 'trends', {})]
    out += [('random/%d' % i, 'rand', dict(lo=i * 12, hi=i * 12 + 12)) for i in range(3 if tier == 'quick' else 30)]
    return out


def compare(e1, e2):
    from sympkf.symbolic.util import CompareExpression
    cmp = CompareExpression(e1, e2)
    s1, s2 = cmp.specific
    return set(cmp.common), set(s1), set(s2)


def terms_value(ts, env):
    s = ZERO
    for q in ts:
        s = s + value(q, env)
    return s


def judge(ctx, e1, e2, key, args, got=None):
    text = 'comparison of %s and %s' % (e1, e2)
    try:
        com, s1, s2 = got if got is not None else compare(e1, e2)
        env = Env((t, x))
        vals = {q: value(q, env) for q in com | s1 | s2}
        for e, s, lab in ((e1, s1, 'first'), (e2, s2, 'second')):
            total = ZERO
            for q in com | s:
                total = total + vals[q]
            ok, _ = z3q.equal(total, value(e, env))
            if not ok:
                raise Violation(key, '%s: common %s and specific %s do not recompose the %s' % (text, com, s, lab), 'r_cmp', args)
    except (Violation, z3q.Inconclusive):
        raise
    except Exception as err:
        raise Violation(key, '%s: %r' % (text, err), 'r_cmp', args)
    for A, B, lab in ((s1, s2, 'both specific parts'), (s1, com, 'common and specific to the first'), (s2, com, 'common and specific to the second')):
        for p, q in itertools.product(A, B):
            if not vals[p].d or not vals[q].d:
                continue
            same, _ = z3q.equal(vals[p], vals[q], witness=False)
            if same:
                raise Violation(key, '%s: %s in %s' % (text, p, lab), 'r_cmp', args)
    for A, other, lab in ((s1, e2, 'second'), (s2, e1, 'first')):
        for p, q in itertools.product(A, sympy.Add.make_args(sympy.expand(other))):
            if vals[p].d and value(q, env).d and z3q.equal(vals[p], value(q, env), witness=False)[0]:
                raise Violation(key, '%s: the specific term %s is a term of the %s' % (text, p, lab), 'r_cmp', args)
    ctx.programs += 1
    ctx.obligation(key)
    ctx.sample('forall values: %s = sum of common %s and specific %s' % (e1, com, s1))


def pair(i, j, r1, r2):
    """sums of r1 (r2) monomials starting at i (j)"""
    n = len(MONO)
    coef = [1, -1, 2, Rational(1, 3)]
    e1 = sympy.Add(*[coef[q % 4] * MONO[(i + q) % n] for q in range(r1)])
    e2 = sympy.Add(*[coef[(q + j - i) % 4] * MONO[(j + q) % n] for q in range(r2)])
    return e1, e2


def overlap(ctx, lo):
    ctx.fn('CompareExpression.sets', 'CompareExpression.common', 'CompareExpression.specific')
    for i in range(lo, len(MONO), 4):
        for sh in (0, 1, 2, 4, 5):
            for r1, r2 in ((1, 1), (1, 3), (3, 1), (3, 3), (4, 2), (0, 2), (2, 0)):
                e1, e2 = pair(i, i + sh, r1, r2)
                judge(ctx, e1, e2, 'overlap/%d/%d/%d/%d' % (i, sh, r1, r2), dict(kind='overlap', p=[i, i + sh, r1, r2]))
    ctx.bound(terms='0..4 by expression, every overlap')


FORMS = [
    ((a + b) * (c - d), a * c - b * d), ((a + b)**2, (a - b)**2), (a * (u + D(u, x)), a * u), (Integer(0), a), (Integer(0), Integer(0)),
    (a, a), (a + b, a + b), (a - b, b - a), (Integer(2), Integer(3) + a), (a + 2, a + 3), (2 * a, 3 * a), (2 * a + b, 3 * a + b),
    (u * D(u, x) + k * D(u, x, 2), k * D(u, x, 2)), ((u + v)**3, u**3 + v**3), (a / b + c / b, (a + c) / b), (D(u, x) + D(v, x), D(v, x) - D(u, x)),
    (a * (b + c * (d + k)), a * b + a * c * d + a * c * k), (a * (b + c * (d + k)), a * b + a * c * d), (u * (v + (w + k) * (a + b)) + c, u * v + c),
    (sin(a * (b + c)), sin(a * b + a * c)), (exp(a + b), exp(a) * exp(b)), ((u * (a + b))**2, u**2 * a**2), (D(u * v, x).doit() * (a - b), a * u * D(v, x)),
    (a * (b + c), a * (b + c)), ((u + v)**2, (u + v)**2), ((a + b) * (u - v) / c, (a + b) * (u - v) / c), (a * (b + c), -a * (b + c)),
    ((a + b) / (c + d), a / (c + d)), ((a * (b + c) + d)**2, d**2),
]


def forms(ctx):
    ctx.fn('CompareExpression.sets')
    for n, (e1, e2) in enumerate(FORMS):
        judge(ctx, e1, e2, 'forms/%d' % n, dict(kind='forms', p=[n, 0]))
        judge(ctx, e2, e1, 'forms/%d/swapped' % n, dict(kind='forms', p=[n, 1]))


EQS = [((D(u, t), -u * D(u, x) + k * D(u, x, 2)), (D(u, t) + u * D(u, x), k * D(u, x, 2))), ((a + b, c), (a, c - b)), ((a, b), (a, b)),
       ((D(u, t), D(v, x)), (D(v, t), D(v, x) + D(u, x)))]


def compare_eq(n):
    from sympkf.symbolic.util import CompareEquation, Eq
    p, q = [Eq(*s) for s in EQS[n]]
    r = CompareEquation(p, q)
    out = []
    for side, cmp in ((0, r.lhs), (1, r.rhs)):
        s1, s2 = cmp.specific
        out.append((p.args[side], q.args[side], (set(cmp.common), set(s1), set(s2))))
    return out


def equations(ctx):
    ctx.fn('CompareEquation')
    for n in range(len(EQS)):
        args = dict(kind='eq', p=[n])
        try:
            rows = compare_eq(n)
        except Exception as err:
            raise Violation('equations/%d' % n, 'comparison of the equations %s: %r' % (EQS[n], err), 'r_cmp', args)
        for side, (e1, e2, got) in enumerate(rows):
            judge(ctx, e1, e2, 'equations/%d/%s' % (n, 'lr'[side]), args, got)


def rand_pair(seed, i):
    rng = random.Random(seed * 7919 + i)
    pool = rng.sample(MONO, 6)

    def expr():
        e = sympy.Add(*[rng.choice([1, -1, 2]) * m for m in pool if rng.random() < .5])
        return e * rng.choice([a, u, c + 1, S.One]) if rng.random() < .4 else e
    return expr(), expr()


def rand(ctx, lo, hi):
    ctx.fn('CompareExpression.common', 'CompareExpression.specific')
    for i in range(lo, hi):
        e1, e2 = rand_pair(ctx.seed, i)
        judge(ctx, e1, e2, 'random/%d/%d' % (ctx.seed, i), dict(kind='random', p=[ctx.seed, i]))


def example(kind, p):
    return pair(*p) if kind == 'overlap' else rand_pair(*p) if kind == 'random' else FORMS[p[0]][::-1] if p[1] else FORMS[p[0]]


def r_cmp(kind, p):
    """structural decision"""
    try:
        rows = compare_eq(*p) if kind == 'eq' else [example(kind, p) + (None,)]
        for e1, e2, got in rows:
            com, s1, s2 = got if got is not None else compare(e1, e2)
            for e, s in ((e1, s1), (e2, s2)):
                gap = sympy.expand(sympy.Add(*(com | s)) - e)
                if gap != 0:
                    return True, 'comparison of %s and %s: common %s, specific %s: residual %s' % (e1, e2, com, s, gap)
            for A, B in ((s1, s2), (s1, com), (s2, com)):
                for q in A:
                    if q != 0 and any(sympy.expand(q - r) == 0 for r in B):
                        return True, 'comparison of %s and %s: %s in two parts' % (e1, e2, q)
            for A, e in ((s1, e2), (s2, e1)):
                for q in A:
                    if q != 0 and any(sympy.expand(q - r) == 0 for r in sympy.Add.make_args(sympy.expand(e))):
                        return True, 'comparison of %s and %s: the specific term %s is a term of the other' % (e1, e2, q)
    except Exception as err:
        return True, repr(err)
    return False, 'ok'


# -- triangles -----------------------------------------------------------------------

def matrices(n, m):
    X = [[symbols('m_%d_%d' % (i, j)) for j in range(m)] for i in range(n)]
    return X


def triangle(n, m, how):
    from sympkf.symbolic.util import upper_triangle, Matrix
    X = matrices(n, m)
    if how == 'property':
        return X, list(Matrix(X).upper_triangle)
    return X, list(upper_triangle({'function': Matrix, 'sympy': sympy.Matrix, 'immutable': sympy.ImmutableMatrix}[how](X)))


def entries(X, n, m):
    return [X[i][j] for i in range(n) for j in range(i, m)]


def triangles(ctx, N):
    ctx.fn('upper_triangle', 'Matrix.upper_triangle')
    for n, m in [(n, m) for n in range(1, N + 1) for m in (n, n + 1, n + 2, n - 1) if m]:
        for how in ('function', 'sympy', 'immutable', 'property'):
            key, args = 'triangle/%dx%d/%s' % (n, m, how), dict(n=n, m=m, how=how)
            try:
                X, got = triangle(n, m, how)
            except Exception as err:
                raise Violation(key, '%s: %r' % (key, err), 'r_tri', args)
            want = entries(X, n, m)
            if len(got) != len(want):
                raise Violation(key, '%d entries in the triangle of a %dx%d matrix' % (len(got), n, m), 'r_tri', args)
            env = Env(())
            for g, e in zip(got, want):
                ok, _ = z3q.equal(value(g, env), value(e, env), witness=False)
                if not ok:
                    raise Violation(key, '%s in place of %s in the triangle of a %dx%d matrix' % (g, e, n, m), 'r_tri', args)
            ctx.obligation(key)
    ctx.bound(matrix_size='1..%d rows, up to 2 more columns' % N)
    ctx.sample('forall entries: upper_triangle(m) = (m_ij, i <= j, by rows)')


def r_tri(n, m, how):
    try:
        X, got = triangle(n, m, how)
    except Exception as err:
        return True, repr(err)
    return got != entries(X, n, m), str(got)


# -- trends --------------------------------------------------------------------------

TERMS = [D(u, t), D(v, t), u * D(u, x), D(v, x, 2), k * D(u, t), x * w, D(u, x, 2) * D(w, t)**2]


def trend_of(lhs, rhs):
    from sympkf.symbolic.util import get_trend
    return get_trend(sympy.Eq(lhs, rhs))


def trend_cases():
    for lhs in (D(u, t), u, a * D(v, t) + u):
        for r in range(3):
            for rhs in itertools.combinations(TERMS, r):
                yield lhs, sympy.Add(*rhs)


def trends(ctx):
    """a derivative is a trend iff the equation depends on it: decided on the values"""
    ctx.fn('get_trend')
    for n, (lhs, rhs) in enumerate(trend_cases()):
        if not isinstance(sympy.Eq(lhs, rhs), sympy.Eq):
            continue
        args = dict(n=n)
        env = Env((t, x))
        L, R = value(lhs, env), value(rhs, env)
        want = set()
        for f in (u, v, w):
            (one,) = value(D(f, t), env).d
            ((var, _),) = one
            for P in (L, R):
                if var in P.vars():
                    # the side takes two values at least
                    q = P.coeffs(var)
                    same, _ = z3q.equal(P, q.get(0, ZERO), witness=False)
                    if not same:
                        want.add(D(f, t))
        try:
            got = trend_of(lhs, rhs)
            got = {got} if isinstance(got, D) else set(got)
        except Exception as err:
            raise Violation('trend/%d' % n, 'trend of %s = %s: %r' % (lhs, rhs, err), 'r_trend', args)
        if got != want:
            raise Violation('trend/%d' % n, 'trends %s of %s = %s' % (got, lhs, rhs), 'r_trend', args)
        if len(want) == 1 and not isinstance(trend_of(lhs, rhs), D):
            raise Violation('trend/%d' % n, 'the single trend of %s = %s is returned as %r' % (lhs, rhs, trend_of(lhs, rhs)), 'r_trend', args)
        ctx.obligation('trend/%d' % n)
    ctx.sample('the trends of an equation are the first time derivatives its sides depend on')


def r_trend(n):
    lhs, rhs = list(trend_cases())[n]
    want = {D(f, t) for f in (u, v, w) if D(f, t) in lhs.atoms(D) | rhs.atoms(D)}
    try:
        got = trend_of(lhs, rhs)
        as_set = {got} if isinstance(got, D) else set(got)
    except Exception as err:
        return True, repr(err)
    return as_set != want or (len(want) == 1 and not isinstance(got, D)), 'trend of %s = %s: %s' % (lhs, rhs, got)
