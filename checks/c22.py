"""C22: equation algebra"""
import random
from fractions import Fraction

import sympy
from sympy import Derivative as D, Function, symbols, Integer, Rational, sin, exp

from lib import z3q
from lib.harness import Violation
from lib.poly import Poly, ZERO, ONE, vid
from lib.sem import Env, ev, value, t_get, mfact
from lib.z3q import z3, Inconclusive, as_zl, clear

PROPERTY = 'C22'
PLAIN_INPUTS = True
LEVEL = 'translation_validation'
EXPLANATION = (
    'Programs of the equation algebra (sums, differences, opposites, products by the left, the right and side by side, substitution, '
    'expansion, evaluation, isolation and their compositions) are run by the real Eq on families of equations, generic symbols '
    'included. Both sides of the result are evaluated on symbolic values (every jet of the functions is a real): Z3 decides that '
    'they are the sides of the specification for all values; for isolation, that the two equations have the same solutions.')
OUTSIDE = 'isolation of unknowns occurring non linearly (one of the roots is kept); operations on an equation that reduced to True/False'
ASSUMPTIONS = ['coefficients of the isolated unknown do not vanish', 'smooth functions']

t, x = symbols('t x')
a, b, c, d, k, m = symbols('a b c d k m')
u, v, w = [Function(n)(t, x) for n in 'uvw']

FAMILIES = {
    'symbols': (lambda E: (E(a, b), E(c, d), m)),
    'shared': (lambda E: (E(a, b), E(b, c), a)),
    'opposite': (lambda E: (E(a, b), E(b, a), Integer(2))),
    'same': (lambda E: (E(a, b * c), E(a, b * c), Rational(1, 3))),
    'poly': (lambda E: (E(a + 2 * b * c, d**2 - 1), E(c - a, Rational(3, 2)), a * c)),
    'products': (lambda E: (E((a + b) * (c - d), (a + 1)**3), E(c * (a - b), d), a - b)),
    'pde': (lambda E: (E(D(u, t) + u * D(u, x), k * D(u, x, 2)), E(D(v, t), D(u * v, x)), D(v, x))),
    'pde2': (lambda E: (E(D(u, t), -u * D(v, x) + k * D(u, x, 2) * v), E(D(v, t), D(v * D(u, x), x) + x * t * v), u)),
    'functions': (lambda E: (E(sin(a) * u, exp(b) + v), E(a * u - v, c), u - v)),
    'numbers': (lambda E: (E(a, Integer(3)), E(Integer(0), b), Integer(-1))),
    'zero': (lambda E: (E(a - b, Integer(0)), E(c, Integer(0)), Integer(5))),
}


class Pair(object):
    """sides of the specification, as functions Env -> Poly"""

    def __init__(self, l, r):
        self.l, self.r = l, r

    @staticmethod
    def of(eq):
        return Pair(lambda env: value(eq.args[0], env), lambda env: value(eq.args[1], env))

    def op(self, o, f):
        if isinstance(o, Pair):
            return Pair(lambda e: f(self.l(e), o.l(e)), lambda e: f(self.r(e), o.r(e)))
        g = lambda e: value(o, e)
        return Pair(lambda e: f(self.l(e), g(e)), lambda e: f(self.r(e), g(e)))

    def __add__(self, o):
        return self.op(o, lambda p, q: p + q)

    def __sub__(self, o):
        return self.op(o, lambda p, q: p - q)

    def __mul__(self, o):
        return self.op(o, lambda p, q: p * q)
    __rmul__ = __mul__

    def __neg__(self):
        return Pair(lambda e: -self.l(e), lambda e: -self.r(e))

    def same(self):
        return self
    expand = doit = same

    def subs(self, *args, simultaneous=False):
        table = args[0] if len(args) == 1 else [args]
        mv = moved
        if isinstance(table, list):         # one after the other
            def mv(env, table):
                for key, val in reversed(table):
                    env = moved(env, {key: val})
                return env
        return Pair(lambda e: self.l(mv(e, table)), lambda e: self.r(mv(e, table)))


def moved(env, table):
    """environment in which the substituted objects have their new value"""
    new = Env(env.coords)
    new.consts = dict(env.consts)
    new.providers = dict(env.providers)
    for key, val in (table.items() if isinstance(table, dict) else table):
        val = sympy.sympify(val)
        if isinstance(key, sympy.Symbol):
            new.consts[key] = value(val, env)
        elif isinstance(key, D):          # the trend of a function
            f = key.args[0]
            n0 = tuple(sum(q for s, q in key.variable_count if s == cc) for cc in env.coords)
            old = env.providers.get((f.func.__name__, False))

            def p(al, val=val, f=f, n0=n0, old=old):
                rest = tuple(i - j for i, j in zip(al, n0))
                if min(rest) < 0:
                    return old(al) if old else env.jet(f.func.__name__, False, al)
                return t_get(ev(val, env, rest), rest) * mfact(rest)
            new.providers[(f.func.__name__, False)] = p
        else:
            new.providers[(key.func.__name__, False)] = lambda al, val=val: t_get(ev(val, env, al), al) * mfact(al)
    return new


def imul(e, q):
    e *= q
    return e


# name -> program of (e, f, q): run by the real Eq and by the specification
PROGRAMS = {
    'add': lambda e, f, q: e + f,
    'sub': lambda e, f, q: e - f,
    'neg': lambda e, f, q: -e,
    'mul': lambda e, f, q: e * q,
    'rmul': lambda e, f, q: q * e,
    'imul': lambda e, f, q: imul(e, q),
    'two': lambda e, f, q: Integer(2) * e,
    'int': lambda e, f, q: e * 3,
    'intleft': lambda e, f, q: 3 * e,
    'half': lambda e, f, q: Rational(1, 2) * e - f * Rational(1, 2),
    'product': lambda e, f, q: e * f,
    'iproduct': lambda e, f, q: imul(e, f),
    'combination': lambda e, f, q: e * q + f * 2 - (-e),
    'nested': lambda e, f, q: (e - f) * q + e * f,
    'expand': lambda e, f, q: e.expand(),
    'expandmul': lambda e, f, q: (e * q).expand(),
    'doit': lambda e, f, q: f.doit(),
    'all': lambda e, f, q: (e * q - f).doit().expand(),
}
SUBS = {
    'symbol': {a: b + 1}, 'several': {a: c, b: d}, 'swap': {a: b * 0 + c, d: Integer(2)}, 'zero': {b: 0}, 'identify': {a: b},
    'function': {u: v + k}, 'product': {u: v * w}, 'constant': {u: Integer(0)}, 'trend': {D(u, t): D(u, x, 2) - u}, 'trends': {D(u, t): -u * D(u, x), D(v, t): D(v, x)},
    'nested': {v: u * D(u, x)},
    'two': ('two', a, b * c), 'twofunction': ('two', u, v * k), 'pairs': [(a, b), (c, d + 1)], 'chain': [(a, b), (b, c), (c, 2 * d)],
    'shift': [(c, d), (b, c), (a, b)], 'shiftfunctions': [(w, k), (v, w), (u, v)], 'back': [(a, c), (b, a), (c, b)], 'functions': [(u, v * a), (v, w), (a, k)], 'exchange': ('sim', {a: b, b: a}), 'cycle': ('sim', {a: b + d, b: c * a, c: a}),
    'exchangefunctions': ('sim', {u: v, v: u}), 'trendstwo': ('two', D(u, t), -u * D(u, x)),
}


def substituted(obj, how):
    """obj.subs in one of its forms"""
    if isinstance(how, tuple) and how[0] == 'two':
        return obj.subs(how[1], how[2])
    if isinstance(how, tuple):
        return obj.subs(how[1], simultaneous=True)
    return obj.subs(how)


def unknowns():
    """isolation: name -> (equation sides, unknown)"""
    E = lambda l, r: (l, r)
    return {
        'symbol': (E(a + b, c), a), 'both': (E(a * b + c, d - 2 * a), a), 'right': (E(c, d + 3 * a * k), a), 'scaled': (E(a * b * c, d), b),
        'alone': (E(a, b * c), a), 'rational': (E(a / 3 + b / k, c), b), 'trend': (E(D(u, t) + u * D(u, x), 0 * u), D(u, t)),
        'derivative': (E(D(u, t) + u * D(u, x), k * D(u, x, 2)), D(u, x)), 'second': (E(D(u, t) + u * D(u, x), k * D(u, x, 2)), D(u, x, 2)),
        'function': (E(u * v - w, k * u), u), 'mixed': (E(D(u, t, x) + D(u, t) * v, D(u, x)), D(u, t)), 'chain': (E(2 * u * D(u, t), v), D(u, t)),
        'std': (E(2 * v * D(v, t), -2 * v * D(u, x) * v + k * v * D(v, x)), D(v, t)), 'zero': (E(a * b, 0 * a), a), 'sin': (E(sin(a) * b + exp(c), d), b),
        'expanded': (E((a + b) * (c + d), (a - b) * k), a), 'power': (E(a**2 * b, c + a * b), b)
    }


def cases(tier, seed):
    out = [('algebra/%s' % f, 'algebra', dict(fam=f)) for f in FAMILIES]
    out += [('subs/%s' % f, 'subst', dict(fam=f)) for f in FAMILIES]
    out += [('isolate', 'isolate', dict(lo=0, hi=99))]
    n = 6 if tier == 'quick' else 40
    out += [('random/%d' % i, 'rand', dict(lo=i * 8, hi=i * 8 + 8)) for i in range(n)]
    return out


def real(fam):
    from sympkf.symbolic.util import Eq
    return FAMILIES[fam](lambda l, r: Eq(l, r))


def sides(r):
    """(lhs, rhs) | True | False"""
    if r is True or r is False or r in (sympy.true, sympy.false):
        return bool(r)
    from sympkf.symbolic.util import Eq
    if not isinstance(r, Eq):
        raise TypeError('the result is %r, not an equation' % r)
    for e in r.args:
        if not isinstance(e, sympy.Expr) or e.has(sympy.core.relational.Relational):
            raise TypeError('the side %s of the result is not an expression' % (e,))
    return r.args


def judge(r, want, key, text, replay, args):
    """decide the sides of a result"""
    env = Env((t, x))
    L, R = want.l(env), want.r(env)
    try:
        s = sides(r)
    except TypeError as err:
        raise Violation(key, '%s: %s' % (text, err), replay, args)
    if isinstance(s, bool):
        # trivial equation: always (never) satisfied
        zl, zr = as_zl(L), as_zl(R)
        (p, q), _ = clear(zl, zr)
        verdict, mod = z3q.check([p != q if s else p == q])
        if verdict == 'unknown':
            raise Inconclusive('unknown')
        if verdict == 'sat':
            raise Violation(key, '%s is %s whereas its sides %s' % (text, s, 'may differ' if s else 'may be equal'), replay, args)
        return
    for nm, e, wv in (('left', s[0], L), ('right', s[1], R)):
        ok, mod = z3q.equal(value(e, env), wv)
        if not ok:
            raise Violation(key, '%s has the %s-hand side %s' % (text, nm, str(e)[:400]), replay, args)


def run_prog(prog, fam):
    e, f, q = real(fam)
    before = (e.args, f.args)
    r = PROGRAMS[prog](e, f, q)
    if (e.args, f.args) != before:
        raise AssertionError('the operands are modified')
    return e, f, q, r


def algebra(ctx, fam):
    ctx.fn('Eq.__mul__', 'Eq.__rmul__', 'Eq.__imul__', 'Eq.__add__', 'Eq.__sub__', 'Eq.__neg__', 'Eq.expand', 'Eq.doit')
    for prog in PROGRAMS:
        if trivial(prog, fam):
            ctx.skipped += 1
            continue
        key = '%s/%s' % (prog, fam)
        args = dict(kind='algebra', prog=prog, fam=fam)
        try:
            e, f, q, r = run_prog(prog, fam)
        except Exception as err:
            raise Violation(key, '%s of the equations %s: %r' % (prog, fam, err), 'r_eq', args)
        judge(r, PROGRAMS[prog](Pair.of(e), Pair.of(f), q), key, '%s of %s, %s, %s' % (prog, e, f, q), 'r_eq', args)
        ctx.programs += 1
        ctx.obligation(key)
        ctx.sample('forall values: %s of %s, %s gives %s' % (prog, e, f, str(r)[:150]))


def trivial(prog, fam):
    """an intermediate result that reduces to True is outside"""
    return fam in ('opposite', 'same') and prog in ('combination', 'nested', 'all', 'half')


def run_subs(name, fam, later):
    e, f, q = real(fam)
    r = (e + f * q) if later else e
    return e, f, q, substituted(r, SUBS[name])


def subst(ctx, fam):
    ctx.fn('Eq.subs')
    for name in SUBS:
        for later in (False, True):
            if later and fam in ('opposite', 'same'):
                continue
            key = 'subs/%s/%s/%s' % (name, fam, later)
            args = dict(kind='subs', prog=name, fam=fam, later=later)
            try:
                e, f, q, r = run_subs(name, fam, later)
            except Exception as err:
                raise Violation(key, 'substitution %s in %s: %r' % (SUBS[name], fam, err), 'r_eq', args)
            P = Pair.of(e) + Pair.of(f) * q if later else Pair.of(e)
            judge(r, substituted(P, SUBS[name]), key, 'substitution %s in %s' % (SUBS[name], e), 'r_eq', args)
            ctx.programs += 1
            ctx.obligation(key)


def run_isolate(name):
    from sympkf.symbolic.util import Eq
    (l, r), un = unknowns()[name]
    e = Eq(l, r)
    return e, un, e.isolate(un)


def isolate(ctx, lo, hi):
    ctx.fn('Eq.isolate')
    for name in list(unknowns())[lo:hi]:
        key, args = 'isolate/' + name, dict(kind='isolate', prog=name, fam=None)
        try:
            e, un, r = run_isolate(name)
            l, s = sides(r)
        except Exception as err:
            raise Violation(key, 'isolation of %s: %r' % (name, err), 'r_eq', args)
        if l != un:
            raise Violation(key, 'isolation of %s in %s gives %s' % (un, e, r), 'r_eq', args)
        env = Env((t, x))
        L, R, U, S = [value(q, env) for q in (e.args[0], e.args[1], un, s)]
        (U1,) = U.d
        (uv, one), = U1
        if uv in S.vars():
            raise Violation(key, 'the unknown remains in %s' % r, 'r_eq', args)
        co = (L - R).coeffs(uv)
        if set(co) - {0, 1}:
            raise Inconclusive('%s is not linear in %s' % (e, un))
        slope = as_zl(co[1])
        (z_l, z_r), _ = clear(as_zl(L), as_zl(R))
        (z_u, z_s), _ = clear(as_zl(U), as_zl(S))
        (z_c, z_0), _ = clear(slope, as_zl(ZERO))
        us = set()
        for p in (L, R, S, co[1]):
            us |= {q for mm in p.d for q, ex in mm if ex < 0 or q in z3q_inverses()}
        pre = [z_c != z_0] + z3q.inverse_axioms(us)
        verdict, mod = z3q.check(pre + [(z_l == z_r) != (z_u == z_s)])
        if verdict == 'unknown':
            raise Inconclusive('unknown')
        if verdict == 'sat':
            raise Violation(key, 'isolation of %s in %s gives %s, which has other solutions' % (un, e, r), 'r_eq', args)
        ctx.programs += 1
        ctx.obligation(key)
        ctx.sample('forall values with a non-zero coefficient: %s <=> %s' % (e, r))


def z3q_inverses():
    from lib.poly import INVERSES, ROOTS
    return set(INVERSES) | set(ROOTS)


# -- random programs ----------------------------------------------------------------

def rand_tree(seed, i):
    rng = random.Random(seed * 104729 + i)
    pde = rng.random() < .5
    S = [u, v, D(u, x), D(v, x), k, D(u, x, 2), x] if pde else [a, b, c, d, k]

    def poly():
        return sympy.Add(*[rng.choice([1, -2, 3, Rational(1, 2)]) * sympy.Mul(*[rng.choice(S) for _ in range(rng.randint(1, 3))]) for _ in range(rng.randint(1, 3))])

    def leaf(n):
        l = [D(u, t), D(v, t)][n] if pde and rng.random() < .7 else poly()
        return l, poly()
    eqs = [leaf(0), leaf(1)]

    def node(depth):
        r = rng.random()
        if depth == 0 or r < .15:
            return ['eq', rng.randint(0, 1)]
        op = rng.choice(['add', 'sub', 'neg', 'mul', 'rmul', 'prod', 'expand', 'doit', 'subs'])
        if op in ('add', 'sub', 'prod'):
            return [op, node(depth - 1), node(depth - 1)]
        if op in ('mul', 'rmul'):
            return [op, node(depth - 1), poly()]
        if op == 'subs':
            key = rng.choice([u, v]) if pde else rng.choice([a, b])
            return [op, node(depth - 1), {key: poly()}]
        return [op, node(depth - 1)]
    return eqs, node(3)


def play(tree, eqs):
    op = tree[0]
    if op == 'eq':
        return eqs[tree[1]]
    e = play(tree[1], eqs)
    if isinstance(e, bool) or e in (sympy.true, sympy.false):
        raise Reduced()
    if op in ('add', 'sub', 'prod'):
        f = play(tree[2], eqs)
        if isinstance(f, bool) or f in (sympy.true, sympy.false):
            raise Reduced()
        return e + f if op == 'add' else e - f if op == 'sub' else e * f
    if op == 'mul':
        return e * tree[2]
    if op == 'rmul':
        return tree[2] * e
    if op == 'subs':
        return e.subs(tree[2])
    return -e if op == 'neg' else e.expand() if op == 'expand' else e.doit()


class Reduced(Exception):
    pass


def run_rand(seed, i):
    from sympkf.symbolic.util import Eq
    eqs, tree = rand_tree(seed, i)
    q = [Eq(*s) for s in eqs]
    if not all(isinstance(e, Eq) for e in q):
        raise Reduced()
    return q, tree, play(tree, q)


def rand(ctx, lo, hi):
    ctx.fn('Eq.__mul__', 'Eq.__rmul__', 'Eq.__add__', 'Eq.__sub__', 'Eq.__neg__', 'Eq.expand', 'Eq.doit', 'Eq.subs')
    for i in range(lo, hi):
        args = dict(kind='random', prog=None, fam=None, seed=ctx.seed, i=i)
        key = 'random/%d/%d' % (ctx.seed, i)
        try:
            q, tree, r = run_rand(ctx.seed, i)
        except Reduced:
            ctx.skipped += 1
            continue
        except Exception as err:
            raise Violation(key, '%s: %r' % (key, err), 'r_eq', args)
        judge(r, play(tree, [Pair.of(e) for e in q]), key, '%s on %s' % (tree, q), 'r_eq', args)
        ctx.programs += 1
        ctx.obligation(key)


# -- replay -------------------------------------------------------------------------

class Num(object):
    """specification on sympy expressions"""

    def __init__(self, l, r):
        self.s = (l, r)

    def _op(self, o, f):
        o = o.s if isinstance(o, Num) else (o, o)
        return Num(f(self.s[0], o[0]), f(self.s[1], o[1]))

    def __add__(self, o):
        return self._op(o, lambda p, q: p + q)

    def __sub__(self, o):
        return self._op(o, lambda p, q: p - q)

    def __mul__(self, o):
        return self._op(o, lambda p, q: p * q)
    __rmul__ = __mul__

    def __neg__(self):
        return Num(-self.s[0], -self.s[1])

    def expand(self):
        return self
    doit = expand

    def subs(self, *table, **hints):
        return Num(*[sympy.sympify(s).subs(*table, **hints) for s in self.s])


def r_eq(kind, prog, fam, later=False, seed=0, i=0):
    try:
        if kind == 'isolate':
            e, un, r = run_isolate(prog)
            l, s = sides(r)
            if l != un:
                return True, 'left-hand side %s' % l
            X = sympy.Symbol('X')
            diff = e.args[0] - e.args[1]
            if un.is_Derivative or un.is_Function:
                # mask larger derivatives
                mask = {q: sympy.Symbol('M%d' % n) for n, q in enumerate(sorted(diff.atoms(D) | s.atoms(D), key=str)) if q != un}
                fs = lambda q: q.doit().xreplace(mask).xreplace({un: X})
            else:
                fs = lambda q: q.xreplace({un: X})
            diff, s = fs(diff.doit()), fs(s)
            if s.has(X):
                return True, 'unknown in the right-hand side of %s' % r
            left = sympy.simplify(diff.subs(X, s))
            slope = sympy.diff(diff, X)
            return left != 0 and slope != 0, 'isolation of %s in %s gives %s: residual %s' % (un, e, r, left)
        if kind == 'random':
            q, tree, r = run_rand(seed, i)
            want = play(tree, [Num(*e.args) for e in q])
        elif kind == 'subs':
            e, f, q, r = run_subs(prog, fam, later)
            want = substituted(Num(*e.args) + Num(*f.args) * q if later else Num(*e.args), SUBS[prog])
        else:
            e, f, q, r = run_prog(prog, fam)
            want = PROGRAMS[prog](Num(*e.args), Num(*f.args), q)
        s = sides(r)
    except Reduced:
        return False, 'outside'
    except Exception as err:
        return True, repr(err)
    if isinstance(s, bool):
        gap = sympy.simplify((want.s[0] - want.s[1]).doit().expand())
        bad = (gap != 0) if s else not (gap.is_number and gap != 0)
        return bool(bad), 'reduces to %s whereas the sides differ by %s' % (s, gap)
    for nm, p, q in zip(('left', 'right'), s, want.s):
        gap = sympy.simplify((p - q).doit().expand())
        if gap != 0:
            return True, '%s-hand side %s in place of %s' % (nm, p, q)
    return False, 'ok'
