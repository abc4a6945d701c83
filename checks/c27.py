"""C27: coordinate helpers"""
import random

import sympy
from sympy import Derivative as D, Function, Matrix, Rational, Subs, Symbol, exp, sin, symbols
from sympy.core.expr import AtomicExpr
from sympy.core.function import AppliedUndef

from lib import sx, z3q
from lib.harness import Violation
from lib.poly import Poly, ZERO
from lib.sem import Env, value
from lib.z3q import z3, Inconclusive

PROPERTY = 'C27'
LEVEL = 'translation_validation'
EXPLANATION = (
    'The coordinate helpers are run on functions evaluated at points displaced by symbolic multiples (atoms standing for any '
    'real number) of the steps; Z3 decides that each returned displacement is the one of the argument for all values. Gradients '
    'and divergences are evaluated over the jets of the fields and decided component by component. For the elimination of '
    'evaluated derivatives the functions are polynomials with symbolic coefficients (of a degree above the orders of the '
    'derivatives) and Z3 decides that the value of the expression is kept for all coefficients, coordinates and steps.')
OUTSIDE = 'coordinate names and expression shapes other than the stated and the generated ones; points that are themselves unknown functions'
ASSUMPTIONS = ['fields are smooth; the jets met by the eliminated derivatives are those of polynomials']

SYSTEMS = ['t x y', 'x', 'd x', 'dx x', 'x dx ddx', 's ds', 'd dd', 'dt t', 't theta', '\\theta x_{1} x_{2}', 'x1 x2 x3', 'r s y d', 'dd d', 't dx dy', 'u v', 'X Y Z', 'b a', 'omega z']


class Number(AtomicExpr):
    """any real number, not a symbol"""
    is_commutative = True
    is_number = False
    is_real = True
    is_extended_real = True
    __slots__ = ('name',)

    def __new__(cls, name):
        o = AtomicExpr.__new__(cls)
        o.name = name
        return o

    def _hashable_content(self):
        return (self.name,)

    def __getnewargs__(self):
        return (self.name,)

    def sort_key(self, order=None):
        return self.class_key(), (1, (self.name,)), sympy.S.One.sort_key(), sympy.S.One

    def _sympystr(self, printer):
        return self.name


def zreal(e):
    e = sympy.sympify(e)
    if isinstance(e, Number):
        return z3.Real(e.name)
    if e.is_Rational:
        return z3.Q(e.p, e.q)
    if e.is_Add:
        return z3.Sum([zreal(a) for a in e.args])
    if e.is_Mul:
        r = z3.RealVal(1)
        for a in e.args:
            r = r * zreal(a)
        return r
    raise Inconclusive('displacement %s' % e)


def modules():
    from sympkf.symbolic import util, finite_difference
    return util, finite_difference


def cases(tier, seed):
    out = []
    for i, s in enumerate(SYSTEMS):
        out.append(('coordinates/%s' % s, 'coordinates', dict(names=s, seed=seed + i, n=12 if tier == 'quick' else 80)))
    for s in ('x y', 'y x', 'x', 'x y z', 'dx x', '\\theta r'):
        out.append(('vector/%s' % s, 'vector', dict(names=s)))
    for s in ('x y', 'y x', 'x', 'x y z'):
        for shape in COMPAT:
            if len(s.split()) < 3 or shape != 'vector':
                out.append(('compatible/%s/%s' % (shape, s), 'compatible', dict(names=s, shape=shape)))
    out += [('eliminate/fixed/%d' % i, 'eliminate', dict(lo=8 * i, hi=8 * i + 8)) for i in range(5)]
    out += [('eliminate/random/%d' % i, 'eliminate_random', dict(seed=seed * 100 + i, n=10)) for i in range(4 if tier == 'quick' else 40)]
    return out


def weight(name):
    return 3 * ('series' in name) + 2 * ('eliminate' in name)


# -- displaced functions -------------------------------------------------------------

KINDS = ['none', 'k', 'half', 'minus', 'sum', 'rational', 'integer', 'scaled']


def disp(kind, i):
    k, l = Number('k%d' % i), Number('l%d' % i)
    return {'none': 0, 'k': k, 'half': k + Rational(1, 2), 'minus': -k, 'sum': k - l, 'rational': Rational(-3, 2), 'integer': 2, 'scaled': 3 * k / 2}[kind]


def make(names, kinds, sub=None):
    xs = symbols(names.replace(' ', ',') + ',')
    dxs = [Symbol('d' + str(x)) for x in xs]
    ds = [sympy.sympify(disp(k, i)) for i, k in enumerate(kinds)]
    if sub:
        ds = [d.xreplace(sub) for d in ds]
    return Function('U')(*[x + d * dx for x, d, dx in zip(xs, ds, dxs)]), list(xs), dxs, ds


def observe(f, dxs):
    util, fdm = modules()
    return [('get_function_coordinates', util.get_function_coordinates(f)), ('get_coordinates', util.get_coordinates(f))], [
        ('get_displacement', fdm.get_displacement(f)), ('get_displacement with the steps', fdm.get_displacement(f, dxs))]


def programs(names, seed, n):
    rng = random.Random(seed)
    m = len(names.split())
    out = [[k] * m for k in KINDS]
    out += [[rng.choice(KINDS) for _ in range(m)] for _ in range(n)]
    return out


def coordinates(ctx, names, seed, n):
    ctx.fn('get_coordinates', 'get_function_coordinates', 'get_displacement')
    for kinds in programs(names, seed, n):
        f, xs, dxs, ds = make(names, kinds)
        args = dict(names=names, kinds=kinds)
        key = 'coordinates/%s/%s' % (names, '-'.join(kinds))
        try:
            cs, disps = observe(f, dxs)
        except Exception as e:
            raise Violation(key, '%s: raises %r' % (f, e), 'r_coordinates', args)
        for lab, (a, b) in cs:
            if list(a) != xs or list(b) != dxs:
                raise Violation(key, '%s of %s is %s' % (lab, f, (a, b)), 'r_coordinates', args)
        for lab, got in disps:
            if len(got) != len(ds):
                raise Violation(key, '%s of %s is %s' % (lab, f, got), 'r_coordinates', args)
            r, m = z3q.check([z3.Or([zreal(a) != zreal(b) for a, b in zip(got, ds)])])
            if r == 'unknown':
                raise Inconclusive('unknown')
            if r == 'sat':
                raise Violation(key, '%s of %s is %s' % (lab, f, got), 'r_coordinates', args)
        ctx.programs += 1
    ctx.obligation('coordinates/%s' % names)
    ctx.bound(names=names)
    ctx.sample('forall k: get_displacement(U(x + k dx, ..)) = (k, ..) over %s' % names)


def r_coordinates(names, kinds):
    vals = {Number('%s%d' % (c, i)): Rational(p, q) for i in range(6) for c, p, q in (('k', 2 * i - 3, 1), ('l', 3 - i, 2))}
    f, xs, dxs, ds = make(names, kinds, vals)
    try:
        cs, disps = observe(f, dxs)
    except Exception as e:
        return True, '%s raises %r' % (f, e)
    for lab, (a, b) in cs:
        if list(a) != xs or list(b) != dxs:
            return True, '%s of %s is %s' % (lab, f, (a, b))
    for lab, got in disps:
        if list(got) != ds:
            return True, '%s of %s is %s, expected %s' % (lab, f, got, ds)
    return False, 'agrees'


# -- vector calculus -------------------------------------------------------------------

def fields(xs):
    t = Symbol('t')
    u, v, w = Function('u')(t, *xs), Function('v')(*xs), Function('\\psi')(t, *xs[::-1])
    k = Symbol('k')
    return [u, v, w, u * v, k * u**2 - 3 * w, D(u, xs[0]), xs[0] * u, exp(u) * v, sin(xs[-1]) * w, u / (1 + v**2), D(v, xs[-1]) * u, D(u * v, xs[0]), k + 0 * u, u + k,
            D(u, t) * v, sum(xs) * D(w, xs[0], 2)]


def vector_rows(xs):
    util = modules()[0]
    c = util.CoordinateSystem(xs)
    fs = fields(xs)
    rows = []
    good = list(c) == list(xs)
    for f in fs:
        g = c.gradient(f)
        good = good and len(g) == len(xs) and tuple(g.shape) == (len(xs), 1)
        rows += [('gradient of %s along %s' % (f, x), g[i], D(f, x)) for i, x in enumerate(xs)]
        rows.append(('divergence of the gradient of %s' % f, c.div(g), sum(D(f, x, x) for x in xs)))
    n = len(xs)
    for j in range(len(fs)):
        vec = [fs[(j + 3 * i) % len(fs)] for i in range(n)]
        want = sum(D(a, x) for a, x in zip(vec, xs))
        for lab, given in (('list', vec), ('matrix', util.Matrix(vec)), ('tuple', tuple(vec))):
            keep = list(given)
            rows.append(('divergence of the %s %s' % (lab, vec), c.div(given), want))
            good = good and list(given) == keep
    K = [[Function('K%d%d' % (min(i, j), max(i, j)))(*xs) for j in range(n)] for i in range(n)]
    flux = util.Matrix(K) * c.gradient(fs[0])
    rows.append(('divergence of a flux', c.div(flux), sum(D(K[i][j] * D(fs[0], xs[j]), xs[i]) for i in range(n) for j in range(n))))
    return rows, good


def vector(ctx, names):
    ctx.fn('CoordinateSystem.gradient', 'CoordinateSystem.div', 'CoordinateSystem.__iter__')
    xs = symbols(names.replace(' ', ',') + ',')
    key, args = 'vector/%s' % names, dict(names=names)
    try:
        rows, good = vector_rows(xs)
    except Exception as e:
        raise Violation(key, 'raises %r' % e, 'r_vector', args)
    if not good:
        raise Violation(key, 'shape or order of the gradient over %s' % names, 'r_vector', args)
    t = Symbol('t')
    for lab, a, b in rows:
        try:
            ok, _ = z3q.equal(value(sympy.sympify(a), Env((t,) + tuple(xs))), value(b, Env((t,) + tuple(xs))), witness=False)
        except Inconclusive:
            ctx.skipped += 1
            continue
        if not ok:
            raise Violation(key, '%s is %s' % (lab, a), 'r_vector', args)
        ctx.obligation('%s/%s' % (key, lab[:40]))
    ctx.programs += len(rows)
    ctx.bound(coordinates=names)
    ctx.sample('forall jets: div(grad f) = sum of the second derivatives, over %s' % names)


def r_vector(names):
    from checks.c25 import numeric
    xs = symbols(names.replace(' ', ',') + ',')
    try:
        rows, good = vector_rows(xs)
    except Exception as e:
        return True, 'raises %r' % e
    if not good:
        return True, 'shape or order'
    for lab, a, b in rows:
        if sympy.expand((sympy.sympify(a) - b).doit()) != 0 and numeric(sympy.sympify(a) - b) != 0:
            return True, '%s is %s, expected %s' % (lab, a, b)
    return False, 'agrees'


# -- fields over other coordinates --------------------------------------------------------

COMPAT = ['scalar', 'product', 'nonlinear', 'vector', 'first', 'last']


def compat_expr(names, shape, bits):
    """(field or vector, its functions): bits[i][j]: the i-th function depends on the j-th coordinate"""
    xs = symbols(names.replace(' ', ',') + ',')
    t, w = symbols('t w')
    A, B = [Function(n)(*([t] + [q for q, on in zip(xs, b) if on] + e)) for n, b, e in zip('AB', bits, ([w], []))]
    k = Symbol('k')
    e = {'scalar': k * A, 'product': A * B + k, 'nonlinear': sympy.exp(A) * D(B, t)}.get(shape)
    if e is None:
        comps = {'vector': [A, k * B], 'first': [A], 'last': [k, A]}[shape]
        comps += [k * t] * (len(xs) - len(comps))
        e = comps[:max(len(xs), 1)] if shape != 'last' else [k] * (len(xs) - 1) + [A]
    return xs, e


def run_compat(names, shape, bits):
    """is the field refused"""
    from sympkf.symbolic.util import CoordinateSystem
    xs, e = compat_expr(names, shape, bits)
    c = CoordinateSystem(xs)
    try:
        c.div(e) if isinstance(e, list) else c.gradient(e)
    except ValueError:
        return True
    return False


def used(names, shape):
    xs, e = compat_expr(names, shape, [[True] * 3] * 2)
    fs = {a.func.__name__ for q in (e if isinstance(e, list) else [e]) for a in sympy.sympify(q).atoms(AppliedUndef)}
    return [i for i, n in enumerate('AB') if n in fs]


def compatible(ctx, names, shape):
    ctx.fn('CoordinateSystem.is_compatible', 'CoordinateSystem._check_compatible', 'CoordinateSystem.gradient', 'CoordinateSystem.div')
    n = len(names.split())
    B = [[z3.Bool('b%d%d' % (i, j)) for j in range(n)] for i in range(2)]
    want = z3.Or(*[z3.Not(B[i][j]) for i in used(names, shape) for j in range(n)])
    # the arguments of the functions have symbolic memberships, settled one after the other by the solver
    for p in sx.explore(lambda: run_compat(names, shape, [[bool(sx.Bool(c)) for c in b] if i in used(names, shape) else [True] * n for i, b in enumerate(B)]), limit=400):
        ctx.paths += 1
        if p.error is not None:
            ok, m = False, p.model()
        else:
            ok, m = p.prove(want == z3.BoolVal(p.value))
        if not ok:
            bits = [[bool(z3.is_true(m.eval(c, model_completion=True))) for c in b] for b in B]
            raise Violation('compatible/%s/%s' % (shape, names), 'the field %s over the coordinates %s is not accepted or refused as it should' % (
                compat_expr(names, shape, bits)[1], names), 'r_compat', dict(names=names, shape=shape, bits=bits))
    ctx.obligation('compatible/%s/%s' % (shape, names))
    ctx.bound(functions=len(used(names, shape)), coordinates=names)
    ctx.sample('forall sets of coordinates of the functions: %s refused iff a coordinate of %s is missing' % (shape, names))


def r_compat(names, shape, bits):
    want = any(not bits[i][j] for i in used(names, shape) for j in range(len(names.split())))
    try:
        got = run_compat(names, shape, bits)
    except Exception as err:
        return True, 'raises %r' % err
    return got != want, 'field %s over %s: refused is %s in place of %s' % (compat_expr(names, shape, bits)[1], names, got, want)


# -- elimination of evaluated derivatives --------------------------------------------------

a, b, c, x, y, z, t, h, k, xi = symbols('a b c x y z t h k xi')
f, g = Function('f'), Function('g')


def fixed():
    """(expression, the Subs can be eliminated)"""
    d1 = D(f(a), a)
    yield Subs(d1, a, x), True
    yield Subs(D(f(a), a, 2), a, x), True
    yield Subs(D(f(a), a, 3), a, x) * k + f(x), True
    yield Subs(d1, a, x + h), False
    yield Subs(D(f(a), a, 2), a, x - Rational(3, 2) * h), False
    yield Subs(f(a) * D(g(a), a), a, x), True
    yield Subs(f(a) * D(g(a), a), a, x + h), False
    yield Subs(D(f(a, t), a, t), a, x), True
    yield Subs(D(f(a, b), a), (a, b), (b, a)), True
    yield Subs(D(f(a, b), a, 2, b), (a, b), (b, a)), True
    yield Subs(D(f(a, b), a, b), (a, b), (x, x)), False
    yield Subs(D(f(a, b), a, b), (a, b), (x, y)), True
    yield Subs(D(f(a, b), b, 2), (a, b), (y, x)), True
    yield Subs(D(f(a, x), a), a, x), False
    yield Subs(D(f(a, b), a), (a, b), (x, a)), True
    yield Subs(D(f(a, b, c), a, c), (a, b, c), (b, c, a)), True
    yield Subs(D(f(a, b), a) * g(b), (a, b), (b, a)), True
    yield Subs(D(Subs(D(f(a, b), b), b, x), a), a, x), False
    yield Subs(D(Subs(D(f(a, b), b), b, x), a), a, y), True
    yield Subs(d1, a, 2), False
    yield D(Subs(d1, a, x), x), True
    yield x * Subs(d1, a, x)**2 + Subs(D(f(a), a, 2), a, x), True
    yield Subs(d1, a, x) * Subs(D(g(a), a), a, y) - Subs(d1, a, y), True
    yield D(f(x, x), x).doit(), False
    yield D(f(x**2, y), x).doit(), False
    yield D(f(x + y), x, y).doit(), False
    yield D(f(x + h, y - h), h, 2).doit(), False
    yield f(x + h).series(h, 0, 4).removeO(), True
    yield f(x - 2 * h).series(h, 0, 5).removeO(), True
    yield f(x + h, y + 2 * h).series(h, 0, 3).removeO(), True
    yield (f(x + h) * g(x - h)).series(h, 0, 3).removeO(), True
    yield f(t, x + h).series(h, 0, 3).removeO() + D(f(t, x), x), True
    yield (f(x + h, y) - f(x - h, y)).series(h, 0, 4).removeO() / 2, True
    yield f(x) * D(g(x), x) + k, True
    yield Subs(a * D(f(a), a) + D(f(a) * a, a), a, x), True
    yield Subs(D(f(a), a) * t, (a, t), (x, h)), True
    yield sympy.Add(*[Subs(D(f(a), a, i), a, x) * h**i for i in range(1, 5)]), True
    yield Subs(D(f(a, h), a), (a, h), (x, 0)), False


def draw(rng):
    """random expressions with evaluated derivatives"""
    pts = [x, y, z, x + h, y - 2 * h, a, b]
    out = 0
    for _ in range(rng.randint(1, 3)):
        m = rng.choice([1, k, x, Rational(2, 3), f(x), h])
        for _ in range(rng.randint(1, 2)):
            if rng.random() < .5:
                q = f(a) if rng.random() < .5 else g(a)
                m *= Subs(D(q, a, rng.randint(1, 3)), a, rng.choice(pts[:5]))
            else:
                q = rng.choice([f(a, b), g(b, a), f(a, t, b), g(t, b)])
                vs = [v for v in (a, b) if q.has(v)]
                e = D(q, *[v for v in vs for _ in range(rng.randint(1, 2))])
                if rng.random() < .3:
                    e = e * rng.choice([a, b, f(b), g(a)])
                m *= Subs(e, tuple(vs), tuple(rng.sample(pts, len(vs))))
        out += m
    return out


class Unknown(Exception):
    pass


DEG = {1: 5, 2: 4, 3: 3}


def polynomial(name, args):
    n = len(args)
    r = 0
    import itertools
    for e in itertools.product(range(DEG[n] + 1), repeat=n):
        if sum(e) <= DEG[n]:
            m = Symbol('C_%s_%s' % (name, '_'.join(map(str, e))))
            for v, p in zip(args, e):
                m = m * v**p
            r = r + m
    return r


def poly_value(e):
    """value of the expression for polynomial functions"""
    e = sympy.sympify(e)
    if isinstance(e, AppliedUndef):
        return polynomial(e.func.__name__ + str(len(e.args)), [poly_value(q) for q in e.args])
    if isinstance(e, Subs):
        vs = [sympy.Dummy() for _ in e.args[1]]
        inner = poly_value(e.args[0].xreplace(dict(zip(e.args[1], vs))))
        pts = [poly_value(p) for p in e.args[2]]
        return inner.xreplace(dict(zip(vs, pts)))
    if isinstance(e, D):
        r = poly_value(e.expr)
        for v, n in e.variable_count:
            if not isinstance(v, Symbol):
                raise Unknown('derivative along %s' % v)
            r = sympy.diff(r, v, int(n))
        return r
    if e.is_Atom:
        return e
    return e.func(*[poly_value(q) for q in e.args])


def to_poly(e):
    e = sympy.expand(e)
    if e == 0:
        return ZERO
    gens = sorted(e.free_symbols, key=str)
    if not gens:
        return Poly.coerce(e)
    p = sympy.Poly(e, *gens)
    out = ZERO
    for mon, co in p.terms():
        m = Poly.coerce(co)
        for s, n in zip(gens, mon):
            if n:
                m = m * Poly.var(('c', str(s))) ** n
        out = out + m
    return out


def run_one(ctx, key, e, full, replay, args):
    util = modules()[0]
    keep = sympy.srepr(e)
    try:
        r = util.remove_eval_derivative(e)
    except Exception as err:
        raise Violation(key, 'remove_eval_derivative(%s) raises %r' % (e, err), replay, args)
    if full and sympy.sympify(r).atoms(Subs):
        raise Violation(key, 'remove_eval_derivative(%s) = %s keeps evaluated derivatives' % (e, r), replay, args)
    try:
        p, q = to_poly(poly_value(e)), to_poly(poly_value(r))
    except (Unknown, sympy.PolynomialError):
        ctx.skipped += 1
        return
    ok, _ = z3q.equal(p, q)
    if not ok or sympy.srepr(e) != keep:
        raise Violation(key, 'remove_eval_derivative(%s) = %s has another value' % (e, r), replay, args)
    ctx.programs += 1


def numbers(e):
    e = sympy.expand(e)
    return e.xreplace({s: Rational(3 * i + 2, 7) * (-1)**(i // 2) for i, s in enumerate(sorted(e.free_symbols, key=str))})


def replay_one(e, full):
    util = modules()[0]
    try:
        r = util.remove_eval_derivative(e)
    except Exception as err:
        return True, 'remove_eval_derivative(%s) raises %r' % (e, err)
    if full and sympy.sympify(r).atoms(Subs):
        return True, 'remove_eval_derivative(%s) = %s keeps evaluated derivatives' % (e, r)
    d = numbers(poly_value(e) - poly_value(r))
    return d != 0, 'remove_eval_derivative(%s) = %s, values differ by %s for one choice of the functions' % (e, r, d)


def eliminate(ctx, lo, hi):
    ctx.fn('remove_eval_derivative')
    for i, (e, full) in enumerate(fixed()):
        if lo <= i < hi:
            run_one(ctx, 'eliminate/%d' % i, e, full, 'r_eliminate', dict(i=i))
            ctx.obligation('eliminate/%d' % i)
            ctx.sample('forall functions: value of %s is kept' % e)
    ctx.bound(degree_of_the_functions=DEG)


def r_eliminate(i):
    return replay_one(*list(fixed())[i])


def eliminate_random(ctx, seed, n):
    ctx.fn('remove_eval_derivative')
    for i in range(n):
        e = draw(random.Random(seed * 1000 + i))
        run_one(ctx, 'random/%d/%d' % (seed, i), e, False, 'r_random', dict(seed=seed, i=i))
    ctx.obligation('random/%d' % seed)


def r_random(seed, i):
    return replay_one(draw(random.Random(seed * 1000 + i)), False)
