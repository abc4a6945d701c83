"""C20: closures are the derivatives, at zero separation, of the correlation models"""
import itertools
import random
from fractions import Fraction
from math import factorial

import sympy
from sympy import Derivative, Function, Rational, Symbol, symbols, exp
from sympy.core.function import AppliedUndef

from lib import z3q
from lib.harness import Violation
from lib.poly import Poly, ZERO, ONE, NotInvertible, general_root, inverse_of
from lib.sem import Env, Unsupported, value, t_pow, t_mul, t_add, t_scale, t_compose, _smooth, below, mfact
from lib.z3q import Inconclusive

PROPERTY = 'C20'
PLAIN_INPUTS = True
LEVEL = 'translation_validation'
EXPLANATION = (
    'The closures and the correlation functions are computed by the real Closure / LocGaussianClosure. The closed form of the '
    'documented correlation is expanded as a series of the separation whose coefficients are polynomials in the jets of the '
    'parameter fields (all symbolic, tensors as L D L^T with D > 0); Z3 decides, entry by entry, that the closure of order a is '
    'a! times the coefficient of d^a for all jets. Subclasses with a generic polynomial correlation decide the extraction for '
    'every multi-index; symmetry and unit value of the correlations are decided for all pairs of points and tensors; the same '
    'is decided after other requests (histories).')
OUTSIDE = ('orders above the stated ones; heterogeneous Gaussian closures in dimension two and three (the symbolic Taylor expansion '
           'of the real code does not terminate in the time of a check); pairs of tensors of the correlations in 2D/3D are L Dx L^T, L Dy L^T')
ASSUMPTIONS = ['parameter tensors are positive definite', 'smooth parameter fields']

t = symbols('t')


def field(name):
    x, y, z, th = symbols('x y z theta')
    x1, x2 = symbols('x_{1} x_{2}')
    return {'1d': lambda: Function('u')(t, x), '1dl': lambda: Function('\\phi^a')(t, th), '1ds': lambda: Function('u')(x),
            '2d': lambda: Function('u')(t, x, y), '2dr': lambda: Function('u')(t, y, x), '2dl': lambda: Function('q')(t, x1, x2),
            '3d': lambda: Function('u')(t, x, y, z)}[name]()


def cases(tier, seed):
    deep = tier != 'quick'
    out = []
    for f, n in (('1d', 4), ('1dl', 3), ('1ds', 3)) + ((('1d', 5),) if deep else ()):
        out.append(('heterogeneous/%s/%d' % (f, n), 'closure', dict(kind='het', f=f, h=[['closure', n]])))
    for f, n in (('1d', 6), ('1dl', 4), ('2d', 4), ('2dr', 4), ('2dl', 3), ('3d', 3)) + ((('1d', 8), ('2d', 5), ('3d', 4)) if deep else ()):
        out.append(('local/%s/%d' % (f, n), 'closure', dict(kind='loc', f=f, h=[['closure', n]])))
    for f, n in (('1d', 5), ('2d', 4), ('2dr', 3), ('3d', 3)) + ((('2d', 5), ('3d', 4)) if deep else ()):
        out.append(('polynomial/%s/%d' % (f, n), 'closure', dict(kind='poly', f=f, h=[['closure', n]])))
    H = {'het': [[['taylor', 2], ['closure', 3]], [['closure', 3], ['closure', 1], ['closure', 3]], [['metric', 3], ['closure', 3]],
                 [['closure', 2], ['metric', 3]], [['spoil', 3], ['closure', 3]], [['other', 2], ['by_order', 3]], [['taylor', 6], ['by_order', 2]]],
         'loc': [[['taylor', 1], ['closure', 2], ['closure', 4]], [['metric', 4], ['closure', 4], ['metric', 2]], [['spoil', 2], ['by_order', 2]],
                 [['metric_spoil', 2], ['metric', 2]], [['closure', 4], ['by_order', 0], ['closure', 2]]],
         'poly': [[['closure', 2], ['closure', 4], ['closure', 3]], [['taylor', 3], ['by_order', 4]]]}
    for kind, hs in H.items():
        for f in ('1d', '2d'):
            if f == '2d' and kind == 'het':
                continue
            for h in hs:
                out.append(('history/%s/%s/%s' % (kind, f, '-'.join('%s%d' % tuple(a) for a in h)), 'closure', dict(kind=kind, f=f, h=h)))
    for f in ('1d', '2d', '3d', '2dr'):
        for what in ('correlation', 'correlation_in_diffusion', 'local_metric', 'local_aspect'):
            if f == '3d' and what[0] == 'c' and not deep:
                continue            # minutes of symbolic inversion
            out.append(('%s/%s' % (what, f), 'correlation', dict(what=what, f=f)))
    return out


def weight(name):
    return 10 * ('3d' in name) + 5 * ('2d' in name) + ('hetero' in name) * 8


# -- the real code ----------------------------------------------------------------

def poly_class():
    from sympkf.symbolic.pkfcas import Closure

    class PolynomialClosure(Closure):
        """correlation sum_a c_a(x) d^a with arbitrary coefficients"""

        def correlation(self, px, py):
            d = [b - a for a, b in zip(px, py)]
            c = dict(zip(self.spatial_coordinates, px))
            out = 0
            for a in itertools.product(range(7 if len(d) == 1 else 6), repeat=len(d)):
                if sum(a) <= (7 if len(d) == 1 else 5):
                    m = 1
                    for di, k in zip(d, a):
                        m = m * di**k
                    out = out + m * coefficient(self.mfield, a).subs(c)
            return out
    return PolynomialClosure


def coefficient(mf, a):
    return Function('c' + ''.join(map(str, a)))(*mf.coordinates)


def make(kind, f):
    from sympkf.symbolic.pkfcas import Closure, LocGaussianClosure
    return dict(het=Closure, loc=LocGaussianClosure, poly=poly_class())[kind](field(f)) if kind != 'poly' else poly_class()(field(f))


def run(kind, f, h):
    """[(request, order, {order: {term: value}})] after each request"""
    C = make(kind, f)
    out = []
    for what, n in h:
        if what == 'taylor':
            C.taylor(n)
        elif what == 'closure':
            out.append((what, n, {None: dict(C.closure(n))}))
        elif what == 'by_order':
            out.append((what, n, {k: dict(v) for k, v in C.closure_by_order(n).items()}))
        elif what == 'metric':
            out.append((what, n, {k: dict(v) for k, v in C.in_metric_by_order(n).items()}))
        elif what == 'spoil':           # what is returned belongs to the user
            for r in (C.closure_by_order(n), C.closure(n)):
                for k in list(r):
                    if isinstance(r[k], dict):
                        r[k].clear()
                    r[k] = None
        elif what == 'metric_spoil':
            r = C.in_metric_by_order(n)
            for k in list(r):
                r[k].clear()
        elif what == 'other':
            make(kind, f).in_metric_by_order(n)
    return C, out


# -- oracle -----------------------------------------------------------------------

def sub(space, a):
    return [(c, k) for c, k in zip(space, a) if k]


def indices(n, d):
    return [a for a in itertools.product(range(d + 1), repeat=n) if sum(a) == d]


def key_of(mf, a):
    from sympkf import Expectation
    s = sub(mf.spatial_coordinates, a)
    return Expectation(mf.epsilon * (Derivative(mf.epsilon, *s).doit() if s else mf.epsilon))


class Jets(object):
    """symbolic jets of the tensors of a field (1D: s = p^4, so that the roots are exact)"""

    def __init__(self, mf, kind, in_metric=False):
        self.mf, self.kind = mf, kind
        self.coords = tuple(mf.coordinates)
        self.pos = [self.coords.index(c) for c in mf.spatial_coordinates]
        self.env = Env(self.coords)
        n = len(mf.spatial_coordinates)
        name = lambda m, i, j: m[i, j].func.__name__
        if kind == 'het' and not in_metric:
            self.s = self.free('s')
            self.env.providers[(name(mf.aspect, 0, 0), False)] = self.s
        elif kind == 'het':
            self.g = self.free('g')
            self.env.providers[(name(mf.metric, 0, 0), False)] = self.g
            self.s = self.inverse(self.g)
        elif kind == 'loc':
            self.g = {}
            for i in range(n):
                for j in range(i, n):
                    p = lambda al, i=i, j=j: Poly.var(('u', 'g%d%d' % (i, j), al))
                    self.g[i, j] = self.g[j, i] = p
                    self.env.providers[(name(mf.metric, i, j), False)] = p

    def free(self, nm):
        z = (0,) * len(self.coords)
        return lambda al: Poly.var(('q', 'root_' + nm)) ** 4 if al == z else Poly.var(('u', nm, al))

    def inverse(self, g):
        memo = {}

        def s(al):
            if al not in memo:
                T = {b: g(b) * Fraction(1, mfact(b)) for b in below(al)}
                memo[al] = t_pow(T, -1, al, self.env).get(al, ZERO) * mfact(al)
            return memo[al]
        return s

    def coefficients(self, order):
        """{a: coefficient of d^a of the correlation}"""
        n = len(self.pos)
        full = [0] * len(self.coords)
        for p in self.pos:
            full[p] = order
        full = tuple(full)

        def up(a):
            r = [0] * len(self.coords)
            for p, k in zip(self.pos, a):
                r[p] = k
            return tuple(r)
        if self.kind == 'poly':
            return {a: Poly.var(('u', 'c' + ''.join(map(str, a)), up((0,) * n))) for o in range(order + 1) for a in indices(n, o)}
        if self.kind == 'het':
            T = {up((k,)): self.s(up((k,))) * Fraction(1, factorial(k)) for k in range(order + 1)}
            z = up((0,))
            s0 = {z: T[z]}
            half = t_scale(t_add(s0, T), Fraction(1, 2))
            out = t_mul(t_pow(s0, Fraction(1, 4), full, self.env), t_pow(T, Fraction(1, 4), full, self.env), full)
            out = t_mul(out, t_pow(half, Fraction(-1, 2), full, self.env), full)
            q = t_mul(t_pow(t_scale(half, 2), -1, full, self.env), {up((2,)): -ONE}, full)
        else:
            out = {up((0,) * n): ONE}
            q = {}
            z = up((0,) * n)
            for i in range(n):
                for j in range(n):
                    e = [0] * n
                    e[i] += 1
                    e[j] += 1
                    e = up(e)
                    if all(a <= b for a, b in zip(e, full)):
                        q[e] = q.get(e, ZERO) + self.g[i, j](z) * Fraction(-1, 2)
        E = t_compose(dict(q), _smooth('exp'), full, self.env)
        out = t_mul(out, E, full)
        return {a: out.get(up(a), ZERO) for o in range(order + 1) for a in indices(n, o)}


def structure(mf, what, n, res):
    """text when the requested orders are not the ones present"""
    N = len(mf.spatial_coordinates)
    want = {k: {key_of(mf, a) for a in indices(N, k)} for k in range(n + 1)}
    if what == 'closure':
        want = {None: set().union(*want.values())}
    if set(res) != set(want):
        return 'orders %s in place of %s' % (sorted(map(str, res)), sorted(map(str, want)))
    for k in want:
        if set(res[k]) != want[k]:
            return 'terms of order %s: %s' % (k, sorted(map(str, set(res[k]) ^ want[k]))[:3])
    return None


def closure(ctx, kind, f, h):
    ctx.fn('Closure.closure', 'Closure.closure_by_order', 'Closure.in_metric_by_order', 'Closure.taylor', 'Closure.correlation', 'LocGaussianClosure.correlation')
    args = dict(kind=kind, f=f, h=h)
    key = '%s/%s/%s' % (kind, f, h)
    try:
        C, out = run(kind, f, h)
    except Exception as err:
        raise Violation(key, '%s: raises %r' % (key, err), 'r_closure', args)
    mf = C.mfield
    N = len(mf.spatial_coordinates)
    for what, n, res in out:
        txt = structure(mf, what, n, res)
        if txt:
            raise Violation(key, '%s, %s(%d): %s' % (key, what, n, txt), 'r_closure', args)
        J = Jets(mf, kind, in_metric=(what == 'metric'))
        co = J.coefficients(n)
        ctx.programs += 1
        for a, c in co.items():
            e = res[None if what == 'closure' else sum(a)][key_of(mf, a)]
            want = c * mfact(a)
            if what == 'metric' and sum(a) == 2:
                i, j = [k for k in range(N) for _ in range(a[k])]
                want = -value(mf.metric[i, j], J.env)
            try:
                got = value(e, J.env)
            except NotInvertible:
                raise Inconclusive('denominator of %s' % e)
            ok, m = z3q.equal(got, want)
            if not ok:
                raise Violation(key, '%s, %s(%d): closure of order %s is %s' % (key, what, n, a, str(e)[:600]), 'r_closure', args)
            ctx.obligation('%s/%s%d/%s' % (key, what, n, a))
        ctx.sample('forall jets: %s(%d) of the %s correlation in %s = a! [d^a] rho for %d multi-indices' % (what, n, kind, f, len(co)))
    ctx.bound(order=max(n for _, n, _ in out), field=f)


# -- correlation functions -----------------------------------------------------------

def points(mf):
    n = len(mf.spatial_coordinates)
    return tuple(Symbol('px%d' % i) for i in range(n)), tuple(Symbol('py%d' % i) for i in range(n))


def run_corr(what, f, px, py):
    from sympkf.symbolic.pkfcas import Closure, LocGaussianClosure
    fld = field(f)
    if what.startswith('local'):
        return LocGaussianClosure(fld).correlation(px, py, metric=(what == 'local_metric'))
    return getattr(Closure(fld), what)(px, py)


def tensor_of(what, mf):
    return {'correlation': mf.aspect, 'correlation_in_diffusion': mf.diffusion, 'local_metric': mf.metric, 'local_aspect': mf.aspect}[what]


def ldl(n, tag):
    """L D L^T with D = p^4 > 0: entries and inverse are Laurent polynomials"""
    L = [[ONE if i == j else Poly.var(('u', 'l%d%d' % (i, j))) if j < i else ZERO for j in range(n)] for i in range(n)]
    D = [Poly.var(('q', 'p%d_%s' % (i, tag))) ** 4 for i in range(n)]
    S = [[sum((L[i][k] * D[k] * L[j][k] for k in range(n)), ZERO) for j in range(n)] for i in range(n)]
    return L, D, S


class Elsewhere(Exception):
    pass


class CorrEnv(object):
    def __init__(self, what, f, same=False):
        from sympkf.symbolic.pkfcas import Field
        self.mf = mf = Field(field(f))
        self.n = n = len(mf.spatial_coordinates)
        self.px, self.py = points(mf)
        self.T = tensor_of(what, mf)
        self.L, self.Dx, self.Sx = ldl(n, 'x')
        _, self.Dy, self.Sy = ldl(n, 'x' if same else 'y')

    def prepare(self, e, px, py):
        """expression of symbols: the tensors at px / py become symbols"""
        table = {}
        sp = self.mf.spatial_coordinates
        rep = {}
        for pt, S in ((px, self.Sx), (py, self.Sy)):
            for i in range(self.n):
                for j in range(i, self.n):
                    node = self.T[i, j].subs(dict(zip(sp, pt)))
                    s = Symbol('T_%d%d_%s' % (i, j, '_'.join(map(str, pt))))
                    rep[node] = s
                    table[s] = S[i][j]
        left = []
        e = e.replace(lambda a: isinstance(a, AppliedUndef), lambda a: rep[a] if a in rep else left.append(a) or a)
        if left:
            raise Elsewhere('depends on %s' % left)
        return e, table

    def env(self, table, d=None):
        env = Env((t,))
        env.consts = dict(table)
        for i in range(self.n):
            a = Poly.var(('u', 'x%d' % i))
            env.consts[self.px[i]] = a
            env.consts[self.py[i]] = a + Poly.var(('u', 'd%d' % i))
        return env


def normal(e, env):
    """(value of the factor, exponent): products, powers and exponentials separated so that
    exp(a) exp(b) and exp(a + b) are the same, and roots are distributed on the factors"""
    if isinstance(e, sympy.Mul):
        f, x = ONE, ZERO
        for a in e.args:
            fa, xa = normal(a, env)
            f, x = f * fa, x + xa
        return f, x
    if isinstance(e, exp):
        return ONE, value(e.args[0], env)
    if isinstance(e, sympy.Pow) and e.exp.is_Rational:
        r = Fraction(int(e.exp.p), int(e.exp.q))
        f, x = normal(e.base, env)
        return power(f, r), x * r
    return value(e, env), ZERO


def power(p, r):
    """p**r for a positive p, distributed on the irreducible factors of p"""
    if r.denominator == 1 and r >= 0:
        return p ** int(r)
    try:
        return p ** r if r.denominator == 1 else p.root(r)
    except NotInvertible:
        pass
    if len(p.d) == 1:
        raise Inconclusive('power of %r' % p)
    vs = sorted(p.vars())
    sy = {v: Symbol('v%d' % v) for v in vs}
    low = {v: min([0] + [dict(m).get(v, 0) for m in p.d]) for v in vs}
    ex = sympy.Add(*[sympy.Rational(c.numerator, c.denominator) * sympy.Mul(*[sy[v] ** (dict(m).get(v, 0) - low[v]) for v in vs]) for m, c in p.d.items()])
    out = ONE
    for v in vs:
        if low[v]:
            out = out * Poly({((v, low[v]),): Fraction(1)}).root(r)
    c, fs = sympy.factor_list(ex)
    inv = {s: v for v, s in sy.items()}
    if c < 0:
        raise Inconclusive('negative factor')
    out = out * number_power(c, r)
    for g, k in fs:
        pg = Poly({})
        for mon, co in sympy.Poly(g, *sy.values()).terms():
            m = tuple(sorted((inv[s], k2) for s, k2 in zip(sy.values(), mon) if k2))
            pg = pg + Poly({m: Fraction(int(co.p), int(co.q))})
        if len(pg.d) == 1:
            out = out * (pg ** k).root(r)
        elif r.denominator == 1:
            out = out * inverse_of(pg) ** (-k * int(r))
        else:
            # the factor is positive on the domain (up to a common sign)
            out = out * general_root(pg, Fraction(1, r.denominator)) ** (k * r.numerator)
    return out


def number_power(c, r):
    """c**r for a positive rational c: integer powers of the roots of its primes"""
    out = ONE
    for p, k in sympy.factorrat(sympy.Rational(c)).items():
        k = Fraction(k) * r
        whole = k.numerator // k.denominator
        out = out * (Fraction(int(p)) ** whole)
        if k != whole:
            out = out * general_root(Poly.const(int(p)), Fraction(1, k.denominator)) ** (k - whole).numerator
    return out


def want(CE, what):
    """documented closed form: (factor, exponent)"""
    n = CE.n
    d = [Poly.var(('u', 'd%d' % i)) for i in range(n)]
    # w = L^-1 d by forward substitution
    w = []
    for i in range(n):
        w.append(d[i] - sum((CE.L[i][k] * w[k] for k in range(i)), ZERO))
    if what == 'local_metric':
        return ONE, sum((CE.Sx[i][j] * d[i] * d[j] for i in range(n) for j in range(n)), ZERO) * Fraction(-1, 2)
    if what == 'local_aspect':
        return ONE, sum((w[k] * w[k] / CE.Dx[k] for k in range(n)), ZERO) * Fraction(-1, 2)
    f, x = ONE, ZERO
    for k in range(n):
        s = CE.Dx[k] + CE.Dy[k]
        f = f * power(CE.Dx[k] * CE.Dy[k], Fraction(1, 4)) * power(s * Fraction(1, 2), Fraction(-1, 2))
        q = inverse_of(s)
        x = x - w[k] * w[k] * q * (1 if what == 'correlation' else Fraction(1, 2))
    return f, x


def correlation(ctx, what, f):
    """closed form, symmetry and value at zero separation"""
    ctx.fn('Closure.correlation', 'Closure.correlation_in_diffusion', 'LocGaussianClosure.correlation')
    for same in (False, True):
        CE = CorrEnv(what, f, same)
        px, py = CE.px, CE.py
        variants = [('formula', px, py)]
        if not what.startswith('local'):
            variants.append(('symmetry', py, px))
        if f == '3d' and what[0] == 'c':
            variants = variants[:1] if not same else []
        if same:
            variants.append(('zero', px, px))
        for mode, a, b in variants:
            key = '%s/%s/%s%s' % (what, f, mode, '/same tensor' if same else '')
            args = dict(what=what, f=f, mode=mode, same=same)
            try:
                e = run_corr(what, f, a, b)
            except Exception as err:
                raise Violation(key, '%s raises %r' % (key, err), 'r_corr', args)
            try:
                e, table = CE.prepare(e, a if mode != 'symmetry' else b, b if mode != 'symmetry' else a)
            except Elsewhere as err:
                raise Violation(key, '%s, not a function of the tensors at the two points: %s' % (key, err), 'r_corr', args)
            env = CE.env(table)
            try:
                gf, gx = normal(e, env)
            except (Inconclusive, Unsupported):
                # powers that do not occur in the documented form: the difference is shown on values, if there is one
                if r_corr(**args)[0]:
                    raise Violation(key, '%s differs from the documented one: %s' % (key, str(e)[:500]), 'r_corr', args)
                raise
            wf, wx = (ONE, ZERO) if mode == 'zero' else want(CE, what)
            ctx.programs += 1
            for nm, g, v in (('amplitude', gf, wf), ('exponent', gx, wx)):
                ok, m = z3q.equal(g, v)
                if not ok:
                    raise Violation(key, '%s: the %s differs from the documented one in %s' % (key, nm, str(e)[:500]), 'r_corr', args)
                ctx.obligation(key + '/' + nm)
            ctx.sample('forall points, tensors: %s of %s (%s)' % (mode, what, f))
    ctx.bound(dimension=CE.n)


# -- replay -----------------------------------------------------------------------

def concrete_tensor(rng, coords, n):
    """positive definite tensor field, as {(i,j): expression}"""
    L = [[1 if i == j else Rational(rng.randint(-2, 2), 3) if j < i else 0 for j in range(n)] for i in range(n)]
    D = [rng.randint(1, 3) + sum(Rational(rng.randint(1, 3), 5) * (c - Rational(rng.randint(-2, 2), 3))**2 for c in coords)
         + sum(Rational(rng.randint(1, 2), 7) * c**4 for c in coords) for _ in range(n)]
    return {(i, j): sum(L[i][k] * D[k] * L[j][k] for k in range(n)) for i in range(n) for j in range(n)}


def r_closure(kind, f, h):
    try:
        C, out = run(kind, f, h)
    except Exception as err:
        return True, 'raises %r' % err
    mf = C.mfield
    sp = mf.spatial_coordinates
    n = len(sp)
    for what, order, res in out:
        txt = structure(mf, what, order, res)
        if txt:
            return True, '%s(%d): %s' % (what, order, txt)
        for seed in range(2):
            rng = random.Random(seed)
            S = concrete_tensor(rng, sp, n)
            pt = {c: Rational(rng.randint(-3, 3), 4) for c in mf.coordinates}
            T = mf.metric if kind == 'loc' or what == 'metric' else mf.aspect
            table = {T[i, j]: S[i, j] for i in range(n) for j in range(n)}
            d = symbols('d0:%d' % n)
            at0 = {c: pt[c] for c in sp}
            shift = {c: pt[c] + dd for c, dd in zip(sp, d)}
            if kind == 'poly':
                rho = sum(sympy.prod([dd**k for dd, k in zip(d, a)]) * (sum(a) + a[0] * 3 + 1)
                          for a in itertools.product(range(7 if n == 1 else 6), repeat=n) if sum(a) <= (7 if n == 1 else 5))
                table = {coefficient(mf, a): sum(a) + a[0] * 3 + 1 for a in itertools.product(range(7), repeat=n)}
            elif kind == 'loc':
                rho = exp(-sum(S[i, j].subs(at0) * d[i] * d[j] for i in range(n) for j in range(n)) / 2)
            else:
                s = S[0, 0] if what != 'metric' else 1 / S[0, 0]
                s0, s1 = sympy.sympify(s).subs(at0), sympy.sympify(s).subs(shift)
                rho = (s0 * s1)**Rational(1, 4) / ((s0 + s1) / 2)**Rational(1, 2) * exp(-d[0]**2 / (s0 + s1))
            for k in range(order + 1):
                for a in indices(n, k):
                    e = res[None if what == 'closure' else k][key_of(mf, a)]
                    e = sympy.sympify(e)
                    got = sympy.N(e.subs(table).doit().subs(pt), 30)
                    if what == 'metric' and k == 2:
                        i, j = [q for q in range(n) for _ in range(a[q])]
                        val = sympy.N(-S[i, j].subs(pt), 30)
                    else:
                        val = rho
                        for dd, kk in zip(d, a):
                            val = sympy.diff(val, dd, kk) if kk else val
                        val = sympy.N(sympy.sympify(val).subs({dd: 0 for dd in d}).subs(pt), 30)
                    if not got.is_number or abs(got - val) > sympy.Float('1e-18') * (1 + abs(val)):
                        return True, '%s(%d) of the %s closure of %s: order %s gives %s, derivative of the correlation %s (parameters %s at %s)' % (
                            what, order, kind, f, a, got, val, S.get((0, 0)), pt)
    return False, 'ok'


def r_corr(what, f, mode, same):
    CE = CorrEnv(what, f, same)
    for seed in range(4):
        rng = random.Random(seed)
        n = CE.n
        P = [Rational(rng.randint(-4, 4), 3) for _ in range(n)]
        Q = [Rational(rng.randint(-4, 4), 3) for _ in range(n)] if mode != 'zero' else P
        S = concrete_tensor(rng, CE.mf.spatial_coordinates, n)
        if same:
            S = {k: sympy.sympify(v).subs({c: 1 for c in CE.mf.spatial_coordinates}) for k, v in S.items()}
        tab = {}
        sp = CE.mf.spatial_coordinates
        M = lambda p: sympy.Matrix(n, n, lambda i, j: sympy.sympify(S[i, j]).subs(dict(zip(sp, p))))
        try:
            e = run_corr(what, f, tuple(P), tuple(Q)) if mode != 'symmetry' else run_corr(what, f, tuple(Q), tuple(P))
        except Exception as err:
            return True, 'raises %r' % err
        for p in (P, Q):
            for i in range(n):
                for j in range(n):
                    tab[CE.T[i, j].subs(dict(zip(sp, p)))] = M(p)[i, j]
        got = sympy.N(sympy.sympify(e).subs(tab), 25)
        d = sympy.Matrix(P) - sympy.Matrix(Q)
        if what == 'local_metric':
            val = exp(-(d.T * M(P) * d)[0] / 2)
        elif what == 'local_aspect':
            val = exp(-(d.T * M(P).inv() * d)[0] / 2)
        else:
            k = 1 if what == 'correlation' else Rational(1, 2)
            a, b = M(P), M(Q)
            val = (a.det() * b.det())**Rational(1, 4) / ((a + b) / 2).det()**Rational(1, 2) * exp(-k * (d.T * (a + b).inv() * d)[0])
        val = sympy.N(val, 25)
        if got.has(AppliedUndef):
            return True, '%s at %s, %s depends on %s' % (what, P, Q, got.atoms(AppliedUndef))
        if not got.is_number or abs(got - val) > sympy.Float('1e-15'):
            return True, '%s at %s, %s: %s, documented %s' % (what, P, Q, got, val)
    return False, 'ok'
