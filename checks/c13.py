"""C13: rendered stencil code computes the finite-difference formula"""
import keyword
import random
import re

import numpy
import sympy
from sympy import Function, Derivative as D, symbols, exp, sin, Rational, sqrt
from sympy.core.function import AppliedUndef

from lib import z3q, grid
from lib.grid import SHIM, Point, array
from lib.harness import Violation
from lib.poly import Poly

PROPERTY = 'C13'
PLAIN_INPUTS = True
LEVEL = 'translation_validation'
EXPLANATION = (
    'The code string rendered by the real Code / code_finite_difference is executed on periodic grids whose values are '
    'symbolic reals (object arrays), with symbolic steps and constants; Z3 decides, at every grid point, that the result '
    'equals the pointwise value of the finite-difference expression, for all grid values and steps.')
OUTSIDE = 'grids other than the stated ones; functions that do not depend on all spatial coordinates of the expression'
ASSUMPTIONS = ['steps and denominators do not vanish', 'exact arithmetic (rounding is ignored)']

t, x, y, z = symbols('t x y z')
SHAPES = {1: [(5,), (2,), (7,)], 2: [(4, 3), (2, 5)], 3: [(3, 2, 4)]}
K = symbols('\\kappa')


def F(n, *a):
    return Function(n)(*a)


def st(c):
    return sympy.Symbol('d' + str(c))


def table():
    """(label, builder of the finite-difference expression)"""
    from sympkf.symbolic.finite_difference import finite_difference as fd
    L = []

    def fam(lab, cs, names, tt=True):
        a = ((t,) if tt else ()) + tuple(cs)
        u, v, w = [F(n, *a) for n in names]
        c0, c1 = cs[0], cs[-1]
        L.extend([
            (lab + '/dx', D(u, c0)), (lab + '/dy', D(v, c1)), (lab + '/dx2', D(u, c0, 2) * v - w), (lab + '/prod', D(u * v, c1) * w + K * u),
            (lab + '/flux', D(w * D(u, c0), c1)), (lab + '/d3', u**2 * D(v, c0, 3) / w), (lab + '/adv', -u * D(v, c0) - w * D(v, c1) + K * D(v, c1, 2)),
            (lab + '/nl', exp(u) * D(v, c0) + sin(w) / 3 + sqrt(v) * Rational(2, 3)), (lab + '/same', D(u, c0) * D(v, c0) * D(w, c0)),
            (lab + '/plain', u * v + w * K - 2)])
        if len(cs) > 1:
            L.extend([(lab + '/mix', D(u, c0, c1)), (lab + '/mix2', D(v, c0, 2, c1) + D(w, c1, 2) * K**2), (lab + '/lap', sum(D(u, q, 2) for q in cs) - v * w)])
    fam('x', [x], ['u', 'v', 'w'])
    fam('space', [x], ['f', 'g', 'h'], False)
    fam('prefix', [x], ['u', 'uu', 'a^u'])
    fam('dnames', [x], ['dx', 'dxu', 'ddx'])
    fam('tnames', [x], ['dt_u', 'tu', 't1'])
    fam('latex', [x], ['\\alpha_{u}', 'V_{u}', '{g_{u,xx}}'])
    fam('greek', [symbols('\\theta')], ['u', '\\lambda', 'w'])
    fam('x1', [symbols('x1')], ['u', 'x', 'w'])
    fam('r', [symbols('dr')], ['u', 'r', 'w'])
    fam('xy', [x, y], ['u', 'v', 'w'])
    fam('yx', [y, x], ['u', 'v', 'w'])
    fam('xx1', [x, symbols('x1')], ['u', 'x1u', 'w'])
    fam('tx', [symbols('theta'), symbols('phi')], ['\\psi', 'psi_1', 'theta_u'])
    fam('xd', [symbols('d'), x], ['u', 'dd', 'w'])
    fam('latex2', [x, y], ['g^{u}', '\\nu_{xy}', 'f^u_xy'])
    fam('xyz', [x, y, z], ['u', 'v', 'w'])
    fam('zxy', [z, x, y], ['u', 'v', 'w'])
    out = [(lab, lambda e=e: fd(e)) for lab, e in L]
    u = F('u', t, x)
    dt, dx, dy = symbols('dt dx dy')
    w = F('w', t, x, y)
    raw = [
        ('raw/leapfrog', (u.subs(t, t + dt) - u.subs(t, t - dt)) / (2 * dt) + u * (u.subs(x, x + dx) - u.subs(x, x - dx)) / (2 * dx)),
        ('raw/diag', F('u', t + dt, x - 3 * dx) * F('u', t - 2 * dt, x + 2 * dx) + u**2),
        ('raw/far', F('u', t, x + 9 * dx) - F('u', t, x - 8 * dx) / 7),
        ('raw/2d', F('w', t, x + 2 * dx, y - dy) * F('w', t, x, y + 3 * dy) / (dx**2 * dy) - w),
        ('raw/2dt', F('w', t - dt, x - dx, y) + F('w', t + 3 * dt, x, y)),
        ('raw/nodt', F('f', x + dx) * F('f', x - dx) / F('f', x)),
        ('raw/farther', F('u', t + 12 * dt, x - 23 * dx) * F('u', t - 10 * dt, x + 10 * dx) - F('u', t, x - 10 * dx) + F('u', t, x + 101 * dx)),
        ('raw/2dfar', F('w', t, x + 11 * dx, y - 10 * dy) - F('w', t - 11 * dt, x, y + 20 * dy) / 3),
        ('raw/step', u * dx**2 + F('u', t, x + dx) / dx),
    ]
    return out + [(a, lambda e=e: e) for a, e in raw]


FORMS = {'': lambda e: e, 'simplify': lambda e: sympy.simplify(e), 'factor': lambda e: sympy.factor(e)}


def clean(s):
    s = str(s).replace('\\', '').replace('{', '').replace('}', '').replace('^', '_').replace(',', '_')
    return s + '_' if keyword.iskeyword(s) else s


def cases(tier, seed):
    n = len(table())
    forms = ['', 'simplify'] if tier == 'quick' else list(FORMS)
    out = []
    for f in forms:
        k = 12 if f == '' else 6
        out += [('%s/%d' % (f or 'expand', a), 'case', dict(form=f, lo=a, hi=min(n, a + k), tier=tier))
                for a in range(0, n, k)]
    m = 4 if tier == 'quick' else 60
    return out + [('random/%d' % k, 'rnd', dict(k=k)) for k in range(m)]


def weight(name):
    return 'simplify' in name


class Self(object):
    def __init__(self, coords, shape, step):
        self.coords = [clean(c) for c in coords]
        self.shape = shape
        self.dx = {clean(c): step(c) for c in list(coords) + [t]}

    def index(self, coord, k):
        n = self.shape[self.coords.index(coord)]
        return (numpy.arange(n) + k) % n


def spatial(expr):
    best = ()
    for f in expr.atoms(AppliedUndef):
        cs = []
        for a in f.args:
            ss = sorted(a.free_symbols, key=str)
            c = [s for s in ss if not any(str(s) == 'd' + str(q) for q in ss)] or ss
            if str(c[0]) != 't':
                cs.append(c[0])
        if len(cs) > len(best):
            best = tuple(cs)
    return best


def pv(name, ts, idx):
    return Poly.var(('c', 'v', name, ts, idx))


def evaluate(expr, code, coords, shape, leaf, step, const):
    """value of the code on the grid"""
    ns = {'np': SHIM, 'self': Self(coords, shape, step), 'sin': numpy.sin, 'exp': numpy.exp, 'sqrt': numpy.sqrt, 'cos': numpy.cos}
    for f in expr.atoms(AppliedUndef):
        name = f.func.__name__
        for ts in range(-12, 13):
            tag = '' if ts == 0 else ('p%d' % ts if ts > 0 else 'm%d' % -ts)
            ns[clean(name) + tag] = array(lambda i: leaf(name, ts, i), shape)
    for s in expr.free_symbols:
        if clean(s) not in ns and clean(s) not in ('self', 'np'):
            ns[clean(s)] = const(s)
    return eval(code, ns)


def decide(lab, expr, ctx, key, args, shapes=None):
    from sympkf.symbolic.finite_difference import Code
    grid.on()
    coords = spatial(expr)
    code = Code(expr).code
    step = lambda c: Poly.var(('q', 'step', str(c)))
    const = lambda s: Poly.var(('c', str(s)))
    for shape in shapes or SHAPES[len(coords)]:
        try:
            got = evaluate(expr, code, coords, shape, pv, step, const)
        except z3q.Inconclusive:
            raise
        except Exception as err:
            raise Violation(key, 'code of %s: %s raises %r' % (expr, code, err), 'r_code', args)
        got = numpy.asarray(got, dtype=object)
        try:
            got = numpy.broadcast_to(got, shape)
        except ValueError:
            raise Violation(key, 'code of %s: shape %s instead of %s' % (expr, got.shape, shape), 'r_code', args)
        P = Point(coords, shape, pv, step, const)
        for i in numpy.ndindex(*shape):
            ok, m = z3q.equal(got[i], P.at(i).ev(expr), witness=(sum(i) == 0))
            if not ok:
                raise Violation(key, 'grid %s point %s: code %s does not compute %s' % (shape, i, code, expr), 'r_code', args)
        ctx.programs += 1
        ctx.bound(shape=list(shape))
    ctx.obligation(key)
    ctx.sample('forall grid values, steps, constants: %s == %s' % (code, expr))


def case(ctx, form, lo, hi, tier):
    ctx.fn('Code', 'code_finite_difference', 'code_regular_function', 'get_function_coordinates', 'get_displacement')
    T = table()
    for i in range(lo, hi):
        lab, build = T[i]
        args = dict(i=i, form=form)
        key = '%s/%s' % (lab, form)
        try:
            e = FORMS[form](build())
        except Exception as err:
            raise Violation(key, '%s: %r' % (lab, err), 'r_code', args)
        decide(lab, e, ctx, key, args, None if form == '' else SHAPES[len(spatial(e))][:1])


def rexpr(seed, k, j):
    rng = random.Random(seed * 1009 + k * 101 + j)
    letters = ['u', 'v', 'du', 'x', 'xx', 'a_1', '\\beta', 'W^2', 'g_{u,x}', 'd', 't_', 'np1', 'dxdx', 'index', 'Xdt']
    cnames = ['x', 'y', 'x_1', 'dr', 's', 'xi', '\\eta', 'd1', 'tau']
    d = rng.choice([1, 1, 2, 2, 3])
    cs = symbols(rng.sample(cnames, d))
    tt = rng.random() < .7
    names = rng.sample([l for l in letters if l not in map(str, cs)], 3)

    def leaf():
        sh = [c + rng.choice([-2, -1, 0, 0, 1, 1, 3]) * st(c) for c in cs]
        ti = [t + rng.choice([0, 0, 0, 1, -1]) * st(t)] if tt else []
        return Function(rng.choice(names))(*(ti + sh))
    e = 0
    for _ in range(rng.randint(1, 4)):
        m = Rational(rng.choice([-2, 1, 1, 3]), rng.choice([1, 1, 2, 3])) / rng.choice([1, st(cs[0]), st(cs[-1])**2, st(cs[0]) * st(cs[-1])])
        for _ in range(rng.randint(1, 3)):
            m = m * leaf() ** rng.choice([1, 1, 1, 2])
        e = e + m * rng.choice([1, K, symbols('c_{1}')])
    return e


def rnd(ctx, k):
    ctx.fn('Code')
    for j in range(12):
        e = rexpr(ctx.seed, k, j)
        decide('random', e, ctx, 'random/%s' % e, dict(seed=ctx.seed, k=k, j=j), SHAPES[len(spatial(e))][:1])


# -- replay ---------------------------------------------------------------------

def r_code(i=None, form='', seed=None, k=None, j=None):
    from sympkf.symbolic.finite_difference import Code
    try:
        expr = FORMS[form](table()[i][1]()) if i is not None else rexpr(seed, k, j)
        code = Code(expr).code
    except Exception as err:
        return True, 'rendering raises %r' % (err,)
    coords = spatial(expr)
    rng = random.Random(5)
    mem = {}

    def val(*key):
        if key not in mem:
            mem[key] = rng.uniform(.5, 2.)
        return mem[key]
    leaf = lambda n, ts, idx: val(n, ts, idx)
    step = lambda c: val('step', str(c))
    const = lambda s: val('const', str(s))
    for shape in SHAPES[len(coords)]:
        try:
            class S2(Self):
                pass
            ns = {}
            got = evaluate_float(expr, code, coords, shape, leaf, step, const)
        except Exception as err:
            return True, 'code %s of %s raises %r' % (code, expr, err)
        got = numpy.asarray(got)
        if got.shape not in ((), shape):
            return True, 'code %s of %s has shape %s' % (code, expr, got.shape)
        got = numpy.broadcast_to(got, shape)
        for i_ in numpy.ndindex(*shape):
            w = concrete(expr, coords, shape, i_, leaf, step, const)
            if abs(w - got[i_]) > 1e-9 * (1 + abs(w)):
                return True, 'code %s gives %s at %s on grid %s, the formula %s gives %s' % (code, got[i_], i_, shape, expr, w)
    return False, 'equal'


def evaluate_float(expr, code, coords, shape, leaf, step, const):
    ns = {'np': numpy, 'self': Self(coords, shape, step), 'sin': numpy.sin, 'exp': numpy.exp, 'sqrt': numpy.sqrt, 'cos': numpy.cos}
    for f in expr.atoms(AppliedUndef):
        name = f.func.__name__
        for ts in range(-12, 13):
            tag = '' if ts == 0 else ('p%d' % ts if ts > 0 else 'm%d' % -ts)
            a = numpy.empty(shape)
            for i in numpy.ndindex(*shape):
                a[i] = leaf(name, ts, i)
            ns[clean(name) + tag] = a
    for s in expr.free_symbols:
        if clean(s) not in ns and clean(s) not in ('self', 'np'):
            ns[clean(s)] = const(s)
    return eval(code, ns)


def concrete(expr, coords, shape, i, leaf, step, const):
    def sub(f):
        idx, ts = list(i), 0
        for a in f.args:
            for c in list(coords) + [t]:
                k = sympy.expand((a - c) / st(c))
                if k.is_Integer:
                    if c == t:
                        ts = int(k)
                    else:
                        n = list(coords).index(c)
                        idx[n] = (idx[n] + int(k)) % shape[n]
                    break
        return sympy.Float(leaf(f.func.__name__, ts, tuple(idx)))
    e = expr.replace(lambda q: isinstance(q, AppliedUndef), sub)
    return float(e.subs({st(c): step(c) for c in list(coords) + [t]}).subs({s: const(s) for s in e.free_symbols}))
