"""C15: the generated grid is a periodic regular mesh in agreement with the state"""
import random

import numpy
import sympy
from sympy import symbols, Function, Derivative as D

from lib import z3q, grid, sx
from lib.grid import SHIM, array
from lib.harness import Violation
from lib.poly import Poly
from checks import c14

PROPERTY = 'C15'
LEVEL = 'translation_validation'
EXPLANATION = (
    'The generated __init__ and index methods are executed with symbolic lengths (reals) and a symbolic integer shift: Z3 '
    'decides, for all lengths and every integer shift, that steps are length/size, axis coordinates are k*step, coordinate '
    'arrays have the shape of a field and vary along their own axis only, and that shifted indexes are (i+shift) mod size, in any order of '
    'requests. The generated trend is executed on a symbolic state and on its translation (symbolic reals): Z3 decides that '
    'the tendency of the translated state is the translated tendency.')
OUTSIDE = 'grid sizes other than the stated ones; systems with explicit coordinates for the equivariance'
ASSUMPTIONS = ['lengths do not vanish', 'exact arithmetic']

t, x, y, z = symbols('t x y z')
SIZES = {1: [(1,), (2,), (5,), (12,)], 2: [(3, 4), (4, 3), (5, 5), (1, 6), (2, 2)], 3: [(2, 3, 4), (4, 2, 3), (3, 3, 1)]}
DEEP = {1: [(n,) for n in range(1, 24)], 2: [(a, b) for a in range(1, 8) for b in range(1, 8)],
        3: [(a, b, c) for a in range(1, 5) for b in range(1, 5) for c in range(1, 5)]}
SYS = ['burgers', 'coord_ds', 'theta', 'adv2', 'yx', 'd3']
EQUI = ['burgers', 'kuramoto', 'flux', 'exo3', 'sys3', 'nl', 'rational', 'func', 'theta', 'adv2', 'mix2', 'diff2', 'sw2', 'exo2', 'd3', 'pkf_burgers']


def cases(tier, seed):
    out = [('grid/%s' % n, 'geometry', dict(name=n, tier=tier)) for n in SYS]
    out += [('index/%s' % n, 'index', dict(name=n, tier=tier)) for n in SYS]
    out += [('equivariance/%s' % n, 'equi', dict(name=n)) for n in EQUI]
    out += [('equivariance/rand%d' % (seed * 1000 + i), 'equi', dict(name='rand%d' % (seed * 1000 + i))) for i in range(4 if tier == 'quick' else 40)]
    out.append(('default', 'default', {}))
    return out


def setup(name):
    eqs = c14.system(name)
    return c14.Problem(eqs), c14.source(eqs, 'code')


def sizes(d, tier):
    return SIZES[d] if tier == 'quick' else DEEP[d]


def geometry(ctx, name, tier):
    ctx.fn('generated __init__')
    grid.on()
    prob, src = setup(name)
    for shape in sizes(len(prob.space), tier):
        args = dict(name=name, shape=list(shape))
        key = '%s/%s' % (name, shape)
        try:
            m, dx, _, _ = c14.symbolic_model(src, prob, shape)
            X, xs, steps = m.X, m.x, m.dx
            rows = []
            if len(steps) != len(shape) or len(xs) != len(shape) or len(X) != len(shape):
                raise Violation(key, 'number of coordinates', 'r_grid', args)
            for n in range(len(shape)):
                rows.append(('dx[%d]' % n, steps[n], dx[n]))
                if numpy.shape(xs[n]) != (shape[n],):
                    raise Violation(key, 'x[%d] has shape %s' % (n, numpy.shape(xs[n])), 'r_grid', args)
                if numpy.shape(X[n]) != tuple(shape):
                    raise Violation(key, 'X[%d] has shape %s instead of %s' % (n, numpy.shape(X[n]), shape), 'r_grid', args)
                for i in range(shape[n]):
                    rows.append(('x[%d][%d]' % (n, i), xs[n][i], dx[n] * i))
                for i in numpy.ndindex(*shape):
                    rows.append(('X[%d]%s' % (n, i), X[n][i], dx[n] * i[n]))
        except (Violation, z3q.Inconclusive):
            raise
        except Exception as e:
            raise Violation(key, 'model of %s on the grid %s raises %r' % (name, shape, e), 'r_grid', args)
        for k, (lab, a, b) in enumerate(rows):
            ok, _ = z3q.equal(Poly.coerce(a), b, witness=(k == 0))
            if not ok:
                raise Violation(key, '%s, grid %s: %s is %s instead of %s' % (name, shape, lab, a, b), 'r_grid', args)
        ctx.obligation(key)
        ctx.programs += 1
        ctx.bound(shape=list(shape))
    ctx.sample('forall lengths: dx[k] = length[k]/size[k], x[k][i] = i dx[k], X[k][i..] = i_k dx[k]')


def default(ctx):
    """model built without shape and lengths: 100 points on unit lengths (documented template default)"""
    ctx.fn('generated __init__')
    grid.on()
    prob, src = setup('adv2')
    cls, ns = c14.model_class(src, numpy)
    try:
        m = cls()
        ok, _ = z3q.equal(Poly.coerce(m.dx[1]) * m.shape[1], Poly.coerce(m.lengths[1]))
        good = ok and numpy.shape(m.X[0]) == tuple(m.shape) and len(m.shape) == len(prob.space)
    except Exception as e:
        raise Violation('default', 'default model raises %r' % e, 'r_default', {})
    if not good:
        raise Violation('default', 'default model: dx %s shape %s lengths %s' % (m.dx, m.shape, m.lengths), 'r_default', {})
    for bad in ((3,), (3, 4, 5)):
        for kw in (dict(shape=bad), dict(lengths=bad)):
            try:
                cls(**kw)
            except ValueError:
                continue
            except Exception as e:
                pass
            raise Violation('default/%s' % kw, '%s accepted for 2 coordinates' % kw, 'r_default', {})


# -- indexes -----------------------------------------------------------------------

ORDERS = [['s'], ['s', 's'], [0, 's', 1, 's'], ['s', -1, 0, 'n', 's'], [1, -1, 2, 's', -2, 0]]


def index(ctx, name, tier):
    ctx.fn('generated index')
    grid.on()
    prob, src = setup(name)
    for shape in sizes(len(prob.space), tier):
        key = '%s/%s' % (name, shape)
        for order in ORDERS:
            args = dict(name=name, shape=list(shape), order=order)

            def prog():
                s = sx.Int('s')
                m, _, _, _ = c14.symbolic_model(src, prob, shape)
                out = []
                for st in order:
                    for k, c in enumerate(m.coordinates):
                        v = s if st == 's' else (-s if st == 'n' else st)
                        out.append((k, v, m.index(c, v)))
                # earlier answers are not modified by later requests
                return out
            try:
                for path in sx.explore(prog, limit=400):
                    if path.error is not None:
                        raise path.error
                    for k, v, got in path.value:
                        if numpy.shape(got) != (shape[k],):
                            raise Violation(key, '%s: index has shape %s' % (name, numpy.shape(got)), 'r_index', args)
                        for i in range(shape[k]):
                            g = sx.zint(got[i])
                            want = (sx.zint(v) + i) % shape[k]
                            r, mo = path.prove(g == want)
                            if not r:
                                sv = mo.eval(sx.zint(sx.Int('s')), model_completion=True).as_long() if mo is not None else 1
                                raise Violation(key, '%s: index(%s, %s)[%d] is wrong on the grid %s (s=%s)' % (
                                    name, prob.space[k], v, i, shape, sv), 'r_index', dict(args, s=sv))
                    ctx.paths += 1
            except Violation:
                raise
            except Exception as e:
                concrete_index(ctx, src, prob, shape, order, key, args, e)
            ctx.obligation('%s/%s' % (key, order))
        ctx.programs += 1
        ctx.bound(shape=list(shape), shift='every integer')
    ctx.sample('forall integer s, i: index(c, s)[i] = (i + s) mod size')


def concrete_index(ctx, src, prob, shape, order, key, args, err):
    """index written with operations that need a concrete shift: every shift of a window, decided entry by entry"""
    ctx.skipped += 1
    ctx.bound(shift='integers in [-%d, %d] (index is not executable on a symbolic shift: %s)' % (3 * max(shape), 3 * max(shape), type(err).__name__))
    m, _, _, _ = c14.symbolic_model(src, prob, shape)
    for s in range(-3 * max(shape), 3 * max(shape) + 1):
        for st in order:
            v = s if st == 's' else (-s if st == 'n' else st)
            for k, c in enumerate(m.coordinates):
                try:
                    got = numpy.asarray(m.index(c, v))
                except Exception as e:
                    raise Violation(key, 'index(%s, %s) raises %r' % (c, v, e), 'r_index', dict(args, s=s))
                want = [(i + v) % shape[k] for i in range(shape[k])]
                d = numpy.shape(got) == (shape[k],)
                if d:
                    i = sx.z3.Int('i')
                    tab = lambda seq: sx.z3.Or([sx.z3.And(i == j, sx.z3.IntVal(int(a)) != sx.z3.IntVal(int(b))) for j, (a, b) in enumerate(seq)])
                    r, _ = z3q.check([tab(zip(got, want))])
                    d = r == 'unsat'
                if not d:
                    raise Violation(key, 'index(%s, %s) = %s on the grid %s' % (c, v, got, shape), 'r_index', dict(args, s=s))


# -- equivariance --------------------------------------------------------------------

def equi(ctx, name):
    ctx.fn('generated trend', 'generated index')
    grid.on()
    prob, src = setup(name)
    shape = c14.SHAPES[len(prob.space)][0]
    rng = random.Random(7)
    shifts = [tuple(int(i == k) for i in range(len(shape))) for k in range(len(shape))] + [tuple(rng.randrange(1, n) if n > 1 else 0 for n in shape)]
    T = Poly.var(('c', 't'))
    for sh in shifts:
        args = dict(name=name, shift=list(sh))
        key = '%s/%s' % (name, sh)
        try:
            res = []
            for delta in ((0,) * len(shape), sh):
                cls, ns = c14.model_class(src, SHIM)
                val = lambda s: Poly.coerce(float(s)) if getattr(s, 'is_NumberSymbol', False) else Poly.var(('c', str(s)))
                mv = lambda i: tuple((a + b) % n for a, b, n in zip(i, delta, shape))
                fv = lambda n, tag, i: Poly.var(('c', 'f', n, mv(i)))
                try:
                    m = c14.instance(cls, prob, shape, tuple(Poly.var(('q', 'len', n)) for n in range(len(shape))), val, fv)
                except Exception:
                    m = c14.instance(cls, prob, shape, tuple([2.0, 3.0, 0.5][:len(shape)]), val, fv)
                names = list(m.prognostic_functions)
                st = array(lambda i: Poly.var(('c', 'st', names[i[0]], mv(i[1:]))), (len(names),) + shape)
                res.append(numpy.asarray(m.trend(T, st), dtype=object))
        except Exception as e:
            raise Violation(key, 'trend of %s raises %r' % (name, e), 'r_equi', args)
        for k, r in enumerate(names):
            for i in numpy.ndindex(*shape):
                j = tuple((a + b) % n for a, b, n in zip(i, sh, shape))
                ok, _ = z3q.equal(Poly.coerce(res[1][(k,) + i]), Poly.coerce(res[0][(k,) + j]), witness=(sum(i) == 0))
                if not ok:
                    raise Violation(key, '%s: the tendency of the state translated by %s is not the translated tendency at %s' % (name, sh, i), 'r_equi', args)
        ctx.obligation(key)
        ctx.programs += 1
    ctx.bound(shape=list(shape), system=name)
    ctx.sample('forall state: trend(T state) = T trend(state), translations %s of %s' % (shifts, name))


# -- replay ----------------------------------------------------------------------------

def float_model(name, shape, L=None):
    prob, src = setup(name)
    cls, ns = c14.model_class(src, numpy)
    L = L or [2., 3., .5][:len(shape)]
    return prob, c14.instance(cls, prob, tuple(shape), tuple(L), lambda s: 1.5, lambda n, tag, i: 1.0 + sum(i) % 2), L


def r_grid(name, shape):
    try:
        prob, m, L = float_model(name, shape)
        for n in range(len(shape)):
            h = L[n] / shape[n]
            if abs(m.dx[n] - h) > 1e-12:
                return True, 'dx[%d] = %s' % (n, m.dx[n])
            if numpy.shape(m.x[n]) != (shape[n],) or not numpy.allclose(numpy.asarray(m.x[n], dtype=float), h * numpy.arange(shape[n])):
                return True, 'x[%d] = %s' % (n, m.x[n])
            if numpy.shape(m.X[n]) != tuple(shape):
                return True, 'X[%d] has shape %s' % (n, numpy.shape(m.X[n]))
            for i in numpy.ndindex(*shape):
                if abs(m.X[n][i] - h * i[n]) > 1e-12:
                    return True, 'X[%d]%s = %s' % (n, i, m.X[n][i])
    except Exception as e:
        return True, 'raises %r' % (e,)
    return False, 'regular grid'


def r_index(name, shape, order, s=1):
    try:
        for s in [s] + list(range(-9, 10)):
            prob, m, L = float_model(name, shape)
            for st in order:
                v = s if st == 's' else (-s if st == 'n' else st)
                for k, c in enumerate(m.coordinates):
                    got = list(m.index(c, v))
                    if got != [(i + v) % shape[k] for i in range(shape[k])]:
                        return True, 'index(%r, %d) = %s on the grid %s' % (c, v, got, shape)
    except Exception as e:
        return True, 'raises %r' % (e,)
    return False, 'periodic'


def r_default():
    prob, src = setup('adv2')
    cls, ns = c14.model_class(src, numpy)
    try:
        m = cls()
        if abs(m.dx[1] * m.shape[1] - m.lengths[1]) > 1e-12 or numpy.shape(m.X[0]) != tuple(m.shape):
            return True, 'dx %s' % (m.dx,)
    except Exception as e:
        return True, 'raises %r' % (e,)
    for bad in ((3,), (3, 4, 5)):
        for kw in (dict(shape=bad), dict(lengths=bad)):
            try:
                cls(**kw)
            except ValueError:
                continue
            except Exception as e:
                pass
            return True, '%s accepted for 2 coordinates' % kw
    return False, 'ok'


def r_equi(name, shift):
    prob, src = setup(name)
    shape = c14.SHAPES[len(prob.space)][0]
    mem, rng = {}, random.Random(2)

    def val(*key):
        if key not in mem:
            mem[key] = rng.uniform(.5, 1.5)
        return mem[key]
    res = []
    try:
        for delta in ((0,) * len(shape), tuple(shift)):
            cls, ns = c14.model_class(src, numpy)
            mv = lambda i: tuple((a + b) % n for a, b, n in zip(i, delta, shape))
            m = c14.instance(cls, prob, shape, tuple([2., 3., .5][:len(shape)]),
                             lambda s: float(s) if getattr(s, 'is_NumberSymbol', False) else val('c', str(s)), lambda n, tag, i: val('f', n, mv(i)))
            for n in getattr(m, 'constant_functions', ()):
                setattr(m, n, numpy.array(getattr(m, n), dtype=float))
            if getattr(m, 'exogenous_functions', ()):
                base = m.compute_exogenous
                m.compute_exogenous = lambda a, b, base=base: [numpy.array(q, dtype=float) for q in base(a, b)]
            names = list(m.prognostic_functions)
            st = numpy.array(array(lambda i: val('st', names[i[0]], mv(i[1:])), (len(names),) + shape), dtype=float)
            res.append(m.trend(.3, st))
    except Exception as e:
        return True, 'raises %r' % (e,)
    a = numpy.roll(res[0], [-s for s in shift], axis=tuple(range(1, 1 + len(shape))))
    if numpy.max(numpy.abs(a - res[1])) > 1e-7 * (1 + numpy.max(numpy.abs(a))):
        return True, 'difference %s' % numpy.max(numpy.abs(a - res[1]))
    return False, 'equivariant'
