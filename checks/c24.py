"""C24: models generated for a manifold"""
import contextlib
import io
import os
import random
import tempfile
import zlib

import numpy
import sympy
from sympy import Derivative
from sympy.core.function import AppliedUndef

from checks import c14
from checks.c14 import Problem, roles_defect, model_class, system, clean, t
from lib import z3q, grid
from lib.grid import SHIM, Point, array
from lib.harness import Violation
from lib.poly import Poly

PROPERTY = 'C24'
LEVEL = 'translation_validation'
EXPLANATION = (
    'The source generated by the real ManifoldModelBuilder is executed on arrays of symbolic reals with a base space whose diff '
    'returns, for a field and orders, symbolic values of that derivative (unknown fields, coordinates or orders are violations). '
    'Z3 decides at every point that each tendency is the pointwise value of the right-hand side of that field, where each '
    'derivative is the value returned by the base space, for all states, constants, functions and returned values, in three '
    'successive calls. One step of the time scheme chosen at construction is compared with the scheme of that name.')
OUTSIDE = ('grids other than the stated ones; right-hand sides with explicit coordinates (the interface of a base space gives no '
           'coordinates); functions of a part of the coordinates, derivatives of expressions not evaluated')
ASSUMPTIONS = ['diff is a function of the field, the coordinates and the orders', 'denominators do not vanish', 'exact arithmetic']

SHAPES = {1: [(3,)], 2: [(2, 2)], 3: [(2, 1, 2)]}
SKIP = ('explicit', 'expl2', 'yx')         # explicit coordinates


def cases(tier, seed):
    names = [n for n in c14.table() if n not in SKIP] + c14.EXTRA
    names += ['rand%d' % (seed * 1000 + i) for i in range(10 if tier == 'quick' else 120)]
    out = [(n, 'case', dict(name=n)) for n in names]
    for s in ('euler', 'rk2', 'rk4', None):
        out.append(('scheme/%s' % s, 'scheme', dict(scheme=s)))
    out.append(('dimension', 'dimension', {}))
    return out


def weight(name):
    return 5 * ('pkf' in name)


def source(eqs, how):
    from sympkf.symbolic.model_builder_manifold import ManifoldModelBuilder
    b = ManifoldModelBuilder(list(eqs) if len(eqs) > 1 else eqs[0], class_name='GenModel')
    if how == 'code':
        return b.code
    d = tempfile.mkdtemp()
    old = os.getcwd()
    try:
        os.chdir(d)
        with contextlib.redirect_stdout(io.StringIO()):
            b.write_module()
        return open('genmodel.py').read()
    finally:
        os.chdir(old)
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)


class Space(object):
    """base space: value(function name, sorted orders, index) is the derivative"""

    def __init__(self, prob, shape, value):
        self.dimension = len(prob.space)
        self.names = {clean(c): str(c) for c in prob.space}
        self.shape, self.value = shape, value
        self.fields = {}
        self.wrong = []

    def known(self, fields):
        self.fields = fields

    def diff(self, f, *orders):
        who = [n for n, a in self.fields.items() if numpy.shape(a) == numpy.shape(f) and all(same(p, q) for p, q in zip(numpy.ravel(a), numpy.ravel(f)))]
        if len(who) != 1:
            raise BadRequest('diff of an unknown field')
        if len(orders) == 0 or len(orders) % 2:
            raise BadRequest('diff with orders %s' % (orders,))
        o = {}
        for c, k in zip(orders[::2], orders[1::2]):
            if str(c) not in self.names or not (k == int(k) and k > 0):
                raise BadRequest('diff with orders %s' % (orders,))
            c = self.names[str(c)]
            o[c] = o.get(c, 0) + int(k)
        o = tuple(sorted(o.items()))
        return array(lambda i: self.value(who[0], o, i), self.shape)


def dtag(call, n, names, exo):
    return call[0] if n in names else '%d_%d' % call if n in exo else ''


class BadRequest(Exception):
    pass


def same(a, b):
    if isinstance(a, Poly) or isinstance(b, Poly):
        return Poly.coerce(a).d == Poly.coerce(b).d
    return a == b


def exogenous(names, fvalue, time, state):
    """arrays that depend on the time and on the state"""
    first = state[(0,) * len(state.shape)]
    return [array(lambda i, n=n: fvalue(n, i + (str(time),)) + first, state.shape[1:]) for n in names]


CALLS = [(1, 0), (2, 0), (2, 1), (3, 1), (1, 0)]    # (content of the state, time); 3 is written in the array of 2


def instance(cls, prob, shape, space, value, fvalue, **more):
    """model with its constants, and the values of the functions that are not prognostic"""
    kw = {clean(s): value(s) for s in prob.symbols}
    given = {}
    for n in getattr(cls, 'constant_functions', ()):
        given[n] = kw[n] = array(lambda i, n=n: fvalue(prob.funcs[n].func.__name__, i), shape)
    exo = getattr(cls, 'exogenous_functions', ())
    if exo:
        class Sub(cls):
            def compute_exogenous(self, time, state):
                return exogenous([prob.funcs[n].func.__name__ for n in exo], fvalue, time, state)
        cls = Sub
    kw.update(more)
    with contextlib.redirect_stdout(io.StringIO()):
        return cls(space, **kw), {prob.funcs[n].func.__name__: a for n, a in given.items()}


class ManifoldPoint(Point):
    def _ev(self, e):
        if isinstance(e, Derivative) and isinstance(e.expr, AppliedUndef):
            o = {}
            for c, k in e.variable_count:
                o[str(c)] = o.get(str(c), 0) + int(k)
            return self.deriv(e.expr.func.__name__, tuple(sorted(o.items())), self.i)
        return Point._ev(self, e)


def case(ctx, name):
    ctx.fn('ManifoldModelBuilder', 'MetaDerivative', 'ModelBuilder', 'generated trend', 'generated __init__')
    grid.on()
    eqs = system(name)
    prob = Problem(eqs)
    rhs = {e.args[0].args[0].func.__name__: sympy.sympify(e.args[1]) for e in eqs}
    how = 'module' if name in ('burgers', 'sw2') else 'code'
    args = dict(name=name, how=how)
    try:
        cls, ns = model_class(source(eqs, how), SHIM)
    except Exception as err:
        raise Violation('%s/build' % name, 'building the manifold model of %s raises %r' % (eqs, err), 'r_case', args)
    bad = roles_defect(cls, prob)
    if bad:
        raise Violation('%s/roles' % name, 'manifold model of %s: %s' % (eqs, bad), 'r_case', args)
    TT = [Poly.var(('c', 't1')), Poly.var(('c', 't2'))]
    for shape in SHAPES[len(prob.space)]:
        val = lambda s: Poly.coerce(float(s)) if getattr(s, 'is_NumberSymbol', False) else Poly.var(('c', str(s)))
        fv = lambda n, i: Poly.var(('c', 'f', n, i))
        cur, exo = [(0, 0)], []
        D = lambda n, o, i, tag=None: Poly.var(('c', 'D%s' % dtag(cur[0] if tag is None else tag, n, names, exo), n, o, i))
        space = Space(prob, shape, D)
        names = []
        try:
            m, given = instance(cls, prob, shape, space, val, fv)
            names = [prob.funcs[n].func.__name__ for n in m.prognostic_functions]
            exo = [prob.funcs[n].func.__name__ for n in getattr(cls, 'exogenous_functions', ())]
            copies = {j: array(lambda i: Poly.var(('c', 'st%d' % j, names[i[0]], i[1:])), (len(names),) + shape) for j in (1, 2, 3)}
            st = {1: copies[1].copy(), 2: copies[2].copy()}
            res, give = [], {}
            for j, k in CALLS:
                cur[0] = j, k
                if j == 3:
                    st[3] = st[2]
                    st[3][...] = copies[3]
                give[j, k] = dict(given, **dict(zip(exo, exogenous(exo, fv, TT[k], copies[j]))))
                space.known(dict(give[j, k], **{n: st[j][q] for q, n in enumerate(names)}))
                res.append(m.trend(TT[k], st[j]))
                if len(res) == 1:
                    keep = numpy.array(res[0], dtype=object).copy()
        except z3q.Inconclusive:
            raise
        except Exception as err:
            raise Violation('%s/exec' % name, 'trend of %s on a manifold raises %r' % (eqs, err), 'r_case', args)
        if any(p.d != q.d for j in (1, 3) for p, q in zip(st[j].ravel(), copies[j].ravel())):
            raise Violation('%s/state' % name, 'the trend of %s modifies the state' % (eqs,), 'r_case', args)
        if any(not same(p, q) for p, q in zip(numpy.array(res[0], dtype=object).ravel(), keep.ravel())):
            raise Violation('%s/alias' % name, 'the trend of %s returns a buffer that later calls modify' % (eqs,), 'r_case', args)
        for (j, jt), r in zip(CALLS, res):
            r = numpy.asarray(r, dtype=object)
            T = TT[jt]
            if r.shape != st[j].shape:
                raise Violation('%s/shape' % name, 'trend of %s has shape %s' % (eqs, r.shape), 'r_case', args)
            values = lambda n, ts, idx: Poly.var(('c', 'st%d' % j, n, idx)) if n in names else give[j, jt][n][idx]
            P = ManifoldPoint(prob.space, shape, values, None, lambda s: T if s == t else val(s))
            P.deriv = lambda n, o, i: D(n, o, i, tag=(j, jt))
            for i in numpy.ndindex(*shape):
                P.at(i)
                for k, n in enumerate(names):
                    ok, _ = z3q.equal(Poly.coerce(r[(k,) + i]), P.ev(rhs[n]), witness=(sum(i) == 0))
                    if not ok:
                        raise Violation('%s/%s' % (name, n), 'tendency of %s is not the right-hand side of %s with the derivatives of the base space' % (
                            n, eqs), 'r_case', args)
            ctx.obligation('%s %s' % (name, shape))
        ctx.programs += 1
        ctx.bound(shape=list(shape))
    ctx.sample('forall states, parameters and values of diff: trend of the manifold model of %s = right-hand sides' % (eqs,))


def number_of(key):
    return .4 + (zlib.crc32(repr(key).encode()) % 1000) / 700.


class NumPoint(object):
    pass


def r_case(name, how):
    eqs = system(name)
    prob = Problem(eqs)
    try:
        cls, ns = model_class(source(eqs, how), numpy)
    except Exception as err:
        return True, 'building the model raises %r' % (err,)
    bad = roles_defect(cls, prob)
    if bad:
        return True, bad
    for shape in SHAPES[len(prob.space)]:
        num = lambda f: (lambda a: numpy.array(a, dtype=float))(f)
        val = lambda s: float(s) if getattr(s, 'is_NumberSymbol', False) else number_of(('c', str(s)))
        fv = lambda n, i: number_of(('f', n, i))
        names, cur, exo = [], [(0, 0)], []
        D = lambda n, o, i: number_of(('D', dtag(cur[0], n, names, exo), n, o, i))
        space = Space(prob, shape, D)
        base = space.diff
        space.diff = lambda *a: num(base(*a))
        try:
            m, given = instance(cls, prob, shape, space, val, fv)
            given = {n: num(a) for n, a in given.items()}
            for n in getattr(m, 'constant_functions', ()):
                setattr(m, n, given[prob.funcs[n].func.__name__])
            exo = [prob.funcs[n].func.__name__ for n in getattr(m, 'exogenous_functions', ())]
            if exo:
                m.compute_exogenous = lambda a, b: [num(q) for q in exogenous(exo, fv, a, b)]
            names = [prob.funcs[n].func.__name__ for n in m.prognostic_functions]
            copies = {j: num(array(lambda i: number_of(('st', j, names[i[0]], i[1:])), (len(names),) + shape)) for j in (1, 2, 3)}
            st = {1: copies[1].copy(), 2: copies[2].copy()}
            res, give = [], {}
            for j, k in CALLS:
                cur[0] = j, k
                if j == 3:
                    st[3] = st[2]
                    st[3][...] = copies[3]
                give[j, k] = dict(given, **{n: num(a) for n, a in zip(exo, exogenous(exo, fv, (.7, .9)[k], copies[j]))})
                space.known(dict(give[j, k], **{n: st[j][q] for q, n in enumerate(names)}))
                res.append(m.trend((.7, .9)[k], st[j]))
                if len(res) == 1:
                    keep = numpy.array(res[0]).copy()
        except Exception as err:
            return True, 'raises %r' % (err,)
        if any(not numpy.array_equal(st[j], copies[j]) for j in (1, 3)):
            return True, 'the trend modifies the state'
        if not numpy.array_equal(keep, res[0]):
            return True, 'a later call modifies the returned tendency'
        for (j, jt), r in zip(CALLS, res):
            cur[0] = j, jt
            if numpy.shape(r) != st[j].shape:
                return True, 'shape %s' % (numpy.shape(r),)
            for k, n in enumerate(names):
                e = sympy.sympify([q.args[1] for q in eqs if q.args[0].args[0].func.__name__ == n][0])
                for i in numpy.ndindex(*shape):
                    def der(d):
                        o = {}
                        for c, kk in d.variable_count:
                            o[str(c)] = o.get(str(c), 0) + int(kk)
                        return sympy.Float(D(d.expr.func.__name__, tuple(sorted(o.items())), i))
                    w = e.xreplace({d: der(d) for d in e.atoms(Derivative)})
                    w = w.xreplace({f: sympy.Float(st[j][(names.index(f.func.__name__),) + i] if f.func.__name__ in names else give[j, jt][f.func.__name__][i])
                                    for f in w.atoms(AppliedUndef)})
                    w = float(w.xreplace({s: sympy.Float((.7, .9)[jt] if s == t else val(s)) for s in w.free_symbols}))
                    if abs(w - r[(k,) + i]) > 1e-9 * (1 + abs(w)):
                        return True, '%s: tendency of %s is %s, the right-hand side is %s' % (eqs, n, r[(k,) + i], w)
    return False, 'equal'


# -- construction options ---------------------------------------------------------------

def build_two(np_):
    eqs = c14.table()['exo3']
    prob = Problem(eqs)
    return model_class(source(eqs, 'code'), np_)[0], prob


def step(scheme, f, t0, s, h):
    if scheme in ('euler', None) and scheme == 'euler':
        return s + h * f(t0, s)
    k1 = f(t0, s)
    if scheme == 'rk2':
        return s + h * f(t0 + h / 2, s + h * k1 / 2)
    k2 = f(t0 + h / 2, s + h * k1 / 2)
    k3 = f(t0 + h / 2, s + h * k2 / 2)
    k4 = f(t0 + h, s + h * k3)
    return s + h * (k1 + 2 * k2 + 2 * k3 + k4) / 6


def step_rows(scheme, np_, P, num):
    """(computed, expected) for one step of the chosen scheme on a linear trend"""
    cls, prob = build_two(np_)
    shape = (2,)
    conv = (lambda a: a) if not num else (lambda a: numpy.array(a, dtype=float))
    sp = Space(prob, shape, lambda n, o, i: P(('D', n, o, i)))
    kw = {} if scheme is None else dict(time_scheme=scheme)
    m, _ = instance(cls, prob, shape, sp, lambda s: P(('c', str(s))), lambda n, i: P(('f', n, i)), **kw)
    s = conv(array(lambda i: P(('s',) + i), (2, 2)))
    A = [[P(('A', i, j)) for j in range(2)] for i in range(2)]

    def f(tt, st):
        st = numpy.asarray(st)
        return conv(array(lambda i: (A[i[0]][0] * st[0, i[1]] + A[i[0]][1] * st[1, i[1]]) * tt, (2, 2)))
    t0, h = P(('t0',)), P(('h',))
    got = m.time_scheme(f, t0, s, h)
    from sympkf.model.model import Model

    class Ref(Model):
        def trend(self, a, b):
            return None
    name = scheme or Ref().time_scheme.__name__.strip('_').replace('time_scheme_', '')
    want = step(scheme, f, t0, s, h) if scheme else Ref().time_scheme(f, t0, s, h)
    return numpy.ravel(got), numpy.ravel(want)


def scheme(ctx, scheme):
    ctx.fn('generated __init__', 'Model.__init__')
    grid.on()
    args = dict(scheme=scheme)
    try:
        got, want = step_rows(scheme, SHIM, lambda k: Poly.var(('c',) + k), False)
    except Exception as e:
        raise Violation('scheme/%s' % scheme, 'building or stepping raises %r' % e, 'r_scheme', args)
    if len(got) != len(want):
        raise Violation('scheme/%s' % scheme, 'shape of the step', 'r_scheme', args)
    for a, b in zip(got, want):
        ok, _ = z3q.equal(Poly.coerce(a), Poly.coerce(b))
        if not ok:
            raise Violation('scheme/%s' % scheme, 'time_scheme=%r is not honoured by the manifold model' % (scheme,), 'r_scheme', args)
    ctx.obligation('scheme/%s' % scheme)
    ctx.bound(scheme=str(scheme))


def r_scheme(scheme):
    try:
        got, want = step_rows(scheme, numpy, lambda k: number_of(k), True)
    except Exception as e:
        return True, 'raises %r' % (e,)
    ok = len(got) == len(want) and numpy.allclose(got, want, rtol=1e-9)
    return not ok, 'step with time_scheme=%r: %s, expected %s' % (scheme, got, want)


def dimension(ctx):
    """a base space is accepted iff its dimension is the number of coordinates (symbolic dimension)"""
    from lib.concolic import explore
    from lib.z3q import z3
    ctx.fn('generated __init__')
    for name in ('burgers', 'mix2', 'd3'):
        prob = Problem(system(name))
        n = len(prob.space)
        V = {'d': z3.Int('d')}
        bad = explore(V, [V['d'] >= 0, V['d'] <= 6], lambda v: accepted(name, v['d']), lambda v, o: [('accepted', o == (v['d'] == n))],
                      lambda vals: (lambda r: r[1] if r[0] else None)(r_dimension(name, vals['d'])), ctx)
        if bad:
            raise Violation('dimension/%s' % name, bad[1], 'r_dimension', dict(name=name, d=bad[0]['d']))
        ctx.obligation('dimension/%s' % name)
    ctx.bound(dimensions=6)


def accepted(name, d):
    eqs = system(name)
    prob = Problem(eqs)
    cls = model_class(source(eqs, 'code'), numpy)[0]

    class S(object):
        dimension = d
    try:
        instance(cls, prob, (2,), S(), lambda s: 1., lambda n, i: 1.)
    except (AssertionError, ValueError):
        return False
    return True


def r_dimension(name, d):
    n = len(Problem(system(name)).space)
    try:
        a = accepted(name, d)
    except Exception as e:
        return True, 'raises %r' % e
    return a != (d == n), 'base space of dimension %d %s for %d coordinates' % (d, 'accepted' if a else 'refused', n)
