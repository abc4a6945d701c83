"""C19: propagator matrix of a linear model, identity model"""
import itertools
import sys

import numpy

from lib import z3q, grid
from lib.grid import SHIM
from lib.harness import Violation
from lib.poly import Poly, ZERO
from lib.pool import patched

PROPERTY = 'C19'
LEVEL = 'other'
EXPLANATION = (
    'The real make_M is executed for a linear time-dependent trend whose matrix entries, window times and steps are symbolic '
    'reals, with each single-state time scheme; Z3 decides that the matrix applied on a symbolic state is the forecast of that state, computed by '
    'the same model and by an independent iteration of the scheme. The identity model is executed on symbolic states.')
OUTSIDE = 'sizes and windows larger than stated'
ASSUMPTIONS = ['exact arithmetic']


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for scheme, combos in (('euler', [(1, 3), (2, 1), (2, 2), (2, 4), (3, 3)]), ('rk2', [(1, 3), (2, 2), (2, 3), (3, 2)]),
                           ('rk4', [(1, 3), (2, 2), (3, 2)])):
        if not q:
            combos = combos + {'euler': [(4, 3), (3, 4)], 'rk2': [(3, 3)], 'rk4': [(2, 3)]}[scheme]
        for n, w in combos:
            out.append(('%s/size%d/%dtimes' % (scheme, n, w), 'matrix', dict(scheme=scheme, n=n, w=w, shear=False)))
    # more states than workers
    out.append(('euler/size9/2times', 'matrix', dict(scheme='euler', n=9, w=2, shear=False)))
    out.append(('triangular/size13', 'matrix', dict(scheme='euler', n=13, w=2, shear=True)))
    out.append(('custom/size3', 'matrix', dict(scheme='custom', n=3, w=3, shear=False)))
    for n in (2, 3, 4):
        out.append(('triangular/size%d' % n, 'matrix', dict(scheme='euler', n=n, w=3, shear=True)))
    for hist in HISTORIES:
        out.append(('history/%s' % hist, 'history', dict(hist=hist)))
    for scheme in ('euler', 'rk2', 'rk4', 'leapfrog'):
        out.append(('identity/%s' % scheme, 'ident', dict(scheme=scheme)))
    return out


def weight(name):
    return 5 if 'rk4/size3' in name or 'rk4/size2/3' in name else 0


def modules():
    from sympkf.model.model import LinearModel, IdentityModel
    return LinearModel, IdentityModel, sys.modules[LinearModel.__module__]


class shimmed(object):
    def __enter__(self):
        self.mod = modules()[2]
        self.np = self.mod.np
        self.mod.np = SHIM
        self.pool = patched(schedule=lambda k: list(range(k))[::-1])
        self.pool.__enter__()

    def __exit__(self, *a):
        self.mod.np = self.np
        self.pool.__exit__()


def linear_model(scheme, n, entry, size=None):
    size = size or (lambda: n)
    LinearModel = modules()[0]

    class M(LinearModel):
        def trend(self, t, state):
            s = [Poly.coerce(x) for x in state]
            return grid.array(lambda i: sum((entry(i[0], j, t) * s[j] for j in range(size())), ZERO), (size(),))
    m = M(time_scheme=scheme if scheme != 'custom' else 'euler')
    m.n = n
    if scheme == 'custom':
        P = lambda i, j, t, dt: Poly.var(('c', 'P', i, j, repr(t), repr(dt)))
        m.time_scheme = lambda tr, t, s, dt: grid.array(
            lambda i: sum((P(i[0], j, t, dt) * Poly.coerce(s[j]) for j in range(n)), ZERO), (n,))
    return m


def times(w):
    ts = [Poly.var(('c', 't0'))]
    for i in range(w - 1):
        ts.append(ts[-1] + Poly.var(('c', 'dt', i)))
    return ts


def matrix(ctx, scheme, n, w, shear):
    ctx.fn('LinearModel.make_M', 'Model.ensemble_forecast', 'Model.forecast', 'Model._%s' % scheme)
    grid.on()
    args = dict(scheme=scheme, n=n, w=w, shear=shear)
    key = '%s/%d/%d/%s' % (scheme, n, w, shear)
    ts = times(w)
    # the matrix depends on time for the smaller cases
    td = scheme != 'rk4'

    def entry(i, j, t):
        if shear and j < i:
            return ZERO
        return Poly.var(('c', 'A', i, j, repr(t) if td else ''))
    with shimmed():
        try:
            m = linear_model(scheme, n, entry)
            M = m.make_M(ts)
            s = grid.array(lambda i: Poly.var(('c', 's', i[0])), (n,))
            f = m.forecast(ts, s, [ts[-1]])[ts[-1]]
            Ms = numpy.asarray(M, dtype=object).dot(s)
            shape = numpy.shape(M)
        except Exception as e:
            raise Violation(key, 'make_M raises %r' % e, 'r_matrix', args)
        if shape != (n, n) or numpy.shape(f) != (n,):
            raise Violation(key, 'make_M has shape %s' % (shape,), 'r_matrix', args)
        # independent iteration
        g = s
        for a, b in zip(ts[:-1], ts[1:]):
            g = m.time_scheme(m.trend, a, g, b - a)
        for i in range(n):
            for lab, x, y in (('M.state and the forecast', Ms[i], f[i]), ('the forecast and the iterated scheme', f[i], g[i])):
                ok, _ = z3q.equal(Poly.coerce(x), Poly.coerce(y), witness=(i == 0))
                if not ok:
                    raise Violation(key, '%s, size %d, %d times: %s differ at row %d' % (scheme, n, w, lab, i), 'r_matrix', args)
            ctx.obligation('%s/%d' % (key, i))
    ctx.bound(scheme=scheme, size=n, window_times=w)
    ctx.sample('forall matrices A(t), times, states: make_M(window) . state = forecast(window, state)')


# windows of the successive propagators of one model: (length, offset), `w` a window whose steps are not the ones of the other;
# p: the parameters of the model are modified, s: the time scheme is changed, x: the returned matrix is modified by the user
HISTORIES = ['same', 'shifted', 'steps', 'longer', 'parameters', 'scheme', 'modified', 'size', 'forecast', 'swapped']


def history_windows(hist, start, dt):
    w = lambda t0, steps: [t0 + sum(steps[:k], start * 0) for k in range(len(steps) + 1)]
    a, b = dt
    first = w(start, [a, b])
    if hist in ('shifted', 'forecast'):
        return first, w(start + a, [a, b])
    if hist == 'steps':
        return first, w(start, [b, a])
    if hist == 'longer':
        return first, w(start, [a, b, a])
    if hist == 'swapped':
        return w(start, [a + b]), first
    return first, first


def run_history(hist, m, windows, change):
    """matrices of the windows"""
    M1 = m.make_M(windows[0])
    keep = numpy.array(M1)
    if hist == 'parameters':
        change()
    if hist == 'scheme':
        m.set_time_scheme('rk2')
    if hist == 'size':
        m.n = 3
    if hist == 'modified':
        M1[0, 0] = M1[0, 0] + 1
    if hist == 'forecast':
        m.forecast(windows[0], M1[:, 0])
    M2 = m.make_M(windows[1])
    if hist != 'modified' and not all(p is q or bool(p == q) for p, q in zip(keep.reshape(-1), numpy.asarray(M1).reshape(-1))):
        raise AssertionError('the first matrix is modified by the computation of the second one')
    return M2


def history(ctx, hist):
    """the propagator does not depend on what was computed before"""
    ctx.fn('LinearModel.make_M', 'Model.ensemble_forecast', 'Model.forecast')
    grid.on()
    key, args = 'history/%s' % hist, dict(hist=hist)
    v = ['A']

    def entry(i, j, t):
        return Poly.var(('c', v[0], i, j, repr(t)))
    windows = history_windows(hist, Poly.var(('c', 't0')), [Poly.var(('c', 'dt', i)) for i in range(2)])
    with shimmed():
        try:
            m = linear_model('euler', 2, entry, size=lambda: m.n)
            M = run_history(hist, m, windows, lambda: v.__setitem__(0, 'B'))
            s = grid.array(lambda i: Poly.var(('c', 's', i[0])), (m.n,))
            g = s
            for a, b in zip(windows[1][:-1], windows[1][1:]):
                g = m.time_scheme(m.trend, a, g, b - a)
            Ms = numpy.asarray(M, dtype=object).dot(s)
        except Exception as e:
            raise Violation(key, 'second propagator (%s): %r' % (hist, e), 'r_history', args)
        for i in range(m.n):
            ok, _ = z3q.equal(Poly.coerce(Ms[i]), Poly.coerce(g[i]), witness=(i == 0))
            if not ok:
                raise Violation(key, 'history %s: the second propagator is not the one of its window, row %d' % (hist, i), 'r_history', args)
        ctx.obligation(key)
    ctx.sample('forall matrices A(t), times, states: after %s, make_M(window) . state = forecast(window, state)' % hist)
    ctx.bound(history=hist)


def r_history(hist):
    LinearModel = modules()[0]
    A = numpy.array([[1. + i + 3 * j - .5 * i * j for j in range(3)] for i in range(3)])
    c = [1.]

    class M(LinearModel):
        def trend(self, t, state):
            return c[0] * (A * (1 + .1 * t))[:self.n, :self.n].dot(state)
    m = M(time_scheme='euler')
    m.n = 2
    windows = history_windows(hist, .5, [.25, .5])
    try:
        with patched(schedule=lambda k: list(range(k))[::-1]):
            mat = run_history(hist, m, windows, lambda: c.__setitem__(0, 2.))
        s = numpy.array([1. - .7 * i for i in range(m.n)])
        g = s
        for a, b in zip(windows[1][:-1], windows[1][1:]):
            g = m.time_scheme(m.trend, a, g, b - a)
        got = numpy.asarray(mat).dot(s)
    except Exception as e:
        return True, 'raises %r' % (e,)
    return not (numpy.shape(got) == numpy.shape(g) and numpy.allclose(got, g, rtol=1e-9)), 'history %s: M.s = %s, forecast %s' % (hist, got, g)


def ident(ctx, scheme):
    ctx.fn('IdentityModel.trend', 'Model.forecast', 'Model.predict', 'Model.ensemble_forecast')
    grid.on()
    key, args = 'identity/%s' % scheme, dict(scheme=scheme)
    ts = times(3)
    for shape in ((1,), (3,), (2, 3)):
        with shimmed():
            rows = []
            try:
                m = modules()[1](time_scheme=scheme)
                s = grid.array(lambda i: Poly.var(('c', 's') + i), shape)
                s2 = grid.array(lambda i: Poly.var(('c', 's2') + i), shape)
                if scheme == 'leapfrog':
                    for t, v in m.forecast(ts, [s, s]).items():
                        rows += [(v[0], s), (v[1], s)]
                else:
                    rows += [(v, s) for v in m.forecast(ts, s).values()]
                    rows += [(v, s) for v in m.predict(ts, s)]
                    for v in m.ensemble_forecast(ts, [s, s2]).values():
                        rows += [(v[0], s), (v[1], s2)]
                n = len(rows)
                flat = [(a, b) for u, v in rows for a, b in zip(numpy.asarray(u, dtype=object).reshape(-1), numpy.asarray(v, dtype=object).reshape(-1))]
                good = n == (6 if scheme == 'leapfrog' else 12) and all(numpy.shape(u) == shape for u, _ in rows)
            except Exception as e:
                raise Violation(key, 'identity model raises %r on shape %s' % (e, shape), 'r_ident', args)
            if not good:
                raise Violation(key, 'identity model: %d states, shapes %s' % (n, [numpy.shape(u) for u, _ in rows]), 'r_ident', args)
            for a, b in flat:
                ok, _ = z3q.equal(Poly.coerce(a), b, witness=False)
                if not ok:
                    raise Violation(key, 'identity model (%s) changes a state' % scheme, 'r_ident', args)
        ctx.obligation('%s/%s' % (key, shape))
        ctx.bound(shape=list(shape))
    ctx.sample('forall states: the identity model leaves them unchanged')


# -- replay ----------------------------------------------------------------------

def r_matrix(scheme, n, w, shear):
    LinearModel = modules()[0]
    A = numpy.array([[(0. if shear and j < i else 1. + i + 3 * j - .5 * i * j) for j in range(n)] for i in range(n)])

    class M(LinearModel):
        def trend(self, t, state):
            return (A * (1 + .1 * t)).dot(state)
    m = M(time_scheme=scheme if scheme != 'custom' else 'euler')
    m.n = n
    win = [0.25 * i * (i + 1) for i in range(w)]
    s = numpy.array([1. - .7 * i for i in range(n)])
    try:
        with patched(schedule=lambda k: list(range(k))[::-1]):
            mat = m.make_M(win)
        f = m.forecast(win, s)[win[-1]]
        if not numpy.allclose(numpy.asarray(mat).dot(s), f, rtol=1e-9):
            return True, 'A=%s(1+t/10), window %s: M.s = %s, forecast = %s' % (A.tolist(), win, numpy.asarray(mat).dot(s), f)
        g = s
        for a, b in zip(win[:-1], win[1:]):
            g = m.time_scheme(m.trend, a, g, b - a)
        if not numpy.allclose(f, g, rtol=1e-9):
            return True, 'forecast %s iterated scheme %s' % (f, g)
    except Exception as e:
        return True, 'raises %r' % (e,)
    return False, 'agrees'


def r_ident(scheme):
    I = modules()[1]
    for shape in ((1,), (3,), (2, 3)):
        s = numpy.arange(1., 1 + numpy.prod(shape, dtype=int)).reshape(shape)
        try:
            m = I(time_scheme=scheme)
            if scheme == 'leapfrog':
                rows = [x for v in m.forecast([0., 1., 2.], [s, s]).values() for x in v]
                k = 6
            else:
                rows = list(m.forecast([0., 1., 2.], s).values()) + list(m.predict([0., 1., 2.], s))
                with patched(schedule=lambda k: list(range(k))[::-1]):
                    rows += [x for v in m.ensemble_forecast([0., 1., 2.], [s, s]).values() for x in v]
                k = 12
        except Exception as e:
            return True, 'raises %r' % (e,)
        if len(rows) != k or any(numpy.shape(r) != shape or not numpy.array_equal(r, s) for r in rows):
            return True, 'states %s' % (rows,)
    return False, 'identity'
