"""C16: time schemes have their documented order of accuracy"""
import itertools
from fractions import Fraction
from math import factorial

import numpy
import sympy

from lib import z3q, sx
from lib.harness import Violation
from lib.poly import Poly, vid, truncation, ZERO

PROPERTY = 'C16'
LEVEL = 'other'
EXPLANATION = (
    'One step of the real scheme is executed with a symbolic time, step and state, the trend being a generic smooth '
    'function represented by its jet (every partial derivative in time and state is a free real variable) and the step a '
    'truncated series variable. Z3 decides that every coefficient of the step up to the order equals that of the exact '
    'solution (computed by total differentiation). The splitting scheme is executed with uninterpreted update and scheme '
    'functions: Z3 decides that the result is their composition in order.')
OUTSIDE = 'more than 3 components; terms of the local error beyond the order; floating-point rounding'
ASSUMPTIONS = ['the trend is smooth', 'exact arithmetic']

ORDERS = {'euler': 1, 'rk2': 2, 'rk4': 4, 'leapfrog': 2}
H, T = Poly.var(('c', 'h')), Poly.var(('c', 't0'))
HID = vid(('c', 'h'))


def cases(tier, seed):
    comps = [1, 2] if tier == 'quick' else [1, 2, 3]
    out = []
    for s in ORDERS:
        for m in comps:
            if s == 'rk4' and m == 3:
                continue
            out.append(('%s/%dcomp' % (s, m), 'order', dict(scheme=s, m=m, kind='jet')))
        out.append(('%s/scalar' % s, 'order', dict(scheme=s, m=0, kind='jet')))
        out.append(('%s/2d' % s, 'order', dict(scheme=s, m=-2, kind='autonomous')))
        for kind in ('identity', 'stored'):
            out.append(('%s/%s' % (s, kind), 'order', dict(scheme=s, m=2, kind=kind)))
    out.append(('splitting', 'splitting', dict(n=4 if tier == 'quick' else 6)))
    out.append(('names', 'names', {}))
    return out


def model(scheme):
    from sympkf.model import Model
    return Model(time_scheme=scheme)


def fvar(k, a, kind):
    if kind == 'autonomous' and a[0]:
        return ZERO
    return Poly.var(('c', 'f', k, a))


class Flow(object):
    """y' = f(t,y) of n components with a generic jet at (t0, s)"""

    def __init__(self, n, kind):
        self.n, self.kind = n, kind
        self.s = [Poly.var(('c', 's', k)) for k in range(n)]

    def f(self, k, a):
        if self.kind == 'identity':
            return self.s[k] if not any(a) else (Poly.const(1) if sum(a) == 1 and a[1 + k] else ZERO)
        if self.kind == 'stored':
            return Poly.var(('c', 'cst', k)) if not any(a) else ZERO
        return fvar(k, a, self.kind)

    def trend_at(self, tau, delta, order):
        """Taylor expansion at (t0+tau, s+delta)"""
        out = []
        for k in range(self.n):
            r = ZERO
            for a in itertools.product(range(order + 1), repeat=self.n + 1):
                if sum(a) > order:
                    continue
                c = self.f(k, a)
                if not c.d:
                    continue
                for x, e in zip([tau] + delta, a):
                    for j in range(e):
                        c = c * x / (j + 1)
                    if not c.d:
                        break
                r = r + c
            out.append(r)
        return out

    def exact(self, order):
        """y^(j)(t0) for j=0..order, by total differentiation of the jet polynomials"""
        # symbolic expressions in jets: {tuple of (k, alpha) sorted: coeff}
        def d(expr):
            out = {}
            for mono, c in expr.items():
                for p in range(len(mono)):
                    k, a = mono[p]
                    for j in range(self.n + 1):
                        b = tuple(x + (1 if i == j else 0) for i, x in enumerate(a))
                        new = mono[:p] + ((k, b),) + mono[p + 1:]
                        if j:
                            new = new + ((j - 1, (0,) * (self.n + 1)),)
                        new = tuple(sorted(new))
                        out[new] = out.get(new, 0) + c
            return out
        rows = []
        for k in range(self.n):
            e = {((k, (0,) * (self.n + 1)),): 1}
            row = [self.s[k]]
            for j in range(1, order + 1):
                v = ZERO
                for mono, c in e.items():
                    t = Poly.const(c)
                    for kk, a in mono:
                        t = t * self.f(kk, a)
                        if not t.d:
                            break
                    v = v + t
                row.append(v)
                if j < order:
                    e = d(e)
            rows.append(row)
        return rows


def run(scheme, m, kind):
    """(one step of the real scheme, exact coefficients, untouched?)"""
    order = ORDERS[scheme]
    n = {0: 1, -2: 2}.get(m, m)
    fl = Flow(n, kind)
    shape = {0: (), -2: (1, 2)}.get(m, (n,))

    def pack(vals):
        if shape == ():
            return vals[0]
        a = numpy.empty(n, dtype=object)
        for i, v in enumerate(vals):
            a[i] = v
        return a.reshape(shape)

    def unpack(a):
        if shape == ():
            if numpy.shape(a) != ():
                raise ValueError('shape %s instead of a scalar' % (numpy.shape(a),))
            return [a if isinstance(a, Poly) else numpy.asarray(a, dtype=object).reshape(-1)[0]]
        if numpy.shape(a) != shape:
            raise ValueError('shape %s instead of %s' % (numpy.shape(a), shape))
        return list(numpy.asarray(a, dtype=object).reshape(-1))
    store = pack([Poly.var(('c', 'cst', k)) for k in range(n)])

    def trend(t, state):
        if kind == 'identity':
            return state
        if kind == 'stored':
            return store
        tau = Poly.coerce(t) - T
        delta = [Poly.coerce(a) - b for a, b in zip(unpack(state), fl.s)]
        return pack(fl.trend_at(tau, delta, order))
    with truncation({HID: order}):
        mod = model(scheme)
        init = pack(fl.s)
        copy = pack(list(fl.s))
        ex = fl.exact(order)
        if scheme == 'leapfrog':
            prev = []
            for k in range(n):
                v = ZERO
                for j, c in enumerate(ex[k]):
                    v = v + c * ((-H) ** j) / factorial(j)
                prev.append(v)
            states = [pack(prev), init]
            pcopy = pack(prev)
            keep = list(states)
            res = mod.time_scheme(trend, T, states, H)
            if len(res) != 2:
                raise ValueError('leapfrog returns %d states' % len(res))
            same = numpy.array_equal(states[0], pcopy) and len(states) == 2 and states[0] is keep[0] and states[1] is keep[1]
            outs = [(unpack(res[0]), 0), (unpack(res[1]), 1)]
        else:
            res = mod.time_scheme(trend, T, init, H)
            same = True
            outs = [(unpack(res), 1)]
            if kind == 'jet' or kind == 'autonomous':
                # the same step through the forecast
                class M(type(mod)):
                    def trend(self, t, state):
                        return trend(t, state)
                tr = M(time_scheme=scheme).forecast([T, T + H], init)
                outs.append((unpack(tr[T + H]), 1))
        same = same and numpy.array_equal(init, copy)
        return outs, ex, same


def order(ctx, scheme, m, kind):
    ctx.fn('Model._%s' % scheme, 'Model.set_time_scheme', 'Model.forecast')
    args = dict(scheme=scheme, m=m, kind=kind)
    key = '%s/%s/%s' % (scheme, m, kind)
    try:
        outs, ex, same = run(scheme, m, kind)
    except Exception as e:
        raise Violation(key, '%s step raises %r' % (scheme, e), 'r_order', args)
    if not same:
        raise Violation(key, '%s modifies the given state' % scheme, 'r_order', args)
    for vals, at in outs:
        for k, v in enumerate(vals):
            got = Poly.coerce(v).coeffs(HID)
            for j in range(ORDERS[scheme] + 1):
                want = ex[k][j] * Fraction(at ** j if j else 1, factorial(j))
                ok, _ = z3q.equal(got.get(j, ZERO), want, witness=(j == 0))
                if not ok:
                    raise Violation(key, '%s: the coefficient of dt^%d of component %d differs from the exact solution' % (scheme, j, k), 'r_order', args)
                ctx.obligation('%s[%d]/h^%d' % (key, k, j))
    ctx.bound(scheme=scheme, components=m, order=ORDERS[scheme])
    ctx.sample('forall jets of the trend, state, t: coefficients of dt^0..dt^%d of one %s step are those of the solution' % (ORDERS[scheme], scheme))


def names(ctx):
    """the documented scheme names select the schemes, unknown ones are refused"""
    ctx.fn('Model.set_time_scheme')
    from sympkf.model import Model
    ok = True
    for s in ORDERS:
        a = Model(time_scheme='euler')
        a.set_time_scheme(s)
        outs, ex, _ = run(s, 1, 'jet')
        v, _ = z3q.equal(Poly.coerce(outs[-1][0][0]).coeffs(HID).get(1, ZERO), ex[0][1])
        ok = ok and v and s in a.time_schemes
    try:
        Model(time_scheme='nothing')
        ok = False
    except ValueError:
        pass
    d, e = Model(), None
    with truncation({HID: 4}):
        f = Flow(1, 'jet')
        tr = lambda t, u: f.trend_at(Poly.coerce(t) - T, [u - f.s[0]], 4)[0]
        r4 = Model(time_scheme='rk4').time_scheme(tr, T, f.s[0], H)
        r0 = d.time_scheme(tr, T, f.s[0], H)
    v, _ = z3q.equal(r4, r0)
    if not (ok and v):
        raise Violation('names', 'selection of schemes by name', 'r_names', {})
    ctx.obligation('names')
    ctx.sample('default scheme = rk4; names select the schemes')


# -- splitting ------------------------------------------------------------------------

def uf(name):
    z3 = sx.z3
    R = z3.RealSort()
    return z3.Function(name, R, R, R, R)


def splitting(ctx, n):
    ctx.fn('Model._time_splitting')
    z3 = sx.z3
    for r in range(n + 1):
        for kinds in itertools.product('uts', repeat=r):
            args = dict(kinds=''.join(kinds))
            key = 'splitting/%s' % args['kinds']

            def prog():
                t, dt, s = sx.Real('t'), sx.Real('dt'), sx.Real('s')
                wrap = lambda f: (lambda a, b, c: sx.Num(f(sx.znum(a), sx.znum(b), sx.znum(c))))
                steps, tags = [], {}
                for i, k in enumerate(kinds):
                    if k == 'u':
                        steps.append({'update': wrap(uf('update%d' % i))})
                    else:
                        # k == 't': own scheme; 's': the first scheme again (shared)
                        nm = uf('scheme%d' % (i if k == 't' else 0))
                        tag = object()
                        tags[id(tag)] = i

                        def scheme(tr, a, b, c, nm=nm):
                            # the trend enters as a constant parameter of the scheme
                            g = z3.Function('with_trend%d' % tags[id(tr)], z3.RealSort(), z3.RealSort())
                            return sx.Num(g(nm(sx.znum(a), sx.znum(b), sx.znum(c))))
                        scheme.keep = tag
                        steps.append({'trend': tag, 'scheme': scheme})
                before = [dict(q) for q in steps]
                res = model('splitting').time_scheme(steps, t, s, dt)
                return res, len(steps) == len(before) and all(a == b for a, b in zip(steps, before)), t, dt, s
            for path in sx.explore(prog):
                if path.error is not None:
                    raise Violation(key, 'splitting raises %r' % path.error, 'r_splitting', args)
                res, same, t, dt, s = path.value
                want = s.t
                for i, k in enumerate(kinds):
                    if k == 'u':
                        want = uf('update%d' % i)(t.t, want, dt.t)
                    else:
                        g = z3.Function('with_trend%d' % i, z3.RealSort(), z3.RealSort())
                        want = g(uf('scheme%d' % (i if k == 't' else 0))(t.t, want, dt.t))
                ok, _ = path.prove(sx.znum(res) == want)
                if not ok or not same:
                    raise Violation(key, 'splitting of %s is not the composition of its steps in order' % (kinds,), 'r_splitting', args)
                ctx.paths += 1
            ctx.obligation(key)
    ctx.bound(splitting_steps='0..%d, every combination of updates and schemes' % n)
    ctx.sample('splitting(t, s, dt) = step_n(t, ... step_1(t, s, dt), dt), uninterpreted steps')


# -- replay ----------------------------------------------------------------------------

def r_order(scheme, m, kind):
    """a polynomial trend with fixed coefficients, exact expansion in the step"""
    n = {0: 1, -2: 2}.get(m, m)
    shape = {0: (), -2: (1, 2)}.get(m, (n,))
    order = ORDERS[scheme]
    h = sympy.Symbol('h')
    tt = sympy.Symbol('t')
    us = sympy.symbols('u0:%d' % n)
    t0 = sympy.Rational(1, 3)
    s0 = [sympy.Rational(k + 2, 5) for k in range(n)]
    fs = []
    for k in range(n):
        if kind == 'identity':
            fs.append(us[k])
        elif kind == 'stored':
            fs.append(sympy.Rational(k + 1, 7))
        else:
            vs = list(us) + ([tt] if kind == 'jet' else [])
            fs.append(sum(sympy.Rational(3 * i + k + 2, 7 + i) * v ** (1 + i % 3) * us[(i + k) % n] for i, v in enumerate(vs)) + sympy.Rational(1, 2))
    store = numpy.array([sympy.Rational(k + 1, 7) for k in range(n)], dtype=object).reshape(shape) if shape else fs[0]

    def trend(t, state):
        if kind == 'identity':
            return state
        if kind == 'stored':
            return store
        vals = list(numpy.asarray(state, dtype=object).reshape(-1))
        tab = dict(zip(us, vals))
        tab[tt] = t
        out = [sympy.nsimplify(sympy.sympify(f).subs(tab, simultaneous=True)) for f in fs]
        return numpy.array(out, dtype=object).reshape(shape) if shape else out[0]
    # exact derivatives
    ys = []
    for k in range(n):
        e, row = fs[k], [s0[k]]
        for j in range(order):
            at = dict(zip(us, s0))
            at[tt] = t0
            row.append(sympy.sympify(e).subs(at))
            e = sympy.diff(e, tt) + sum(sympy.diff(e, us[q]) * fs[q] for q in range(n))
        ys.append(row)
    pack = lambda v: numpy.array(v, dtype=object).reshape(shape) if shape else v[0]
    init = pack(s0)
    try:
        mod = model(scheme)
        if scheme == 'leapfrog':
            prev = pack([sum(c * (-h) ** j / factorial(j) for j, c in enumerate(r)) for r in ys])
            p0 = numpy.array(prev, dtype=object).copy()
            res = mod.time_scheme(trend, t0, [prev, init], h)
            if not numpy.array_equal(prev, p0):
                return True, 'previous state modified'
            if not numpy.array_equal(res[0], init):
                return True, 'first returned state is not the current one'
            res = res[1]
        else:
            res = mod.time_scheme(trend, t0, init, h)
            class M(type(mod)):
                def trend(self, t, state):
                    return trend(t, state)
            via = M(time_scheme=scheme).forecast([t0, t0 + h], init)[t0 + h]
            if any(sympy.expand(sympy.nsimplify(a - b)) != 0 for a, b in zip(numpy.asarray(via, dtype=object).reshape(-1), numpy.asarray(res, dtype=object).reshape(-1))):
                return True, 'forecast over one step differs from the step'
        if not numpy.array_equal(init, pack(s0)):
            return True, 'state modified: %s' % (init,)
        if numpy.shape(res) != shape:
            return True, 'shape %s' % (numpy.shape(res),)
    except Exception as e:
        return True, 'raises %r' % (e,)
    for k, v in enumerate(numpy.asarray(res, dtype=object).reshape(-1)):
        p = sympy.Poly(sympy.expand(sympy.nsimplify(v)), h)
        for j in range(order + 1):
            want = ys[k][j] / factorial(j)
            if abs(float(p.coeff_monomial(h ** j) - want)) > 1e-9 * (1 + abs(float(want))):
                return True, 'trend %s at t=%s, u=%s: coefficient of dt^%d of component %d is %s instead of %s' % (
                    fs, t0, s0, j, k, p.coeff_monomial(h ** j), want)
    return False, 'expansion agrees'


def r_splitting(kinds):
    log, want, steps = [], [], []
    for i, k in enumerate(kinds):
        if k == 'u':
            steps.append({'update': lambda t, s, dt, i=i: log.append(('u', i, t, dt)) or s + (i + 1,)})
        else:
            def scheme(tr, t, s, dt, i=i):
                log.append(('s', tr, t, dt))
                return s + (i + 1,)
            steps.append({'trend': i, 'scheme': scheme})
        want.append(('u' if k == 'u' else 's', i, 2.5, .25))
    try:
        r = model('splitting').time_scheme(steps, 2.5, (0,), .25)
    except Exception as e:
        return True, 'raises %r' % (e,)
    if log != want or r != tuple(range(len(kinds) + 1)) or len(steps) != len(kinds):
        return True, 'calls %s give %s' % (log, r)
    return False, 'composed in order'


def r_names():
    from sympkf.model import Model
    for s in ORDERS:
        bad, text = r_order(s, 1, 'jet')
        if bad:
            return True, text
    try:
        Model(time_scheme='nothing')
        return True, 'unknown scheme accepted'
    except ValueError:
        pass
    tr = lambda t, u: numpy.cos(u) * t + u
    a = Model().time_scheme(tr, .3, 1.1, .1)
    b = Model(time_scheme='rk4').time_scheme(tr, .3, 1.1, .1)
    return abs(a - b) > 1e-14, 'default %s rk4 %s' % (a, b)
