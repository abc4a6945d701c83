"""C28: time windows and random initial states of the numerical models"""
import sys
from fractions import Fraction

import numpy

from lib import z3q, sx, grid
from lib.grid import Shim
from lib.harness import Violation
from lib.poly import Poly, ZERO
from lib.z3q import Inconclusive

PROPERTY = 'C28'
LEVEL = 'other'
EXPLANATION = (
    'Model.window is executed with a symbolic start, end and step (the length of the array forks the path on the solver\'s '
    'feasibility); Z3 decides for every path the number of times and the value of each. randstate is executed with a symbolic '
    'sample, step and time-dependent trend; Z3 decides that the result is the independent iteration of the scheme.')
OUTSIDE = 'more steps than stated; end before start; accumulated rounding larger than an eighth of the step'
ASSUMPTIONS = ['dt > 0', 'exact arithmetic, the end being perturbed by any rounding up to an eighth of the step']


def cases(tier, seed):
    N = 6 if tier == 'quick' else 16
    out = []
    for n in range(N + 1):
        for d in ('given', 'default'):
            for how in ('keyword', 'positional') if d == 'given' else ('positional',):
                out.append(('window/%d/%s/%s' % (n, d, how), 'window', dict(n=n, start=d, how=how)))
    out.append(('window/any', 'anyend', dict(N=N)))
    for scheme in ('euler', 'rk2', 'rk4', 'custom'):
        for nstart in ((1, 2, 4) if tier == 'quick' else (1, 2, 3, 4, 6)):
            if scheme == 'rk4' and nstart > 2:
                nstart = 3
            for n in (1, 2):
                if scheme == 'rk4' and n == 2 and nstart > 2:
                    continue
                name = 'randstate/%s/%dsteps/size%d' % (scheme, nstart - 1, n)
                if name not in [o[0] for o in out]:
                    out.append((name, 'rand', dict(scheme=scheme, nstart=nstart, n=n)))
    return out


def modules():
    from sympkf.model.model import Model
    return Model, sys.modules[Model.__module__]


def ratio(p, q):
    """constant p/q of two polynomials, or None"""
    p, q = Poly.coerce(p), Poly.coerce(q)
    if not p.d:
        return 0
    if set(p.d) != set(q.d):
        return None
    r = {p.d[m] / q.d[m] for m in p.d}
    return r.pop() if len(r) == 1 else None


def symbolic(*a):
    return any(isinstance(x, (sx.Num, Poly)) for x in a)


def rounded(how):
    def f(self, x, *a, **k):
        return sx.whole(x, how) if isinstance(x, sx.Num) else getattr(numpy, 'rint' if how == 'round' else how)(x, *a, **k)
    return f


class Np(Shim):
    """numpy with symbolic bounds of ranges, and symbolic random numbers"""

    def __init__(self, sample=None):
        self.sample = sample

    floor, ceil, trunc = rounded('floor'), rounded('ceil'), rounded('trunc')
    rint = round = around = rounded('round')

    def arange(self, *a, dtype=None, **k):
        if not symbolic(*a):
            return numpy.arange(*a, dtype=dtype, **k)
        lo, hi, st = {1: lambda: (0, a[0], 1), 2: lambda: (a[0], a[1], 1), 3: lambda: a}[len(a)]()
        if isinstance(st, Poly) or isinstance(hi, Poly):
            r = ratio(Poly.coerce(hi) - lo, st)
            if r is None:
                raise Inconclusive('length of a range')
            n = max(0, -((-r.numerator) // r.denominator) if hasattr(r, 'numerator') else 0)
        else:
            for n in range(60):
                if not (lo + st * n < hi):
                    break
            else:
                raise Inconclusive('long range')
        return grid.array(lambda i: st * i[0] + lo, (n,))

    def linspace(self, a, b, num=50, endpoint=True, **k):
        if not symbolic(a, b):
            return numpy.linspace(a, b, num, endpoint=endpoint, **k)
        n = num - 1 if endpoint else num
        return grid.array(lambda i: (b - a) * i[0] / n + a if n else a, (num,))

    @property
    def random(self):
        return Random(self)


class Random(object):
    def __init__(self, np):
        self.np = np

    def normal(self, loc=0., scale=1., size=None):
        if self.np.sample is None:
            raise Inconclusive('random numbers')
        shape = () if size is None else (size,) if isinstance(size, int) else tuple(size)
        return self.np.draw(shape, scale, loc)

    def standard_normal(self, size=None, **k):
        return self.normal(size=size)

    def randn(self, *size):
        return self.normal(size=size)

    def default_rng(self, *a):
        return self
    RandomState = default_rng

    def __getattr__(self, name):
        raise Inconclusive('numpy.random.%s' % name)


class shimmed(object):
    def __init__(self, np):
        self.new = np

    def __enter__(self):
        self.mod = modules()[1]
        self.old, self.rounding = self.mod.np, sx.ROUNDING
        self.mod.np, sx.ROUNDING = self.new, (-2, 40)

    def __exit__(self, *a):
        self.mod.np, sx.ROUNDING = self.old, self.rounding


def times_of(m, end, start, how):
    if start is None:
        return list(m.window(end))
    return list(m.window(end, start=start) if how == 'keyword' else m.window(end, start))


def model(dt, **k):
    m = modules()[0](**k)
    m.set_dt(dt)
    return m


def explore_window(ctx, key, args, setup, claims):
    """setup() -> (model dt, end, start, how); claims(times, ...) -> list of (label, z3 claim)"""
    def prog():
        dt, end, start, how = setup()
        with shimmed(Np()):
            m = model(dt)
            got = m.dt
            return times_of(m, end, start, how), got
    for path in sx.explore(prog, limit=4000):
        ctx.paths += 1
        witness = None
        if path.error is not None:
            label, witness = 'raises %r' % path.error, path.model()
        else:
            ts, got = path.value
            ts = [x.item() if hasattr(x, 'item') and not isinstance(x, sx.Num) else x for x in ts]
            label = None
            for lab, claim in [('dt is not the step that was set', sx.znum(got) == sx.z3.Real('dt'))] + claims(ts):
                ok, mod = path.prove(claim)
                if not ok:
                    label, witness = lab, mod
                    break
        if label is not None:
            vals = {}
            for v in ('dt', 'start', 'end', 'delta'):
                q = witness.eval(sx.z3.Real(v), model_completion=True) if witness is not None else None
                vals[v] = float(z3q.to_fraction(q)) if q is not None else 0.
            raise Violation(key, '%s: %s, for %s' % (key, label, vals), 'r_window', dict(args, vals=vals))
        ctx.obligation('%s/path%d' % (key, ctx.paths))


def window(ctx, n, start, how):
    ctx.fn('Model.window', 'Model.set_dt', 'Model.dt')
    z3 = sx.z3
    key, args = 'window/%d/%s/%s' % (n, start, how), dict(n=n, start=start, how=how)

    def setup():
        dt, s0, delta = sx.Real('dt'), sx.Real('start') if start == 'given' else 0, sx.Real('delta')
        sx.assume(dt > 0)
        sx.assume(delta * 8 <= dt)
        sx.assume(delta * 8 >= -dt)
        return dt, s0 + dt * n + delta, None if start == 'default' else s0, how

    def claims(ts):
        s0 = z3.Real('start') if start == 'given' else z3.RealVal(0)
        if len(ts) != n + 1:
            return [('%d times in place of %d' % (len(ts), n + 1), z3.BoolVal(False))]
        return [('time %d is not start + %d dt' % (k, k), sx.znum(v) == s0 + k * z3.Real('dt')) for k, v in enumerate(ts)]
    explore_window(ctx, key, args, setup, claims)
    ctx.bound(steps=n, start=start)
    ctx.sample('forall start, dt > 0, |delta| <= dt/8: window(start + %d dt + delta, start) = (start + k dt, k=0..%d)' % (n, n))


def anyend(ctx, N):
    ctx.fn('Model.window')
    z3 = sx.z3
    key, args = 'window/any', dict(n=None, start='given', how='positional')
    D, S, E = z3.Reals('dt start end')

    def setup():
        dt, s0, end = sx.Real('dt'), sx.Real('start'), sx.Real('end')
        sx.assume(dt > 0)
        sx.assume(end >= s0)
        sx.assume(end <= s0 + dt * N)
        return dt, end, s0, 'positional'

    def claims(ts):
        if not ts:
            return [('no time', z3.BoolVal(False))]
        out = [('time %d is not start + %d dt' % (k, k), sx.znum(v) == S + k * D) for k, v in enumerate(ts)]
        out.append(('the last time is more than half a step beyond the end', sx.znum(ts[-1]) <= E + D / 2))
        out.append(('the last time is a step before the end', sx.znum(ts[-1]) > E - D))
        return out
    explore_window(ctx, key, args, setup, claims)
    ctx.bound(duration='0..%d dt' % N)
    ctx.sample('forall start <= end <= start + %d dt: regular times, end - dt < last <= end + dt/2' % N)


def r_window(n, start, how, vals):
    dt, s0 = vals['dt'], vals['start'] if start == 'given' else 0.
    if n is not None:
        end = s0 + n * dt + vals['delta']
    else:
        end = vals['end']
    try:
        m = model(dt)
        if m.dt != dt:
            return True, 'dt %s set, %s read' % (dt, m.dt)
        ts = times_of(m, end, None if start == 'default' else s0, how)
    except Exception as e:
        return True, 'raises %r' % (e,)
    tol = 1e-9 * (abs(dt) + abs(s0) + abs(end))
    text = 'dt %s, window(%s, %s) = %s' % (dt, end, s0, ts)
    if n is not None and len(ts) != n + 1 or not ts:
        return True, text
    if any(abs(v - (s0 + k * dt)) > tol for k, v in enumerate(ts)):
        return True, text
    if n is None and not (end - dt - tol < ts[-1] <= end + dt / 2 + tol):
        return True, text
    return False, text


# -- random states ------------------------------------------------------------------

class Draw(Np):
    """numpy whose normal samples are new symbols"""

    def __init__(self):
        Np.__init__(self, sample=True)
        self.draws = []

    def draw(self, shape, scale, loc):
        k = len(self.draws)
        a = grid.array(lambda i: Poly.var(('c', 'xi', k) + i), shape)
        self.draws.append(a)
        return a * scale + loc if (scale, loc) != (1., 0.) else a


def rand_model(scheme, nstart, n, dt, entry):
    Model = modules()[0]

    class M(Model):
        def trend(self, t, state):
            return numpy.array([sum((entry(i, j, t) * state[j] for j in range(n)), 0 * state[0]) for i in range(n)])
    m = M(time_scheme='euler' if scheme == 'custom' else scheme)
    m.set_dt(dt)
    m.n, m.nstart = n, nstart
    return m


def iterate(m, dt, x, nstart):
    for k in range(nstart - 1):
        x = m.time_scheme(m.trend, dt * k, x, dt)
    return x


def rand(ctx, scheme, nstart, n):
    ctx.fn('Model.randstate', 'Model.forecast', 'Model.dt')
    grid.on()
    key, args = 'randstate/%s/%d/%d' % (scheme, nstart, n), dict(scheme=scheme, nstart=nstart, n=n)
    try:
        rand_step(ctx, scheme, nstart, n, key, args, Poly.var(('c', 'dt')))
        return
    except (TypeError, AttributeError, NotImplementedError, Inconclusive):
        pass                    # an operation that a symbolic step does not have (e.g. rounding): steps of fixed values
    for dt in (Fraction(1, 4), Fraction(3, 7), Fraction(2)):
        try:
            rand_step(ctx, scheme, nstart, n, key, args, dt)
        except (TypeError, AttributeError, NotImplementedError) as e:
            raise Violation(key, 'randstate raises %r' % e, 'r_rand', args)


def rand_step(ctx, scheme, nstart, n, key, args, dt):
    td = scheme in ('euler', 'custom')
    entry = lambda i, j, t: Poly.var(('c', 'A', i, j, repr(Poly.coerce(t)) if td else ''))
    np = Draw()
    with shimmed(np):
        try:
            m = rand_model(scheme, nstart, n, dt, entry)
            if scheme == 'custom':
                P = lambda i, j, t, h: Poly.var(('c', 'P', i, j, repr(Poly.coerce(t)), repr(Poly.coerce(h))))
                m.time_scheme = lambda tr, t, s, h: grid.array(lambda i: sum((P(i[0], j, t, h) * s[j] for j in range(n)), ZERO), (n,))
            x = m.randstate()
            shape = numpy.shape(x)
        except (Inconclusive, TypeError, AttributeError, NotImplementedError):
            raise
        except Exception as e:
            raise Violation(key, 'randstate raises %r' % e, 'r_rand', args)
        if shape != (n,) or len(np.draws) != 1 or np.draws[0].size != n:
            raise Violation(key, 'randstate: shape %s from samples %s' % (shape, [numpy.shape(d) for d in np.draws]), 'r_rand', args)
        want = iterate(m, dt, np.draws[0].reshape(-1), nstart)
    for i in range(n):
        ok, _ = z3q.equal(Poly.coerce(x[i]), Poly.coerce(want[i]))
        if not ok:
            raise Violation(key, 'randstate(%s, %d iterations): component %d is not the forecast of the sample' % (scheme, nstart, i), 'r_rand', args)
        ctx.obligation('%s/%d' % (key, i))
    ctx.bound(scheme=scheme, size=n, iterations=nstart, step='symbolic' if isinstance(dt, Poly) else 'fixed values')
    ctx.sample('forall samples, A(t), dt: randstate() = forecast of the sample over %d steps from time 0' % (nstart - 1))


def r_rand(scheme, nstart, n):
    entry = lambda i, j, t: (1. + i + 3 * j - .5 * i * j) * (1 + .1 * t)
    m = rand_model(scheme, nstart, n, .25, entry)
    if scheme == 'custom':
        m.time_scheme = lambda tr, t, s, h: s * (1 + t) + h
    try:
        numpy.random.seed(3)
        x = m.randstate()
        numpy.random.seed(3)
        s = numpy.random.normal(size=n)
        want = iterate(m, .25, s, nstart)
    except Exception as e:
        return True, 'raises %r' % (e,)
    if numpy.shape(x) != (n,):
        return True, 'shape %s' % (numpy.shape(x),)
    if not numpy.allclose(x, want, rtol=1e-9):
        return True, 'randstate %s, forecast of the sample %s' % (x, want)
    return False, 'agrees'
