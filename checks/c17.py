"""C17: forecast and predict return the iterated trajectory at the saved times"""
import itertools

import numpy

from lib import z3q, sx
from lib.harness import Violation

PROPERTY = 'C17'
LEVEL = 'other'
EXPLANATION = (
    'The real forecast and predict are executed on symbolic windows (strictly increasing or decreasing real times), symbolic saved times '
    'and an uninterpreted time scheme. Every comparison of times forks the execution (both branches when Z3 finds them '
    'feasible); on every path Z3 decides, for all times satisfying the path condition, that the stored times are exactly the '
    'saved times of the window and that the stored states are the iterates of the scheme.')
OUTSIDE = 'windows with more times than stated; saved times closer than the equality of real numbers (rounding)'
ASSUMPTIONS = ['the times of a window are strictly increasing, or strictly decreasing', 'the time scheme is a function of (time, state, step)']
z3 = sx.z3


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for n in range(1, 5 if q else 6):
        for k in range(0, (4 if q else 5) - max(0, n - 3)):
            for method in ('forecast', 'predict'):
                out.append(('%s/%dtimes/%dsaved' % (method, n, k), 'trajectory', dict(method=method, n=n, k=k, fmt='list')))
    for fmt in ('tuple', 'array', 'window', 'none', 'arrays'):
        for method in ('forecast', 'predict'):
            out.append(('%s/%s' % (method, fmt), 'trajectory', dict(method=method, n=3, k=2, fmt=fmt)))
    for method in ('forecast', 'predict'):
        for n, k in ((2, 1), (3, 2), (4, 1)):
            out.append(('%s/down/%dtimes/%dsaved' % (method, n, k), 'trajectory', dict(method=method, n=n, k=k, fmt='down')))
        out.append(('%s/field' % method, 'trajectory', dict(method=method, n=3, k=2, fmt='field')))
        out.append(('%s/history' % method, 'trajectory', dict(method=method, n=3, k=1, fmt='history')))
        out.append(('%s/scalar' % method, 'scalar', dict(method=method)))
    for n in range(2, 5 if q else 7):
        out.append(('pieces/%d' % n, 'pieces', dict(n=n)))
    return out


R = z3.RealSort()
NC = 2


def step_fn(c):
    return z3.Function('step%d' % c, R, *([R] * NC), R, R)


def arr(v):
    a = numpy.empty(len(v), dtype=object)
    for i, x in enumerate(v):
        a[i] = x
    return a


def zstep(t, s, dt):
    return [step_fn(c)(t, *s, dt) for c in range(NC)]


def make_model():
    from sympkf.model import Model

    class M(Model):
        def trend(self, t, state):
            raise RuntimeError('the trend is only given to the scheme')
    m = M()

    def scheme(trend, t, state, dt):
        if getattr(trend, '__func__', trend) is not M.trend:
            raise RuntimeError('the scheme is not called with the trend of the model')
        new = zstep(sx.znum(t), [sx.znum(x) for x in state.ravel()], sx.znum(dt))
        return arr([sx.Num(v) for v in new]).reshape(state.shape)
    m.time_scheme = scheme
    return m


def iterates(ts, s):
    """states at the times of the window (z3 terms)"""
    out = [list(s)]
    for a, b in zip(ts[:-1], ts[1:]):
        out.append(zstep(a, out[-1], b - a))
    return out


def times(n, name='w'):
    return [sx.Real('%s%d' % (name, i)) for i in range(n)]


def increasing(ts):
    return [a.t < b.t for a, b in zip(ts[:-1], ts[1:])]


def decreasing(ts):
    return [a.t > b.t for a, b in zip(ts[:-1], ts[1:])]


def state0(name='s'):
    return arr([sx.Real('%s%d' % (name, i)) for i in range(NC)])


def same(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def trajectory(ctx, method, n, k, fmt):
    ctx.fn('Model.%s' % method, 'Model._check_saved_times')
    args = dict(method=method, n=n, k=k, fmt=fmt)
    key = '%s/%d/%d/%s' % (method, n, k, fmt)
    ts, qs = times(n), times(k, 'q')

    def prog():
        m = make_model()
        window = {'arrays': arr, 'tuple': tuple}.get(fmt, list)(ts)
        saved = {'tuple': tuple, 'array': arr, 'arrays': arr}.get(fmt, list)(qs)
        if fmt == 'none':
            saved = None
        elif fmt == 'window':
            saved = window
        u0 = state0().reshape((1, NC)) if fmt == 'field' else state0()
        if fmt == 'history':
            old = times(2, 'v')
            sx.assume(old[0].t < old[1].t)
            m.forecast(old, state0('r'), [old[1]])
            m.predict(old, state0('r'))
        cu, cw, cs = list(u0.ravel()), list(window), None if saved is None else list(saved)
        res = getattr(m, method)(window, u0) if fmt == 'none' else getattr(m, method)(window, u0, saved)
        ok = same(cu, u0.ravel()) and same(cw, window) and (saved is None or same(cs, saved))
        return res, ok
    try:
        paths = list(sx.explore(prog, limit=20000, axioms=(decreasing if fmt == 'down' else increasing)(ts)))
        for p in paths:
            if isinstance(p.error, TypeError) and 'symbolic number' in str(p.error):
                raise z3q.Inconclusive(str(p.error))
    except z3q.Inconclusive:
        return concrete(ctx, method, n, k, fmt, args, key)
    sts = iterates([t.t for t in ts], [x.t for x in state0()])
    for p in paths:
        if p.error is not None:
            raise Violation(key, '%s raises %r (%s)' % (method, p.error, p.model()), 'r_traj', args)
        res, ok = p.value
        if fmt == 'field':
            rows = list(res.values()) if method == 'forecast' else list(res)
            if any(numpy.shape(v) != (1, NC) for v in rows):
                raise Violation(key, '%s: the states do not have the shape of the initial one' % method, 'r_traj', args)
            if method == 'predict':
                res = [v.ravel() for v in rows]
        if not ok:
            raise Violation(key, '%s modifies its arguments' % method, 'r_traj', args)
        want = [z3.BoolVal(True) if fmt in ('none', 'window') else z3.Or([w.t == q.t for q in qs]) for w in ts]
        if method == 'forecast':
            claim = []
            hit = [[z3.And(kk_eq(kk, w), *[sx.znum(a) == b for a, b in zip(numpy.ravel(v), sts[i])]) for kk, v in res.items()] for i, w in enumerate(ts)]
            for i in range(n):
                claim.append(want[i] == (z3.Or([kk_eq(kk, ts[i]) for kk in res]) if res else z3.BoolVal(False)))
                claim.append(z3.Implies(want[i], z3.Or(hit[i]) if hit[i] else z3.BoolVal(False)))
            for kk in res:
                claim.append(z3.Or([kk_eq(kk, w) for w in ts]))
        else:
            # every i: the rank of the i-th time among the saved ones gives its position
            claim = []
            rank = z3.IntVal(0)
            rows = list(res)
            for i in range(n):
                for pos in range(n):
                    there = z3.BoolVal(False) if pos >= len(rows) else z3.And([sx.znum(a) == b for a, b in zip(rows[pos], sts[i])])
                    claim.append(z3.Implies(z3.And(want[i], rank == pos), there))
                rank = rank + z3.If(want[i], 1, 0)
            claim.append(rank == len(rows))
        good, mo = p.prove(z3.And(claim))
        if not good:
            raise Violation(key, '%s, window of %d times, %d saved times (%s): wrong content for %s' % (method, n, k, fmt, mo), 'r_traj', args)
        ctx.paths += 1
    ctx.obligation(key)
    ctx.bound(window_times=n, saved_times=k, format=fmt)
    ctx.sample('forall increasing window of %d times, forall %d saved times: keys and states of %s, %d paths' % (n, k, method, len(paths)))


def kk_eq(kk, w):
    return sx.znum(kk) == w.t


def concrete(ctx, method, n, k, fmt, args, key):
    """implementation that needs concrete times: dyadic times, every tuple of saved times, symbolic states"""
    ctx.skipped += 1
    ctx.bound(times='concrete multiples of 1/2 (the code is not executable on symbolic times)')
    ts = [0.5 * i * (-1 if fmt == 'down' else 1) for i in range(n)]
    sts = iterates([sx.znum(t) for t in ts], [x.t for x in state0()])
    for qs in itertools.product(ts + [77.], repeat=k):
        def prog():
            m = make_model()
            saved = {'tuple': tuple, 'array': numpy.array, 'arrays': numpy.array}.get(fmt, list)(qs)
            saved = list(ts) if fmt == 'window' else saved
            w = numpy.array(ts) if fmt == 'arrays' else list(ts)
            return getattr(m, method)(w, state0()) if fmt == 'none' else getattr(m, method)(w, state0(), saved)
        want = [i for i in range(n) if fmt in ('none', 'window') or ts[i] in qs]
        for p in sx.explore(prog):
            if p.error is not None:
                raise Violation(key, '%s raises %r' % (method, p.error), 'r_traj', args)
            if method == 'forecast':
                good = sorted(p.value) == sorted(ts[i] for i in want)
                rows = [p.value[ts[i]] for i in want] if good else []
            else:
                rows = list(p.value)
                good = len(rows) == len(want)
            if good and want:
                good, _ = p.prove(z3.And([sx.znum(a) == b for r, i in zip(rows, want) for a, b in zip(r, sts[i])]))
            if not good:
                raise Violation(key, '%s, window %s, saved %s: wrong content' % (method, ts, qs), 'r_traj', args)
    ctx.obligation(key)


def scalar(ctx, method):
    """one saved time given as a number"""
    ctx.fn('Model.%s' % method, 'Model._check_saved_times')
    sets = [('int', int), ('float', float), ('numpy.float64', numpy.float64), ('numpy.int64', numpy.int64), ('numpy.float32', numpy.float32)]
    for name, typ in sets:
        for q in (0, 2, 3, 9):
            args = dict(method=method, typ=name, q=q)
            key = '%s/scalar/%s/%s' % (method, name, q)
            ts = [0, 1, 2, 3]
            sts = iterates([sx.znum(t) for t in ts], [x.t for x in state0()])

            def prog():
                return getattr(make_model(), method)([float(v) for v in ts] if 'float' in name else list(ts), state0(), typ(q))
            for p in sx.explore(prog):
                if p.error is not None:
                    raise Violation(key, '%s(saved_times=%s(%s)) raises %r' % (method, name, q, p.error), 'r_scalar', args)
                rows = list(p.value.values()) if method == 'forecast' else list(p.value)
                want = [q] if q in ts else []
                good = len(rows) == len(want) and (method == 'predict' or list(p.value) == want)
                if good and want:
                    good, _ = p.prove(z3.And([sx.znum(a) == b for a, b in zip(rows[0], sts[q])]))
                if not good:
                    raise Violation(key, '%s(saved_times=%s(%s)) has wrong content' % (method, name, q), 'r_scalar', args)
                ctx.paths += 1
            ctx.obligation(key)
    ctx.sample('forall states: one saved time given as a number')


def pieces(ctx, n):
    """the forecast over a window equals the forecasts over two consecutive pieces"""
    ctx.fn('Model.forecast')
    ts = times(n)
    for cut in range(n):
        key = 'pieces/%d/%d' % (n, cut)

        def prog():
            m = make_model()
            whole = m.forecast(ts, state0())
            a = m.forecast(ts[:cut + 1], state0())
            b = m.forecast(ts[cut:], a[ts[cut]])
            return [(whole[w], a[w] if i <= cut else b[w]) for i, w in enumerate(ts)] + [(whole[ts[cut]], b[ts[cut]])]
        try:
            paths = list(sx.explore(prog, limit=5000, axioms=increasing(ts)))
        except z3q.Inconclusive:
            ctx.skipped += 1
            continue
        for p in paths:
            args = dict(n=n, cut=cut)
            if p.error is not None:
                if isinstance(p.error, TypeError) and 'symbolic number' in str(p.error):
                    ctx.skipped += 1
                    continue
                raise Violation(key, 'forecast raises %r' % p.error, 'r_pieces', args)
            good, _ = p.prove(z3.And([sx.znum(x) == sx.znum(y) for a, b in p.value for x, y in zip(a, b)]))
            if not good:
                raise Violation(key, 'forecast over %d times cut at %d differs from the two pieces' % (n, cut), 'r_pieces', args)
            ctx.paths += 1
        ctx.obligation(key)
    ctx.bound(window_times=n)
    ctx.sample('forall times, states: forecast(window) = forecast(second piece, forecast(first piece))')


# -- replay --------------------------------------------------------------------------

def real_model():
    from sympkf.model import Model

    class M(Model):
        def trend(self, t, state):
            state = numpy.asarray(state)
            a, b = state.ravel()
            return numpy.array([t * b + 1., a - t]).reshape(state.shape)
    return M(time_scheme='euler')


def ref(window, u0):
    u, out = numpy.array(u0, dtype=float), []
    for i, t in enumerate(window):
        out.append(u)
        if i + 1 < len(window):
            u = u + (window[i + 1] - t) * numpy.array([t * u[1] + 1., u[0] - t])
    return out


def compare(method, window, u0, saved, give, field=False):
    m = real_model()
    a = numpy.array(u0, dtype=float)
    if field:
        a = a.reshape((1, 2))
    w, s = list(window), None if give is None or numpy.ndim(give) == 0 else list(give)
    try:
        r = getattr(m, method)(window, a) if give is None else getattr(m, method)(window, a, give)
    except Exception as e:
        return True, '%s(%s, saved_times=%r) raises %r' % (method, window, give, e)
    if list(a.ravel()) != list(u0) or list(window) != w or (s is not None and list(give) != s):
        return True, 'arguments modified'
    sts = ref(w, u0)
    want = [i for i, t in enumerate(w) if t in saved]
    if method == 'forecast':
        if sorted(r) != sorted(w[i] for i in want):
            return True, 'forecast(%s, saved_times=%r) has times %s' % (window, give, sorted(r))
        rows = [r[w[i]] for i in want]
    else:
        rows = list(r)
    if any(numpy.shape(x) != a.shape for x in rows):
        return True, 'shapes %s' % [numpy.shape(x) for x in rows]
    rows = [numpy.ravel(x) for x in rows]
    if len(rows) != len(want) or any(not numpy.allclose(x, sts[i], atol=1e-12) for x, i in zip(rows, want)):
        return True, '%s(%s, saved_times=%r) = %s' % (method, window, give, r)
    return False, 'agrees'


def windows(n):
    yield [0.25 * i * (i + 1) for i in range(n)]
    yield [-1. + 0.5 * i for i in range(n)]


def r_traj(method, n, k, fmt):
    for w in windows(n):
        w = [-v for v in w] if fmt == 'down' else w
        pool = w + [99.]
        for qs in itertools.product(pool, repeat=k) if fmt not in ('none', 'window') else [tuple(w)]:
            give = {'none': None, 'window': list(w), 'tuple': tuple(qs), 'array': numpy.array(qs), 'arrays': numpy.array(qs)}.get(fmt, list(qs))
            win = numpy.array(w) if fmt == 'arrays' else (tuple(w) if fmt == 'tuple' else list(w))
            if fmt == 'history':
                m0 = real_model()
                m0.forecast([5., 6.], numpy.zeros(2), [6.])
            bad, text = compare(method, win, [.5, -1.], set(qs), give, fmt == 'field')
            if bad:
                return True, text
    return False, 'agrees on the sampled windows'


def r_scalar(method, typ, q):
    T = {'int': int, 'float': float}.get(typ) or getattr(numpy, typ.split('.')[-1])
    w = [0, 1, 2, 3] if 'int' in typ else [0., 1., 2., 3.]
    return compare(method, w, [.5, -1.], {q}, T(q))


def r_pieces(n, cut):
    for w in windows(n):
        m = real_model()
        try:
            whole = m.forecast(w, numpy.array([.5, -1.]))
            a = m.forecast(w[:cut + 1], numpy.array([.5, -1.]))
            b = m.forecast(w[cut:], a[w[cut]])
            for i, t in enumerate(w):
                if not numpy.allclose(whole[t], (a if i <= cut else b)[t], atol=1e-12):
                    return True, 'window %s cut at %s: %s' % (w, w[cut], t)
        except Exception as e:
            return True, 'raises %r' % (e,)
    return False, 'agrees'
