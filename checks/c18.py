"""C18: ensemble and tangent-linear forecasts agree with single forecasts"""
import itertools
import random

import numpy

from lib import z3q, sx, grid
from lib.grid import SHIM
from lib.harness import Violation
from lib.poly import Poly, ZERO
from lib.pool import patched, FakePool, permutation
from checks.c17 import make_model, times, increasing, state0, iterates, NC, arr, same

PROPERTY = 'C18'
LEVEL = 'other'
EXPLANATION = (
    'The real ensemble_forecast and forecast_tl are executed on symbolic members, symbolic increasing times, symbolic saved '
    'times and an uninterpreted time scheme; the process pool is replaced by a stand-in whose completion order is a free '
    'choice explored by the solver. Z3 decides on every path that each saved time holds the forecasts of the members in the order '
    'of the members, and that tangent-linear values are the difference quotients; for linear dynamics with symbolic '
    'propagators it decides that they are exactly the propagated perturbations.')
OUTSIDE = 'ensembles and windows larger than stated; failures of worker processes'
ASSUMPTIONS = ['increasing windows', 'workers compute the function they are given']
z3 = sx.z3


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for par in (False, True):
        nm = 'parallel' if par else 'sequential'
        for n in range(1, 4 if q else 5):
            for e in range(0, 4 if q else 5):
                if n > 2 and e > 2 and par and q:
                    continue
                out.append(('%s/%dtimes/%dmembers' % (nm, n, e), 'ensemble', dict(par=par, n=n, e=e, fmt='symbolic')))
        for fmt in ('none', 'float', 'arrays', 'generator', 'subset', 'duplicates', 'default'):
            out.append(('%s/%s' % (nm, fmt), 'ensemble', dict(par=par, n=3, e=2, fmt=fmt)))
    for nb in (1, 2, 3):
        for e in range(1, 5 if q else 6):
            out.append(('pool%d/%dmembers' % (nb, e), 'ensemble', dict(par=True, n=2, e=e, fmt='none', nb=nb)))
    for e in (8, 9, 17) if q else (8, 9, 16, 17, 25):
        out.append(('large/%dmembers' % e, 'ensemble', dict(par=True, n=2, e=e, fmt='none')))
        out.append(('large/%dmembers/pool3' % e, 'ensemble', dict(par=True, n=2, e=e, fmt='none', nb=3)))
        out.append(('run/%dtasks' % e, 'runs', dict(e=e)))
    for e in (0, 1, 2, 3, 4):
        out.append(('run/%dtasks' % e, 'runs', dict(e=e)))
    for par in (False, True):
        out.append(('again/%s' % ('parallel' if par else 'sequential'), 'again', dict(par=par)))
    for e in range(0, 3 if q else 4):
        for n in (1, 2, 3):
            out.append(('tl/%dtimes/%dperturbations' % (n, e), 'tl', dict(n=n, e=e, fmt='none')))
    for fmt in ('last', 'subset', 'duplicates', 'thrice', 'outside', 'array', 'defaulth'):
        out.append(('tl/%s' % fmt, 'tl', dict(n=3, e=2, fmt=fmt)))
    for n in (1, 2, 3):
        out.append(('linear/%d' % n, 'linear', dict(n=n)))
    return out


def member(i):
    return state0('m%d_' % i)


def pieces(fmt, ts, k):
    if fmt == 'symbolic':
        return times(k, 'q')
    if fmt == 'float':
        return None
    return {'none': None, 'default': None, 'arrays': None, 'generator': None, 'subset': [ts[-1], ts[0]], 'duplicates': [ts[-1], ts[0], ts[-1]]}[fmt]


def paths_of(prog, limit, axioms):
    ps = list(sx.explore(prog, limit=limit, axioms=axioms))
    for p in ps:
        if isinstance(p.error, TypeError) and 'symbolic number' in str(p.error):
            raise z3q.Inconclusive(str(p.error))
    return ps


def rotation(n):
    """any rotation of 0..n-1 or of its reversal (orders for ensembles too large for all permutations)"""
    from lib.pool import free
    out = list(range(n))
    if free():
        out = out[::-1]
    k = 0
    while k < n - 1 and free():
        k += 1
    return out[k:] + out[:k]


def schedule(e):
    return permutation if e < 5 else rotation


def ensemble(ctx, par, n, e, fmt, nb=None):
    ctx.fn('Model.ensemble_forecast', 'Model.forecast', *(['Parallel.run', 'Model._forecast'] if par else []))
    args = dict(par=par, n=n, e=e, fmt=fmt, nb=nb)
    key = '%s/%d/%d/%s%s' % (par, n, e, fmt, '/pool%d' % nb if nb else '')
    conc = fmt == 'float'
    try:
        run(ctx, par, n, e, fmt, conc, args, key, nb)
    except z3q.Inconclusive:
        ctx.skipped += 1
        ctx.bound(times='concrete (the code is not executable on symbolic times)')
        run(ctx, par, n, e, fmt, True, args, key, nb)
    ctx.obligation(key)


def run(ctx, par, n, e, fmt, conc, args, key, nb=None):
    ts = [0.5 * i for i in range(n)] if conc else times(n)
    zt = [sx.znum(t) for t in ts]
    axioms = [] if conc else increasing(ts)
    k = 1 if fmt == 'symbolic' else 0

    def prog():
        m = make_model()
        if conc and fmt == 'symbolic':
            saved = [ts[-1]]
        elif fmt == 'float':
            saved = ts[-1]
        else:
            saved = pieces(fmt, ts, k)
        window = arr(ts) if fmt == 'arrays' and not conc else list(ts)
        states = [member(i) for i in range(e)]
        given = (s for s in states) if fmt == 'generator' else (arr2(states) if fmt == 'arrays' else list(states))
        copies = [list(s) for s in states]
        kw = {} if fmt == 'default' else dict(parallel=par)
        if nb:
            kw['nb_pool'] = nb
        with patched(schedule(e)):
            res = m.ensemble_forecast(window, given, **kw) if saved is None else m.ensemble_forecast(window, given, saved, **kw)
        ok = all(same(a, b) for a, b in zip(copies, states)) and same(window, ts)
        return res, ok, saved
    for p in paths_of(prog, 20000, axioms):
        if p.error is not None:
            raise Violation(key, 'ensemble_forecast raises %r' % p.error, 'r_ens', args)
        res, ok, saved = p.value
        if not ok:
            raise Violation(key, 'ensemble_forecast modifies its arguments', 'r_ens', args)
        want = ts if saved is None else (saved if isinstance(saved, list) else [saved])
        trajs = [iterates(zt, [x.t for x in member(i)]) for i in range(e)]
        claim = []
        for i in range(n):
            w = z3.Or([sx.znum(q) == zt[i] for q in want]) if want else z3.BoolVal(False)
            hit = []
            for kk, v in res.items():
                good = z3.BoolVal(False)
                if len(v) == e and all(numpy.shape(x) == (NC,) for x in v):
                    good = z3.And([sx.znum(a) == b for x, tr in zip(v, trajs) for a, b in zip(x, tr[i])] or [z3.BoolVal(True)])
                hit.append(z3.And(sx.znum(kk) == zt[i], good))
            claim.append(z3.Implies(w, z3.Or(hit) if hit else z3.BoolVal(False)))
        for kk, v in res.items():
            # nothing else: other saved times hold nothing
            inw = z3.Or([z3.And(sx.znum(kk) == zt[i]) for i in range(n)])
            isq = z3.Or([sx.znum(kk) == sx.znum(q) for q in want]) if want else z3.BoolVal(False)
            claim.append(isq)
            if len(v):
                claim.append(inw)
        good, mo = p.prove(z3.And(claim))
        if not good:
            raise Violation(key, 'ensemble_forecast(parallel=%s) of %d members over %d times (%s): wrong content for %s' % (par, e, n, fmt, mo), 'r_ens', args)
        ctx.paths += 1
    ctx.bound(members=e, window_times=n, parallel=par, saved=fmt, processes=nb or 8,
              schedules='all' if e < 5 else 'rotations and their reversals')
    ctx.sample('forall members, times, completion orders: ensemble[t] = [forecast(member_i)[t]] in order')


def runs(ctx, e):
    """Parallel.run applies the function on each argument, in order"""
    ctx.fn('Parallel.run')
    from sympkf.model.model import Parallel
    f = z3.Function('f', z3.RealSort(), z3.RealSort())
    xs = [sx.Real('x%d' % i) for i in range(e)]
    for nb in (None, 1, 2, 5):
        key = 'run/%d/%s' % (e, nb)
        args = dict(e=e, nb=nb)

        def prog():
            p = Parallel(lambda v: sx.Num(f(sx.znum(v))), *([] if nb is None else [nb]))
            with patched(schedule(e)):
                return p.run(list(xs))
        for p in paths_of(prog, 20000, []):
            if p.error is not None:
                raise Violation(key, 'Parallel.run raises %r' % p.error, 'r_runs', args)
            res = list(p.value)
            good, mo = p.prove(z3.And([z3.BoolVal(len(res) == e)] + [sx.znum(a) == f(x.t) for a, x in zip(res, xs)]))
            if not good:
                raise Violation(key, 'Parallel.run of %d tasks with %s processes: wrong results for %s' % (e, nb, mo), 'r_runs', args)
            ctx.paths += 1
        ctx.obligation(key)
    ctx.bound(tasks=e)
    ctx.sample('forall f, arguments, schedules: run([x..]) = [f(x)..]')


def again(ctx, par):
    """a second ensemble (other members, other window) on the same model, then the first one again"""
    ctx.fn('Model.ensemble_forecast', 'Model.forecast')
    args, key = dict(par=par), 'again/%s' % par
    t1 = times(2)
    t2 = [sx.Real('s%d' % i) for i in range(2)]
    groups = [(t1, [member(0), member(1)]), (t2, [member(2), member(1)]), (t1, [member(3)]), (t1, [member(0), member(1)])]

    def prog():
        m = make_model()
        out = []
        with patched():
            for ts, ms in groups:
                out.append(m.ensemble_forecast(list(ts), list(ms), parallel=par))
        return out
    for p in paths_of(prog, 20000, increasing(t1) + increasing(t2)):
        if p.error is not None:
            raise Violation(key, 'ensemble_forecast raises %r' % p.error, 'r_again', args)
        claim = []
        for (ts, ms), res in zip(groups, p.value):
            if len(res) != len(ts):
                raise Violation(key, 'other saved times in a sequence of ensemble forecasts', 'r_again', args)
            zt = [sx.znum(q) for q in ts]
            trajs = [iterates(zt, [x.t for x in q]) for q in ms]
            for i in range(len(ts)):
                hit = [z3.BoolVal(False)]
                for kk, v in res.items():
                    if len(v) == len(ms) and all(numpy.shape(x) == (NC,) for x in v):
                        hit.append(z3.And([sx.znum(kk) == zt[i]] + [sx.znum(a) == b for x, tr in zip(v, trajs) for a, b in zip(x, tr[i])]))
                claim.append(z3.Or(hit))
        good, mo = p.prove(z3.And(claim))
        if not good:
            raise Violation(key, 'a sequence of ensemble forecasts (parallel=%s) has wrong content for %s' % (par, mo), 'r_again', args)
        ctx.paths += 1
    ctx.obligation(key)
    ctx.sample('forall members and windows: each ensemble forecast of a sequence is its own')


def arr2(states):
    a = numpy.empty((len(states), NC), dtype=object)
    for i, s in enumerate(states):
        a[i] = s
    return a


# -- tangent linear -------------------------------------------------------------------

def tl(ctx, n, e, fmt):
    ctx.fn('Model.forecast_tl', 'Model.ensemble_forecast', 'Model.forecast')
    args = dict(n=n, e=e, fmt=fmt)
    key = 'tl/%d/%d/%s' % (n, e, fmt)
    try:
        run_tl(ctx, n, e, fmt, False, args, key)
    except z3q.Inconclusive:
        ctx.skipped += 1
        run_tl(ctx, n, e, fmt, True, args, key)
    ctx.obligation(key)


def tl_saved(fmt, ts):
    return {'last': [ts[-1]], 'subset': [ts[-1], ts[0]], 'duplicates': [ts[-1], ts[0], ts[-1]], 'thrice': [ts[1]] * 3,
            'outside': [ts[-1], ts[-1] + 1.], 'array': arr([ts[0], ts[1]])}.get(fmt) if len(ts) > 1 else {'last': [ts[-1]]}.get(fmt)


def run_tl(ctx, n, e, fmt, conc, args, key):
    ts = [0.5 * i for i in range(n)] if conc else times(n)
    zt = [sx.znum(t) for t in ts]
    axioms = [] if conc else increasing(ts)
    h = sx.Real('h')
    saved = tl_saved(fmt, ts)
    axioms = axioms + [h.t != 0]

    def prog():
        m = make_model()
        s = state0()
        ps = [member(i) for i in range(e)]
        kw = {} if fmt == 'defaulth' else dict(h=h)
        if saved is not None:
            kw['saved_times'] = saved
        copies = [list(x) for x in [s] + ps]
        with patched():
            ref, res = m.forecast_tl(list(ts), s, ps, **kw)
        return ref, res, all(same(a, b) for a, b in zip(copies, [s] + ps))
    hz = z3.Q(1, 10000) if fmt == 'defaulth' else h.t
    want = range(n) if saved is None else [i for i in range(n) if any(ts[i] is q for q in saved)]
    for p in paths_of(prog, 5000, axioms):
        if p.error is not None:
            raise Violation(key, 'forecast_tl raises %r' % p.error, 'r_tl', args)
        ref, res, ok = p.value
        if not ok:
            raise Violation(key, 'forecast_tl modifies its arguments', 'r_tl', args)
        # 1e-4 is not representable: the float is the step that the code uses
        hh = sx.znum(1e-4) if fmt == 'defaulth' else hz
        s = [x.t for x in state0()]
        base = iterates(zt, s)
        if fmt == 'outside':            # a time which is not in the window has no value
            res = {kk: v for kk, v in res.items() if len(v)}
        if len(ref) != len(want) or len(res) != len(want):
            raise Violation(key, 'forecast_tl: %d and %d saved times instead of %d' % (len(ref), len(res), len(want)), 'r_tl', args)
        claim = []
        for i in want:
            r = [v for kk, v in ref.items() if kk is ts[i] or kk == ts[i]]
            d = [v for kk, v in res.items() if kk is ts[i] or kk == ts[i]]
            if len(r) != 1 or len(d) != 1 or len(d[0]) != e:
                raise Violation(key, 'forecast_tl: missing values at time %d' % i, 'r_tl', args)
            claim += [sx.znum(a) == b for a, b in zip(r[0], base[i])]
            for j in range(e):
                pert = [x.t for x in member(j)]
                moved = iterates(zt, [a + b * hh for a, b in zip(s, pert)])[i]
                claim += [sx.znum(a) == (b - c) / hh for a, b, c in zip(d[0][j], moved, base[i])]
        good, mo = p.prove(z3.And(claim) if claim else z3.BoolVal(True))
        if not good:
            raise Violation(key, 'forecast_tl (%d perturbations, %d times, %s) is not the difference quotient: %s' % (e, n, fmt, mo), 'r_tl', args)
        ctx.paths += 1
    ctx.bound(perturbations=e, window_times=n)
    ctx.sample('forall state, perturbations, h != 0, times: tl = (forecast(state + h p) - forecast(state))/h')


def linear(ctx, n):
    """exact for linear dynamics: tl = propagator applied on the perturbation"""
    ctx.fn('Model.forecast_tl')
    from sympkf.model import Model
    grid.on()
    key, args = 'linear/%d' % n, dict(n=n)
    c = 2
    H = [Poly.var(('c', 'dt', i)) for i in range(n)]
    ts = [Poly.var(('c', 't0'))]
    for i in range(n - 1):
        ts.append(ts[-1] + H[i])

    def A(t, dt):
        return [[Poly.var(('c', 'A', i, j, repr(t), repr(dt))) for j in range(c)] for i in range(c)]

    def apply(M, v):
        return grid.array(lambda i: sum((M[i[0]][j] * v[j] for j in range(c)), ZERO), (c,))
    m = Model()
    m.time_scheme = lambda trend, t, s, dt: apply(A(t, dt), s)
    s = grid.array(lambda i: Poly.var(('c', 's', i[0])), (c,))
    ps = [grid.array(lambda i: Poly.var(('c', 'p', q, i[0])), (c,)) for q in range(2)]
    try:
        with patched(schedule=lambda k: list(range(k))[::-1]):
            ref, res = m.forecast_tl(ts, s, ps, h=Poly.var(('q', 'h')))
        for i in range(n):
            for q in range(2):
                v = ps[q]
                for k in range(i):
                    v = apply(A(ts[k], ts[k + 1] - ts[k]), v)
                for a, b in zip(res[ts[i]][q], v):
                    ok, _ = z3q.equal(Poly.coerce(a), b)
                    if not ok:
                        raise Violation(key, 'linear dynamics: tangent-linear value at step %d is not the propagated perturbation' % i, 'r_linear', args)
    except (Violation, z3q.Inconclusive):
        raise
    except Exception as ex:
        raise Violation(key, 'forecast_tl raises %r' % ex, 'r_linear', args)
    ctx.obligation(key)
    ctx.sample('forall propagators, states, perturbations, h != 0: tl = A_n .. A_1 p')


# -- replay: real processes and, if they agree, an adversarial order of completion -------

def dyn():
    from sympkf.model import Model

    class M(Model):
        def trend(self, t, state):
            return numpy.array([t * state[1] + state[0] ** 2, state[0] - t])
    return M(time_scheme='euler')


def ref(window, u):
    u, out = numpy.array(u, dtype=float), []
    for i, t in enumerate(window):
        out.append(u)
        if i + 1 < len(window):
            u = u + (window[i + 1] - t) * numpy.array([t * u[1] + u[0] ** 2, u[0] - t])
    return out


def r_ens(par, n, e, fmt, nb=None):
    rng = random.Random(5)
    w = [0.25 * i for i in range(n)]
    mem = [numpy.array([rng.random(), rng.random()]) for _ in range(e)]
    for pos in range(n + 1):
        if fmt == 'symbolic':
            saved = [w[pos] if pos < n else 55.]
        else:
            saved = {'float': w[-1], 'subset': [w[-1], w[0]]}.get(fmt)
        kw = {} if fmt == 'default' else dict(parallel=par)
        if saved is not None:
            kw['saved_times'] = saved
        if nb:
            kw['nb_pool'] = nb
        orders = [tuple(range(e))] + list(itertools.islice(itertools.permutations(range(e)), 24)) + [tuple(range(e))[::-1]]
        for o in orders:
            states = (x for x in mem) if fmt == 'generator' else (numpy.array(mem).reshape(e, 2) if fmt == 'arrays' else list(mem))
            win = numpy.array(w) if fmt == 'arrays' else list(w)
            try:
                with patched(schedule=lambda k, o=o: [i for i in o if i < k]):
                    r = dyn().ensemble_forecast(win, states, **kw)
            except Exception as ex:
                return True, 'raises %r' % (ex,)
            want = w if saved is None else (saved if isinstance(saved, list) else [saved])
            if set(r) != set(want):
                return True, 'times %s instead of %s' % (sorted(r), want)
            for q in want:
                exp = [ref(w, x)[w.index(q)] for x in mem] if q in w else []
                if len(r[q]) != len(exp) or any(not numpy.allclose(a, b, atol=1e-12) for a, b in zip(r[q], exp)):
                    return True, 'completion order %s, time %s: %s instead of %s' % (o, q, r[q], exp)
    return False, 'agrees'


def half(x):
    return x / 2


def r_runs(e, nb):
    from sympkf.model.model import Parallel
    args = [float(i * i - 3) for i in range(e)]
    for o in [list(range(e)), list(range(e))[::-1], list(range(1, e)) + [0] * (e > 0)]:
        try:
            with patched(schedule=lambda k, o=o: [i for i in o if i < k]):
                r = list(Parallel(half, *([] if nb is None else [nb])).run(list(args)))
        except Exception as ex:
            return True, 'raises %r' % (ex,)
        if r != [half(a) for a in args]:
            return True, 'run on %s: %s' % (args, r)
    return False, 'agrees'


def r_again(par):
    rng = random.Random(7)
    mem = [numpy.array([rng.random(), rng.random()]) for _ in range(4)]
    m = dyn()
    for w, ms in (([0., .25], [0, 1]), ([.5, 1.], [2, 1]), ([0., .25], [3]), ([0., .25], [0, 1])):
        try:
            with patched(schedule=lambda k: list(range(k))[::-1]):
                r = m.ensemble_forecast(list(w), [mem[i] for i in ms], parallel=par)
        except Exception as ex:
            return True, 'raises %r' % (ex,)
        if set(r) != set(w):
            return True, 'times %s' % (list(r),)
        for i, q in enumerate(w):
            exp = [ref(w, mem[j])[i] for j in ms]
            if len(r[q]) != len(exp) or any(not numpy.allclose(a, b, atol=1e-12) for a, b in zip(r[q], exp)):
                return True, 'window %s, members %s: %s instead of %s' % (w, ms, r[q], exp)
    return False, 'agrees'


def r_tl(n, e, fmt):
    w = [0.25 * i for i in range(n)]
    rng = random.Random(6)
    ps = [numpy.array([rng.random(), rng.random()]) for _ in range(e)]
    s = numpy.array([.5, -.3])
    saved = tl_saved(fmt, w)
    h = 1e-4 if fmt == 'defaulth' else .5
    kw = {} if fmt == 'defaulth' else dict(h=h)
    if saved is not None:
        kw['saved_times'] = saved
    if saved is not None and fmt == 'array':
        kw['saved_times'] = numpy.array([float(q) for q in saved])
    try:
        with patched(schedule=lambda k: list(range(k))[::-1]):
            a, b = dyn().forecast_tl(w, s, ps, **kw)
    except Exception as ex:
        return True, 'raises %r' % (ex,)
    want = w if saved is None else [q for q in saved if q in w]
    if fmt == 'outside':
        b = {q: v for q, v in b.items() if len(v)}
    if set(a) != set(want) or set(b) != set(want):
        return True, 'times %s %s' % (sorted(a), sorted(b))
    if list(s) != [.5, -.3]:
        return True, 'state modified'
    for q in want:
        i = w.index(q)
        base = ref(w, s)[i]
        if not numpy.allclose(a[q], base, atol=1e-12) or len(b[q]) != e:
            return True, 'reference at %s: %s' % (q, a[q])
        for j in range(e):
            exp = (ref(w, s + h * ps[j])[i] - base) / h
            if not numpy.allclose(b[q][j], exp, atol=1e-7):
                return True, 'perturbation %d at %s: %s instead of %s' % (j, q, b[q][j], exp)
    return False, 'agrees'


def r_linear(n):
    from sympkf.model import Model
    m = Model()
    M = numpy.array([[1., 2.], [-3., .5]])
    m.time_scheme = lambda trend, t, s, dt: M @ s * (1 + t) * dt
    w = [0.5 * i for i in range(n)]
    ps = [numpy.array([1., 2.]), numpy.array([-1., 5.])]
    try:
        with patched(schedule=lambda k: list(range(k))[::-1]):
            _, r = m.forecast_tl(w, numpy.array([.5, .25]), ps, h=.5)
    except Exception as ex:
        return True, 'raises %r' % (ex,)
    for i in range(n):
        for q in range(2):
            v = ps[q]
            for k in range(i):
                v = M @ v * (1 + w[k]) * (w[k + 1] - w[k])
            if not numpy.allclose(r[w[i]][q], v, atol=1e-9):
                return True, 'step %d: %s instead of %s' % (i, r[w[i]][q], v)
    return False, 'agrees'
