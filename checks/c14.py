"""C14: the generated finite-difference model computes the discretised tendency"""
import keyword
import os
import random
import tempfile

import numpy
import sympy
from sympy import Function, Derivative as D, symbols, exp, sin, cos, sqrt, Rational, pi, tanh, log
from sympy.core.function import AppliedUndef

from lib import z3q, grid
from lib.grid import SHIM, Point, array
from lib.harness import Violation
from lib.poly import Poly

PROPERTY = 'C14'
LEVEL = 'translation_validation'
EXPLANATION = (
    'The source generated by the real FDModelBuilder is executed with a numpy whose new arrays hold symbolic reals: state, '
    'constants, constant functions, exogenous functions, domain lengths and time are universally quantified; Z3 decides at '
    'every grid point and for every field that the returned tendency equals the pointwise value of finite_difference(rhs) of '
    'that field, in a first call, a second call on another state and a repeated call; earlier results and the states must stay '
    'unchanged. One step of the time scheme chosen at construction equals the step of the scheme of that name.')
OUTSIDE = ('grids other than the stated ones; functions that depend on a part of the spatial coordinates only, derivatives of '
           'expressions not evaluated by doit(), distinct names that become the same identifier, functions named self, np or t, constants with the name of an attribute '
           'or of an argument of the models (dx, dt, shape, trend..), unclosed expectations')
ASSUMPTIONS = ['lengths and denominators do not vanish', 'arguments of roots and logarithms are positive', 'exact arithmetic']

t, x, y, z = symbols('t x y z')
k, k1, k2 = symbols('kappa \\kappa_{1} k_2')
SHAPES = {1: [(7,), (4,)], 2: [(4, 3), (3, 5)], 3: [(3, 2, 4)]}


def F(n, *a):
    return Function(n)(*a)


def FS(names, *a):
    return [Function(n)(*a) for n in names]


def table():
    from sympkf.symbolic.util import Eq
    T = {}

    def add(name, *rows):
        T[name] = [Eq(D(l, t), r) for l, r in rows]
    u, v, w = FS('uvw', t, x)
    c, d = FS(['c', 'delta'], x)
    f, h = FS(['f', 'h_{ext}'], t, x)
    add('burgers', (u, -u * D(u, x) + k * D(u, x, 2)))
    add('kuramoto', (u, -u * D(u, x) - k * D(u, x, 2) - k1 * D(u, x, 4)))
    add('adv', (u, -c * D(u, x)))
    add('flux', (u, D(c, x) * u + c * D(u, x, 3) + D(c, x, 2) * D(u, x)))
    add('exo', (u, f - u * D(f, x) + h * k))
    add('exo3', (u, f * D(h, x) + c * D(u, x)), (v, D(f, x, 2) - D(c, x) * v + k * h))
    add('sys2', (u, -u * D(u, x) - D(v, x)), (v, -u * D(v, x) - v * D(u, x)))
    add('sys2rev', (v, -u * D(v, x) - v * D(u, x)), (u, -u * D(u, x) - D(v, x)))
    add('sys3', (w, k * D(u, x, 2) * v), (u, k1 * D(w, x) - c * v), (v, u**2 * D(v, x) + k2 * w + f))
    add('dnames', (u, -u * D(F('du', t, x), x)), (F('du', t, x), u * D(u, x) + k))
    add('dnames2', (F('u_dt', t, x), D(u, x)), (u, D(F('u_dt', t, x), x) * u), (F('du_dt', t, x), D(u, x, 2)))
    add('latex', (F('V_{u}', t, x), k1 * D(F('V_{u}', t, x), x, 2) - F('\\nu_{u,xx}', t, x)), (F('\\nu_{u,xx}', t, x), D(F('V_{u}', t, x), x) / F('\\nu_{u,xx}', t, x)))
    add('local', (F('state', t, x), k * D(F('dstate', t, x), x) - v), (F('dstate', t, x), F('state', t, x)**2 + k), (v, D(F('state', t, x), x) - D(v, x)))
    add('local2', (F('dstate', t, x), F('exogenous', t, x) * D(F('state', t, x), x)), (F('state', t, x), f - h * symbols('mu') * F('state', t, x)))
    add('local3', (u, F('state', x) * D(u, x) + F('exogenous', t, x) + f), (v, symbols('dstate') * u + h))
    many, ks = FS(['u_%d' % i for i in range(1, 12)], t, x), symbols('k_1:12')
    add('many', *[(many[i], ks[10 - i] * many[(i + 1) % 11] * D(many[(i + 4) % 11], x) - ks[i] * many[i]) for i in (3, 10, 0, 1, 9, 2, 4, 8, 6, 7, 5)])
    add('keyword', (F('\\lambda', t, x), k * D(F('\\lambda', t, x), x) + symbols('in') * F('\\lambda', t, x)))
    add('func', (u, exp(u) * D(u, x) + sin(v) * cos(u) - tanh(c)), (v, sqrt(v) * D(v, x) / (1 + u**2)))
    add('explicit', (u, -x * D(u, x) + t * k * u + x**2))
    add('number', (u, Rational(2, 3) * D(u, x, 2) / 7 - pi * u + 3 * u**3 - u / (u + k)))
    add('zero', (u, 0 * u), (v, D(v, x)))
    add('const', (u, k - k1), (v, u))
    add('nl', (u, D(u, x)**2 * D(v, x) / v - (D(u, x, 2) - D(v, x, 2))**2), (v, D(u, x) * D(v, x) * D(u, x, 3)))
    add('rational', (u, D(u, x)**3 / (k * u + D(v, x)) - k2 / u), (v, sqrt(u * v) + v**Rational(3, 2)))
    add('single', (u, u))
    th = symbols('\\theta')
    p = F('\\phi', t, th)
    add('theta', (p, -p * D(p, th) + k * D(p, th, 2)))
    s = symbols('ds')
    q = F('q', t, s)
    add('coord_ds', (q, -q * D(q, s) + D(q, s, 3)))
    U, V2, W = FS('uvw', t, x, y)
    a, b = FS(['a', 'b_{xy}'], x, y)
    g = F('g', t, x, y)
    add('adv2', (U, -a * D(U, x) - b * D(U, y)))
    add('mix2', (U, k * D(U, x, y) + D(U, x, 2, y) - D(U, y, 2) * D(U, x)))
    add('diff2', (U, D(a, x) * D(U, x) + a * D(U, x, 2) + D(b, y) * D(U, y) + b * D(U, y, 2) + 2 * k * D(U, x, y)))
    add('sw2', (U, -U * D(U, x) - V2 * D(U, y) - D(W, x)), (V2, -U * D(V2, x) - V2 * D(V2, y) - D(W, y)), (W, -D(U, x) * W - W * D(V2, y) + g))
    add('exo2', (U, g * D(U, y) + D(g, x, y) * a))
    add('expl2', (U, -y * D(U, x) + x * D(U, y) + x * y))
    R, S = FS(['r', 's'], t, y, x)
    e = F('e', y, x)
    add('yx', (R, -S * D(R, y) + D(S, x) * e), (S, D(R, y, 2, x) + x * D(e, y)))
    A, B = FS(['A', 'B'], t, x, y, z)
    C = F('C', x, y, z)
    add('d3', (A, C * D(A, z) + D(B, x, y)), (B, k * (D(B, x, 2) + D(B, y, 2) + D(B, z, 2)) - A * D(C, y)))
    return T


def rand_system(n):
    from sympkf.symbolic.util import Eq
    rng = random.Random(n)
    cs = rng.choice([(x,), (x,), (x, y), (y, x), (symbols('s'), symbols('r_1')), (symbols('dx'), symbols('x_0'))])
    names = rng.sample(['u', 'du', 'v_1', '\\psi', 'W^{2}', 'dx_u', 'u_t', 'X_', 'S', 'T'], rng.choice([1, 2, 2, 3]))
    if 'dx' in map(str, cs):
        names = [m for m in names if 'x' not in m] or ['u']
    prog = FS(names, t, *cs)
    other = [F('c_1', *cs), F('e_1', t, *cs), F('\\gamma', *cs), F('e_2', t, *cs)][:rng.randint(0, 4)]
    ks = list(symbols('kappa eta \\mu_{1}'))
    rows = []
    for p in prog:
        r = 0
        for _ in range(rng.randint(1, 4)):
            m = Rational(rng.choice([-3, -1, 1, 2]), rng.choice([1, 2, 3])) * rng.choice(ks + [1])
            for _ in range(rng.randint(1, 3)):
                q = rng.choice(prog + other)
                kind = rng.random()
                if kind < .4:
                    m *= q
                elif kind < .5:
                    m /= (1 + q**2)
                else:
                    od = []
                    for cc in rng.sample(cs, rng.randint(1, len(cs))):
                        od += [cc, rng.choice([1, 1, 2, 3]) if len(cs) == 1 else rng.choice([1, 1, 2])]
                    m *= D(q, *od)
            r += m
        rows.append(Eq(D(p, t), r))
    return rows


def system(name):
    if name.startswith('rand'):
        return rand_system(int(name[4:]))
    if name == 'pkf_burgers':
        from sympkf import SymbolicPKF
        from sympkf.symbolic.util import Eq
        u = F('u', t, x)
        pkf = SymbolicPKF(Eq(D(u, t), -u * D(u, x) + k * D(u, x, 2)))
        s = pkf.fields[u].aspect[0, 0]
        term = sorted(pkf.unclosed_terms, key=str)[0]
        pkf.set_closure({term: 3 / s**2 - 2 * D(1 / s, x, 2).doit()})
        return pkf.in_aspect
    if name == 'pkf_adv':
        from sympkf import SymbolicPKF
        from sympkf.symbolic.util import Eq
        u, v = FS('uv', t, x)
        c = F('c', x)
        pkf = SymbolicPKF([Eq(D(u, t), -c * D(u, x)), Eq(D(v, t), -c * D(v, x) + k * v)])
        pkf.set_closure({e: pkf.fields[u].metric[0, 0] * k1 + D(v, x) for e in pkf.unclosed_terms})
        return pkf.in_metric
    if name.startswith('packaged_'):
        from sympkf.symbolic import dynamics
        return list(getattr(dynamics, name[9:]).equations)
    return table()[name]


EXTRA = ['pkf_burgers', 'pkf_adv']


def cases(tier, seed):
    names = list(table()) + EXTRA
    m = 10 if tier == 'quick' else 80
    names += ['rand%d' % (seed * 1000 + i) for i in range(m)]
    out = [(n, 'case', dict(name=n, tier=tier)) for n in names]
    return out + [('scheme/%s/%s' % (n, s), 'scheme', dict(name=n, scheme=s)) for n in ('exo3', 'adv2', 'single')
                  for s in (None, 'euler', 'rk2', 'rk4')]


def weight(name):
    return 5 * ('3' in name) + 3 * ('2' in name or 'yx' in name) + 4 * ('pkf' in name)


def clean(s):
    s = str(s).replace('\\', '').replace('{', '').replace('}', '').replace('^', '_').replace(',', '_')
    return s + '_' if keyword.iskeyword(s) else s


def source(eqs, how):
    from sympkf.symbolic.model_builder_FD import FDModelBuilder
    b = FDModelBuilder(list(eqs) if len(eqs) > 1 else eqs[0], class_name='GenModel')
    if how == 'code':
        return b.code
    d = tempfile.mkdtemp()
    old = os.getcwd()
    try:
        os.chdir(d)
        import contextlib, io
        with contextlib.redirect_stdout(io.StringIO()):
            b.write_module()
        return open('genmodel.py').read()
    finally:
        os.chdir(old)
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)


def model_class(src, np_):
    ns = {}
    exec(compile(src, 'generated', 'exec'), ns)
    ns['np'] = np_
    return ns['GenModel'], ns


class Problem(object):
    """roles of the functions of the system, by their definition"""

    def __init__(self, eqs):
        self.eqs = eqs
        self.prog = [e.args[0].args[0] for e in eqs]
        self.space = self.prog[0].args[1:]
        fs = set()
        for e in eqs:
            fs |= e.args[1].atoms(AppliedUndef)
        self.funcs = {clean(f.func.__name__): f for f in fs | set(self.prog)}
        self.symbols = set()
        for e in eqs:
            self.symbols |= e.args[1].atoms(sympy.Symbol)
        self.symbols -= set(self.space) | {t}


def instance(cls, prob, shape, lengths, value, fvalue, **more):
    """model with its constants; fvalue(function, index), value(symbol)"""
    kw = {clean(s): value(s) for s in prob.symbols}
    kw.update(more)
    for n in getattr(cls, 'constant_functions', ()):
        kw[n] = array(lambda i, n=n: fvalue(prob.funcs[n].func.__name__, 0, i), shape)
    exo = getattr(cls, 'exogenous_functions', ())
    if exo:
        class Sub(cls):
            def compute_exogenous(self, time, state):
                return [array(lambda i, n=n: fvalue(prob.funcs[n].func.__name__, str(time), i) + state[(0,) + i], shape) for n in exo]
        cls = Sub
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        return cls(shape=shape, lengths=lengths, **kw)


def roles_defect(cls, prob):
    """every function and symbol of the right-hand sides must be provided"""
    got = list(cls.prognostic_functions)
    if sorted(got) != sorted(clean(p.func.__name__) for p in prob.prog):
        return 'prognostic functions %s' % (got,)
    return None


def symbolic_model(src, prob, shape):
    np_ = SHIM
    cls, ns = model_class(src, np_)
    val = lambda s: Poly.coerce(float(s)) if getattr(s, 'is_NumberSymbol', False) else Poly.var(('c', str(s)))
    fv = lambda n, tag, i: Poly.var(('c', 'f', n, i) + ((tag,) if tag else ()))
    try:
        L = [Poly.var(('q', 'len', n)) for n in range(len(shape))]
        m = instance(cls, prob, shape, tuple(L), val, fv)
    except Exception:
        L = [[2.0, 3.0, 0.5][n] for n in range(len(shape))]
        m = instance(cls, prob, shape, tuple(L), val, fv)
    return m, [Poly.coerce(l) / n for l, n in zip(L, shape)], val, fv


def state_of(prob, m, shape, tag):
    names = [prob.funcs[n].func.__name__ for n in m.prognostic_functions]
    return array(lambda i: Poly.var(('c', 'st%s' % tag, names[i[0]], i[1:])), (len(names),) + shape), names


def case(ctx, name, tier):
    ctx.fn('FDModelBuilder', 'ModelBuilder', 'MetaDerivative', 'generated trend', 'generated __init__', 'generated index')
    grid.on()
    eqs = system(name)
    prob = Problem(eqs)
    from sympkf.symbolic.finite_difference import finite_difference
    fd = {e.args[0].args[0].func.__name__: finite_difference(sympy.sympify(e.args[1])) for e in eqs}
    how = 'module' if name in ('burgers', 'sw2') else 'code'
    args = dict(name=name, how=how)
    try:
        src = source(eqs, how)
        cls, ns = model_class(src, SHIM)
    except Exception as err:
        raise Violation('%s/build' % name, 'building the model of %s raises %r' % (eqs, err), 'r_trend', args)
    bad = roles_defect(cls, prob)
    if bad:
        raise Violation('%s/roles' % name, 'model of %s: %s' % (eqs, bad), 'r_trend', args)
    TT = [Poly.var(('c', 't1')), Poly.var(('c', 't2'))]
    shapes = SHAPES[len(prob.space)]
    if name.startswith('rand') or name in EXTRA:
        shapes = shapes[:1]
    for shape in shapes:
        try:
            m, dx, val, fv = symbolic_model(src, prob, shape)
            states = [state_of(prob, m, shape, j)[0] for j in (1, 2)]
            third, names = state_of(prob, m, shape, 3)
            copies = [states[0].copy(), third]
            exo = [prob.funcs[n].func.__name__ for n in getattr(m, 'exogenous_functions', ())]
            r1 = m.trend(TT[0], states[0])
            keep = numpy.array(r1, dtype=object).copy()
            r2 = m.trend(TT[0], states[1])
            r3 = m.trend(TT[1], states[1])
            states[1][...] = third              # the caller reuses its array
            r4 = m.trend(TT[1], states[1])
            r5 = m.trend(TT[0], states[0])
        except z3q.Inconclusive:
            raise
        except Exception as err:
            raise Violation('%s/exec' % name, 'trend of %s raises %r' % (eqs, err), 'r_trend', args)
        for a, b in zip(states, copies):
            if any(p.d != q.d for p, q in zip(a.ravel(), b.ravel())):
                raise Violation('%s/state' % name, 'the trend of %s modifies the state' % (eqs,), 'r_trend', args)
        if any(Poly.coerce(p).d != Poly.coerce(q).d for p, q in zip(numpy.array(r1, dtype=object).ravel(), keep.ravel())):
            raise Violation('%s/alias' % name, 'the trend of %s returns a buffer that later calls modify' % (eqs,), 'r_trend', args)
        for tag, T, res in ((1, TT[0], r1), (2, TT[0], r2), (2, TT[1], r3), (3, TT[1], r4), (1, TT[0], r5)):
            res = numpy.asarray(res, dtype=object)
            if res.shape != states[0].shape:
                raise Violation('%s/shape' % name, 'trend of %s has shape %s' % (eqs, res.shape), 'r_trend', args)

            def values(n, ts, idx):
                if n in names:
                    return Poly.var(('c', 'st%s' % tag, n, idx))
                if n in exo:
                    return fv(n, str(T), idx) + Poly.var(('c', 'st%s' % tag, names[0], idx))
                return fv(n, 0, idx)
            P = Point(prob.space, shape, values, lambda c: dx[prob.space.index(c)], lambda s: T if s == t else val(s),
                      coordinate=lambda n, i: dx[n] * i)
            for i in numpy.ndindex(*shape):
                P.at(i)
                for r, n in enumerate(names):
                    ok, _ = z3q.equal(Poly.coerce(res[(r,) + i]), P.ev(fd[n]), witness=(sum(i) == 0))
                    if not ok:
                        raise Violation('%s/%s' % (name, n), 'tendency of %s at %s (grid %s) is not the discretised rhs of %s' % (
                            n, i, shape, eqs), 'r_trend', args)
            ctx.obligation('%s %s' % (name, shape))
        ctx.programs += 1
        ctx.bound(shape=list(shape))
    ctx.sample('forall state, parameters, lengths: trend of the model of %s = discretisation' % (eqs,))


# -- time scheme --------------------------------------------------------------------

def step(scheme, f, t0, s, h):
    k1 = f(t0, s)
    if scheme == 'euler':
        return s + h * k1
    if scheme == 'rk2':
        return s + h * f(t0 + h / 2, s + h * k1 / 2)
    k2 = f(t0 + h / 2, s + h * k1 / 2)
    k3 = f(t0 + h / 2, s + h * k2 / 2)
    k4 = f(t0 + h, s + h * k3)
    return s + h * (k1 + 2 * k2 + 2 * k3 + k4) / 6


def step_rows(name, scheme, np_, P, num):
    """(computed, expected) for one step of the chosen scheme on a linear trend"""
    eqs = system(name)
    prob = Problem(eqs)
    cls, _ = model_class(source(eqs, 'code'), np_)
    shape = (2,) * len(prob.space)
    kw = {} if scheme is None else dict(time_scheme=scheme)
    m = instance(cls, prob, shape, (2.0,) * len(shape), lambda s: P(('c', str(s))), lambda n, tag, i: P(('f', n, i)), **kw)
    n = len(prob.prog)
    conv = (lambda a: numpy.array(a, dtype=float)) if num else (lambda a: a)
    A = [[P(('A', i, j)) for j in range(n)] for i in range(n)]

    def f(tt, st):
        st = numpy.asarray(st)
        return conv(array(lambda i: sum((A[i[0]][j] * st[(j,) + i[1:]] for j in range(n)), 0) * tt, (n,) + shape))
    s = conv(array(lambda i: P(('s',) + i), (n,) + shape))
    t0, h = P(('t0',)), P(('h',))
    got = m.time_scheme(f, t0, s, h)
    if scheme is None:
        from sympkf.model.model import Model

        class Ref(Model):
            def trend(self, a, b):
                return None
        want = Ref().time_scheme(f, t0, s, h)
    else:
        want = step(scheme, f, t0, s, h)
    return numpy.ravel(got), numpy.ravel(want)


def scheme(ctx, name, scheme):
    ctx.fn('generated __init__', 'Model.__init__', 'Model.set_time_scheme')
    grid.on()
    args = dict(name=name, scheme=scheme)
    key = 'scheme/%s/%s' % (name, scheme)
    try:
        got, want = step_rows(name, scheme, SHIM, lambda k: Poly.var(('c',) + k), False)
    except z3q.Inconclusive:
        raise
    except Exception as e:
        raise Violation(key, 'building or stepping raises %r' % (e,), 'r_scheme', args)
    if len(got) != len(want):
        raise Violation(key, 'shape of the step', 'r_scheme', args)
    for a, b in zip(got, want):
        ok, _ = z3q.equal(Poly.coerce(a), Poly.coerce(b))
        if not ok:
            raise Violation(key, 'time_scheme=%r is not honoured by the generated model' % (scheme,), 'r_scheme', args)
    ctx.obligation(key)
    ctx.bound(scheme=str(scheme))


def r_scheme(name, scheme):
    rng = random.Random(5)
    mem = {}

    def P(k):
        if k not in mem:
            mem[k] = rng.uniform(.5, 1.5)
        return mem[k]
    try:
        got, want = step_rows(name, scheme, numpy, P, True)
    except Exception as e:
        return True, 'raises %r' % (e,)
    ok = len(got) == len(want) and numpy.allclose(numpy.array(got, dtype=float), numpy.array(want, dtype=float), rtol=1e-9)
    return not ok, 'step with time_scheme=%r: %s, expected %s' % (scheme, got, want)


# -- replay ------------------------------------------------------------------------

def r_trend(name, how):
    from sympkf.symbolic.finite_difference import finite_difference
    eqs = system(name)
    prob = Problem(eqs)
    try:
        src = source(eqs, how)
        cls, ns = model_class(src, numpy)
    except Exception as err:
        return True, 'building the model raises %r' % (err,)
    bad = roles_defect(cls, prob)
    if bad:
        return True, bad
    rng = random.Random(3)
    mem = {}

    def val(*key):
        if key not in mem:
            mem[key] = rng.uniform(.5, 1.5)
        return mem[key]
    for shape in SHAPES[len(prob.space)]:
        L = [2., 3., .5][:len(shape)]
        try:
            cval = lambda s: float(s) if getattr(s, 'is_NumberSymbol', False) else val('c', str(s))
            fv = lambda n, tag, i: val('f', n, i, shape, tag)
            m = instance(cls, prob, shape, tuple(L), cval, fv)
            for nme in getattr(m, 'constant_functions', ()):
                setattr(m, nme, numpy.array(getattr(m, nme), dtype=float))
            if getattr(m, 'exogenous_functions', ()):
                base = m.compute_exogenous
                m.compute_exogenous = lambda a, b: [numpy.array(q, dtype=float) for q in base(a, b)]
            names = [prob.funcs[n].func.__name__ for n in m.prognostic_functions]
            st = [numpy.array(array(lambda i: val('st', j, names[i[0]], i[1:], shape), (len(names),) + shape), dtype=float) for j in (1, 2, 3)]
            ref = [st[0].copy(), st[2].copy()]
            exo = [prob.funcs[n].func.__name__ for n in getattr(m, 'exogenous_functions', ())]
            r1 = m.trend(.7, st[0])
            keep = numpy.array(r1).copy()
            r2 = m.trend(.7, st[1])
            r3 = m.trend(.9, st[1])
            st[1][...] = st[2]
            r4 = m.trend(.9, st[1])
            r5 = m.trend(.7, st[0])
        except Exception as err:
            return True, 'the trend raises %r' % (err,)
        for a, b in zip(st, ref):
            if not numpy.array_equal(a, b):
                return True, 'the trend modifies the state'
        if not numpy.array_equal(keep, r1):
            return True, 'a later call modifies the returned tendency'
        if numpy.shape(r1) != st[0].shape:
            return True, 'shape %s' % (numpy.shape(r1),)
        for j, T, res in ((1, .7, r1), (2, .7, r2), (2, .9, r3), (3, .9, r4), (1, .7, r5)):
            if numpy.shape(res) != st[0].shape:
                return True, 'shape %s' % (numpy.shape(res),)

            def leaf(f, idx):
                if f in names:
                    return val('st', j, f, idx, shape)
                return val('f', f, idx, shape, str(T)) + val('st', j, names[0], idx, shape) if f in exo else val('f', f, idx, shape, 0)
            for r, n in enumerate(names):
                e = [q.args[1] for q in eqs if q.args[0].args[0].func.__name__ == n][0]
                fd = finite_difference(sympy.sympify(e))
                for i in numpy.ndindex(*shape):
                    w = number(fd, prob.space, shape, i, leaf, L, lambda s: T if s == t else val('c', str(s)))
                    if abs(w - res[(r,) + i]) > 1e-7 * (1 + abs(w)):
                        return True, '%s: tendency of %s at %s is %s, the discretised right-hand side %s' % (eqs, n, i, res[(r,) + i], w)
    return False, 'equal'


def number(e, space, shape, i, leaf, L, const):
    steps = {symbols('d' + str(c)): L[n] / shape[n] for n, c in enumerate(space)}

    def sub(f):
        idx = list(i)
        for a in f.args:
            for n, c in enumerate(space):
                q = sympy.expand((a - c) / symbols('d' + str(c)))
                if q.is_Integer:
                    idx[n] = (idx[n] + int(q)) % shape[n]
                    break
        return sympy.Float(leaf(f.func.__name__, tuple(idx)))
    e = sympy.sympify(e).replace(lambda q: isinstance(q, AppliedUndef), sub)
    tab = {}
    for s in e.free_symbols:
        if s in space:
            tab[s] = i[list(space).index(s)] * L[list(space).index(s)] / shape[list(space).index(s)]
        elif s in steps:
            tab[s] = steps[s]
        else:
            tab[s] = const(s)
    return float(e.xreplace({a: sympy.Float(b) for a, b in tab.items()}))
