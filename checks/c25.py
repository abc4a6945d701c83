"""C25: the packaged dynamics"""
import contextlib
import io
import zlib

import numpy
import sympy
from sympy import Derivative as D, Function, Symbol, symbols
from sympy.core.function import AppliedUndef

from checks import c14, c24
from checks.c14 import r_trend            # noqa: replay of the finite-difference models
from checks.c24 import r_case             # noqa: replay of the manifold models
from lib import z3q, grid
from lib.grid import SHIM, Point, array
from lib.harness import Violation
from lib.poly import Poly
from lib.sem import Env, value

PROPERTY = 'C25'
LEVEL = 'translation_validation'
EXPLANATION = (
    'The packaged systems are evaluated as polynomials in the jets of their functions and their coefficients, and Z3 decides that '
    'each right-hand side is the one of the named equation for all jets; the models generated from them are decided as in C14 and '
    'C24. The closure of the packaged Burgers PKF is decided in metric and aspect for all jets, its closed system against the '
    'unclosed system with the term replaced and against the documented closed tendencies, and the tendency of Burgers(n).model '
    'on symbolic states, kappa and time against the discretisation of the closed system at every point.')
OUTSIDE = 'grids of the packaged model other than the stated ones'
ASSUMPTIONS = ['variance and aspect do not vanish', 'n is a power of two, so that the steps of the grid are exact']

t, x, y, z = symbols('t x y z')


def packaged():
    from sympkf.symbolic import dynamics
    return dynamics


def reference(name):
    """(prognostic function, rhs, constants, constant functions)"""
    F = lambda n, *a: Function(n)(*a)
    k, eta = symbols('\\kappa \\eta')
    u = F('u', t, x)
    if name == 'burgers':
        return u, -u * D(u, x) + k * D(u, x, 2), {k}, set()
    if name == 'kuramoto':
        return u, -u * D(u, x) - k * D(u, x, 2) - eta * D(u, x, 4), {k, eta}, set()
    if name == 'diffusion':
        return u, k * D(u, x, 2), {k}, set()
    if name == 'advection':
        c, v = F('c', t, x), F('u', x)
        return c, -v * D(c, x), set(), {v}
    if name == 'advection_in_2D':
        c, v, w = F('c', t, x, y), F('u', x, y), F('v', x, y)
        return c, -v * D(c, x) - w * D(c, y), set(), {v, w}
    if name == 'advection_in_3D':
        X = (x, y, z)
        c, v, w, s = F('c', t, *X), F('u', *X), F('v', *X), F('w', *X)
        return c, -v * D(c, x) - w * D(c, y) - s * D(c, z), set(), {v, w, s}
    if name == 'diffusion_in_2D':
        f = F('u', t, x, y)
        K = {(a, b): F('\\kappa_{%d%d}' % (min(a, b), max(a, b)), x, y) for a in (1, 2) for b in (1, 2)}
        X = {1: x, 2: y}
        return f, sum(D(K[a, b] * D(f, X[b]), X[a]).doit() for a in (1, 2) for b in (1, 2)), set(), set(K.values())
    raise KeyError(name)


NAMES = ['burgers', 'kuramoto', 'diffusion', 'advection', 'advection_in_2D', 'diffusion_in_2D', 'advection_in_3D']


def cases(tier, seed):
    out = [('equation/%s' % n, 'equation', dict(name=n)) for n in NAMES]
    for n in NAMES:
        out.append(('model/%s' % n, 'fdmodel', dict(name=n, tier=tier)))
        out.append(('manifold/%s' % n, 'manifold', dict(name=n)))
    out.append(('pkf/closure', 'closure', {}))
    out.append(('pkf/closed', 'closed', {}))
    for n in (4, 8) if tier == 'quick' else (4, 8, 16, 32):
        out.append(('pkf/model/%d' % n, 'pkfmodel', dict(n=n)))
    out.append(('pkf/default', 'default', {}))
    return out


def weight(name):
    return 20 * ('pkf/model' in name) + 5 * ('3D' in name) + 3 * ('pkf' in name)


def clash(fs):
    """two different functions with the same name"""
    seen = {}
    for f in sorted(fs, key=str):
        o = seen.setdefault(c14.clean(f.func.__name__), f)
        if o != f:
            return '%s and %s' % (o, f)
    return None


def parts(name):
    eqs = list(getattr(packaged(), name).equations)
    if len(eqs) != 1:
        raise AssertionError('%d equations' % len(eqs))
    return eqs[0].args


def equation_text(name):
    """text of a structural defect, or None"""
    f, rhs, cs, cf = reference(name)
    l, r = parts(name)
    if l != D(f, t):
        return 'the left-hand side of %s is %s' % (name, l)
    fs = r.atoms(AppliedUndef) | {f}
    c = clash(fs)
    if c:
        return 'the system %s uses the same name for %s' % (name, c)
    if fs - {f} - cf:
        return 'the system %s depends on %s' % (name, fs - {f} - cf)
    p = getattr(packaged(), name)
    if set(p.prognostic_functions) != {f} or set(p.constant_functions) != cf or set(p.constants) != cs or set(p.exogenous_functions):
        return 'roles of the functions of %s: %s %s %s %s' % (name, p.prognostic_functions, p.constant_functions, p.constants, p.exogenous_functions)
    return None


def equation(ctx, name):
    ctx.fn('sympkf.symbolic.dynamics.%s' % name)
    args = dict(name=name)
    try:
        bad = equation_text(name)
    except Exception as e:
        bad = 'raises %r' % e
    if bad:
        raise Violation('equation/%s' % name, bad, 'r_equation', args)
    f, rhs, cs, cf = reference(name)
    env = Env(f.args)
    ok, m = z3q.equal(value(parts(name)[1], env), value(rhs, Env(f.args)))
    if not ok:
        raise Violation('equation/%s' % name, '%s: right-hand side %s, expected %s' % (name, parts(name)[1], rhs), 'r_equation', args)
    ctx.obligation(name)
    ctx.bound(system=name)
    ctx.sample('forall jets: rhs of %s = %s' % (name, rhs))


def r_equation(name):
    try:
        bad = equation_text(name)
    except Exception as e:
        bad = 'raises %r' % e
    if bad:
        return True, bad
    f, rhs, _, _ = reference(name)
    d = sympy.expand((parts(name)[1] - rhs).doit())
    return numeric(d) != 0, 'difference with the named equation: %s' % d


def numeric(d):
    """value of a difference at one generic choice of (non rational) fields"""
    d = sympy.sympify(d)
    for f in sorted(d.atoms(AppliedUndef), key=str):
        h = sum(zlib.crc32(str(f).encode()) % 7 * (i + 2) for i in range(2)) % 11 + 2
        rep = sympy.Rational(5 + h, 2) + sum(sympy.sin((h + 3 * i + 1) * a + i) for i, a in enumerate(f.args)) + sympy.sin(sum((2 * i + 1) * a for i, a in enumerate(f.args)))
        d = d.subs(f, rep).doit()
    v = d.subs({s: sympy.Rational(i + 2, 7) for i, s in enumerate(sorted(d.free_symbols, key=str))}).evalf(30)
    return 0 if abs(v) < 1e-15 else v


def guard(name, kind):
    """the system itself is right (else reported by the equation case)"""
    return equation_text(name)


def fdmodel(ctx, name, tier):
    bad = None
    try:
        bad = clash(parts(name)[1].atoms(AppliedUndef) | parts(name)[0].atoms(AppliedUndef))
    except Exception as e:
        bad = 'raises %r' % e
    if bad:
        raise Violation('equation/%s' % name, bad, 'r_equation', dict(name=name))
    c14.case(ctx, 'packaged_' + name, tier)


def manifold(ctx, name):
    try:
        bad = clash(parts(name)[1].atoms(AppliedUndef) | parts(name)[0].atoms(AppliedUndef))
    except Exception as e:
        bad = 'raises %r' % e
    if bad:
        raise Violation('equation/%s' % name, bad, 'r_equation', dict(name=name))
    c24.case(ctx, 'packaged_' + name)


# -- Burgers PKF -----------------------------------------------------------------

def burgers():
    from sympkf.dynamics.burgers import Burgers
    return Burgers


def closure_rows():
    B = burgers()
    g, s = B.g, B.s
    k = Symbol('kappa')
    u = Function('u')(t, x)
    rows = [('dynamics', B.dynamics.args[1], -u * D(u, x) + k * D(u, x, 2)),
            ('closure in metric', B.p18_closure['metric'], 3 * g**2 - 2 * D(g, x, 2)),
            ('closure in aspect', B.p18_closure['aspect'], 3 / s**2 - 2 * D(1 / s, x, 2).doit())]
    return rows, B.dynamics.args[0] == D(u, t) and isinstance(g, AppliedUndef) and isinstance(s, AppliedUndef)


def decide(ctx, tag, rows, replay):
    for lab, a, b in rows:
        env = lambda: Env((t, x))
        ok, m = z3q.equal(value(sympy.sympify(a), env()), value(sympy.sympify(b), env()))
        if not ok:
            raise Violation('%s/%s' % (tag, lab), '%s: %s, expected %s' % (lab, a, b), replay, {})
        ctx.obligation('%s/%s' % (tag, lab))
    ctx.sample('forall jets: %s = %s' % rows[-1][1:])
    ctx.bound(system=tag)


def closure(ctx):
    ctx.fn('Burgers.dynamics', 'Burgers.p18_closure')
    try:
        rows, good = closure_rows()
    except Exception as e:
        raise Violation('closure', 'raises %r' % e, 'r_closure', {})
    if not good:
        raise Violation('closure', 'the packaged dynamics is %s' % (burgers().dynamics,), 'r_closure', {})
    decide(ctx, 'closure', rows, 'r_closure')


def r_rows(fn):
    try:
        rows, good = fn()
    except Exception as e:
        return True, 'raises %r' % (e,)
    if not good:
        return True, 'structure of the packaged Burgers dynamics'
    for lab, a, b in rows:
        if numeric(sympy.sympify(a) - sympy.sympify(b)) != 0:
            return True, '%s: %s, expected %s' % (lab, a, b)
    return False, 'agrees'


def r_closure():
    return r_rows(closure_rows)


def closed_rows():
    from sympkf.symbolic.random import Expectation
    B = burgers()
    k = Symbol('kappa')
    u = Function('u')(t, x)
    V, s = B.closed_pkf.fields[u].variance, B.closed_pkf.fields[u].aspect[0, 0]
    g = B.closed_pkf.fields[u].metric[0, 0]
    sysA = {e.args[0]: sympy.sympify(e.args[1]) for e in B.closed_pkf.in_aspect}
    unc = {e.args[0]: sympy.sympify(e.args[1]) for e in B.pkf.in_aspect}
    good = set(sysA) == set(unc) == {D(u, t), D(V, t), D(s, t)} and not any(r.atoms(Expectation) for r in sysA.values())
    terms = set().union(*[r.atoms(Expectation) for r in unc.values()])
    good = good and len(terms) == 1 and set(B.pkf.unclosed_terms) == terms
    P = 3 / s**2 - 2 * D(1 / s, x, 2).doit()
    rows = [('%s with the closure' % l, r, unc[l].xreplace({e: P for e in terms})) for l, r in sysA.items()]
    rows += [('mean', sysA[D(u, t)], -u * D(u, x) + k * D(u, x, 2) - D(V, x) / 2),
             ('variance', sysA[D(V, t)], -u * D(V, x) - 2 * V * D(u, x) + k * D(V, x, 2) - k * D(V, x)**2 / (2 * V) - 2 * k * V / s),
             # documented form with the P18 closure (metric g = 1/s): g_t = ..., s_t = -s^2 g_t
             ('aspect', sysA[D(s, t)], aspect_rhs(u, V, s, k))]
    return rows, good


def aspect_rhs(u, V, s, k):
    """tendency of the aspect from the definition: metric g = E[eps_x^2], with
    eps_t = -u eps_x + k eps_xx + k (V_x / V) eps_x + (2 k g - ...) eps ... and
    E[eps eps_xxxx] = 3 g^2 - 2 g_xx: obtained by expanding g_t = 2 E[eps_x eps_xt]"""
    g = 1 / s
    d = lambda e, n=1: D(e, x, n).doit()
    # error e = sqrt(V) eps:  e_t = -(u e)_x + k e_xx
    sg = sympy.sqrt(V)
    # eps_t = a eps + b eps_x + k eps_xx
    b = -u + 2 * k * d(sg) / sg
    a = -d(u) - u * d(sg) / sg + k * d(sg, 2) / sg - (-u * d(V) - 2 * V * d(u) + k * d(V, 2) - k * d(V)**2 / (2 * V) - 2 * k * V * g) / (2 * V)
    # moments: E eps eps_x = 0, E eps_x^2 = g, E eps eps_xx = -g, E eps_x eps_xx = g_x / 2, E eps_x eps_xxx = g_xx/2 - E eps_xx^2
    P = 3 * g**2 - 2 * d(g, 2)                  # E eps eps_xxxx
    xx = P + 2 * d(g, 2)                        # E eps_xx^2: from the derivatives of E eps eps_xxx = -3 g_x / 2
    gt = 2 * (a * g + d(b) * g + b * d(g) / 2 + k * (d(g, 2) / 2 - xx))
    return -s**2 * gt


def closed(ctx):
    ctx.fn('Burgers.closed_pkf', 'SymbolicPKF.in_aspect', 'SymbolicPKF.set_closure')
    try:
        rows, good = closed_rows()
    except Exception as e:
        raise Violation('closed', 'raises %r' % e, 'r_closed', {})
    if not good:
        raise Violation('closed', 'the packaged system is not closed: %s' % (burgers().closed_pkf.in_aspect,), 'r_closed', {})
    decide(ctx, 'closed', rows, 'r_closed')


def r_closed():
    return r_rows(closed_rows)


def build(n):
    with contextlib.redirect_stdout(io.StringIO()):
        b = burgers()(n)
        other = burgers()(n=n + 1)         # independent instances
    return b.model, other.model


def pkfmodel(ctx, n):
    ctx.fn('Burgers.__init__', 'FDModelBuilder', 'generated trend')
    grid.on()
    args = dict(n=n)
    from sympkf.symbolic.finite_difference import finite_difference
    u = Function('u')(t, x)
    try:
        m, other = build(n)
        rows, _ = closed_rows()
        fd = {}
        V, s = burgers().closed_pkf.fields[u].variance, burgers().closed_pkf.fields[u].aspect[0, 0]
        for (lab, r, _), l in zip(rows[:3], burgers().closed_pkf.in_aspect):
            fd[c14.clean(l.args[0].args[0].func.__name__)] = finite_difference(sympy.sympify(l.args[1]))
        names = list(m.prognostic_functions)
        bad = structure(m, other, n)
        if not bad:
            m.trend.__func__.__globals__['np'] = SHIM
            m.kappa = Poly.var(('c', 'kappa'))
            T = Poly.var(('c', 't'))
            st = {j: array(lambda i: Poly.var(('c', 'st%d' % j, names[i[0]], i[1:])), (3, n)) for j in (1, 2)}
            copies = {j: a.copy() for j, a in st.items()}
            res = [m.trend(T, st[j]) for j in (1, 2)]
    except Exception as e:
        raise Violation('model/%d' % n, 'raises %r' % e, 'r_pkfmodel', args)
    if bad:
        raise Violation('model/%d' % n, bad, 'r_pkfmodel', args)
    if any(p.d != q.d for j in st for p, q in zip(st[j].ravel(), copies[j].ravel())):
        raise Violation('model/%d' % n, 'the trend modifies the state', 'r_pkfmodel', args)
    for j, r in zip((1, 2), res):
        r = numpy.asarray(r, dtype=object)
        if r.shape != (3, n):
            raise Violation('model/%d' % n, 'shape %s' % (r.shape,), 'r_pkfmodel', args)
        P = Point((x,), (n,), lambda f, ts, idx: Poly.var(('c', 'st%d' % j, c14.clean(f), idx)), lambda c: Poly.coerce(1.) / n, lambda q: Poly.var(('c', str(q))))
        for i in range(n):
            P.at((i,))
            for k, f in enumerate(names):
                ok, _ = z3q.equal(Poly.coerce(r[k, i]), P.ev(fd[f]), witness=(i == 0))
                if not ok:
                    raise Violation('model/%d' % n, 'tendency of %s at %d is not the discretised closed dynamics' % (f, i), 'r_pkfmodel', args)
        ctx.obligation('model/%d/%d' % (n, j))
    ctx.bound(points=n)
    ctx.sample('forall states, kappa: trend of Burgers(%d).model = discretisation of the closed PKF' % n)


def structure(m, other, n):
    want = {c14.clean(e.args[0].args[0].func.__name__) for e in burgers().closed_pkf.in_aspect}
    if set(m.prognostic_functions) != want:
        return 'prognostic functions %s' % (m.prognostic_functions,)
    if tuple(m.shape) != (n,) or tuple(other.shape) != (n + 1,):
        return 'shapes %s and %s for %d and %d points' % (m.shape, other.shape, n, n + 1)
    if tuple(m.constants) != ('kappa',):
        return 'constants %s' % (m.constants,)
    return None


def r_pkfmodel(n):
    from sympkf.symbolic.finite_difference import finite_difference
    try:
        m, other = build(n)
        bad = structure(m, other, n)
        if bad:
            return True, bad
        m.kappa = .37
        names = list(m.prognostic_functions)
        rng = numpy.random.RandomState(3)
        st = {j: rng.uniform(.5, 1.5, (3, n)) for j in (1, 2)}
        copies = {j: a.copy() for j, a in st.items()}
        res = {j: m.trend(.3, st[j]) for j in (1, 2)}
    except Exception as e:
        return True, 'raises %r' % (e,)
    if any(not numpy.array_equal(st[j], copies[j]) for j in st):
        return True, 'the trend modifies the state'
    for l in burgers().closed_pkf.in_aspect:
        f = c14.clean(l.args[0].args[0].func.__name__)
        fd = finite_difference(sympy.sympify(l.args[1]))
        for j in (1, 2):
            if numpy.shape(res[j]) != (3, n):
                return True, 'shape %s' % (numpy.shape(res[j]),)
            for i in range(n):
                w = c14.number(fd, (x,), (n,), (i,), lambda g, idx: st[j][names.index(c14.clean(g)), idx[0]], [1.], lambda q: .37)
                if abs(w - res[j][names.index(f), i]) > 1e-8 * (1 + abs(w)):
                    return True, 'tendency of %s at %d: %s, discretised closed dynamics %s' % (f, i, res[j][names.index(f), i], w)
    return False, 'agrees'


def default(ctx):
    """default number of points, and a state of that size is accepted"""
    from lib.concolic import explore
    from lib.z3q import z3
    ctx.fn('Burgers.__init__')
    V = {'n': z3.Int('n')}

    def prog(v):
        with contextlib.redirect_stdout(io.StringIO()):
            return tuple(burgers()(n=v['n']).model.shape), tuple(burgers()().model.shape)
    from lib.concolic import term
    bad = explore(V, [V['n'] >= 3, V['n'] <= 9], prog, lambda v, o: [('shape', z3.And(z3.BoolVal(len(o[0]) == 1), term(o[0][0]) == v['n'])), ('default', o[1] == (241,))],
                  lambda vals: (lambda r: r[1] if r[0] else None)(r_default(vals['n'])), ctx)
    if bad:
        raise Violation('default', bad[1], 'r_default', dict(n=bad[0]['n']))
    ctx.obligation('default')


def r_default(n):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            a, b = tuple(burgers()(n=n).model.shape), tuple(burgers()().model.shape)
    except Exception as e:
        return True, 'raises %r' % e
    return a != (n,) or b != (241,), 'shapes %s (n=%d) and %s' % (a, n, b)
