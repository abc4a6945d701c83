"""C11: external closure: substitution semantics, independent of the history"""
import sympy
from sympy import Derivative, Integer, Rational, Symbol, exp

from lib import pkfcheck, conc, z3q
from lib.harness import Violation
from lib.pkfcheck import make, equations
from lib.poly import Poly, vid, vname
from lib.sem import Env, zev, value, ev, t_from_provider, t_scale
from checks.c09 import tensor_env

PROPERTY = 'C11'
PLAIN_INPUTS = True
LEVEL = 'translation_validation'
EXPLANATION = (
    'A closure is imposed on the real SymbolicPKF through different histories (constructor / set_closure, one or several '
    'calls, before / after / between computations of the systems). Z3 decides, with every jet of every field, tensor and '
    'unclosed expectation symbolic, that each equation of the closed systems equals the unclosed equation in which the closed '
    'expectations are replaced by their closure. Unclosed terms: Z3 decides that the metric system depends on no expectation '
    'that is not reported; each reported one must occur. The caller dictionary must be unchanged.')
OUTSIDE = 'closures whose values contain a closed term; histories other than those listed; families other than those listed'
ASSUMPTIONS = ['aspect tensor positive definite', 'standard deviation > 0', 'smooth fields']
FORMS = {'metric': 'in_metric', 'aspect': 'in_aspect', 'diffusion': 'in_diffusion'}
K = Symbol('kappa_c')

# i: closure at construction, s: set_closure, each with the part of the terms (a: all, 0/1: first/second half, 2: all, with other values)
# m/n/p: compute in_metric / in_aspect / in_diffusion, u: unclosed_terms
HIST = ['ia', 'sa', 'i0s1', 's0s1', 's1s0', 'msa', 'npsa', 's0ms1', 'i1uns0', 'i0', 's1', 'mi', 'sasa', 's0pm', 'us0ns1',
        'i0ms1', 'i1mnps0', 'mnpsa', 'is0ns1ps0', 'ias2', 'iams2', 'sanps2', 's2umsa', 'i2ms0', 'samns2psa']
FAMS = ['lin1d', 'quart1d', 'flux1d', 'sys1d', 'sysgrad1d', 'lin2d', 'third1d', 'sys3']


def cases(tier, seed):
    fams = FAMS + (['lin2d_yx', 'nl2d', 'sys2d', 'sysnl1d'] if tier == 'thorough' else [])
    out = []
    for f in fams:
        two = '2d' in f
        for form in FORMS:
            hs = HIST if not two else HIST[:6] + ['iams2']
            if tier == 'quick' and f not in ('lin1d', 'sys1d'):
                n = (2 * len(out) + seed) % (len(hs) - 2)
                hs = [h for k, h in enumerate(hs) if k in (n, n + 1, n + 2)]
            elif tier == 'quick' and f == 'sys1d':
                hs = hs[::2]
            if two and form == 'diffusion' and tier == 'quick':
                continue
            out.append(('%s/%s' % (f, form), 'case', dict(fam=f, form=form, hist=hs)))
    return out


def weight(name):
    return 20 * ('2d' in name) + 3 * ('sys' in name)


def closure_for(st, terms, shift=0):
    """{term: value}: the i-th unclosed term gets the i-th kind of value"""
    u = st.fields[0]
    mf, mg = st.mf[u], st.mf[st.fields[-1]]
    g, V, x = mf.metric[0, 0], mf.variance, mf.spatial_coordinates[-1]
    g2 = mg.metric[-1, -1]
    vals = [Integer(3) * g**2 - Integer(2) * Derivative(g, x, 2), V * Derivative(g2, x) + K * mg.value, Integer(0),
            Derivative(V, x) * K - u * g2, Rational(1, 3), mf.aspect[0, 0] * g2 + Derivative(u, x) * V]
    return {t: vals[(i + shift) % len(vals)] for i, t in enumerate(terms)}


def ordered_terms(pkf):
    return sorted(pkf.unclosed_terms, key=lambda e: (len(str(e)), str(e)))


def run_history(fam, hist, form):
    """(system, unclosed terms, closure in force, text of a mutation of the caller's data or None)"""
    from sympkf import SymbolicPKF
    eqs, pkf0, st = make(fam)
    terms = ordered_terms(pkf0)
    full = closure_for(st, terms)
    half = (len(terms) + 1) // 2
    parts = {'a': full, '0': {t: full[t] for t in terms[:half]}, '1': {t: full[t] for t in terms[half:]}, '': {},
             '2': closure_for(st, terms, 1)}
    eqs = equations(fam)
    arg = eqs if len(eqs) > 1 else eqs[0]
    given, eff = [], {}

    def give(tag):
        d = dict(parts[tag])
        given.append((d, dict(d)))
        eff.update(d)
        return d
    i, pkf = 0, None
    if hist[0] == 'i':
        tag = hist[1] if len(hist) > 1 and hist[1] in 'a012' else ''
        i = 1 + len(tag)
        pkf = SymbolicPKF(arg, closure=give(tag))
    else:
        pkf = SymbolicPKF(arg)
    while i < len(hist):
        c = hist[i]
        i += 1
        if c in 's':
            tag = hist[i] if i < len(hist) and hist[i] in 'a012' else ''
            i += len(tag)
            pkf.set_closure(give(tag))
        elif c == 'm':
            pkf.in_metric
        elif c == 'n':
            pkf.in_aspect
        elif c == 'p':
            pkf.in_diffusion
        elif c == 'u':
            pkf.unclosed_terms
    system = getattr(pkf, FORMS[form])
    un = pkf.unclosed_terms
    mut = None
    for d, ref in given:
        if d != ref:
            mut = 'the closure given by the caller became %s instead of %s' % (d, ref)
    return st, pkf, system, un, eff, mut


def envs(st, form, eff):
    """(environment, its hook) interpreting the expectations as opaque quantities, replaced by the closure `eff`"""
    env, _ = tensor_env(st, form)
    means = {}
    for u in st.fields:
        means[sympy_mean(st.mf[u])] = u

    def node(e, box):
        if e in eff:
            return ev(sympy.sympify(eff[e]), env, box)
        if e in means:
            return ev(means[e], env, box)
        return t_from_provider(lambda al: Poly.var(('u', 'E:' + str(e), al)), box)
    env.mean_node = node
    return env


def sympy_mean(mf):
    from sympkf import Expectation
    return Expectation(mf.random)


def rows(system):
    return {eq.args[0]: eq.args[1] for eq in system}


def case(ctx, fam, form, hist):
    ctx.fn('SymbolicPKF.__init__', 'SymbolicPKF.set_closure', 'SymbolicPKF.' + FORMS[form], 'SymbolicPKF.unclosed_terms')
    eqs, pkf0, st0 = make(fam)
    try:
        un0 = rows(getattr(pkf0, FORMS[form]))
    except Exception as e:
        raise Violation('%s/%s/exc' % (fam, form), '%s of %s raises %r' % (form, fam, e), 'r_c11', dict(fam=fam, form=form, hist='m'))
    envp = envs(st0, form, {})
    for h in hist:
        args = dict(fam=fam, form=form, hist=h)
        key = '%s/%s/%s' % (fam, form, h)
        try:
            st, pkf, system, un, eff, mut = run_history(fam, h, form)
        except Exception as e:
            raise Violation(key, '%s, history %s: raises %r' % (fam, h, e), 'r_c11', args)
        ctx.programs += 1
        if mut:
            raise Violation(key, '%s, history %s: %s' % (fam, h, mut), 'r_c11', args)
        got = rows(system)
        if set(got) != set(un0) or len(system) != len(got):
            raise Violation(key, '%s, history %s: equations %s instead of %s' % (fam, h, sorted(map(str, got)), sorted(map(str, un0))), 'r_c11', args)
        envc = envs(st0, form, eff)
        for lhs, rhs in got.items():
            ok, _ = z3q.equal(zev(rhs, envp), zev(un0[lhs], envc), positive=st0.units)
            ctx.obligation('%s/%s' % (key, lhs))
            if not ok:
                raise Violation(key, '%s, history %s: closed equation of %s is not the unclosed one with the closed terms replaced: %s' % (
                    fam, h, lhs, str(rhs)[:300]), 'r_c11', args)
        bad = unclosed_defect(pkf, un, st0, envs(st0, 'metric', {}))
        if bad:
            raise Violation(key, '%s, history %s: %s' % (fam, h, bad), 'r_c11', args)
        ctx.sample('forall fields/moments: closed %s dynamics of %s (history %s, %d closed terms) = unclosed with replacements' % (form, fam, h, len(eff)))
    ctx.bound(family=fam, histories=len(hist))


def unclosed_defect(pkf, un, st, env):
    from sympkf import Expectation
    means = {sympy_mean(st.mf[u]) for u in st.fields}
    met = pkf.in_metric
    present = set()
    for eq in met:
        present |= eq.args[1].atoms(Expectation)
    for e in un:
        if not isinstance(e, Expectation) or e not in present:
            return 'the reported unclosed term %s does not occur in the metric dynamics' % e
        if e in means:
            return 'the mean %s is reported as an unclosed term' % e
    # the dynamics do not depend on any expectation that is not reported
    names = {'E:' + str(e) for e in un}
    for eq in met:
        p = value(eq.args[1], env)
        hidden = {v: Poly.var(('u', 'other') + vname(v)[1:]) for v in p.vars()
                  if vname(v)[0] == 'u' and str(vname(v)[1]).startswith('E:') and vname(v)[1] not in names}
        ok, _ = z3q.equal(p, p.subs(hidden), positive=st.units)
        if not ok:
            return 'the equation of %s depends on %s, not reported as unclosed' % (eq.args[0], sorted({vname(v)[1] for v in hidden}))
    return None


# -- replay: explicit values with sympy, no solver --------------------------------

def r_c11(fam, form, hist):
    from sympkf import Expectation
    eqs, pkf0, st0 = make(fam)
    try:
        un0 = rows(getattr(pkf0, FORMS[form]))
        st, pkf, system, un, eff, mut = run_history(fam, hist, form)
    except Exception as e:
        return True, 'raises %r' % (e,)
    if mut:
        return True, mut
    got = rows(system)
    if set(got) != set(un0) or len(system) != len(got):
        return True, 'equations of %s instead of %s' % (sorted(map(str, got)), sorted(map(str, un0)))
    for seed in (1, 2):
        c = concrete(st0, seed)
        for lhs, rhs in got.items():
            a = c.at0(c.conc(opaque(rhs, {}, st0)))
            b = c.at0(c.conc(opaque(un0[lhs], eff, st0)))
            if sympy.simplify(a - b) != 0:
                return True, 'explicit fields (seed %d): closed equation of %s gives %s, replacement in the unclosed one gives %s' % (seed, lhs, a, b)
    means = {sympy_mean(st0.mf[u]) for u in st0.fields}
    present = set()
    for eq in pkf.in_metric:
        present |= eq.args[1].atoms(Expectation)
    if un != present - means:
        return True, 'unclosed terms %s, expectations in the metric dynamics %s' % (un, present - means)
    return False, 'equal'


def opaque(e, eff, st):
    """expectations as explicit unknown functions"""
    from sympkf import Expectation
    means = {sympy_mean(st.mf[u]): u for u in st.fields}
    tab = {}
    for m in sympy.sympify(e).atoms(Expectation):
        if m in eff:
            tab[m] = sympy.sympify(eff[m])
        elif m in means:
            tab[m] = means[m]
        else:
            tab[m] = sympy.Function('E_' + str(abs(hash(str(m))) % 10**9))(*st.coords)
    return sympy.sympify(e).xreplace(tab)


def concrete(st, seed):
    c = conc.Concrete(st, seed)
    d = len(st.space)
    for u in st.fields:
        mf = st.mf[u]
        g = sympy.Matrix(d, d, lambda i, j: c.T[(mf.metric[min(i, j), max(i, j)].func.__name__, False)])
        s = g.inv()
        for i in range(d):
            for j in range(i, d):
                c.T[(mf.aspect[i, j].func.__name__, False)] = s[i, j]
                c.T[(mf.diffusion[i, j].func.__name__, False)] = s[i, j] / 2
    return c
