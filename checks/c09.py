"""C09: aspect and diffusion forms are equivalent to the metric form and complete"""
from fractions import Fraction

import sympy
from sympy import Derivative

from lib import pkfcheck, conc, z3q
from lib.harness import Violation
from lib.pkfcheck import make, equations
from lib.poly import Poly, ZERO, ONE, vid
from lib.sem import (Env, zev, value, t_from_provider, t_mul, t_add, t_scale, t_pow, provider_of, below)

PROPERTY = 'C09'
PLAIN_INPUTS = True
LEVEL = 'translation_validation'
EXPLANATION = (
    'The three forms (in_metric, in_aspect, in_diffusion) are computed by the real code on PDE families with generic '
    'coefficient functions. The aspect tensor is parametrised as L D L^T with symbolic jets (D>0), so every '
    'positive-definite field is covered; metric = inverse of aspect, diffusion = aspect/2. Z3 decides, for all jets of '
    'all fields and all remaining moments, that mean/variance/cross-covariance right-hand sides coincide and that the '
    'tensor right-hand sides equal -s G s and -2 nu G nu (G: right-hand side of the metric form).')
OUTSIDE = 'families other than those listed; the full 2D diffusion tensor is in the thorough tier only'
ASSUMPTIONS = ['aspect tensor positive definite', 'standard deviation > 0', 'smooth fields']
FORMS = {'aspect': 'in_aspect', 'diffusion': 'in_diffusion'}


def cases(tier, seed):
    fams = ['lin1d', 'quad1d', 'third1d', 'quart1d', 'flux1d', 'exp1d', 'const1d', 'latex1d', 'lin2d', 'nl2d', 'lin2d_yx',
            'lin3d', 'sys1d', 'sysgrad1d', 'sysnl1d', 'sysord1d', 'sys3', 'sys2d', 'hyper1d', 'time1d', 'sqrt1d', 'grad1d', 'pos1d',
            'nest1d', 'sys4', 'names1d', 'label4', 'part2d', 'perm3d', 'sysyx', 'trends1d', 'sysmean1d', 'five1d']
    if tier == 'thorough':
        fams += ['diff2d', 'third2d', 'sysrat1d', 'tanh1d', 'sysnames1d', 'trig1d'] + ['rand%d' % (seed * 1000 + k) for k in range(30)]
    return [('%s/%s' % (form, f), 'case', dict(fam=f, form=form)) for form in FORMS for f in fams]


def weight(name):
    return sum(w for n, w in [('diff2d', 80), ('sys2d', 50), ('3d', 40), ('_yx', 30), ('sysyx', 70), ('2d', 5), ('sys', 3)] if n in name)


def tensor_env(st, form):
    """interpretation where the tensor fields are functions of generic L, D"""
    env = st.env_out()
    sfun, gfun = {}, {}
    d = len(st.space)
    coords = st.coords
    dummy = Env(coords)
    for u in st.fields:
        n = st.names[u]
        L, Dg = {}, []
        for i in range(d):
            z0 = ('q', 'dgl', n, i)
            st.units.add(vid(z0))

            def prov(al, z0=z0, i=i, n=n):
                return Poly.var(z0) if not any(al) else Poly.var(('u', 'dgl%d_%s' % (i, n), al))
            Dg.append(prov)
            for j in range(i):
                L[i, j] = lambda al, i=i, j=j, n=n: Poly.var(('u', 'low%d%d_%s' % (i, j, n), al))

        def Lm(i, j, box, L=L):
            if i == j:
                return {dummy.zero(): ONE}
            return t_from_provider(L[i, j], box) if j < i else {}

        def Li(i, j, box, d=d, Lm=Lm):
            """inverse of the unit lower triangular matrix"""
            if i == j:
                return {dummy.zero(): ONE}
            if j > i:
                return {}
            r = {}
            for k in range(j, i):
                r = t_add(r, t_scale(t_mul(Lm(i, k, box), Li(k, j, box), box), -1))
            return r

        def S(i, j, box, Dg=Dg, Lm=Lm):
            r = {}
            for k in range(d):
                a, b = Lm(i, k, box), Lm(j, k, box)
                if a and b:
                    r = t_add(r, t_mul(t_mul(a, t_from_provider(Dg[k], box), box), b, box))
            return r

        def G(i, j, box, Dg=Dg, Li=Li):
            r = {}
            for k in range(d):
                a, b = Li(k, i, box), Li(k, j, box)
                if a and b:
                    r = t_add(r, t_mul(t_mul(a, t_pow(t_from_provider(Dg[k], box), -1, box, dummy), box), b, box))
            return r
        mf = st.mf[u]
        for i in range(d):
            for j in range(i, d):
                sp = provider_of(lambda box, i=i, j=j, S=S: S(i, j, box), None)
                gp = provider_of(lambda box, i=i, j=j, G=G: G(i, j, box), None)
                sfun[u, i, j] = sfun[u, j, i] = sp
                gfun[u, i, j] = gfun[u, j, i] = gp
                env.providers[(mf.metric[i, j].func.__name__, False)] = gp
                env.providers[(mf.aspect[i, j].func.__name__, False)] = sp
                env.providers[(mf.diffusion[i, j].func.__name__, False)] = \
                    lambda al, sp=sp: sp(al) * Fraction(1, 2)
    return env, sfun


def expected_lhs(st, form):
    """[(label, lhs, how)]"""
    t = st.coords[0]
    out = []
    d = len(st.space)
    for n, u in enumerate(st.fields):
        mf = st.mf[u]
        out.append((('mean', n), Derivative(mf.value, t)))
        out.append((('var', n), Derivative(mf.variance, t)))
        T = dict(metric=mf.metric, aspect=mf.aspect, diffusion=mf.diffusion)[form]
        for i in range(d):
            for j in range(i, d):
                out.append((('tensor', n, i, j), Derivative(T[i, j], t)))
        for m in range(n + 1, len(st.fields)):
            out.append((('cross', n, m), Derivative(st.pkf.get_covariance(*st.order(u, st.fields[m])), t)))
    return out


def table(system, st, form):
    tab, txt = {}, None
    for lab, lhs in expected_lhs(st, form):
        hits = [eq.args[1] for eq in system if eq.args[0] == lhs]
        if len(hits) != 1:
            return None, '%d equations for %s in the %s form' % (len(hits), lhs, form)
        tab[lab] = hits[0]
    if len(tab) != len(system):
        return None, 'the %s form has %d equations instead of %d' % (form, len(system), len(tab))
    return tab, None


def case(ctx, fam, form):
    ctx.fn('SymbolicPKF.in_metric', 'SymbolicPKF.' + FORMS[form])
    args = dict(fam=fam, form=form)
    try:
        eqs, pkf, st = make(fam)
        real, metric = getattr(pkf, FORMS[form]), pkf.in_metric
    except Exception as e:
        raise Violation('%s/%s/exception' % (fam, form), '%s of %s raises %r' % (FORMS[form], fam, e), 'r_c09', args)
    ctx.programs += 2
    tab, txt = table(real, st, form)
    mtab, mtxt = table(metric, st, 'metric')
    if txt or mtxt:
        raise Violation('%s/%s/incomplete' % (fam, form), '%s: %s' % (fam, txt or mtxt), 'r_c09', args)
    env, sfun = tensor_env(st, form)
    d = len(st.space)
    z = st.zero
    for lab, rhs in tab.items():
        got = zev(rhs, env)
        if lab[0] != 'tensor':
            want = zev(mtab[lab], env)
        else:
            _, n, i, j = lab
            u = st.fields[n]
            want = []
            for k in range(d):
                for l in range(d):
                    G = zev(mtab[('tensor', n, min(k, l), max(k, l))], env)
                    # -s G s ; -2 nu G nu = -(1/2) s G s
                    c = sfun[u, i, k](z) * sfun[u, l, j](z) * (Fraction(-1) if form == 'aspect' else Fraction(-1, 2))
                    want.append(z3q.as_zl(c) * G)
            want = z3q.zsum(want)
        ctx.obligation('%s/%s' % (fam, lab))
        ok, model = z3q.equal(got, want, positive=st.units)
        if not ok:
            # moments related by the unit-variance identities may be written differently
            ok, model = z3q.equal(got, want, assume=st.axioms(6), positive=st.units)
        ctx.sample('forall: %s rhs of %s equivalent to the metric form: %s' % (form, (fam,) + lab, str(rhs)[:200]))
        if not ok:
            raise Violation('%s/%s/%s' % (fam, form, lab), '%s form of %s, equation %s is not equivalent to the metric form: %s' % (
                form, fam, lab, str(rhs)[:400]), 'r_c09', args)
    ctx.bound(family=fam)


def r_c09(fam, form):
    try:
        eqs, pkf, st = make(fam)
        real, metric = getattr(pkf, FORMS[form]), pkf.in_metric
    except Exception as e:
        return True, 'PDE %s: %s raises %r' % (equations(fam), FORMS[form], e)
    tab, txt = table(real, st, form)
    mtab, mtxt = table(metric, st, 'metric')
    if txt or mtxt:
        return True, 'PDE %s: %s' % (equations(fam), txt or mtxt)
    d = len(st.space)
    for seed in (1, 2):
        c = conc.Concrete(st, seed)
        for u in st.fields:
            mf = st.mf[u]
            g = sympy.Matrix(d, d, lambda i, j: c.T[(mf.metric[min(i, j), max(i, j)].func.__name__, False)])
            s = g.inv()
            for i in range(d):
                for j in range(i, d):
                    c.T[(mf.aspect[i, j].func.__name__, False)] = s[i, j]
                    c.T[(mf.diffusion[i, j].func.__name__, False)] = s[i, j] / 2
        for lab, rhs in sorted(tab.items(), key=lambda x: len(str(x[1]))):
            a = c.at0(c.conc(rhs))
            if lab[0] != 'tensor':
                b = c.at0(c.conc(mtab[lab]))
            else:
                _, n, i, j = lab
                mf = st.mf[st.fields[n]]
                G = sympy.Matrix(d, d, lambda k, l: c.at0(c.conc(mtab[('tensor', n, min(k, l), max(k, l))])))
                s = sympy.Matrix(d, d, lambda k, l: c.at0(c.T[(mf.aspect[min(k, l), max(k, l)].func.__name__, False)]))
                b = sympy.simplify((-s * G * s)[i, j] * (1 if form == 'aspect' else sympy.Rational(1, 2)))
            if sympy.simplify(a - b) != 0:
                return True, 'PDE %s, explicit ensemble (seed %d): %s equation %s gives %s, the metric form implies %s' % (
                    equations(fam), seed, form, lab, a, b)
    return False, 'equal'
