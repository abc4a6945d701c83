"""Shared machinery of the PKF-dynamics checks (C03..C09)."""
import sympy
from sympy import Derivative

from . import pdes, pkfsem, conc, z3q
from .harness import Violation
from .sem import t_get

ATTR = {'mean': 'expectation_system', 'error': 'error_system', 'var': 'variance_system',
        'std': 'std_system', 'eps': 'epsilon_system', 'metric': 'metric_system',
        'cross': 'cross_covariance_system',
        'first': 'first_order_reynolds_system', 'second': 'second_order_reynolds_system'}


def equations(fam):
    if fam.startswith('rand'):
        return pdes.rand_family(int(fam[4:]))
    return pdes.build(fam)


def make(fam):
    from sympkf import SymbolicPKF
    eqs = equations(fam)
    pkf = SymbolicPKF(eqs if len(eqs) > 1 else eqs[0])
    return eqs, pkf, pkfsem.Stat(pkf, eqs)


def lhs_options(st, kind, u, i=None, j=None, v=None):
    from sympkf import Expectation
    t = st.coords[0]
    mf = st.mf[u]
    if kind == 'mean':
        q = [Expectation(mf.random), mf.value]
    elif kind == 'cross':
        q = [st.pkf.get_covariance(*st.order(u, v))]
    elif kind == 'metric':
        q = [mf.metric[i, j]]
    else:
        q = [dict(error=mf.error, var=mf.variance, std=mf.std, eps=mf.epsilon)[kind]]
    return [Derivative(x, t) for x in q]


def find(system, st, kind, u, i=None, j=None, v=None):
    """the right-hand side of the evolution equation of a statistic"""
    if kind in ('first', 'second'):
        k = st.fields.index(u)
        return system[k].args[1]
    opts = lhs_options(st, kind, u, i, j, v)
    hits = [eq for eq in (system or []) if eq.args[0] in opts]
    if len(hits) != 1:
        raise LookupError('%d equations for d/dt of %s' % (len(hits), opts[0].args[0]))
    return hits[0].args[1]


def items(st, kind):
    for n, u in enumerate(st.fields):
        if kind == 'metric':
            d = len(st.space)
            for i in range(d):
                for j in range(i, d):
                    yield dict(u=n, i=i, j=j)
        elif kind == 'cross':
            for m in range(n + 1, len(st.fields)):
                yield dict(u=n, v=m)
        else:
            yield dict(u=n)


def oracle(st, kind, u, i=None, j=None, v=None):
    z = st.zero
    if kind == 'mean':
        return st.mean_tendency(u)
    if kind == 'error':
        return t_get(st.error_tendency(u), z)
    if kind == 'var':
        return t_get(st.var_tendency(u), z)
    if kind == 'std':
        from fractions import Fraction
        return t_get(st.var_tendency(u), z) * Fraction(1, 2) * st.sig[u](z).inv()
    if kind == 'eps':
        return t_get(st.eps_tendency(u), z)
    if kind == 'metric':
        return st.metric_tendency(u, i, j)
    if kind == 'cross':
        return st.cross_tendency(u, v)
    if kind in ('first', 'second'):
        F = st.F(u, z)
        r = t_get(F[0], z) + t_get(F[1], z)
        return r + t_get(F[2], z) if kind == 'second' else r
    raise ValueError(kind)


def real_rhs(fam, kind, system, it, eqs=None, pkf=None, st=None):
    if pkf is None:
        eqs, pkf, st = make(fam)
    sysm = getattr(pkf, system)
    a = resolve(st, it)
    return find(sysm, st, kind, **a), st, a


def resolve(st, it):
    a = dict(it)
    a['u'] = st.fields[it['u']]
    if 'v' in it:
        a['v'] = st.fields[it['v']]
    return a


def case(ctx, fam, kind, systems, validate=True):
    ctx.fn('SymbolicPKF.' + ATTR[kind], *['SymbolicPKF.' + s for s in systems])
    try:
        eqs, pkf, st = make(fam)
        for s in systems:
            getattr(pkf, s)
    except Exception as e:
        raise Violation('%s/%s/exception' % (fam, kind), 'computing the %s dynamics of %s raises %r' % (kind, fam, e),
                        'r_exc', dict(fam=fam, systems=systems))
    env = st.env_out()
    n = 0
    for it in items(st, kind):
        want = oracle(st, kind, **resolve(st, it))
        for s in systems:
            key = '%s/%s/%s/%s' % (fam, kind, s, sorted(it.items()))
            args = dict(fam=fam, kind=kind, system=s, it=it)
            try:
                rhs, _, a = real_rhs(fam, kind, s, it, eqs, pkf, st)
            except LookupError as e:
                raise Violation(key, '%s of %s: %s' % (s, fam, e), 'r_rhs', args)
            ctx.programs += 1
            ctx.obligation(key)
            ok, model = st.prove(rhs, want, env=env)
            if n == 0:
                ctx.sample('forall fields and ensembles: d/dt[%s #%s of %s] = %s' % (kind, it, fam, str(rhs)[:250]))
            n += 1
            if not ok:
                raise Violation(key, 'wrong %s dynamics for %s %s in %s: %s' % (kind, fam, it, s, str(rhs)[:600]),
                                'r_rhs', args)
    if validate and kind not in ('first', 'second'):
        # the encoding against plain concrete ensembles (exact arithmetic)
        it = next(items(st, kind), None)
        if it is not None:
            rhs, _, a = real_rhs(fam, kind, systems[0], it, eqs, pkf, st)
            bad, txt = conc.Concrete(st, ctx.seed).compare(rhs, kind, **a)
            if bad:
                raise RuntimeError('encoding and concrete ensemble disagree on %s: %s' % (fam, txt))
            ctx.validated += 1
    ctx.bound(family=fam)


def r_exc(fam, systems):
    try:
        eqs, pkf, st = make(fam)
        for s in systems:
            getattr(pkf, s)
    except Exception as e:
        return True, 'PDE %s: raises %r' % (equations(fam), e)
    return False, 'no exception'


def r_rhs(fam, kind, system, it):
    try:
        rhs, st, a = real_rhs(fam, kind, system, it)
    except LookupError as e:
        return True, 'PDE %s: %s has %s' % (equations(fam), system, e)
    if kind in ('first', 'second'):
        return _r_reynolds(rhs, st, kind, a)
    txt = ''
    for seed in range(1, 5):
        c = conc.Concrete(st, seed)
        try:
            bad, txt = c.compare(rhs, kind, **a)
        except ValueError as e:
            return True, 'PDE %s: %s rhs is not a deterministic expression: %s (%s)' % (
                equations(fam), system, rhs, e)
        if bad:
            return True, 'PDE %s, explicit ensemble (seed %d), %s %s in %s at x=0: %s' % (
                equations(fam), seed, kind, it, system, txt)
    return False, txt


def _r_reynolds(rhs, st, kind, a):
    for seed in range(1, 4):
        c = conc.Concrete(st, seed)
        F = c.F(a['u'])
        for k in range(len(c.atoms)):
            ref = F[k][0] + F[k][1] + (F[k][2] if kind == 'second' else 0)
            x, y = c.at0(c.conc(rhs, k)), c.at0(ref)
            if sympy.simplify(x - y) != 0:
                return True, 'member %d: code %s exact %s' % (k, x, y)
    return False, 'equal'


ONE_D = ['lin1d', 'quad1d', 'third1d', 'quart1d', 'flux1d', 'exp1d', 'trig1d', 'const1d', 'latex1d', 'names1d', 'hyper1d',
         'time1d', 'sqrt1d', 'tanh1d', 'grad1d', 'pos1d', 'trend1d', 'many1d']
TWO_D = ['lin2d', 'nl2d', 'diff2d', 'lin2d_yx', 'part2d', 'third2d']
THREE_D = ['lin3d', 'perm3d']
SYS = ['sys1d', 'sysgrad1d', 'sysnl1d', 'sysord1d', 'sysrat1d', 'sys3', 'sys2d', 'sysnames1d', 'label4', 'nest1d', 'sysyx', 'sys4', 'trends1d', 'sysmean1d', 'sysmean2d', 'five1d']
HEAVY = ['nl3d']


def families(tier, seed, multi_only=False, extra=0):
    l = SYS if multi_only else ONE_D + TWO_D + THREE_D + SYS + HEAVY
    l = list(l)
    if tier == 'thorough':
        l += [] if multi_only else ['perm3d2']
        l += ['rand%d' % (seed * 1000 + k) for k in range(60)]
    return l
