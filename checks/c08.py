"""C08: cross-covariance dynamics"""
from lib import pkfcheck, z3q
from lib.harness import Violation
from lib.sem import value
from lib.pkfcheck import r_exc, r_rhs  # replays

PROPERTY = 'C08'
PLAIN_INPUTS = True
LEVEL = 'translation_validation'
EXPLANATION = (
    'The real SymbolicPKF computation is executed on PDE families whose coefficients, forcings and fields are '
    'undefined functions. Every equation it outputs is evaluated at a generic space-time point on truncated jets '
    '(every derivative of every field, coefficient, standard deviation and every error moment E[d^a eps d^b eps] is a '
    'universally quantified real) and Z3 decides whether it equals d/dt E[e_u e_v] for every couple of fields, which an independent jet-arithmetic oracle '
    'derives from the PDE alone. Statistical identities (derivatives of E[eps^2]=1) are assumed as axioms; sat answers '
    'are replayed on explicit finite ensembles of polynomial fields with plain calculus.')
OUTSIDE = ('PDEs outside the listed families (the claim is per family, for all coefficient functions, all smooth fields, all '
           'ensembles); functions of non-analytic fields; order of the derivatives above those of the family.')
ASSUMPTIONS = ['standard deviation > 0', 'smooth fields', 'error is centred', 'denominators of the PDE do not vanish',
               'z3 5.3.2', 'the jet encoding (cross-validated on explicit ensembles: encoding_runs_cross_validated)']
KINDS = {'cross': ['cross_covariance_system', 'in_metric']}


def cases(tier, seed):
    fams = pkfcheck.families(tier, seed, multi_only=True)
    return [('%s/%s' % (k, f), 'case', dict(fam=f, kind=k)) for k in KINDS for f in fams] + [
        ('couples/%s' % f, 'couples', dict(fam=f)) for f in fams]


def weight(name):
    return sum(w for n, w in [('nl3d', 50), ('perm3d', 30), ('3d', 10), ('2d', 5), ('sysyx', 20), ('sys', 3)] if n in name)


def case(ctx, fam, kind):
    pkfcheck.case(ctx, fam, kind, KINDS[kind])


def couples(ctx, fam):
    """the cross-covariance of a couple is one function, whichever field is given first, and the one of the dynamics"""
    ctx.fn('SymbolicPKF.get_covariance')
    eqs, pkf, st = pkfcheck.make(fam)
    env = st.env_out()
    for i, u in enumerate(st.fields):
        for j, v in enumerate(st.fields):
            if i == j:
                continue
            key, args = 'couples/%s/%d/%d' % (fam, i, j), dict(fam=fam, i=i, j=j)
            try:
                V = pkf.get_covariance(u, v)
            except Exception as e:
                raise Violation(key, 'get_covariance(%s, %s) of %s raises %r' % (u, v, fam, e), 'r_couples', args)
            ok, _ = z3q.equal(value(V, env), st.cross(u, v)(st.zero))
            if not ok:
                raise Violation(key, 'get_covariance(%s, %s) of %s is %s, which is not their covariance in the dynamics' % (
                    u, v, fam, V), 'r_couples', args)
            ctx.obligation(key)
    ctx.bound(family=fam)


def r_couples(fam, i, j):
    from sympy import Derivative
    eqs, pkf, st = pkfcheck.make(fam)
    u, v = st.fields[i], st.fields[j]
    try:
        V = pkf.get_covariance(u, v)
    except Exception as e:
        return True, 'get_covariance(%s, %s) raises %r' % (u, v, e)
    known = [eq.args[0] for eq in pkf.cross_covariance_system]
    fields = list(pkf.fields)
    k = list(pkf.multivariate_couples).index(tuple(sorted([u, v], key=fields.index)))
    return known[k] != Derivative(V, st.coords[0]), 'get_covariance(%s, %s) is %s whereas the evolution equations are those of %s' % (
        u, v, V, [q.args[0] for q in known])
