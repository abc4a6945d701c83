"""C07: metric-tensor dynamics"""
from lib import pkfcheck
from lib.pkfcheck import r_exc, r_rhs  # replays

PROPERTY = 'C07'
PLAIN_INPUTS = True
LEVEL = 'translation_validation'
EXPLANATION = (
    'The real SymbolicPKF computation is executed on PDE families whose coefficients, forcings and fields are '
    'undefined functions. Every equation it outputs is evaluated at a generic space-time point on truncated jets '
    '(every derivative of every field, coefficient, standard deviation and every error moment E[d^a eps d^b eps] is a '
    'universally quantified real) and Z3 decides whether it equals d/dt E[d_i eps d_j eps] for every couple i<=j, which an independent jet-arithmetic oracle '
    'derives from the PDE alone. Statistical identities (derivatives of E[eps^2]=1) are assumed as axioms; sat answers '
    'are replayed on explicit finite ensembles of polynomial fields with plain calculus.')
OUTSIDE = ('PDEs outside the listed families (the claim is per family, for all coefficient functions, all smooth fields, all '
           'ensembles); functions of non-analytic fields; order of the derivatives above those of the family.')
ASSUMPTIONS = ['standard deviation > 0', 'smooth fields', 'error is centred', 'denominators of the PDE do not vanish',
               'z3 5.3.2', 'the jet encoding (cross-validated on explicit ensembles: encoding_runs_cross_validated)']
KINDS = {'metric': ['metric_system', 'in_metric']}


def cases(tier, seed):
    fams = pkfcheck.families(tier, seed, multi_only=False)
    return [('%s/%s' % (k, f), 'case', dict(fam=f, kind=k)) for k in KINDS for f in fams]


def weight(name):
    return sum(w for n, w in [('nl3d', 50), ('perm3d', 30), ('3d', 10), ('2d', 5), ('sysyx', 20), ('sys', 3)] if n in name)


def case(ctx, fam, kind):
    pkfcheck.case(ctx, fam, kind, KINDS[kind])
