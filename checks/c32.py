"""C32: the derived dynamics leave no moment that the normalisation and the metric determine"""
import itertools

import sympy
from math import comb
from sympy import Derivative
from sympy.core.function import AppliedUndef

from lib import pkfcheck, z3q
from lib.z3q import z3
from lib.harness import Violation

PROPERTY = 'C32'
PLAIN_INPUTS = True
LEVEL = 'translation_validation'
EXPLANATION = (
    'The real SymbolicPKF derives the dynamics of PDE families with undefined coefficients. For each moment E[D^a eps D^b eps] '
    'which remains in the mean, variance, cross-covariance and metric equations, Z3 decides whether two ensembles with the same '
    'normalisation, metric and cross-covariance (all derivatives included: the moments of one total multi-index are reals, '
    'related by the product rule) can differ on it; when they cannot (unsat), the moment is determined and should not remain. '
    'A univariate moment with both orders at least one is compared with the moments E[eps D^c eps] too.')
OUTSIDE = 'systems outside the listed families; the aspect and diffusion forms of systems in two and three dimensions'
ASSUMPTIONS = ['smooth fields']

SYSTEMS = ['expectation_system', 'variance_system', 'cross_covariance_system', 'metric_system', 'in_metric']


def cases(tier, seed):
    return [(f, 'case', dict(fam=f)) for f in pkfcheck.families(tier, seed)]


def weight(name):
    return sum(w for n, w in [('nl3d', 50), ('perm3d', 30), ('3d', 10), ('2d', 5), ('sysyx', 20), ('sys', 3)] if n in name)


def systems(st):
    return SYSTEMS + (['in_aspect', 'in_diffusion'] if len(st.space) == 1 and len(st.fields) == 1 else [])


def parse(term, st):
    """[(field, multi-index)] of the factors of a moment, or a text when it is not a product of normalised errors"""
    arg = term.args[0]
    factors = []
    for m in sympy.Mul.make_args(arg):
        b, e = m.as_base_exp()
        if not (e.is_Integer and e > 0):
            return '%s is not a product' % arg
        factors += [b] * int(e)
    out = []
    eps = {st.mf[u].epsilon: n for n, u in enumerate(st.fields)}
    for b in factors:
        f = b.args[0] if isinstance(b, Derivative) else b
        if f not in eps:
            return '%s is not a normalised error' % f
        orders = dict.fromkeys(st.coords, 0)
        for c, o in b.variable_count if isinstance(b, Derivative) else ():
            if c not in orders:
                return '%s is not a coordinate' % c
            orders[c] += int(o)
        out.append((eps[f], tuple(orders[c] for c in st.coords)))
    return sorted(out)


def splits(m):
    return itertools.product(*[range(k + 1) for k in m])


def minus(a, b):
    return tuple(i - j for i, j in zip(a, b))


def plus(a, b):
    return tuple(i + j for i, j in zip(a, b))


def rows(factors):
    """known combinations of the moments of the total multi-index (constraints of a difference of two ensembles), as dicts"""
    (f, a), (g, b) = factors
    m = plus(a, b)
    name = (lambda p, q: tuple(sorted([p, q]))) if f == g else (lambda p, q: (p, q))

    def jet(k, p, q):
        d = {}
        for i in splits(k):
            c = 1
            for x, y in zip(k, i):
                c *= comb(x, y)
            v = name(plus(p, i), plus(q, minus(k, i)))
            d[v] = d.get(v, 0) + c
        return d
    zero = (0,) * len(m)
    known = [jet(m, zero, zero)]                            # normalisation, cross-covariance
    if f == g:
        for c in splits(m):
            if sum(c) == 2 and c[0] == 0:                   # metric (the time is the first coordinate)
                known.append(jet(minus(m, c), zero, c))
            elif sum(a) and sum(b):
                known.append(jet(minus(m, c), zero, c))     # E[eps D^c eps]
    return known, name(a, b)


def determined(factors):
    """z3: is the moment the same for all ensembles with the same known moments?"""
    if len(factors) == 1:
        return True
    if len(factors) != 2:
        return False
    known, T = rows(factors)
    R = {}
    var = lambda v: R.setdefault(v, z3.Real('R_%s' % (v,)))
    cs = [z3.Sum([c * var(v) for v, c in r.items()]) == 0 for r in known]
    res, _ = z3q.check(cs + [var(T) == 1])
    if res == 'unknown':
        raise z3q.Inconclusive('solver returned unknown')
    return res == 'unsat'


def determined_exactly(factors):
    """the same by exact linear algebra"""
    if len(factors) != 2:
        return len(factors) == 1
    known, T = rows(factors)
    vs = sorted({v for r in known for v in r} | {T})
    M = sympy.Matrix([[r.get(v, 0) for v in vs] for r in known])
    e = sympy.Matrix([[int(v == T) for v in vs]])
    return M.rank() == M.col_join(e).rank()


def remaining(st, pkf, system):
    from sympkf import Expectation
    out = []
    means = [Expectation(st.mf[u].random) for u in st.fields]
    for eq in getattr(pkf, system) or []:
        for term in sorted(eq.args[1].atoms(Expectation), key=str):
            if term not in means:
                out.append((eq.args[0], term))
    return out


def case(ctx, fam):
    ctx.fn(*['SymbolicPKF.' + s for s in SYSTEMS] + ['SymbolicPKF._apply_internal_closure', 'UnivariateTerm.is_univariate'])
    eqs, pkf, st = pkfcheck.make(fam)
    decided = {}
    for s in systems(st):
        args = dict(fam=fam, system=s)
        try:
            left = remaining(st, pkf, s)
        except Exception as e:
            raise Violation('%s/%s' % (fam, s), 'computing %s of %s raises %r' % (s, fam, e), 'r_left', args)
        for lhs, term in left:
            p = parse(term, st)
            k = str(p)
            if k not in decided:
                decided[k] = p if isinstance(p, str) else determined(p)
                ctx.obligation('%s/%s' % (fam, term))
                ctx.sample('two ensembles with the same normalisation and metric can differ on %s' % term)
            if decided[k]:
                raise Violation('%s/%s/%s' % (fam, s, term), '%s of %s: the equation of %s keeps %s, which %s' % (
                    s, fam, lhs, term, 'the normalisation, the metric and the moments E[eps D^c eps] determine'
                    if decided[k] is True else 'is not a moment of normalised errors: ' + p), 'r_left', args)
        ctx.programs += 1
    ctx.bound(family=fam)


# -- replay ---------------------------------------------------------------------

def r_left(fam, system):
    try:
        eqs, pkf, st = pkfcheck.make(fam)
        left = remaining(st, pkf, system)
    except Exception as e:
        return True, 'PDE %s: raises %r' % (pkfcheck.equations(fam), e)
    for lhs, term in left:
        p = parse(term, st)
        if isinstance(p, str) or determined_exactly(p):
            return True, 'PDE %s: in %s the equation of %s keeps the moment %s (%s)' % (
                eqs, system, lhs, term, p if isinstance(p, str) else 'a linear combination of known moments')
    return False, 'no determined moment'
