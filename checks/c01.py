"""C01: the expectation operator is the ensemble average"""
import sympy

from lib import ens, z3q
from lib.ens import Ensemble, expression, shapes, components, ConcreteEnsemble
from lib.harness import Violation
from lib.sem import value, Unsupported
from lib.poly import NotInvertible

PROPERTY = 'C01'
PLAIN_INPUTS = True
LEVEL = 'translation_validation'
EXPLANATION = (
    'The real Expectation operator is applied to expressions (hand-written shapes and seeded random members of the grammar, '
    'wrapped in equations and matrices too). Input and output are evaluated on an ensemble of 3 members with symbolic weights '
    'and symbolic jets for every function and member; Z3 decides output = sum_k w_k input_k for all of them (linear '
    'functionals for integrals), and that no factor left inside an expectation is deterministic (sat query).')
OUTSIDE = 'expressions outside the listed/generated ones; ensembles are finite (3 members, by linearity representative)'
ASSUMPTIONS = ['weights sum to one', 'smooth functions', 'denominators do not vanish']
CHUNK = 24


def cases(tier, seed):
    n = len(shapes())
    out = [('shape/%d' % a, 'case', dict(src='shape', lo=a, hi=min(a + CHUNK, n))) for a in range(0, n, CHUNK)]
    m = 8 if tier == 'quick' else 60
    out += [('random/%d' % k, 'case', dict(src='random', lo=k * 30, hi=(k + 1) * 30)) for k in range(m)]
    return out + [('containers', 'containers', {})]


def apply(e):
    from sympkf import Expectation
    return Expectation(e)


def decide(ctx, e, got, key, replay, args):
    """got == average(e)"""
    S = Ensemble()
    ens.note_deps(e)
    want = S.average(e)
    shown, got = got, ens.undummy(got)
    for k in (0, 1):
        g = value(got, S.envs[k])
        ok, _ = z3q.equal(g, want)
        ctx.programs += 1
        if not ok:
            raise Violation(key, 'E(%s) = %s is not the ensemble average' % (e, got), replay, args)
    for E in got.atoms(__import__('sympkf').Expectation):
        a = E.args[0]
        if undeveloped(a):
            raise Violation(key, 'E(%s) = %s: %s is not developed' % (e, got, E), 'r_form', args)
        for fac in sympy.Mul.make_args(a):
            if ens.free_omega(fac):
                continue
            v = S.values(fac)
            same, _ = z3q.equal(v[0], v[1])
            if same:
                raise Violation(key, 'E(%s) = %s: deterministic factor %s left inside' % (e, got, fac), 'r_form', args)


def undeveloped(a):
    if isinstance(a, sympy.Integral):
        return not any(ens.free_omega(b) for l in a.args[1:] for b in l[1:])
    return isinstance(a, (sympy.Add, sympy.Derivative))


def case(ctx, src, lo, hi):
    ctx.fn('Expectation.eval', 'israndom')
    ctx.bound(members=ens.N, source=src, expressions=[lo, hi])
    for i in range(lo, hi):
        e = expression(src, ctx.seed, i)
        args = dict(src=src, seed=ctx.seed, i=i)
        key = '%s/%s' % (src, i if src == 'shape' else e)
        try:
            got = apply(e)
        except Exception as err:
            raise Violation(key, 'E(%s) raises %r' % (e, err), 'r_exc', args)
        try:
            decide(ctx, e, got, key, 'r_val', args)
        except (z3q.Inconclusive, NotInvertible):
            if src == 'shape':
                raise
            ctx.skipped += 1          # expression that the encoding does not cover
            continue
        ctx.sample('forall weights, members, jets: E(%s) == %s' % (e, got))


def container(i, seed):
    from sympkf import Expectation, Eq
    S = shapes()
    import random
    rng = random.Random(seed * 77 + i)
    if i % 3 == 0:
        return Eq(rng.choice(S) + ens.F('q', ens.t, ens.x), rng.choice(S))
    n, m = SIZES[i // 3 % len(SIZES)]
    if i % 3 == 1:
        return sympy.Matrix(n, m, [rng.choice(S) for _ in range(n * m)])
    return sympy.ImmutableMatrix(m, n, [rng.choice(S) for _ in range(n * m)])


SIZES = [(2, 2), (2, 3), (1, 4), (3, 3), (1, 1), (4, 2), (1, 3)]


def containers(ctx):
    ctx.fn('Expectation.eval')
    for i in range(3 * len(SIZES)):
        e = container(i, ctx.seed)
        args = dict(i=i, seed=ctx.seed)
        try:
            got = apply(e)
            pairs = pair(e, got)
        except Exception as err:
            raise Violation('container/%d' % i, 'E(%s): %r' % (e, err), 'r_cont', args)
        for lab, a, g in pairs:
            decide(ctx, a, g, 'container/%d/%s' % (i, lab), 'r_cont', args)


def pair(e, got):
    if isinstance(e, sympy.Eq) != isinstance(got, sympy.Eq):
        raise TypeError('equation -> %s' % type(got))
    if isinstance(e, sympy.MatrixBase) and e.shape != got.shape:
        raise TypeError('shape %s -> %s' % (e.shape, got.shape))
    return [(l, a, b) for (l, a), (_, b) in zip(components(e), components(got))]


# -- replays --------------------------------------------------------------------

def differs(e, got):
    for seed in range(3):
        C = ConcreteEnsemble(seed)
        want = sum(C.w[k] * C.num(e, k) for k in range(ens.N))
        for k in (0, 1):
            g = C.num(got, k)
            if abs(g - want) > 1e-12 * (1 + abs(want)):
                return True, 'E(%s) = %s: explicit ensemble %d: value %s, average %s' % (
                    e, got, seed, sympy.N(g, 12), sympy.N(want, 12))
    return False, 'equal'


def r_val(src, seed, i):
    e = expression(src, seed, i)
    return differs(e, apply(e))


def r_exc(src, seed, i):
    e = expression(src, seed, i)
    try:
        return False, str(apply(e))
    except Exception as err:
        return True, 'E(%s) raises %r' % (e, err)


def r_form(src, seed, i):
    e = expression(src, seed, i)
    got = apply(e)
    for E in got.atoms(__import__('sympkf').Expectation):
        a = E.args[0]
        if undeveloped(a):
            return True, 'E(%s) = %s not developed' % (e, got)
        for fac in sympy.Mul.make_args(a):
            if not ens.free_omega(fac):
                return True, 'E(%s) = %s: factor %s has no random event' % (e, got, fac)
    return False, 'ok'


def r_cont(i, seed):
    e = container(i, seed)
    try:
        ps = pair(e, apply(e))
    except Exception as err:
        return True, 'E(%s): %r' % (e, err)
    for lab, a, g in ps:
        bad, txt = differs(a, g)
        if bad:
            return True, '%s of %s: %s' % (lab, e, txt)
    return False, 'equal'
