"""C02: the randomness test is sound"""
import random

import sympy

from lib import ens, z3q
from lib.ens import Ensemble, expression, shapes, components, ConcreteEnsemble, free_omega
from lib.harness import Violation
from lib.poly import NotInvertible

PROPERTY = 'C02'
PLAIN_INPUTS = True
LEVEL = 'translation_validation'
EXPLANATION = (
    'The real israndom classifies expressions (hand-written shapes, their expectations, seeded random members of the grammar, '
    'equations and matrices of them). Each expression is evaluated on an ensemble with symbolic jets for every function and '
    'member; when it is classified deterministic Z3 must decide that no two members give different values, and the solver '
    'model of a difference is the counterexample. An expression without random event outside expectations must be '
    'classified deterministic.')
OUTSIDE = 'expressions outside the listed/generated ones'
ASSUMPTIONS = ['smooth functions', 'denominators do not vanish']
CHUNK = 30


def cases(tier, seed):
    n = len(shapes())
    out = [('shape/%d' % a, 'case', dict(src='shape', lo=a, hi=min(a + CHUNK, n))) for a in range(0, n, CHUNK)]
    out += [('mean/%d' % a, 'case', dict(src='mean', lo=a, hi=min(a + CHUNK, n))) for a in range(0, n, CHUNK)]
    m = 6 if tier == 'quick' else 60
    out += [('random/%d' % k, 'case', dict(src='random', lo=k * 30, hi=(k + 1) * 30)) for k in range(m)]
    return out + [('containers', 'case', dict(src='container', lo=0, hi=60 if tier == 'quick' else 400))]


def get(src, seed, i):
    from sympkf import Expectation, Eq
    if src == 'shape':
        return shapes()[i]
    if src == 'mean':
        S = shapes()
        e = S[i]
        m = [Expectation(e, evaluate=False), Expectation(e),
             sympy.Derivative(Expectation(e, evaluate=False), ens.x, evaluate=False),
             Expectation(e, evaluate=False)**2 + S[1],
             sympy.Integral(Expectation(e, evaluate=False), (ens.x, 0, 1)),
             sympy.exp(Expectation(e, evaluate=False)) * S[1]][i % 6]
        return m
    rng = random.Random(seed * 31337 + i)
    if src == 'random':
        return ens.gen(rng, rng.choice([2, 3, 3, 4]), rng.random() < .6)
    S = shapes()
    r = [a for a in S if free_omega(a)]
    d = [a for a in S if not free_omega(a)] + [Expectation(a, evaluate=False) for a in r[:20]]
    if i % 2 == 0:
        # equation of every combination (random / deterministic)
        a, b = [rng.choice(r if (i // 2) >> k & 1 else d) for k in (0, 1)]
        return Eq(ens.F('q', ens.t, ens.x) + a, b, evaluate=False)
    k = rng.randrange(4 + 1)                      # one random member, anywhere, or none
    m = [rng.choice(r) if j == k else rng.choice(d) for j in range(4)]
    return (sympy.Matrix if i % 4 == 1 else sympy.ImmutableMatrix)(2, 2, m)


def case(ctx, src, lo, hi):
    from sympkf import israndom
    ctx.fn('israndom')
    ctx.bound(members=2, source=src, expressions=[lo, hi])
    for i in range(lo, hi):
        e = get(src, ctx.seed, i)
        args = dict(src=src, seed=ctx.seed, i=i)
        key = '%s/%s' % (src, i if src != 'random' else e)
        try:
            r = israndom(e)
        except Exception as err:
            raise Violation(key, 'israndom(%s) raises %r' % (e, err), 'r_rand', args)
        ctx.programs += 1
        if r is not True and r is not False:
            raise Violation(key, 'israndom(%s) is %r' % (e, r), 'r_rand', args)
        S = Ensemble()
        differ = False
        try:
            for _, a in components(e):
                ens.note_deps(a)
                a = ens.undummy(a)
                v = S.values(a)
                same, _ = z3q.equal(v[0], v[1])
                differ = differ or not same
        except (z3q.Inconclusive, NotInvertible):
            if src in ('shape', 'mean'):
                raise
            ctx.skipped += 1
            continue
        free = any(free_omega(a) for _, a in components(e))
        if differ and not r:
            raise Violation(key, 'israndom(%s) is False but two members of an ensemble differ' % e, 'r_rand', args)
        if r and not free:
            raise Violation(key, 'israndom(%s) is True but the random event only occurs in expectations' % e, 'r_rand', args)
        ctx.sample('israndom(%s) = %s; members %s' % (e, r, 'differ (sat)' if differ else 'equal (unsat)'))


def r_rand(src, seed, i):
    from sympkf import israndom
    e = get(src, seed, i)
    try:
        r = israndom(e)
    except Exception as err:
        return True, 'israndom(%s) raises %r' % (e, err)
    if r is not True and r is not False:
        return True, 'israndom(%s) is %r' % (e, r)
    if r and not any(free_omega(a) for _, a in components(e)):
        return True, 'israndom(%s) is True without free random event' % e
    if not r:
        for s in range(3):
            C = ConcreteEnsemble(s)
            for _, a in components(e):
                u, v = C.num(a, 0), C.num(a, 1)
                if abs(u - v) > 1e-12 * (1 + abs(u)):
                    return True, 'israndom(%s) is False; explicit members give %s and %s' % (e, u, v)
    return False, 'ok'
