"""C30: the results do not depend on the state of the cache of sympy, nor on the identity of equal symbols"""
import sys

import sympy
from sympy import Derivative as D, Function, Symbol, symbols
from sympy.core.cache import clear_cache

from lib import pdes, z3q
from lib.harness import Violation
from lib.sem import Env, value

PROPERTY = 'C30'
PLAIN_INPUTS = True
LEVEL = 'translation_validation'
EXPLANATION = (
    'The real derivation is run twice: with the cache of sympy as it is, and under a regime in which equal expressions are not the same '
    'objects (cache cleared when a function of the library is entered, symbols made again after a clearing, as a user does in a new '
    'cell). Every equation of the second run is compared to that of the first one on symbolic jets, every expectation left being an '
    'unknown field of its own: Z3 decides that they are the same function of the fields and of the unclosed terms, for all values.')
OUTSIDE = 'clearings in the middle of a computation of sympy; families and regimes outside the listed ones'
ASSUMPTIONS = ['smooth fields', 'sympy itself is correct whatever its cache']

PKF = ['lin1d', 'quad1d', 'third1d', 'flux1d', 'lin2d', 'sys1d']
DEEP = ['sys2d', 'lin2d_yx', 'sys3', 'sysord1d', 'latex1d', 'quart1d', 'quad2d', 'lin3d']
SYSTEMS = ['expectation_system', 'error_system', 'variance_system', 'std_system', 'epsilon_system', 'metric_system',
           'cross_covariance_system', 'in_metric', 'in_diffusion', 'in_aspect']
REGIMES = ['fresh', 'every1', 'every7', 'mixed']


def cases(tier, seed):
    fams = PKF + (DEEP if tier == 'thorough' else [])
    out = []
    for f in fams:
        if f not in pdes.FAMILIES:
            continue
        for r in REGIMES:
            if r in ('every7', 'mixed') and (f == 'sys2d' or tier == 'quick' and f in ('lin2d', 'third1d', 'flux1d')):
                continue
            out.append(('pkf/%s/%s' % (f, r), 'pkf', dict(fam=f, regime=r)))
    for r in REGIMES:
        out.append(('closure/%s' % r, 'closure', dict(regime=r)))
        out.append(('finite/%s' % r, 'finite', dict(regime=r)))
        out.append(('mean/%s' % r, 'mean', dict(regime=r)))
        out.append(('roles/%s' % r, 'roles', dict(regime=r)))
    return out


def weight(name):
    return 10 * ('sys2d' in name) + 8 * ('3d' in name) + 5 * ('2d' in name) + 2 * ('every' in name) + ('sys' in name)


class Regime(object):
    """clears the cache on entering the functions of the library: at each call, at each 7th one, at calls spread by a congruence"""

    def __init__(self, name, on=False):
        self.n, self.name, self.on = 0, name, on

    def due(self):
        n = self.n
        return (self.name == 'every1' or self.name == 'every7' and n % 7 == 0
                or self.name == 'mixed' and (n * n + 3 * n) % 11 in (0, 4, 7))

    def __enter__(self):
        if not self.on:
            clear_cache()
        if self.name != 'fresh':
            def prof(frame, event, arg):
                if event == 'call' and '/src/sympkf/' in frame.f_code.co_filename:
                    self.n += 1
                    if self.due():
                        sys.setprofile(None)
                        clear_cache()
                        sys.setprofile(prof)
            sys.setprofile(prof)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)


def again(expr):
    """the same expression, from new symbols (equal to the previous ones, other objects)"""
    clear_cache()
    return expr.xreplace({s: Symbol(s.name, **s._assumptions_orig) for s in expr.free_symbols if type(s) is Symbol})


def under(regime, make, arg):
    """(normal, regime) results of make(arg)"""
    ref = make(arg)
    arg = [again(a) for a in arg]
    with Regime(regime):
        got = make(arg)
    return ref, got


def opaque(exprs, coords):
    """expectations -> unknown fields"""
    from sympkf import Expectation
    seen = {}

    def walk(e):
        if isinstance(e, Expectation):
            if e not in seen:
                seen[e] = Function('E_%d' % len(seen))(*coords)
            return seen[e]
        if not e.args or not e.has(Expectation):
            return e
        return e.func(*[walk(a) for a in e.args])
    return [walk(e) for e in exprs], seen


def same(ctx, ref, got, coords, key, what, replay, args):
    from sympkf.symbolic.random import omega
    (a, b), seen = opaque([ref, got], coords)
    env = Env(coords, omega)
    ok, _ = z3q.equal(value(a.doit(), env), value(b.doit(), env))
    if not ok:
        raise Violation(key, '%s: %s in place of %s' % (what, got, ref), replay, args)
    ctx.programs += 1
    ctx.obligation(key)


# -- PKF ------------------------------------------------------------------------------

def derive(eqs, regime):
    """(system, normal, regime), one system after the other"""
    from sympkf import SymbolicPKF
    p = SymbolicPKF(list(eqs))
    ref = {s: list(getattr(p, s) or []) for s in SYSTEMS}
    eqs = [again(e) for e in eqs]
    with Regime(regime):
        p = SymbolicPKF(list(eqs))
    for s in SYSTEMS:
        with Regime(regime, s != SYSTEMS[0]):
            got = list(getattr(p, s) or [])
        yield s, ref[s], got


def pkf(ctx, fam, regime):
    ctx.fn('SymbolicPKF', 'Field', 'UnivariateTerm.is_univariate', 'UnivariateTree', 'Expectation')
    eqs = pdes.build(fam)
    coords = max((e.args[0].args[0].args for e in eqs), key=len)
    args = dict(fam=fam, regime=regime)
    systems = derive(eqs, regime)
    while True:
        try:
            s, ref, got = next(systems)
        except StopIteration:
            break
        except Exception as e:
            raise Violation('pkf/%s/raises' % fam, '%s, regime %s: %r' % (fam, regime, e), 'r_pkf', args)
        G = {e.args[0]: e.args[1] for e in got}
        if len(G) != len(ref) or any(e.args[0] not in G for e in ref):
            raise Violation('pkf/%s/%s' % (fam, s), '%s of %s, regime %s: equations of %s' % (s, fam, regime, list(G)), 'r_pkf', args)
        for e in ref:
            same(ctx, e.args[1], G[e.args[0]], coords, 'pkf/%s/%s/%s' % (fam, s, e.args[0]), '%s of %s, regime %s' % (s, fam, regime), 'r_pkf', args)
    ctx.bound(regime=regime)
    ctx.sample('forall fields and unclosed terms: the systems of %s are the same (regime %s)' % (fam, regime))


def r_pkf(fam, regime):
    eqs = pdes.build(fam)
    systems = derive(eqs, regime)
    while True:
        try:
            s, ref, got = next(systems)
        except StopIteration:
            break
        except Exception as e:
            return True, '%s, regime %s: %r' % (fam, regime, e)
        G = {e.args[0]: e.args[1] for e in got}
        if set(G) != {e.args[0] for e in ref}:
            return True, '%s: %s' % (s, list(G))
        for e in ref:
            if differ(e.args[1], G[e.args[0]]):
                return True, '%s of %s, regime %s: %s in place of %s' % (s, fam, regime, G[e.args[0]], e.args[1])
    return False, 'ok'


def differ(a, b):
    from sympkf import Expectation
    return sympy.expand(a.doit() - b.doit()) != 0 and (a.atoms(Expectation) != b.atoms(Expectation) or sympy.simplify(a - b) != 0)


# -- other parts ----------------------------------------------------------------------

t, x, y, k, c = symbols('t x y k c')
u, v = Function('u')(t, x, y), Function('v')(t, x, y)
FINITE = [D(u, x), D(u, x, 2), D(u, x, 3), D(u, x, y), k * u * D(v, y, 2) + D(u, x, 2, y), D(u * D(v, x), y), D(u, t) * D(v, x)]


def finite_of(exprs):
    from sympkf.symbolic.finite_difference import finite_difference
    return [finite_difference(e) for e in exprs]


def mean_of(exprs):
    from sympkf import Expectation
    from sympkf.symbolic import PDESystem, Eq
    return [Expectation(e) for e in exprs]


def mean_args():
    from lib import ens
    return [e for n, e in enumerate(ens.shapes()) if not e.has(sympy.Integral) and n % 2 == 0]


def closure_of(fields):
    from sympkf.symbolic.pkfcas import LocGaussianClosure
    out = []
    for f in fields:
        C = LocGaussianClosure(f).closure(3)
        for q in sorted(C, key=str):
            out.append(C[q])
    return out


def closure_keys(fields):
    from sympkf.symbolic.pkfcas import LocGaussianClosure
    return [sorted(map(str, LocGaussianClosure(f).closure(3))) for f in fields]


LISTS = {
    'finite': (finite_of, lambda: FINITE, ('finite_difference', 'get_subs_derivative', 'get_function_coordinates')),
    'mean': (mean_of, mean_args, ('Expectation.eval', 'israndom')),
    'closure': (closure_of, lambda: [Function('u')(t, x), u, Function('w')(x, t)], ('Closure.closure', 'Closure.taylor')),
}


def compare_list(ctx, kind, regime):
    make, exprs, fns = LISTS[kind]
    ctx.fn(*fns)
    args = dict(kind=kind, regime=regime)
    try:
        ref, got = under(regime, make, exprs())
        keys = under(regime, closure_keys, exprs()) if kind == 'closure' else (0, 0)
    except Exception as e:
        raise Violation('%s/raises' % kind, '%s, regime %s: %r' % (kind, regime, e), 'r_list', args)
    if len(ref) != len(got) or keys[0] != keys[1]:
        raise Violation('%s/entries' % kind, '%s, regime %s: other entries' % (kind, regime), 'r_list', args)
    coords = (t, x, y)
    for n, (a, b) in enumerate(zip(ref, got)):
        if kind == 'finite':
            (a, b), _ = points([a, b])
        same(ctx, a, b, coords, '%s/%d' % (kind, n), '%s, regime %s' % (kind, regime), 'r_list', args)
    ctx.bound(regime=regime)
    ctx.sample('forall values: %s gives the same %d results (regime %s)' % (fns[0], len(ref), regime))


def points(exprs):
    """values at the points of the grid -> symbols"""
    seen = {}
    for e in exprs:
        for f in e.atoms(sympy.core.function.AppliedUndef):
            seen.setdefault(f, Symbol('p_%d' % len(seen)))
    return [e.xreplace(seen) for e in exprs], seen


def r_list(kind, regime):
    make, exprs, _ = LISTS[kind]
    try:
        ref, got = under(regime, make, exprs())
        keys = under(regime, closure_keys, exprs()) if kind == 'closure' else (0, 0)
    except Exception as e:
        return True, '%s, regime %s: %r' % (kind, regime, e)
    if len(ref) != len(got) or keys[0] != keys[1]:
        return True, 'other entries: %s %s' % keys
    for a, b in zip(ref, got):
        if differ(a, b):
            return True, '%s in place of %s' % (b, a)
    return False, 'ok'


def finite(ctx, regime):
    compare_list(ctx, 'finite', regime)


def mean(ctx, regime):
    compare_list(ctx, 'mean', regime)


def closure(ctx, regime):
    compare_list(ctx, 'closure', regime)


ROLES = ['functions', 'prognostic_functions', 'constant_functions', 'exogenous_functions', 'constants', 'coordinates',
         'spatial_coordinates', 'spatial_derivatives', 'derivative_max_order', 'time_coordinate']


def system_of(eqs):
    from sympkf.symbolic import PDESystem
    return PDESystem(list(eqs))


def roles_of(fam, regime):
    ref, got = under(regime, system_of, pdes.build(fam))
    as_set = lambda q: set(q) if isinstance(q, (set, frozenset)) else tuple(q) if isinstance(q, (list, tuple)) else q
    return [(r, as_set(getattr(ref, r)), as_set(getattr(got, r))) for r in ROLES]


def roles(ctx, regime):
    """the classes are the same: membership of every element that occurs is decided"""
    ctx.fn('PDESystem')
    for fam in PKF:
        args = dict(fam=fam, regime=regime)
        try:
            rows = roles_of(fam, regime)
        except Exception as e:
            raise Violation('roles/%s/raises' % fam, '%s, regime %s: %r' % (fam, regime, e), 'r_roles', args)
        for r, a, b in rows:
            if isinstance(a, set):
                env = Env((t, x, y))
                elems = sorted(a | b, key=str)
                z = z3q.z3
                w = [z.Int('w%d' % i) for i in range(len(elems))]
                total = lambda S: z.Sum([z.IntVal(0)] + [wi for wi, e in zip(w, elems) if e in S])
                s = z.Solver()
                s.add(total(a) != total(b))
                z3q.STATS.queries += 1
                res = s.check()
                if res == z.unsat:
                    z3q.STATS.unsat += 1
                    ctx.obligation('roles/%s/%s' % (fam, r))
                    continue
                z3q.STATS.sat += 1
            elif a == b:
                continue
            raise Violation('roles/%s/%s' % (fam, r), '%s of %s, regime %s: %s in place of %s' % (r, fam, regime, b, a), 'r_roles', args)
    ctx.bound(regime=regime)
    ctx.sample('forall elements: the classes of %s are the same (regime %s)' % (PKF, regime))


def r_roles(fam, regime):
    try:
        rows = roles_of(fam, regime)
    except Exception as e:
        return True, repr(e)
    for r, a, b in rows:
        if a != b:
            return True, '%s of %s: %s in place of %s' % (r, fam, b, a)
    return False, 'ok'
