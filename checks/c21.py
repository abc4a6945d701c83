"""C21: components of a PDE system are classified by their role"""
import itertools

import sympy
from sympy import Derivative as D, Function, symbols, sin, exp
from sympy.core.function import AppliedUndef

from lib import sx, z3q
from lib.harness import Violation
from lib.symset import SymSet, Sum, equation_class, pairs, FALSE
from lib.z3q import z3, Inconclusive

PROPERTY = 'C21'
LEVEL = 'other'
EXPLANATION = (
    'The real PDESystem is run on equations whose right-hand sides are sums of terms with symbolic presence bits; `set` is a set '
    'with symbolic membership in the module, so that one run covers every subset of the terms, in each equation independently '
    '(iterations fork, Z3 choosing the feasible sides). For every path Z3 decides, element by element, that the membership in each '
    'class is the one of the specification, for all bits.')
OUTSIDE = 'terms outside the universes; implicit equations with several time derivatives; expectations'
ASSUMPTIONS = ['one time derivative in each left-hand side']

t = symbols('t')


def universe(name):
    """([lhs functions], [[terms of each equation]])"""
    from sympkf.symbolic.util import TrainableScalar
    x, y, z, k, c, dx, kx = symbols('x y z k c dx \\kappa_x')
    a, b = TrainableScalar('a'), TrainableScalar('b_1', init_value=.5)
    F = lambda n, *s: Function(n)(*s)
    u, v, w = F('u', t, x), F('v', t, x), F('\\phi_w', t, x)
    f, g, h, q = F('f', t, x), F('g', x), F('h', x), F('q', t)
    if name == '1d':
        return [u, v], [[k * u, c * D(u, x), D(v, x, 2), f * u**2, g * D(u, x), a * u, sin(h * k) * v, x * u],
                        [kx * D(v, x, 2), a * b * v, c**2 * D(f, x), D(g * v, x), q * u, t * v, exp(-k * x)]]
    if name == '1dsingle':
        return [u], [[k * u, f, g, a * x, c * D(u, x, 3), D(u, x) * D(f, x, 2), q, 3 * u**2, b * h]]
    if name == 'implicit':          # the trend is a term of the left-hand side
        return [u, v], [[k * u, c * D(w, x), g * D(v, x, 3)], [D(f, x), a * v, q, h * u]]
    if name == 'implicit2':
        r = F('r', t, x)
        return [r, u], [[k * u, D(r, x), b], [x * w, D(h * r, x), c]]
    if name == '1dcoupled':
        return [v, u, w], [[u * D(w, x), k * v], [D(D(v, x, 2) * u, x), D(f, t), a], [D(w, x), g * v, 2 * w]]
    if name == '1dfree':            # a prognostic function in no right-hand side, constants only
        return [w, u], [[k + c, a * b, g], [kx * x, f, h * q]]
    if name == '1dshifted':         # fields at other times and places, fields of other fields
        tau = symbols('tau')
        return [u, v], [[F('f', t - tau, x), F('g', 2 * x), k * F('u', t, x + dx), F('q', 2 * t) * u, F('h', x - k)],
                        [F('G', v), D(F('f', t, x**2), x), F('g', dx) * v, F('m', g), F('r', k * u, D(u, x))]]
    p, r = F('p', t, x, y), F('r', t, x, y)
    m, n, s = F('m', x, y), F('n', t, x, y), F('s', y)
    if name == '2d':
        return [p, r], [[k * D(p, x, 2), D(p, x, y), m * D(r, y), n * p, a * r, x * y * p], [s * D(r, y, 3), D(m * D(r, x), x), c * n**2, b]]
    if name == '2dmixed':           # fields with different coordinates
        return [u, p], [[k * u, y * u, D(u, x)], [u * p, D(p, y), m, s * c]]
    X = F('X', t, x, y, z)
    if name == '3d':
        return [X], [[k * D(X, x, 2), c * D(X, y, z), F('A', x, y, z) * D(X, z), F('B', t, x, y, z), F('C', x) * X, a * X**2, z * X, dx * X]]
    raise KeyError(name)


def left(name, f):
    """left-hand side of the equation of f"""
    if not name.startswith('implicit'):
        return D(f, t)
    x = symbols('x')
    F = lambda n, *s: Function(n)(*s)
    return {'u': D(f, t) + f * D(f, x), 'v': 2 * F('f', t, x) * D(f, t) - F('g', x) * D(f, x, 2) + F('u', t, x), 'r': D(f, t) + D(F('f', t, x), x)}[f.func.__name__]


NAMES = ['1d', 'implicit', 'implicit2', '1dsingle', '1dcoupled', '1dfree', '1dshifted', '2d', '2dmixed', '3d']


def cases(tier, seed):
    out = []
    for n in NAMES:
        for order in ('direct', 'reverse'):
            out.append(('%s/%s' % (n, order), 'case', dict(name=n, order=order, split=None)))
    return out


def terms_of(name, order):
    lhs, T = universe(name)
    pos = list(range(len(lhs)))
    if order == 'reverse':
        pos.reverse()
    return [(lhs[i], [(z3.Bool('e%d_%d' % (i, j)), e) for j, e in enumerate(T[i])]) for i in pos]


def spec(eqs, name):
    """{class: {element: z3 Bool}} from the definition"""
    from sympkf.symbolic.util import TrainableScalar
    prog = [f for f, _ in eqs]
    occ, sym, der = {}, {}, {}

    def put(d, a, c):
        d[a] = z3.Or(d[a], c) if a in d else c
    for f, T in eqs:
        for a in left(name, f).atoms(AppliedUndef):
            put(occ, a, z3.BoolVal(True))
        for c, e in T:
            for a in e.atoms(AppliedUndef):
                put(occ, a, c)
            for a in e.atoms(sympy.Symbol):
                put(sym, a, c)
            for a in e.atoms(D):
                put(der, a, c)
    coords = max((f.args for f in prog), key=len)
    out = dict(
        functions=occ,
        constant_functions={a: c for a, c in occ.items() if a not in prog and t not in a.free_symbols},
        exogenous_functions={a: c for a, c in occ.items() if a not in prog and t in a.free_symbols},
        constants={a: c for a, c in sym.items() if a not in coords and not isinstance(a, TrainableScalar)},
        trainable_scalars={a: c for a, c in sym.items() if isinstance(a, TrainableScalar)},
        spatial_derivatives=der)
    return prog, coords, out


def build(eqs, name, reverse):
    from sympkf.symbolic import util
    SymEq = equation_class(util.Eq)
    out = []
    for f, T in eqs:
        s = Sum(T)
        s._order = -1 if reverse else 1
        out.append(SymEq(left(name, f), s))
    return out


class shim(object):
    def __enter__(self):
        from sympkf.symbolic import util
        self.u = util
        self.had = 'set' in vars(util)
        util.set = SymSet

    def __exit__(self, *a):
        del self.u.set


class Unfit(Exception):
    """the sets with symbolic membership do not follow the code: see windows()"""


def case(ctx, name, order, split):
    ctx.fn('PDESystem.__init__', 'PDESystem._get_functions', 'PDESystem._get_prognostic_functions', 'PDESystem._get_constant_functions',
           'PDESystem._get_exogenous_functions', 'PDESystem._get_coordinates', 'PDESystem._get_constants', 'PDESystem._get_trainable_scalars',
           'PDESystem._get_spatial_derivatives')
    eqs = terms_of(name, order)
    n = sum(len(T) for _, T in eqs)
    try:
        decide(ctx, name, order, eqs, True, ())
        ctx.bound(terms=n, equations=len(eqs))
        ctx.sample('forall subsets of %d terms in %d equations (%s): classes of the specification' % (n, len(eqs), name))
    except Unfit:
        for on, present in windows(n):
            axioms, k = [], 0
            for _, T in eqs:
                for c, _ in T:
                    if k not in on:
                        axioms.append(c if present else z3.Not(c))
                    k += 1
            decide(ctx, name, order, eqs, False, axioms)
        ctx.bound(terms=n, equations=len(eqs), free_terms_at_a_time=SIZE)
        ctx.sample('forall subsets of %d among %d terms, the others all absent or all present, in %d equations (%s)' % (SIZE, n, len(eqs), name))
    ctx.obligation(name + '/' + order)


SIZE = 5


def windows(n):
    """sets of SIZE terms that cover every couple of terms"""
    left = set(itertools.combinations(range(n), 2))
    out = []
    while left:
        w = set(min(left))
        while len(w) < min(SIZE, n):
            w.add(max((a for a in range(n) if a not in w),
                      key=lambda a: (sum(1 for b in w if (min(a, b), max(a, b)) in left), -a)))
        left -= set(itertools.combinations(sorted(w), 2))
        out += [(w, False), (w, True)]
    return out


def decide(ctx, name, order, eqs, symbolic, axioms):
    """symbolic: sets with symbolic membership; else every membership is decided first (one path per subset)"""
    from sympkf.symbolic.util import PDESystem, Eq
    prog, coords, want = spec(eqs, name)

    def program():
        if symbolic:
            q = build(eqs, name, order == 'reverse')
            with shim():
                s = PDESystem(q if len(q) > 1 or order == 'reverse' else q[0])
        else:
            q = concrete(eqs, [[bool(sx.Bool(c)) for c, _ in T] for _, T in eqs], name)
            s = PDESystem(q if len(q) > 1 or order == 'reverse' else q[0])
        return s, q

    def paths():
        try:
            for p in sx.explore(program, limit=1500, axioms=axioms):
                yield p
        except (Inconclusive, TypeError, AttributeError, ValueError) as err:
            if symbolic:
                raise Unfit(str(err))
            raise
    for p in paths():
        ctx.paths += 1

        def bad(what, m):
            bits = [[bool(m is not None and z3.is_true(m.eval(c, model_completion=True))) for c, _ in T] for _, T in eqs]
            if symbolic and not r_system(name, order, bits)[0]:
                raise Unfit(what)
            raise Violation('%s/%s' % (name, what), '%s: %s are not the ones of the specification in the system %s' % (
                name, what, concrete(eqs, bits, name)), 'r_system', dict(name=name, order=order, bits=bits))
        if p.error is not None:
            bad('raises %r' % p.error, p.model())
        s, q = p.value
        if list(s.prognostic_functions) != prog:
            bad('prognostic_functions', p.model())
        if tuple(s.coordinates) != tuple(coords) or tuple(s.spatial_coordinates) != tuple(coords[1:]) or s.time_coordinate != t:
            bad('coordinates', p.model())
        if len(s.equations) != len(q) or any(a is not b for a, b in zip(s.equations, q)):
            bad('equations', p.model())
        for what, w in want.items():
            try:
                got = dict(pairs(getattr(s, what)))
            except (TypeError, AttributeError):
                bad(what, p.model())
            claim = z3.And(z3.BoolVal(True), *[got.get(a, FALSE) == w.get(a, FALSE) for a in list(got) + [a for a in w if a not in got]])
            ok, m = p.prove(claim)
            if not ok:
                bad(what, m)
        o = getattr(s, 'derivative_max_order', None)
        if not isinstance(o, (int, sympy.Integer)):
            bad('derivative_max_order', p.model())
        big = z3.And(z3.BoolVal(True), *[z3.Implies(c, z3.BoolVal(o >= d.derivative_count)) for d, c in want['spatial_derivatives'].items()])
        hit = z3.Or(z3.BoolVal(o == 0), *[c for d, c in want['spatial_derivatives'].items() if d.derivative_count == o])
        ok, m = p.prove(z3.And(big, hit))
        if not ok:
            bad('derivative_max_order', m)


def concrete(eqs, bits, name):
    from sympkf.symbolic.util import Eq
    return [Eq(left(name, f), sympy.Add(*[e for (_, e), b in zip(T, B) if b])) for (f, T), B in zip(eqs, bits)]


CLASSES = ('functions', 'constant_functions', 'exogenous_functions', 'constants', 'trainable_scalars', 'spatial_derivatives')


def r_system(name, order, bits):
    from sympkf.symbolic.util import PDESystem
    eqs = terms_of(name, order)
    q = concrete(eqs, bits, name)
    try:
        s = PDESystem(q if len(q) > 1 or order == 'reverse' else q[0])
        found = {what: list(getattr(s, what)) for what in ('prognostic_functions', 'coordinates', 'spatial_coordinates') + CLASSES}
        found = {what: tuple(f) if what not in CLASSES else set(f) for what, f in found.items()}
        found['time_coordinate'], found['derivative_max_order'] = s.time_coordinate, s.derivative_max_order
    except Exception as err:
        return True, 'PDESystem(%s) raises %r' % (q, err)
    prog, coords, want = spec([(f, [(z3.BoolVal(b), e) for (_, e), b in zip(T, B)]) for (f, T), B in zip(eqs, bits)], name)
    got = dict(prognostic_functions=(found['prognostic_functions'], tuple(prog)),
               coordinates=((found['coordinates'], found['spatial_coordinates'], found['time_coordinate']), (tuple(coords), tuple(coords[1:]), t)))
    for what, w in want.items():
        got[what] = (found[what], {a for a, c in w.items() if z3.is_true(z3.simplify(c))})
    got['derivative_max_order'] = (found['derivative_max_order'], max([0] + [d.derivative_count for d in got['spatial_derivatives'][1]]))
    for what, (a, b) in got.items():
        if a != b:
            return True, 'PDESystem(%s).%s is %s in place of %s' % (q, what, a, b)
    return False, 'ok'
