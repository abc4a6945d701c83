"""C23: derivative multi-indices"""
import itertools

import sympy
from sympy import Derivative, Function, Symbol, symbols

from lib import z3q
from lib.concolic import SInt, explore, note, term
from lib.harness import Violation
from lib.z3q import z3

PROPERTY = 'C23'
LEVEL = 'other'
EXPLANATION = (
    'PartialOrderDerivative is run on symbolic orders and symbolic coordinates (integers and symbols carrying terms), for each '
    'accepted format; every path is followed, Z3 decides for all inputs of the path that the three formats are those of the '
    'denoted multi-index and that conversions lose nothing, and that the paths cover the domain. For the enumeration of a degree '
    'Z3 decides that every (symbolic) multi-index of that degree is met exactly once and no other. Orders of '
    'derivatives are decided the same way on derivatives with symbolic orders.')
OUTSIDE = 'more coordinates, higher orders and longer sequences than stated; negative orders'
ASSUMPTIONS = ['coordinates are distinct symbols; orders are non-negative python integers']

COORDS = {1: symbols('x,'), 2: symbols('x y'), 3: symbols('z x y'), 4: symbols('x_{1} y theta z')}


def modules():
    from sympkf.symbolic.pkfcas import PartialOrderDerivative
    from sympkf.symbolic import util
    return PartialOrderDerivative, util


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for n, hi in ((1, 6), (2, 5), (3, 4), (4, 2)) if q else ((1, 12), (2, 9), (3, 6), (4, 4)):
        out.append(('tuple/%d' % n, 'formats', dict(n=n, kind='tuple', size=n, hi=hi)))
        out.append(('derivative/%d' % n, 'derivative', dict(n=n, hi=min(hi, 5))))
    for n, k, hi in ((1, 2, 3), (2, 1, 4), (2, 2, 3), (2, 3, 2), (3, 1, 4), (3, 2, 2), (3, 3, 1), (4, 2, 1)) if q else (
            (1, 3, 5), (2, 1, 9), (2, 2, 5), (2, 3, 3), (3, 2, 4), (3, 3, 2), (4, 2, 3), (4, 3, 1)):
        out.append(('couples/%d/%d' % (n, k), 'formats', dict(n=n, kind='couples', size=k, hi=hi)))
    for n, hi in ((1, 6), (2, 5), (3, 5), (4, 5)):
        out.append(('couple/%d' % n, 'formats', dict(n=n, kind='couple', size=1, hi=hi)))
    for n, k in ((1, 3), (2, 0), (2, 1), (2, 4), (3, 1), (3, 2), (3, 3), (3, 4), (4, 3)) + (() if q else ((2, 6), (3, 5), (4, 4))):
        out.append(('sequence/%d/%d' % (n, k), 'formats', dict(n=n, kind='sequence', size=k, hi=0)))
        out.append(('tuplesequence/%d/%d' % (n, k), 'formats', dict(n=n, kind='tseq', size=k, hi=0)))
    for n, hi in ((1, 6), (2, 6), (3, 5), (4, 4)) if q else ((1, 12), (2, 12), (3, 9), (4, 7)):
        out.append(('degree/%d/%d' % (n, hi), 'degrees', dict(n=n, hi=hi)))
    for n in (1, 2, 3):
        out.append(('equality/%d' % n, 'equality', dict(n=n, hi=2)))
        out.append(('foreign/%d' % n, 'foreign', dict(n=n, hi=3)))
    return out


class Coord(Symbol):
    """a coordinate chosen by a symbolic index"""
    __slots__ = ('sel', 'coords', 'base')

    def __new__(cls, coords, sel):
        base = coords[int.__int__(sel)]
        o = object.__new__(cls)
        for a in ('name', '_assumptions_orig', '_assumptions0', '_assumptions'):
            setattr(o, a, getattr(base, a))
        o._mhash = hash(base)
        o.sel, o.coords, o.base = sel, coords, base
        return o

    def __eq__(self, o):
        if isinstance(o, Coord):
            return note(term(self.sel) == term(o.sel), self.base is o.base)
        for i, c in enumerate(self.coords):
            if o is c:
                return note(term(self.sel) == i, self.base is c)
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.base)


def index_of(x, coords):
    """term of the position of a coordinate of a result"""
    if isinstance(x, Coord):
        return term(x.sel)
    return z3.IntVal(list(coords).index(x))


def build(kind, coords, size, v):
    if kind == 'tuple':
        return tuple(v['a%d' % i] for i in range(size))
    pick = lambda i: Coord(coords, v['c%d' % i]) if isinstance(v['c%d' % i], SInt) else coords[v['c%d' % i]]
    if kind == 'couple':
        return (pick(0), v['a0'])
    if kind == 'couples':
        return [(pick(i), v['a%d' % i]) for i in range(size)]
    s = [pick(i) for i in range(size)]
    return tuple(s) if kind == 'tseq' else s


def run(kind, coords, size, v):
    P = modules()[0]
    given = build(kind, coords, size, v)
    keep = list(given)
    p = P(coords, given)
    same = list(given) == keep and all(a is b for a, b in zip(given, keep))
    back = [P(coords, p.as_tuple), P(coords, p.as_couples), P(coords, p.as_sequence), p.new(p.as_couples), p.new(p.as_tuple), p.new(p.as_sequence), p.copy()]
    return dict(p=p.as_tuple, couples=list(p.as_couples), seq=list(p.as_sequence), back=[b.as_tuple for b in back],
                coords=[list(b.coordinates) == list(coords) for b in back + [p]], eq=[bool(p == b) for b in back], kept=same)


def orders_of(kind, n, size, v):
    """specification: orders of the multi-index denoted"""
    I = z3.If
    one, zero = z3.IntVal(1), z3.IntVal(0)
    if kind == 'tuple':
        return [v['a%d' % i] for i in range(n)]
    if kind in ('couple', 'couples'):
        return [z3.Sum([zero] + [I(v['c%d' % j] == i, v['a%d' % j], zero) for j in range(size)]) for i in range(n)]
    return [z3.Sum([zero] + [I(v['c%d' % j] == i, one, zero) for j in range(size)]) for i in range(n)]


def variables(kind, n, size, hi):
    V, ax = {}, []
    for i in range(n if kind == 'tuple' else size):
        if kind in ('tuple', 'couple', 'couples'):
            a = V['a%d' % i] = z3.Int('a%d' % i)
            ax += [a >= 0, a <= hi]
        if kind != 'tuple':
            c = V['c%d' % i] = z3.Int('c%d' % i)
            ax += [c >= 0, c < n]
    return V, ax


def eqs(ts, m):
    if not isinstance(ts, tuple) or len(ts) != len(m):
        return z3.BoolVal(False)
    return z3.And([term(a) == b for a, b in zip(ts, m)])


def claims_of(coords, m, o):
    n = len(m)
    out = [('as_tuple', eqs(o['p'], m)), ('unchanged argument', o['kept']), ('coordinates', all(o['coords'])), ('equality of the conversions', all(o['eq']))]
    out += [('conversion %d' % i, eqs(b, m)) for i, b in enumerate(o['back'])]
    # couples: one entry per coordinate at most, sum of the orders
    tot = lambda i, es: z3.Sum([z3.IntVal(0)] + [z3.If(index_of(c, coords) == i, term(a), z3.IntVal(0)) for c, a in es])
    out += [('as_couples', z3.And([tot(i, o['couples']) == m[i] for i in range(n)]))]
    out += [('as_sequence', z3.And([tot(i, [(c, 1) for c in o['seq']]) == m[i] for i in range(n)]))]
    return out


def formats(ctx, n, kind, size, hi):
    ctx.fn('PartialOrderDerivative.__init__', 'as_tuple', 'as_couples', 'as_sequence', 'new', 'copy', '__eq__')
    coords = COORDS[n]
    V, ax = variables(kind, n, size, hi)
    m = orders_of(kind, n, size, V)
    if not V:
        V = {'dummy': z3.Int('dummy')}
        ax = [V['dummy'] == 0]
    rep = lambda vals: r_formats(n, kind, size, vals)
    bad = explore(V, ax, lambda v: run(kind, coords, size, v), lambda v, o: claims_of(coords, m, o),
                  lambda vals: (lambda r: r[1] if r[0] else None)(rep(vals)), ctx)
    if bad:
        raise Violation('%s/%d/%d' % (kind, n, size), bad[1], 'r_formats', dict(n=n, kind=kind, size=size, vals=bad[0]))
    ctx.bound(coordinates=n, format=kind, entries=size, order=hi)
    ctx.obligation('%s/%d/%d' % (kind, n, size))
    ctx.sample('forall %s of size %d over %s: tuple, couples and sequence denote the same orders' % (kind, size, coords))


def r_formats(n, kind, size, vals):
    coords = COORDS[n]
    m = [0] * n
    if kind == 'tuple':
        m = [vals['a%d' % i] for i in range(n)]
    else:
        for j in range(size):
            m[vals['c%d' % j]] += vals['a%d' % j] if kind in ('couple', 'couples') else 1
    given = build(kind, coords, size, vals)
    try:
        o = run(kind, coords, size, vals)
    except Exception as e:
        return True, '%s over %s raises %r' % (given, coords, e)
    for lab, c in claims_of(coords, [z3.IntVal(k) for k in m], o):
        c = c if isinstance(c, bool) else z3.is_true(z3.simplify(c))
        if not c:
            return True, '%s of %s over %s is %s, orders %s' % (lab, given, coords, o, m)
    return False, 'agrees'


# -- enumeration -----------------------------------------------------------------

def degrees(ctx, n, hi):
    for d in range(hi + 1):
        degree(ctx, n, d)


def degree(ctx, n, d):
    ctx.fn('PartialOrderDerivative.all_of_degree')
    coords = COORDS[n]
    args = dict(n=n, d=d)
    key = 'degree/%d/%d' % (n, d)
    try:
        found = list(modules()[0].all_of_degree(coords, d))
        tuples = [p.as_tuple for p in found]
        good = all(len(t) == n and list(p.coordinates) == list(coords) for t, p in zip(tuples, found))
    except Exception as e:
        raise Violation(key, 'raises %r' % e, 'r_degree', args)
    if not good:
        raise Violation(key, 'malformed multi-index', 'r_degree', args)
    m = [z3.Int('m%d' % i) for i in range(n)]
    is_index = z3.And([k >= 0 for k in m] + [z3.Sum(m) == d])
    times = z3.Sum([z3.IntVal(0)] + [z3.If(z3.And([a == int(b) for a, b in zip(m, t)]), 1, 0) for t in tuples])
    r, model = z3q.check([times != z3.If(is_index, 1, 0)])
    if r == 'unknown':
        raise z3q.Inconclusive('unknown')
    if r == 'sat':
        raise Violation(key, 'over %s, degree %d: multi-index %s yielded a wrong number of times' % (coords, d, model), 'r_degree', args)
    if z3q.check([is_index, times == 1])[0] != 'sat':
        raise Violation(key, 'nothing is yielded', 'r_degree', args)
    ctx.bound(coordinates=n, degree=d)
    ctx.obligation(key)
    ctx.sample('forall m: m is yielded once iff |m| = %d' % d)


def r_degree(n, d):
    coords = COORDS[n]
    try:
        got = sorted(tuple(int(a) for a in p.as_tuple) for p in modules()[0].all_of_degree(coords, d))
    except Exception as e:
        return True, 'raises %r' % e
    want = sorted(t for t in itertools.product(range(d + 1), repeat=n) if sum(t) == d)
    return got != want, 'degree %d over %s: %s, expected %s' % (d, coords, got, want)


# -- equality --------------------------------------------------------------------

def equality(ctx, n, hi):
    ctx.fn('PartialOrderDerivative.__eq__')
    V, ax = {}, []
    for s in 'ab':
        for i in range(n):
            x = V['%s%d' % (s, i)] = z3.Int('%s%d' % (s, i))
            ax += [x >= 0, x <= hi]
    tups = lambda v: [tuple(v['%s%d' % (s, i)] for i in range(n)) for s in 'ab']

    def prog(v):
        P, cs = modules()[0], COORDS[n]
        p, q = (P(cs, w) for w in tups(v))
        o = P(COORDS[n][::-1], tups(v)[0]) if n > 1 else None
        return bool(p == q), bool(p != q), o is not None and bool(p == o)
    claims = lambda v, o: [('eq', z3.And([a == b for a, b in zip(*tups(v))]) == o[0]), ('ne', o[0] != o[1]), ('coordinates', not o[2])]
    bad = explore(V, ax, prog, claims, lambda vals: (lambda r: r[1] if r[0] else None)(r_equality(n, vals)), ctx)
    if bad:
        raise Violation('equality/%d' % n, bad[1], 'r_equality', dict(n=n, vals=bad[0]))
    ctx.bound(coordinates=n, order=hi)
    ctx.obligation('equality/%d' % n)


def r_equality(n, vals):
    P, cs = modules()[0], COORDS[n]
    a, b = (tuple(vals['%s%d' % (s, i)] for i in range(n)) for s in 'ab')
    try:
        p, q = P(cs, a), P(cs, b)
        e, ne = p == q, p != q
        o = n > 1 and P(cs[::-1], a) == p
    except Exception as ex:
        return True, 'raises %r' % ex
    return e != (a == b) or ne == e or bool(o), '%s == %s is %s (!= is %s), other coordinates: %s' % (a, b, e, ne, o)


def foreign(ctx, n, hi):
    """a coordinate that is not in the system, a name instead of a coordinate, a wrong number of orders: TypeError"""
    ctx.fn('PartialOrderDerivative._builder')
    for shape in range(6):
        V = {'a': z3.Int('a'), 'b': z3.Int('b')}
        ax = [V['a'] >= 0, V['a'] <= hi, V['b'] >= 0, V['b'] <= hi]
        bad = explore(V, ax, lambda v: refused(n, shape, v), lambda v, o: [('refused', o)],
                      lambda vals: (lambda r: r[1] if r[0] else None)(r_foreign(n, shape, vals)), ctx)
        if bad:
            raise Violation('foreign/%d/%d' % (n, shape), bad[1], 'r_foreign', dict(n=n, shape=shape, vals=bad[0]))
    ctx.bound(coordinates=n, order=hi)
    ctx.obligation('foreign/%d' % n)


def refused(n, shape, v):
    cs, q, a, b = COORDS[n], Symbol('q'), v['a'], v['b']
    given = [[(q, a)], (q, a), [cs[0], q], [(cs[0], a), (q, b)], ('x', a), (a,) * (n + 1)][shape]
    try:
        modules()[0](cs, given)
    except TypeError:
        return True
    except (ValueError, KeyError, IndexError, AttributeError):       # not the documented refusal
        return False
    return False


def r_foreign(n, shape, vals):
    return not refused(n, shape, vals), 'shape %d accepted over %s' % (shape, COORDS[n])


# -- orders of a derivative ----------------------------------------------------------

class SymDerivative(Derivative):
    """a derivative whose orders are symbolic (the public attributes of a Derivative)"""
    _vc = ()

    @property
    def args(self):
        return (self._e,) + self._vc

    @property
    def variable_count(self):
        return self._vc

    @property
    def variables(self):
        return tuple(x for x, k in self._vc for _ in range(k.pin() if isinstance(k, SInt) else k))

    @property
    def derivative_count(self):
        return sum(k for _, k in self._vc)

    @property
    def expr(self):
        return self._e


def _symd(expr, vc):
    d = object.__new__(SymDerivative)
    d._e, d._vc, d._mhash = expr, tuple(vc), 17
    d._assumptions = {}
    return d


def derivative(ctx, n, hi):
    ctx.fn('get_derivative_partial_orders', 'get_total_order', 'PartialOrderDerivative.as_couples', 'PartialOrderDerivative.as_sequence')
    coords = COORDS[n]
    u = Function('u')(symbols('t'), *coords)
    V = {'a%d' % i: z3.Int('a%d' % i) for i in range(n)}
    ax = [v >= 0 for v in V.values()] + [v <= hi for v in V.values()] + [z3.Sum(list(V.values())) > 0, z3.Sum(list(V.values())) <= hi + 1]
    util = modules()[1]

    def prog(v):
        vc = [(c, v['a%d' % i]) for i, c in enumerate(coords) if v['a%d' % i] > 0]
        d = _symd(u, vc)
        return dict(util.get_derivative_partial_orders(d)), util.get_total_order(d)

    def claims(v, o):
        po, tot = o
        return [('orders', z3.And([term(po[c]) == v['a%d' % i] if c in po else v['a%d' % i] == 0 for i, c in enumerate(coords)])),
                ('coordinates', all(c in coords for c in po)), ('total', term(tot) == z3.Sum(list(v.values())))]
    bad = explore(V, ax, prog, claims, lambda vals: (lambda r: r[1] if r[0] else None)(r_derivative(n, vals)), ctx)
    if bad:
        raise Violation('derivative/%d' % n, bad[1], 'r_derivative', dict(n=n, vals=bad[0]))

    # derivatives written with the formats
    def prog2(v):
        return None if r_derivative(n, {k: x.pin() for k, x in v.items()})[0] else True
    bad = explore(V, ax, prog2, lambda v, o: [('formats', bool(o))], lambda vals: (lambda r: r[1] if r[0] else None)(r_derivative(n, vals)), ctx)
    if bad:
        raise Violation('derivative/%d' % n, bad[1], 'r_derivative', dict(n=n, vals=bad[0]))
    ctx.bound(coordinates=n, order=hi)
    ctx.obligation('derivative/%d' % n)
    ctx.sample('forall orders a: get_derivative_partial_orders(D^a u) = {c: a_c > 0}, get_total_order = |a|')


def r_derivative(n, vals):
    P, util = modules()
    coords = COORDS[n]
    u = Function('u')(symbols('t'), *coords)
    m = tuple(vals['a%d' % i] for i in range(n))
    want = {c: k for c, k in zip(coords, m) if k}
    try:
        p = P(coords, m)
        ds = [Derivative(u, *p.as_couples), Derivative(u, *p.as_sequence), Derivative(u, *[x for x in p.as_couples if x[1]])]
        for d in ds:
            po, tot = util.get_derivative_partial_orders(d), util.get_total_order(d)
            if dict(po) != want or tot != sum(m):
                return True, '%s: orders %s, total %s' % (d, po, tot)
    except Exception as e:
        return True, 'orders %s over %s: raises %r' % (m, coords, e)
    return False, 'agrees'
