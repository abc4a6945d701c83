"""Sets with symbolic membership, and equations whose right-hand side is a sum of
terms each of which is present or not (a symbolic Boolean): one run of the real
code covers every subset of the terms.  What is not interpreted symbolically
(iteration, structural access) forks the path on the memberships it needs."""
import sympy

from . import sx
from .z3q import z3

FALSE, TRUE = z3.BoolVal(False), z3.BoolVal(True)


class SymSet(object):
    """dict element -> z3 Bool"""

    def __init__(self, items=()):
        self.m = {}
        self._put(items)

    @classmethod
    def of(cls, m):
        s = cls()
        s.m = dict(m)
        return s

    def _put(self, items, cond=TRUE):
        for a, c in pairs(items):
            self.m[a] = z3.simplify(z3.Or(self.m.get(a, FALSE), z3.And(c, cond)))

    def cond(self, a):
        return self.m.get(a, FALSE)

    # -- updates
    def update(self, *others):
        for o in others:
            self._put(o)

    def add(self, a):
        self._put([a])

    def difference_update(self, *others):
        for o in others:
            for a, c in list(pairs(o)):
                if a in self.m:
                    self.m[a] = z3.simplify(z3.And(self.m[a], z3.Not(c)))

    def discard(self, a):
        self.difference_update([a])

    def remove(self, a):
        if a not in self:
            raise KeyError(a)
        self.discard(a)

    def intersection_update(self, *others):
        for o in others:
            d = dict(pairs(o))
            for a in self.m:
                self.m[a] = z3.simplify(z3.And(self.m[a], d.get(a, FALSE)))

    def clear(self):
        self.m = {}

    def pop(self):
        for a in self:
            self.discard(a)
            return a
        raise KeyError('pop from an empty set')

    # -- new sets
    def copy(self):
        return SymSet.of(self.m)

    def _new(self, f, others):
        s = self.copy()
        getattr(s, f)(*others)
        return s

    def union(self, *o):
        return self._new('update', o)

    def difference(self, *o):
        return self._new('difference_update', o)

    def intersection(self, *o):
        return self._new('intersection_update', o)

    def symmetric_difference(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return self.difference(o).union(o.difference(self))

    def __or__(self, o):
        return self.union(o)

    def __sub__(self, o):
        return self.difference(o)

    def __and__(self, o):
        return self.intersection(o)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __ror__(self, o):
        return SymSet(o).union(self)

    def __rand__(self, o):
        return SymSet(o).intersection(self)

    def __rsub__(self, o):
        return SymSet(o).difference(self)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    # -- observation
    def __contains__(self, a):
        return bool(sx.Bool(self.cond(a)))

    def __iter__(self):
        for a, c in list(self.m.items()):
            if sx.Bool(c):
                yield a

    def __len__(self):
        return sum(1 for _ in self)

    def __bool__(self):
        return bool(sx.Bool(z3.Or(*self.m.values()))) if self.m else False

    def __eq__(self, o):
        d = dict(pairs(o))
        return bool(sx.Bool(z3.And(*[self.cond(a) == d.get(a, FALSE) for a in set(d) | set(self.m)]))) if d or self.m else True

    def __ne__(self, o):
        return not self == o

    def issubset(self, o):
        d = dict(pairs(o))
        return bool(sx.Bool(z3.And(*[z3.Implies(c, d.get(a, FALSE)) for a, c in self.m.items()]))) if self.m else True

    def issuperset(self, o):
        return (o if isinstance(o, SymSet) else SymSet(o)).issubset(self)

    def isdisjoint(self, o):
        return not self.intersection(o)

    __le__ = issubset
    __ge__ = issuperset
    __hash__ = None

    def __repr__(self):
        return 'SymSet(%s)' % list(self.m)


def pairs(o):
    """(element, membership) without forking"""
    if isinstance(o, SymSet):
        return list(o.m.items())
    return [(a, TRUE) for a in o]


class Sum(sympy.Expr):
    """sum of present-or-absent terms; terms: [(z3 Bool, expression)]"""

    def __new__(cls, terms):
        obj = sympy.Expr.__new__(cls)
        obj.terms = terms
        obj._order = 1
        return obj

    def _hashable_content(self):
        return (id(self),)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def collect(self, f):
        s = SymSet()
        for c, e in self.terms:
            s._put(sorted(f(e), key=sympy.default_sort_key)[::self._order], c)
        return s

    def atoms(self, *types):
        return self.collect(lambda e: e.atoms(*types))

    @property
    def free_symbols(self):
        return self.collect(lambda e: e.free_symbols)

    def find(self, query, group=False):
        return self.collect(lambda e: e.find(query))

    def has(self, *p):
        return sx.Bool(z3.Or(FALSE, *[c for c, e in self.terms if e.has(*p)]))

    def has_free(self, *p):
        return sx.Bool(z3.Or(FALSE, *[c for c, e in self.terms if e.has_free(*p)]))

    def concrete(self):
        return sympy.Add(*[e for c, e in self.terms if sx.Bool(c)])

    @property
    def args(self):
        return self.concrete().args

    @property
    def func(self):
        return self.concrete().func


def equation_class(base):
    class SymEq(base):
        def __new__(cls, lhs, rhs, **k):
            if not isinstance(rhs, Sum):
                return base(lhs, rhs, **k)
            return sympy.Basic.__new__(cls, lhs, rhs)

        def _both(self, name, *a):
            l, r = self._args
            s = SymSet(sorted(getattr(l, name)(*a), key=sympy.default_sort_key))
            s.update(getattr(r, name)(*a))
            return s

        def atoms(self, *types):
            return self._both('atoms', *types)

        def find(self, query, group=False):
            return self._both('find', query)

        @property
        def free_symbols(self):
            l, r = self._args
            s = SymSet(sorted(l.free_symbols, key=sympy.default_sort_key))
            s.update(r.free_symbols)
            return s

        def has(self, *p):
            return sx.Bool(z3.Or(sx.zbool(self._args[0].has(*p)), sx.zbool(self._args[1].has(*p))))

        def __hash__(self):
            return hash(self._args)

        def __eq__(self, o):
            return self is o
    return SymEq
