"""Execution of generated numerical code on arrays of symbolic reals (Poly), and
the pointwise oracle on periodic grids."""
import itertools

import numpy
import sympy
from sympy.core.function import AppliedUndef

from . import poly
from .poly import Poly, ZERO, ONE, SETTINGS
from .z3q import Inconclusive


def on():
    SETTINGS['general'] = True


class Shim(object):
    """numpy whose array creations hold symbolic reals"""
    _junk = itertools.count()

    def __getattr__(self, name):
        return getattr(numpy, name)

    def _fill(self, shape, v, dtype):
        if dtype is not None and numpy.issubdtype(numpy.dtype(dtype), numpy.integer):
            return numpy.full(shape, v, dtype=dtype)
        a = numpy.empty(shape, dtype=object)
        for i in numpy.ndindex(*a.shape):
            a[i] = Poly.coerce(v) if v is not None else Poly.var(('c', 'junk', next(self._junk)))
        return a

    def zeros(self, shape, dtype=None, **k):
        return self._fill(shape, 0, dtype)

    def ones(self, shape, dtype=None, **k):
        return self._fill(shape, 1, dtype)

    def empty(self, shape, dtype=None, **k):
        return self._fill(shape, None, dtype)

    def full(self, shape, v, dtype=None, **k):
        return self._fill(shape, v, dtype)

    def zeros_like(self, a, dtype=None, **k):
        return self._fill(numpy.shape(a), 0, dtype)

    def ones_like(self, a, dtype=None, **k):
        return self._fill(numpy.shape(a), 1, dtype)

    def empty_like(self, a, dtype=None, **k):
        return self._fill(numpy.shape(a), None, dtype)

    def full_like(self, a, v, dtype=None, **k):
        return self._fill(numpy.shape(a), v, dtype)

    def eye(self, n, m=None, **k):
        a = self.zeros((n, n if m is None else m))
        for i in range(min(a.shape)):
            a[i, i] = ONE
        return a

    identity = eye

    @staticmethod
    def _objects(a):
        return numpy.asarray(a, dtype=object)

    def _conv(self, fn, a, dtype, **k):
        if isinstance(a, Poly):
            r = numpy.empty((), dtype=object)
            r[()] = a
            return r
        try:
            r = fn(a, **k)
        except TypeError:
            r = fn(a, dtype=object, **k)
        if r.dtype == object:
            return r
        return fn(a, dtype=dtype, **k) if dtype is not None else r

    def array(self, a, dtype=None, **k):
        return self._conv(numpy.array, a, dtype, **k)

    def asarray(self, a, dtype=None, **k):
        return self._conv(numpy.asarray, a, dtype, **k)

    def linspace(self, a, b, num=50, endpoint=True, **k):
        n = num - 1 if endpoint else num
        if not isinstance(a, Poly) and not isinstance(b, Poly):
            return numpy.linspace(a, b, num, endpoint=endpoint, **k)
        return array(lambda i: (b - a) * i[0] / n + a, (num,))

    def arange(self, *a, **k):
        try:
            return numpy.arange(*a, **k)
        except TypeError:
            raise Inconclusive('arange with symbolic bounds')


SHIM = Shim()


def array(fn, shape):
    """object array of fn(multi-index)"""
    a = numpy.empty(shape, dtype=object)
    for i in numpy.ndindex(*shape):
        a[i] = fn(i)
    return a


class Point(object):
    """oracle: value of a sympy expression at one point of a periodic grid.
    values(name, timestep, index) -> Poly ; step(coord) -> Poly ; const(symbol) -> Poly"""

    def __init__(self, coords, shape, values, step, const, time='t', coordinate=None):
        self.coords, self.shape = list(coords), shape
        self.values, self.step, self.const, self.time = values, step, const, time
        self.coordinate = coordinate
        self.steps = {sympy.Symbol('d' + str(c)): c for c in list(coords) + [sympy.Symbol(time)]}

    def at(self, index):
        self.i = tuple(index)
        self.memo = {}
        return self

    def ev(self, e):
        r = self.memo.get(e)
        if r is None:
            r = self.memo[e] = self._ev(e)
        return r

    def _ev(self, e):
        if e.is_Rational or e.is_Float:
            return Poly.coerce(e)
        if isinstance(e, sympy.Symbol):
            if e in self.coords:
                if self.coordinate is None:
                    raise Inconclusive('explicit coordinate %s' % e)
                k = self.coords.index(e)
                return self.coordinate(k, self.i[k])
            if e in self.steps:
                return self.step(self.steps[e])
            return self.const(e)
        if isinstance(e, sympy.Add):
            s = ZERO
            for a in e.args:
                s = s + self.ev(a)
            return s
        if isinstance(e, sympy.Mul):
            s = ONE
            for a in e.args:
                s = s * self.ev(a)
            return s
        if isinstance(e, sympy.Pow):
            if e.exp.is_Rational:
                return self.ev(e.base) ** Poly.coerce(e.exp).d.get((), 0)
            raise Inconclusive('power %s' % e)
        if isinstance(e, AppliedUndef):
            return self.leaf(e)
        if e.is_NumberSymbol:
            return self.const(e)
        if isinstance(e, sympy.Function) and len(e.args) == 1:
            return poly.smooth(type(e).__name__, self.ev(e.args[0]))
        raise Inconclusive('cannot interpret %s' % e)

    def leaf(self, e):
        idx = list(self.i)
        ts = 0
        own = []
        for a in e.args:
            for c in self.coords + [sympy.Symbol(self.time)]:
                if a.has(c) and (a - c).is_number or sympy.expand(a - c).has(sympy.Symbol('d' + str(c))) and a.has(c):
                    break
            else:
                raise Inconclusive('argument %s of %s' % (a, e))
            k = sympy.expand(a - c).coeff(sympy.Symbol('d' + str(c)))
            if sympy.expand(a - c - k * sympy.Symbol('d' + str(c))) != 0 or not k.is_Integer:
                raise Inconclusive('argument %s of %s' % (a, e))
            if str(c) == self.time:
                ts = int(k)
            else:
                n = self.coords.index(c)
                own.append(n)
                idx[n] = (idx[n] + int(k)) % self.shape[n]
        return self.values(e.func.__name__, ts, tuple(idx[n] for n in own))
