"""Forking symbolic execution of Python code on integer/real proxies: every test
of a symbolic comparison is a branch, both sides explored when Z3 says both are
feasible; claims are decided by Z3 under the path condition."""
import time
from fractions import Fraction

from . import z3q
from .z3q import z3, Inconclusive


class Infeasible(BaseException):
    pass


class Limit(BaseException):
    pass


_cur = None      # the running path


def _query(asserts):
    r, m = z3q.check(asserts)
    if r == 'unknown':
        raise Inconclusive('solver returned unknown on a path')
    return r == 'sat', m


class Path(object):
    def __init__(self, prefix, axioms):
        self.decisions = list(prefix)
        self.n = 0
        self.cond = list(axioms)
        self.open = []
        self.value = self.error = None
        self.memo = {}

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = cond.get_id()
        if k in self.memo:
            return self.memo[k][1]
        if self.n < len(self.decisions):
            d = self.decisions[self.n]
        else:
            can_t, _ = _query(self.cond + [cond])
            can_f, _ = _query(self.cond + [z3.Not(cond)])
            if can_t and can_f:
                self.open.append(self.decisions[:self.n] + [False])
                d = True
            elif can_t or can_f:
                d = can_t
            else:
                raise Infeasible()
            self.decisions.append(d)
        self.n += 1
        self.cond.append(cond if d else z3.Not(cond))
        self.memo[k] = (cond, d)
        return d

    def prove(self, claim):
        if isinstance(claim, bool):
            claim = z3.BoolVal(claim)
        if isinstance(claim, Bool):
            claim = claim.t
        sat, m = _query(self.cond + [z3.Not(claim)])
        return not sat, m

    def model(self):
        sat, m = _query(self.cond)
        return m if sat else None


def assume(cond):
    """restrict the running path"""
    t = cond.t if isinstance(cond, Bool) else cond
    sat, _ = _query(_cur.cond + [t])
    if not sat:
        raise Infeasible()
    _cur.cond.append(t)


def explore(prog, limit=1000, axioms=()):
    """every feasible path of prog() (errors raised by the program are results)"""
    global _cur
    todo, n = [[]], 0
    while todo:
        prefix = todo.pop()
        n += 1
        if n > limit:
            raise Inconclusive('more than %d paths' % limit)
        p = Path(prefix, axioms)
        old, _cur = _cur, p
        feasible = True
        try:
            p.value = prog()
        except Infeasible:
            feasible = False
        except Inconclusive:
            raise
        except Exception as e:
            p.error = e
        finally:
            _cur = old
        todo.extend(p.open)
        if feasible:
            yield p


class Bool(object):
    def __init__(self, t):
        self.t = t

    def __bool__(self):
        if _cur is None:
            raise Inconclusive('symbolic test outside an exploration')
        return _cur.branch(self.t)

    def __and__(self, o):
        return Bool(z3.And(self.t, zbool(o)))

    def __or__(self, o):
        return Bool(z3.Or(self.t, zbool(o)))

    def __invert__(self):
        return Bool(z3.Not(self.t))
    __rand__, __ror__ = __and__, __or__


def zbool(b):
    return b.t if isinstance(b, Bool) else z3.BoolVal(bool(b))


def _lift(v):
    if isinstance(v, Num):
        return v.t
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, Fraction):
        return z3.Q(v.numerator, v.denominator)
    t = type(v)
    if t.__module__ == 'numpy' or isinstance(v, (int, float)):
        if getattr(v, 'shape', ()) != ():
            return None
        if hasattr(v, 'dtype') and v.dtype == object:
            return _lift(v.item())
        f = Fraction(float(v)) if not isinstance(v, int) else Fraction(v)
        if hasattr(v, 'dtype') and v.dtype.kind in 'iu' or isinstance(v, int):
            return z3.IntVal(int(v))
        return z3.Q(f.numerator, f.denominator)
    if z3.is_expr(v):
        return v
    return None


class Num(object):
    """symbolic integer or real"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def _bin(self, o, f):
        z = _lift(o)
        if z is None:
            return NotImplemented
        return Num(f(self.t, z))

    def _cmp(self, o, f):
        z = _lift(o)
        if z is None:
            return NotImplemented
        return Bool(f(self.t, z))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: b * a)

    def _real(self, t):
        return z3.ToReal(t) if z3.is_int(t) else t

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: self._real(a) / self._real(b))

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: self._real(b) / self._real(a))

    @staticmethod
    def _pymod(a, b):
        # python: sign of the divisor; z3: 0 <= r < |b|
        if z3.is_int_value(b):
            n = b.as_long()
            if n == 0:
                raise ZeroDivisionError()
            return a % n if n > 0 else -((-a) % (-n))
        raise Inconclusive('modulo a symbolic number')

    def __mod__(self, o):
        return self._bin(o, self._pymod)

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: (a - self._pymod(a, b)) / b)

    def __neg__(self):
        return Num(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return Num(z3.If(self.t >= 0, self.t, -self.t))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return 7          # equality decides

    def __repr__(self):
        return 'sym(%s)' % self.t

    def __float__(self):
        raise TypeError('a symbolic number has no concrete value')
    __index__ = __float__

    def __int__(self):
        if ROUNDING is None:
            raise TypeError('a symbolic number has no concrete value')
        return whole(self, 'trunc')

    def __floor__(self):
        return whole(self, 'floor')

    def __ceil__(self):
        return whole(self, 'ceil')

    def __trunc__(self):
        return whole(self, 'trunc')

    def __round__(self, n=None):
        if n is not None:
            raise Inconclusive('rounding to digits')
        return whole(self, 'round')

    # called by numpy on object arrays
    def floor(self):
        return whole(self, 'floor')

    def ceil(self):
        return whole(self, 'ceil')

    def rint(self):
        return whole(self, 'round')

    def trunc(self):
        return whole(self, 'trunc')


ROUNDING = None      # (low, high): symbolic numbers may be rounded to a concrete integer of this range, forking the path


def whole(x, how):
    if ROUNDING is None:
        raise Inconclusive('rounding of a symbolic number')
    lo, hi = ROUNDING
    for n in range(lo, hi + 1):
        if how == 'floor':
            c = (x >= n) & (x < n + 1)
        elif how == 'ceil':
            c = (x > n - 1) & (x <= n)
        elif how == 'trunc':
            c = (x > n - 1) & (x < n + 1) if n == 0 else (x >= n) & (x < n + 1) if n > 0 else (x > n - 1) & (x <= n)
        else:                                   # ties to even
            c = (x * 2 >= 2 * n - 1) & (x * 2 <= 2 * n + 1) if n % 2 == 0 else (x * 2 > 2 * n - 1) & (x * 2 < 2 * n + 1)
        if c:
            return n
    raise Inconclusive('rounded outside [%d,%d]' % (lo, hi))


def Int(name):
    return Num(z3.Int(name))


def Real(name):
    return Num(z3.Real(name))


def zint(v):
    return _lift(v)


znum = zint
