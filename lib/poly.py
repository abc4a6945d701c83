"""Sparse Laurent polynomials over Q in named variables, and truncated
multivariate Taylor series over them.

These are the *values* on which the code under test (and the independent
oracles) are executed symbolically: every variable is universally quantified
and becomes a real constant of the SMT query.

A variable is an interned tuple.  The first component is its kind:
  ('u', fname, alpha)   jet of a deterministic field (alpha: derivative orders)
  ('h', fname, alpha)   jet of a random field (E acts on these)
  ('M', ((f,a),(g,b)))  moment E[d^a f d^b g]
  ('c', name)           constant / coordinate / auxiliary
  ('eta',)              formal perturbation amplitude (nilpotent, see TRUNC)
  ('q', name, alpha)    a jet that may be inverted (non-zero by assumption)
"""
from fractions import Fraction

_ids = {}
_names = []


def vid(name):
    i = _ids.get(name)
    if i is None:
        i = len(_names)
        _ids[name] = i
        _names.append(name)
    return i


def vname(i):
    return _names[i]


# truncation: {var id: max exponent}; list of (frozenset(var ids), max total degree)
TRUNC = {}
TOTAL = []


class truncation:
    def __init__(self, single=None, total=None):
        self.single = single or {}
        self.total = total or []

    def __enter__(self):
        self.old = (dict(TRUNC), list(TOTAL))
        TRUNC.update(self.single)
        TOTAL.extend(self.total)

    def __exit__(self, *a):
        TRUNC.clear()
        TRUNC.update(self.old[0])
        TOTAL[:] = self.old[1]


def _keep(m):
    if TRUNC:
        for v, e in m:
            lim = TRUNC.get(v)
            if lim is not None and e > lim:
                return False
    for vs, lim in TOTAL:
        if sum(e for v, e in m if v in vs) > lim:
            return False
    return True


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            e = ea + eb
            if e:
                out.append((va, e))
            i += 1
            j += 1
        elif va < vb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def snap(x):
    """the simple rational of which the float is the rounding (1/3, 0.1 ...):
    the code is judged in exact arithmetic"""
    f = Fraction(x)
    g = f.limit_denominator(1000000)
    return g if abs(f - g) <= abs(f) / 2 ** 51 else f


# general inverses / roots / standard functions as fresh constrained variables
# (used when numerical code is executed on Poly values)
SETTINGS = {'general': False}


def as_fraction(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        return snap(x)
    import numpy as np
    if isinstance(x, np.integer):
        return Fraction(int(x))
    if isinstance(x, np.floating):
        return snap(float(x))
    import sympy
    if isinstance(x, sympy.Rational):
        return Fraction(int(x.p), int(x.q))
    if isinstance(x, sympy.Float):
        r = sympy.Rational(x)
        return Fraction(int(r.p), int(r.q))
    return None


class NotInvertible(Exception):
    pass


class Poly(object):
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = d if d is not None else {}

    @staticmethod
    def const(c):
        c = as_fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def var(name, e=1):
        m = ((vid(name), e),)
        return Poly({m: Fraction(1)}) if _keep(m) else Poly()

    @staticmethod
    def coerce(x):
        if isinstance(x, Poly):
            return x
        f = as_fraction(x)
        if f is None:
            return None
        return Poly({(): f} if f else {})

    def __add__(self, o):
        o = Poly.coerce(o)
        if o is None:
            return NotImplemented
        a, b = (self.d, o.d) if len(self.d) >= len(o.d) else (o.d, self.d)
        d = dict(a)
        for m, c in b.items():
            s = d.get(m)
            if s is None:
                d[m] = c
            else:
                s = s + c
                if s:
                    d[m] = s
                else:
                    del d[m]
        return Poly(d)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = Poly.coerce(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = Poly.coerce(o)
        if o is None:
            return NotImplemented
        return (-self) + o

    def __mul__(self, o):
        o = Poly.coerce(o)
        if o is None:
            return NotImplemented
        d = {}
        trunc = bool(TRUNC or TOTAL)
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = _mmul(m1, m2)
                if trunc and not _keep(m):
                    continue
                c = c1 * c2
                s = d.get(m)
                if s is not None:
                    c = s + c
                    if not c:
                        del d[m]
                        continue
                d[m] = c
        return Poly(d)
    __rmul__ = __mul__

    # -- inversion ---------------------------------------------------------
    def _split(self):
        """leading part (no truncated/nilpotent variable), nilpotent rest"""
        tv = set(TRUNC)
        for vs, _ in TOTAL:
            tv |= set(vs)
        # shift so that the lowest total degree in the truncated vars leads
        lead, rest = {}, {}
        low = None
        if tv:
            deg = {m: sum(e for v, e in m if v in tv) for m in self.d}
            if not deg:
                return Poly(), Poly()
            low = min(deg.values())
            for m, c in self.d.items():
                (lead if deg[m] == low else rest)[m] = c
        else:
            lead = self.d
        return Poly(lead), Poly(rest)

    def monomial(self):
        if len(self.d) != 1:
            raise NotInvertible(str(self)[:200])
        return next(iter(self.d.items()))

    def _maxsteps(self):
        n = 0
        for v, e in TRUNC.items():
            n += e + 1
        for vs, e in TOTAL:
            n += e + 1
        return n + 12

    def inv(self):
        if SETTINGS['general']:
            return general_inverse(self)
        lead, rest = self._split()
        m, c = lead.monomial()
        for v, e in m:
            if not invertible(v):
                raise NotInvertible(vname(v))
        il = Poly({tuple((v, -e) for v, e in m): 1 / c})
        if not rest.d:
            return il
        x = -(il * rest)
        out, p = Poly.const(1), Poly.const(1)
        for _ in range(self._maxsteps()):
            p = p * x
            if not p.d:
                break
            out = out + p
        else:
            raise NotInvertible('series did not terminate')
        return il * out

    def root(self, r):
        """self**r for a Fraction r (leading part must be a perfect power)"""
        r = Fraction(r)
        if r.denominator == 1:
            return self ** int(r)
        if SETTINGS['general']:
            return general_root(self, r)
        lead, rest = self._split()
        m, c = lead.monomial()
        nm = []
        for v, e in m:
            ne = e * r
            if ne.denominator != 1:
                raise NotInvertible('no root of %s' % (vname(v),))
            nm.append((v, int(ne)))
        cc = _frac_root(c, r)
        if cc is None:
            raise NotInvertible('no rational root of %s' % c)
        il = Poly({tuple(nm): cc})
        if not rest.d:
            return il
        x = lead.inv() * rest
        out, p, coef = Poly.const(1), Poly.const(1), Fraction(1)
        for k in range(1, self._maxsteps()):
            p = p * x
            if not p.d:
                break
            coef = coef * (r - (k - 1)) / k
            out = out + p * coef
        else:
            raise NotInvertible('series did not terminate')
        return il * out

    def __truediv__(self, o):
        o = Poly.coerce(o)
        if o is None:
            return NotImplemented
        if not o.d:
            raise ZeroDivisionError('division of a symbolic value by zero')
        return self * o.inv()

    def __rtruediv__(self, o):
        o = Poly.coerce(o)
        if o is None:
            return NotImplemented
        return o * self.inv()

    def __pow__(self, n):
        f = as_fraction(n)
        if f is None:
            return NotImplemented
        if f.denominator != 1:
            return self.root(f)
        n = int(f)
        if n < 0:
            return self.inv() ** (-n)
        out, b = Poly.const(1), self
        while n:
            if n & 1:
                out = out * b
            n >>= 1
            if n:
                b = b * b
        return out

    def sqrt(self):
        return self.root(Fraction(1, 2))

    def exp(self):
        return smooth('exp', self)

    def sin(self):
        return smooth('sin', self)

    def cos(self):
        return smooth('cos', self)

    def tan(self):
        return smooth('sin', self) / smooth('cos', self)

    def log(self):
        return smooth('log', self)

    def tanh(self):
        return smooth('tanh', self)

    # -- misc ----------------------------------------------------------------
    def is_zero(self):
        return not self.d

    def __eq__(self, o):
        o = Poly.coerce(o)
        return o is not None and self.d == o.d

    def __hash__(self):
        return 7919

    def __bool__(self):
        return bool(self.d)

    def __abs__(self):
        if not SETTINGS['general']:
            raise TypeError('abs of a symbolic value')
        return general_root(self * self, Fraction(1, 2)) if self.d else self

    def copy(self):
        return self

    def coeffs(self, v):
        """{exponent: Poly} with respect to variable id v"""
        out = {}
        for m, c in self.d.items():
            e = 0
            r = m
            for k, (w, x) in enumerate(m):
                if w == v:
                    e = x
                    r = m[:k] + m[k + 1:]
                    break
            out.setdefault(e, {})[r] = c
        return {e: Poly(d) for e, d in out.items()}

    def group(self, vs):
        """{((v,e),..): Poly}: split w.r.t. a set of variable ids"""
        out = {}
        for m, c in self.d.items():
            k = tuple((v, e) for v, e in m if v in vs)
            r = tuple((v, e) for v, e in m if v not in vs)
            out.setdefault(k, {})[r] = c
        return {k: Poly(d) for k, d in out.items()}

    def vars(self):
        s = set()
        for m in self.d:
            for v, _ in m:
                s.add(v)
        return s

    def subs(self, table):
        """table {var id: Poly}"""
        out = Poly()
        cache = {}
        for m, c in self.d.items():
            keep, t = [], None
            for v, e in m:
                if v in table:
                    k = (v, e)
                    if k not in cache:
                        cache[k] = table[v] ** e
                    t = cache[k] if t is None else t * cache[k]
                else:
                    keep.append((v, e))
            p = Poly({tuple(keep): c})
            out = out + (p if t is None else p * t)
        return out

    def evalf(self, table):
        """numeric value; table {var id: number}"""
        s = 0
        for m, c in self.d.items():
            x = c
            for v, e in m:
                x = x * table[v] ** e
            s = s + x
        return s

    def __repr__(self):
        if not self.d:
            return '0'
        out = []
        for m, c in sorted(self.d.items(), key=lambda t: repr(t[0])):
            s = '*'.join('%s%s' % (_show(v), '' if e == 1 else '^%s' % e) for v, e in m)
            out.append(('%s*%s' % (c, s)) if s else str(c))
        return ' + '.join(out)


def _show(v):
    n = vname(v)
    return n[0] + ':' + ','.join(str(x) for x in n[1:])


def _frac_root(c, r):
    if c == 1:
        return Fraction(1)
    if c < 0:
        return None
    q = r.denominator

    def iroot(n):
        x = round(n ** (1.0 / q))
        for y in (x - 1, x, x + 1):
            if y >= 0 and y ** q == n:
                return y
        return None
    a, b = iroot(c.numerator), iroot(c.denominator)
    if a is None or b is None:
        return None
    return Fraction(a, b) ** r.numerator


INVERSES = {}      # var id of an introduced inverse -> the Poly it inverts


def inverse_of(p):
    """1/p: exact when the leading part is an invertible monomial, otherwise a
    fresh variable I with the axiom I*p = 1 (the domain of the program)"""
    try:
        return p.inv()
    except NotInvertible:
        name = ('q', 'inv', repr(p))
        INVERSES[vid(name)] = p
        return Poly.var(name)


def general_inverse(p):
    if len(p.d) == 1:
        m, c = next(iter(p.d.items()))
        if all(invertible(v) for v, _ in m):
            return Poly({tuple((v, -e) for v, e in m): 1 / c})
    if not p.d:
        raise ZeroDivisionError('division of a symbolic value by zero')
    # factor the unit content so that 1/(2*a) and 1/a are related
    c = p.d[min(p.d)]
    prim = Poly({m: x / c for m, x in p.d.items()})
    name = ('q', 'inv', repr(prim))
    INVERSES[vid(name)] = prim
    return Poly.var(name) * (1 / c)


ROOTS = {}


def general_root(p, r):
    name = ('q', 'root', str(Fraction(1, r.denominator)), repr(p))
    ROOTS[vid(name)] = (p, r.denominator)
    k = r.numerator
    return Poly.var(name, k)


def smooth(fun, p):
    """value of a standard function at p (uninterpreted but for exp(a+b))"""
    if fun == 'exp':
        out = Poly.const(1)
        for m, c in p.d.items():
            key_m = tuple((vname(v), e) for v, e in m)
            c = c * 12
            if c.denominator == 1:
                out = out * Poly.var(('q', 'exp', key_m)) ** int(c)
            else:
                out = out * Poly.var(('q', 'exp', key_m, str(c)))
        return out
    if fun in ('sin', 'tanh') and p.d and p.d[min(p.d)] < 0:
        return -smooth(fun, -p)
    if fun == 'cos' and p.d and p.d[min(p.d)] < 0:
        p = -p
    if not p.d:
        return {'sin': Poly(), 'tanh': Poly(), 'cos': Poly.const(1)}.get(fun, Poly.var(('c', fun, '0')))
    return Poly.var(('c', fun, repr(p)))


_inv_kinds = {'q'}
_inv_ids = set()


def invertible(v):
    return v in _inv_ids or vname(v)[0] in _inv_kinds


def declare_invertible(*names):
    for n in names:
        _inv_ids.add(vid(n))


ONE = Poly.const(1)
ZERO = Poly()
