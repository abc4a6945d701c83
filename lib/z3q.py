"""SMT side: translation of symbolic values to Z3 terms, and the queries."""
import sys
import time
from fractions import Fraction

_Z3_PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _Z3_PATH not in sys.path:
    sys.path.append(_Z3_PATH)      # appended: the repository's own venv has priority
import z3  # noqa: E402

from .poly import Poly, vname, invertible  # noqa: E402


class Inconclusive(Exception):
    """solver said unknown (or the encoding could not be built)"""


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.witness = 0
        self.functions = set()
        self.samples = []


STATS = Stats()
TIMEOUT_MS = 120000

_consts = {}


def zvar(v):
    c = _consts.get(v)
    if c is None:
        n = vname(v)
        c = z3.Real('|' .join([]) + n[0] + ':' + ','.join(str(x) for x in n[1:]))
        _consts[v] = c
    return c


def q(c):
    c = Fraction(c)
    return z3.RealVal(c.numerator) / z3.RealVal(c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)


def _term(m, c):
    fs = []
    if c != 1 or not m:
        fs.append(z3.Q(c.numerator, c.denominator))
    for v, e in m:
        fs.extend([zvar(v)] * e)
    if len(fs) == 1:
        return fs[0]
    return z3.Product(fs)


class ZL(object):
    """Raw (un-normalised) Z3 terms graded by the exponents of invertible
    variables: {((unit, exp), ...): z3 term}.  Sums and products mirror the
    structure of the expression they come from; normalisation is Z3's job."""
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = d or {}

    @staticmethod
    def from_poly(p):
        d = {}
        for m, c in p.d.items():
            u = tuple((v, e) for v, e in m if invertible(v))
            r = tuple((v, e) for v, e in m if not invertible(v))
            if any(e < 0 for _, e in r):
                raise Inconclusive('negative power of a non-invertible variable')
            d.setdefault(u, []).append(_term(r, c))
        return ZL({u: (t[0] if len(t) == 1 else z3.Sum(t)) for u, t in d.items()})

    def __add__(self, o):
        d = dict(self.d)
        for u, t in o.d.items():
            d[u] = d[u] + t if u in d else t
        return ZL(d)

    def __mul__(self, o):
        from .poly import _mmul
        d = {}
        for u, t in self.d.items():
            for w, s in o.d.items():
                k = _mmul(u, w)
                x = t * s
                d[k] = d[k] + x if k in d else x
        return ZL(d)

    def __neg__(self):
        return ZL({u: -t for u, t in self.d.items()})


def zsum(items):
    d = {}
    for it in items:
        for u, t in it.d.items():
            d.setdefault(u, []).append(t)
    return ZL({u: (t[0] if len(t) == 1 else z3.Sum(t)) for u, t in d.items()})


def clear(*zls):
    """multiply all by a common monomial of units so exponents become >= 0,
    and return plain z3 terms"""
    low = {}
    for zl in zls:
        for u in zl.d:
            for v, e in u:
                low[v] = min(low.get(v, 0), e)
    outs = []
    for zl in zls:
        ts = []
        for u, t in zl.d.items():
            e = dict(u)
            fs = []
            for v in set(e) | set(low):
                k = e.get(v, 0) - low.get(v, 0)
                fs.extend([zvar(v)] * k)
            ts.append(z3.Product([t] + fs) if fs else t)
        outs.append(z3.Sum(ts) if ts else z3.RealVal(0))
    return outs, set(low)


def as_zl(x):
    if isinstance(x, ZL):
        return x
    return ZL.from_poly(Poly.coerce(x))


def _units(*zls):
    s = set()
    for z in zls:
        for u in z.d:
            for v, _ in u:
                s.add(v)
    return s


def make_solver(timeout=None):
    s = z3.Solver()
    s.set('timeout', timeout or TIMEOUT_MS)
    return s


def check(assertions, timeout=None, expect=None):
    """one SMT query; returns (verdict, model or None)"""
    s = make_solver(timeout)
    for a in assertions:
        s.add(a)
    t0 = time.time()
    r = s.check()
    STATS.time += time.time() - t0
    STATS.queries += 1
    if r == z3.unsat:
        STATS.unsat += 1
        return 'unsat', None
    if r == z3.sat:
        STATS.sat += 1
        return 'sat', s.model()
    STATS.unknown += 1
    return 'unknown', None


def inverse_axioms(us):
    from .poly import INVERSES, ROOTS
    out, todo, done = [], list(us), set()
    while todo:
        v = todo.pop()
        if v in ROOTS and v not in done:
            done.add(v)
            p, n = ROOTS[v]
            z = as_zl(p)
            todo.extend(_units(z))
            (ta, tb), _ = clear(as_zl(Poly({((v, n),): Fraction(1)})), z)
            out += [ta == tb, zvar(v) > 0]
            continue
        if v in done or v not in INVERSES:
            continue
        done.add(v)
        z = as_zl(INVERSES[v])
        todo.extend(_units(z))
        (ta, tb), _ = clear(z * as_zl(Poly({((v, 1),): Fraction(1)})), as_zl(1))
        out.append(ta == tb)
    return out


def equal(a, b, assume=(), positive=(), timeout=None, witness=True):
    """Decide: for all values of all variables satisfying the assumptions,
    a == b.  Returns (True, None) | (False, model) ; raises Inconclusive."""
    a, b = as_zl(a), as_zl(b)
    (ta, tb), _ = clear(a, b)
    pre = list(assume)
    us = _units(a, b)
    pre += inverse_axioms(us)
    for v in us:
        pre.append(zvar(v) > 0 if v in positive else zvar(v) != 0)
    if witness:
        # vacuity guard: the assumptions alone are satisfiable
        r, _ = check(pre, timeout)
        if r != 'sat':
            raise Inconclusive('assumptions not shown satisfiable: %s' % r)
        STATS.witness += 1
    r, m = check(pre + [ta != tb], timeout)
    if r == 'unsat':
        return True, None
    if r == 'sat':
        return False, m
    raise Inconclusive('solver returned unknown')


def model_values(m, vars_):
    """{var id: Fraction} for the given variable ids (default 0/1)"""
    out = {}
    for v in vars_:
        x = m.eval(zvar(v), model_completion=True) if m is not None else None
        out[v] = to_fraction(x)
    return out


def to_fraction(x):
    if z3.is_algebraic_value(x):
        x = x.approx(30)
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_int_value(x):
        return Fraction(x.as_long())
    raise Inconclusive('cannot read model value %s' % x)
