"""Families of PDE systems.  Coefficients, forcings and fields are undefined
functions: each family stands for every smooth choice of them (they become the
universally quantified jets of the queries)."""
import sympy
from sympy import Function, Derivative as D, symbols, exp, sqrt, Rational, Integer
from sympkf.symbolic.util import Eq
from sympkf.symbolic.constants import t

x, y, z = symbols('x y z')


def f(n, *a):
    return Function(n)(*a)


def build(name):
    """list of Eq for a family name"""
    return FAMILIES[name]()


FAMILIES = {}


def fam(fn):
    FAMILIES[fn.__name__] = fn
    return fn


def A(*names):
    return [f(n, t, x) for n in names]


@fam
def lin1d():
    u, F, a, b, c = A('u', 'F', 'a', 'b', 'c')
    return [Eq(D(u, t), F + a * u + b * D(u, x) + c * D(u, x, 2))]


@fam
def quad1d():
    u, F, a, b, c, d = A('u', 'F', 'a', 'b', 'c', 'd')
    return [Eq(D(u, t), F + a * u**2 + b * u * D(u, x) + c * u * D(u, x, 2) + d * D(u, x)**2)]


@fam
def third1d():
    u, a, b, c = A('u', 'a', 'b', 'c')
    return [Eq(D(u, t), a * u**3 + b * u**2 * D(u, x) + c * D(u, x, 3))]


@fam
def quart1d():
    u, a = A('u', 'a')
    k = symbols('kappa')
    return [Eq(D(u, t), a * u**4 - k * D(u, x, 4))]


@fam
def flux1d():
    """conservative form, derivatives of expressions"""
    u, a, k = A('u', 'a', 'kap')
    return [Eq(D(u, t), -D(u**2 / 2, x) + D(k * D(u, x), x) - D(a * u, x))]


@fam
def exp1d():
    u, a, b = A('u', 'a', 'b')
    return [Eq(D(u, t), a * exp(u) + b / u)]


@fam
def trig1d():
    u, a, b = A('u', 'a', 'b')
    return [Eq(D(u, t), a * sympy.sin(u) + b * sympy.cos(u) * D(u, x))]


@fam
def const1d():
    """scalar constants, coefficient independent of time, explicit coordinate"""
    u = f('u', t, x)
    c = f('c', x)
    k, al = symbols('kappa alpha')
    return [Eq(D(u, t), k * D(u, x, 2) - c * D(u, x) + al * u + 2 * x * u)]


@fam
def latex1d():
    u, a, b = A('\\theta_{1}', '\\alpha', 'b')
    return [Eq(D(u, t), a * u + b * D(u, x) - u * D(u, x))]


@fam
def names1d():
    """names of the objects of the derivation"""
    u, g, V = A('E', 'g', 'V')
    k, e, d, s, r = symbols('\\varepsilon e dx \\sigma random')
    return [Eq(D(u, t), k * D(u, x, 2) + e * u * D(u, x) + g * u - d * D(V * u, x) + s * k**2 * V + r * u**2)]


@fam
def sysnames1d():
    u, v = A('V_u', 'u')
    k, e = symbols('\\varepsilon epsilon')
    return [Eq(D(u, t), k * v * D(u, x) + e * v), Eq(D(v, t), k**2 * D(u, x) + x * u * v)]


@fam
def label4():
    """couples of fields whose concatenated names are the same"""
    u, uv, uu, v, a, b = A('u', 'uv', 'uu', 'v', 'a', 'b')
    return [Eq(D(u, t), a * uv), Eq(D(uv, t), b * uu), Eq(D(uu, t), v + a * u), Eq(D(v, t), b * u)]


@fam
def lin2d():
    u, F, a, p, q = [f(n, t, x, y) for n in ['u', 'F', 'a', 'p', 'q']]
    return [Eq(D(u, t), F + a * u + p * D(u, x) + q * D(u, y))]


@fam
def nl2d():
    u, p, q = [f(n, t, x, y) for n in ['u', 'p', 'q']]
    return [Eq(D(u, t), p * u * D(u, x) + q * u**2 - D(u, x) * D(u, y))]


@fam
def diff2d():
    u, a, b, c = [f(n, t, x, y) for n in ['u', 'a', 'b', 'c']]
    return [Eq(D(u, t), a * D(u, x, 2) + b * D(u, x, y) + c * D(u, y, 2))]


@fam
def lin2d_yx():
    u, a, p, q, r = [f(n, t, y, x) for n in ['u', 'a', 'p', 'q', 'r']]
    return [Eq(D(u, t), a * u + p * D(u, x) + q * D(u, y) + r * D(u, x, y))]


@fam
def lin3d():
    u, a, p, q, r = [f(n, t, x, y, z) for n in ['u', 'a', 'p', 'q', 'r']]
    return [Eq(D(u, t), a * u + p * D(u, x) + q * D(u, y) + r * D(u, z))]


@fam
def nl3d():
    u, p, q = [f(n, t, x, y, z) for n in ['u', 'p', 'q']]
    return [Eq(D(u, t), p * u * D(u, y) + q * D(u, x, z))]


@fam
def sys1d():
    u, v, a, b, c, p, q, r = A('u', 'v', 'a', 'b', 'c', 'p', 'q', 'r')
    return [Eq(D(u, t), a * u + b * v + c * D(u, x)), Eq(D(v, t), p * u + q * v + r * D(v, x))]


@fam
def sysmean1d():
    """moments of several fields and degrees in one mean equation"""
    u, v, a, b, c = A('u', 'v', 'a', 'b', 'c')
    return [Eq(D(u, t), a * D(v, x)**2 + b * D(u, x) * D(u, x, 2) + c * D(v, x) * D(v, x, 3)), Eq(D(v, t), a * D(u, x)**2 + u * v)]


@fam
def sysmean2d():
    u, v, a = [f(n, t, x, y) for n in ('u', 'v', 'a')]
    return [Eq(D(u, t), a * D(u, x) * D(u, y) + D(v, x) * D(v, x, y) + D(v, y)**2), Eq(D(v, t), a * u)]


@fam
def sysgrad1d():
    """shallow-water like coupling through derivatives"""
    u, h, g, c = A('u', 'h', 'g', 'c')
    return [Eq(D(u, t), -u * D(u, x) - g * D(h, x)), Eq(D(h, t), -D(u * h, x) + c * D(h, x, 2))]


@fam
def sysnl1d():
    u, v, a, b, c = A('u', 'v', 'a', 'b', 'c')
    return [Eq(D(u, t), -u * D(u, x) + a * u * v),
            Eq(D(v, t), -u * D(v, x) - b * u * v + c * D(v, x, 2))]


@fam
def sysord1d():
    """names whose alphabetical order differs from the equation order"""
    u, v, a, b = A('w', 'c1', 'a', 'b')
    return [Eq(D(u, t), a * v * D(u, x)), Eq(D(v, t), b * u**2 + D(u, x) * v)]


@fam
def sysrat1d():
    u, v, a, b = A('u', 'v', 'a', 'b')
    return [Eq(D(u, t), a * u * v / (1 + u)), Eq(D(v, t), -b * D(v, x) - u * v)]


@fam
def sys3():
    u, v, w, a, b, c, d = A('u', 'v', 'w', 'a', 'b', 'c', 'd')
    return [Eq(D(u, t), a * v * w - D(u, x)), Eq(D(v, t), b * u + c * v * D(w, x)),
            Eq(D(w, t), d * w - u * v)]


@fam
def sys2d():
    u, v, a, b, c = [f(n, t, x, y) for n in ['u', 'v', 'a', 'b', 'c']]
    return [Eq(D(u, t), -u * D(u, x) - v * D(u, y) + a * v), Eq(D(v, t), -u * D(v, x) - v * D(v, y) - b * u)]


@fam
def hyper1d():
    """fifth and sixth derivatives"""
    u, a, b = A('u', 'a', 'b')
    return [Eq(D(u, t), a * D(u, x, 5) + b * D(u, x, 6))]


@fam
def time1d():
    """explicit time, functions of the time only"""
    u, g, w = f('u', t, x), f('g', t), symbols('w')
    return [Eq(D(u, t), sympy.cos(w * t) * D(u, x) + t * x * u**2 + g * exp(x) * D(u, x, 2))]


@fam
def sqrt1d():
    u, a, b = A('u', 'a', 'b')
    return [Eq(D(u, t), a * D(sqrt(u), x) + b * sympy.log(u) * D(u, x) + u**Rational(3, 2))]


@fam
def tanh1d():
    u, a, b = A('u', 'a', 'b')
    return [Eq(D(u, t), a * sympy.tanh(u) + b * u**3)]


@fam
def grad1d():
    """nonlinear in the derivatives only"""
    u, a, b = A('u', 'a', 'b')
    return [Eq(D(u, t), a * D(u, x)**3 + b * u * D(u, x) * D(u, x, 2))]


@fam
def pos1d():
    """a field declared positive"""
    u, a = Function('u', positive=True)(t, x), f('a', t, x)
    return [Eq(D(u, t), a * u * D(u, x) + a * D(u, x, 2))]


@fam
def nest1d():
    """functions of several fields and of derivatives"""
    u, v, a, b = A('u', 'v', 'a', 'b')
    return [Eq(D(u, t), a * exp(u * v) + D(sympy.sin(u), x)), Eq(D(v, t), b * sympy.sin(D(u, x)))]


@fam
def part2d():
    """coefficients of some of the coordinates"""
    u, c, d, e = f('u', t, x, y), f('c', y), f('d', t), f('e', x)
    return [Eq(D(u, t), c * D(u, x) + d * u**2 + D(e * D(u, x), x) + x * y * D(u, y))]


@fam
def third2d():
    u, a, b = [f(n, t, x, y) for n in ['u', 'a', 'b']]
    return [Eq(D(u, t), a * D(u, x, 2, y) + b * u * D(u, y, 2))]


@fam
def perm3d():
    # names of coordinates of which the concatenations are ambiguous, in another order than the alphabetical one
    z, y = sympy.symbols('xy yx')
    u, a, b, c = [f(n, t, z, x, y) for n in ['u', 'a', 'b', 'c']]
    return [Eq(D(u, t), a * D(u, x) + b * D(u, z) + c * u * D(u, y))]


@fam
def perm3d2():
    u, a, b, c = [f(n, t, z, x, y) for n in ['u', 'a', 'b', 'c']]
    return [Eq(D(u, t), a * D(u, x, y) + b * D(u, z) + c * u * D(u, y))]


@fam
def sysyx():
    u, v, a, b = [f(n, t, y, x) for n in ['v', 'u', 'a', 'b']]
    return [Eq(D(u, t), a * v * D(u, x)), Eq(D(v, t), b * D(u, x, y) - v * D(v, y))]


@fam
def sys4():
    u, v, w, q, a, b, c, d = A('u', 'v', 'w', 'q', 'a', 'b', 'c', 'd')
    return [Eq(D(u, t), a * D(v, x)), Eq(D(v, t), b * w * q), Eq(D(w, t), c * D(q, x) - u), Eq(D(q, t), d * q + w * D(u, x))]


def rand_family(seed, two=None):
    """a random polynomial PDE (used by the thorough tier; every coefficient is
    still a generic function)"""
    import random
    rng = random.Random(seed)
    two = rng.random() < .4 if two is None else two
    u = f('u', t, x)
    v = f('v', t, x)
    fields = [u, v] if two else [u]
    eqs = []
    n = 0
    for w in fields:
        terms = []
        for _ in range(rng.randint(1, 3)):
            m = f('a%d' % n, t, x)
            n += 1
            for _ in range(rng.randint(1, 3)):
                k = rng.choice([0, 0, 1, 1, 2])
                fld = rng.choice(fields)
                m = m * (D(fld, x, k) if k else fld)
            terms.append(m)
        eqs.append(Eq(D(w, t), sum(terms)))
    return eqs


@fam
def trend1d():
    """coefficients that are time derivatives"""
    u, a, b, c = A('u', 'a', 'b', 'c')
    return [Eq(D(u, t), D(a, t) * u + b * D(u, x) + D(c, t, x))]


@fam
def trends1d():
    v, w, a, b = A('v', 'w', 'A', 'z')
    return [Eq(D(w, t), D(a, t) * v * w - D(b, t) * D(w, x)), Eq(D(v, t), D(b, x, t) * w + a)]


@fam
def many1d():
    """many moments of several degrees"""
    u, c = A('u', 'c')
    k, m = symbols('kappa mu')
    return [Eq(D(u, t), -u * D(u, x) + c * D(u, x, 2) + k * D(u, x, 3) + m * D(u, x, 4))]


@fam
def five1d():
    """numbered fields"""
    u = A('u_2', 'u_10', 'u_1', 'u_11', 'u_21')
    a, b = A('a', 'b')
    return [Eq(D(u[i], t), (a if i % 2 else b) * u[(i + 1) % 5] - (i + 1) * D(u[(i + 2) % 5], x)) for i in range(5)]
