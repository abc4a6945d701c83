"""C31: two processes derive the same dynamics and the same models, whatever the order in which sets are iterated"""
import ast
import json
import os
import subprocess
import sys
import tempfile
from fractions import Fraction

import numpy
import sympy
from sympy import Function, Derivative, symbols

from lib import pdes, z3q, grid
from lib.grid import SHIM, array
from lib.harness import Violation, VERIF, PY, base_env
from lib.poly import Poly, vname, vid
from lib.sem import Env, value

PROPERTY = 'C31'
PLAIN_INPUTS = True
LEVEL = 'translation_validation'
EXPLANATION = (
    'The real derivation (and the generated source, executed on symbolic reals) runs in processes with different hash seeds, hence '
    'with different orders of iteration of the sets of functions, constants, derivatives and expectations. Each equation, each finite '
    'difference, each closed moment and each tendency is rebuilt from what the other process found, and Z3 decides that it is the same '
    'function of the fields, of the unclosed terms, of the parameters and of the exogenous functions given in the order of the model.')
OUTSIDE = 'hash seeds and systems outside the listed ones'
ASSUMPTIONS = ['smooth fields', 'exact arithmetic']

PKF = ['sysmean1d', 'sys1d', 'many1d', 'trends1d', 'quad1d', 'flux1d', 'lin2d', 'sysord1d']
DEEP = ['sys2d', 'sys3', 'lin2d_yx', 'latex1d', 'quart1d', 'third1d', 'lin3d', 'sys4']
MODELS = ['exo4', 'exo3 exo2 sys3 sys2rev flux', 'mix2 sw2 adv2 dnames', 'theta exo d3 keyword']
LISTED = ['finite', 'closure', 'mean']
SYSTEMS = ['expectation_system', 'error_system', 'variance_system', 'std_system', 'epsilon_system', 'metric_system',
           'cross_covariance_system', 'in_metric', 'in_diffusion', 'in_aspect']


def seeds(tier, seed):
    return [(seed * 101 + n * n * 7 + n) % 100003 for n in range(6 if tier == 'quick' else 16)]


def cases(tier, seed):
    hs = seeds(tier, seed)
    out = []
    for f in PKF + (DEEP if tier == 'thorough' else []):
        if f in pdes.FAMILIES:
            out.append(('pkf/' + f, 'compare', dict(kind='pkf', name=f, hs=hs[:len(hs) // 2])))
    for k in LISTED:
        out.append(('list/' + k, 'compare', dict(kind='list', name=k, hs=hs)))
    for m in MODELS:
        out.append(('model/' + m, 'compare', dict(kind='model', name=m, hs=hs)))
        out.append(('manifold/' + m, 'compare', dict(kind='manifold', name=m, hs=hs)))
    return out


def weight(name):
    return 20 * ('sys2d' in name) + 8 * ('3d' in name) + 5 * ('2d' in name) + 4 * ('pkf' in name) + ('sys' in name)


# -- what one process finds -----------------------------------------------------------

def opaque(e, coords):
    """expectations -> unknown fields named after what they average"""
    from sympkf import Expectation

    def walk(q):
        if isinstance(q, Expectation):
            return Function('E[%s]' % q)(*coords)
        if not q.args or not q.has(Expectation):
            return q
        return q.func(*[walk(a) for a in q.args])
    return walk(sympy.sympify(e).doit())


def found_pkf(name):
    from sympkf import SymbolicPKF
    eqs = pdes.build(name)
    coords = max((e.args[0].args[0].args for e in eqs), key=len)
    p = SymbolicPKF(list(eqs))
    out = []
    for s in SYSTEMS:
        for e in getattr(p, s) or []:
            out.append(['%s: %s' % (s, e.args[0]), sympy.srepr(opaque(e.args[1], coords))])
    out += [['unclosed: %s' % q, '0'] for q in sorted(map(str, p.unclosed_terms))]
    return out


def found_list(name):
    from checks import c30
    make, exprs, _ = c30.LISTS[name]
    exprs = exprs()
    out = []
    for n, e in enumerate(make(exprs)):
        if name == 'finite':
            e = e.xreplace({f: sympy.Symbol('p_%s' % f) for f in e.atoms(sympy.core.function.AppliedUndef)})
        out.append(['%s of %s' % (name, exprs[n] if name != 'closure' else n), sympy.srepr(opaque(e, (c30.t, c30.x, c30.y)))])
    if name == 'closure':
        out += [['keys %d: %s' % (n, k), '0'] for n, ks in enumerate(c30.closure_keys(exprs)) for k in ks]
    return out


class Space(object):
    """base space that returns a symbolic array for each couple (field, orders)"""

    def __init__(self, dim, name_of, shape):
        self.dimension, self.name_of, self.shape = dim, name_of, shape

    def diff(self, a, *orders):
        o = tuple(sorted(zip(map(str, orders[::2]), orders[1::2])))
        return array(lambda i: Poly.var(('c', 'D', self.name_of(a), o, i)), self.shape)


def exo4():
    from sympkf.symbolic.util import Eq
    t, x = symbols('t x')
    u, f, g, h, q = [Function(n)(t, x) for n in ('u', 'f', 'g_1', 'h_{ext}', '\\psi')]
    a, b, c = [Function(n)(x) for n in 'abc']
    k = symbols('kappa alpha \\mu_{1}')
    return [Eq(Derivative(u, t), k[0] * f - k[1] * g * u + Derivative(h, x) + k[2] * q**2 * a + b * Derivative(c, x))]


def found_models(names, manifold=False):
    return [['%s %s' % (n, label), text] for n in names.split() for label, text in found_model(n, manifold)]


def found_model(name, manifold=False):
    import contextlib
    import io
    from checks.c14 import Problem, model_class, system, t
    from sympkf.symbolic import FDModelBuilder
    from sympkf.symbolic.model_builder_manifold import ManifoldModelBuilder
    grid.on()
    eqs = exo4() if name == 'exo4' else system(name)
    prob = Problem(eqs)
    shape = {1: (3,), 2: (2, 3), 3: (2, 2, 2)}[len(prob.space)]
    builder = ManifoldModelBuilder if manifold else FDModelBuilder
    cls, _ = model_class(builder(list(eqs) if len(eqs) > 1 else eqs[0], class_name='GenModel').code, SHIM)
    arrays = {n: array(lambda i, n=n: Poly.var(('c', 'f', n, i)), shape) for n in getattr(cls, 'constant_functions', ())}
    exo = [array(lambda i, n=n: Poly.var(('c', 'exo', n, i)), shape) for n in range(len(getattr(cls, 'exogenous_functions', ())))]
    kw = dict(arrays)
    from checks.c14 import clean
    for s in prob.symbols:
        kw[clean(s)] = Poly.var(('c', str(s)))
    n = len(prob.prog)
    state = array(lambda i: Poly.var(('c', 'st') + i), (n,) + shape)

    def name_of(a):
        return str(Poly.coerce(numpy.asarray(a, dtype=object).ravel()[0]))

    class Sub(cls):
        def compute_exogenous(self, time, st):
            return exo
    with contextlib.redirect_stdout(io.StringIO()):
        m = Sub(Space(len(prob.space), name_of, shape), **kw) if manifold else Sub(shape=shape, lengths=(2.0,) * len(shape), **kw)
    r = numpy.asarray(m.trend(Poly.var(('c', 't')), state), dtype=object)
    out = [['fields: %s' % (m.prognostic_functions,), '0']]
    for i in numpy.ndindex(*r.shape):
        p = Poly.coerce(r[i])
        out.append(['tendency %s' % (i,), repr([([(vname(v), e) for v, e in mono], str(c)) for mono, c in p.d.items()])])
    return out


def found_manifold(name):
    return found_models(name, True)


FOUND = dict(pkf=found_pkf, list=found_list, model=found_models, manifold=found_manifold)


def dump(argv):
    kind, name, out = argv
    try:
        r = FOUND[kind](name)
    except Exception as e:
        r = [['raises', repr(e)]]
    with open(out, 'w') as f:
        json.dump(r, f)


def elsewhere(kind, name, hashseed):
    fd, path = tempfile.mkstemp(suffix='.json')
    os.close(fd)
    try:
        p = subprocess.run([PY, '-W', 'ignore', '-c', 'import sys; from checks import c31; c31.dump(sys.argv[1:])', kind, name, path],
                           cwd=tempfile.gettempdir(), env=base_env(hashseed), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise RuntimeError('process ended: ' + p.stdout.decode(errors='replace')[-2000:])
        return json.load(open(path))
    finally:
        os.unlink(path)


# -- the decision ---------------------------------------------------------------------

def rebuild(kind, text, name):
    if kind in ('model', 'manifold'):
        d = {}
        for mono, c in ast.literal_eval(text):
            d[tuple(sorted((vid(v), e) for v, e in mono))] = Fraction(c)
        return Poly(d)
    from sympkf.symbolic.random import omega
    from checks import c30
    e = eval(text, dict(vars(sympy)))
    if kind == 'pkf':
        eqs = pdes.build(name)
        coords = max((q.args[0].args[0].args for q in eqs), key=len)
    else:
        coords = (c30.t, c30.x, c30.y)
    return value(e, Env(coords, omega))


def rows(kind, name, hs):
    """(hash seed, label, text in the first process or None, text in the other one or None)"""
    ref = None
    for h in hs:
        got = elsewhere(kind, name, h)
        if ref is None:
            ref = got
            continue
        a, b = dict(ref), dict(got)
        for label in list(a) + [q for q in b if q not in a]:
            yield h, label, a.get(label), b.get(label)


def compare(ctx, kind, name, hs):
    ctx.fn(*dict(pkf=('SymbolicPKF.' + s for s in SYSTEMS), list=('finite_difference', 'LocGaussianClosure', 'Expectation.eval'),
                 model=('FDModelBuilder', 'PDESystem', 'generated trend'), manifold=('ManifoldModelBuilder', 'generated trend'))[kind])
    args = dict(kind=kind, name=name, hs=hs)
    for h, label, a, b in rows(kind, name, hs):
        if 'raises' in (label,):
            raise Violation('%s/%s/raises' % (kind, name), '%s %s: %s / %s with the hash seeds %s, %s' % (kind, name, a, b, hs[0], h), 'r_compare', args)
        if a is None or b is None:
            raise Violation('%s/%s/%s' % (kind, name, label.split(':')[0]), '%s %s: "%s" with the hash seed %s only' % (
                kind, name, label, h if a is None else hs[0]), 'r_compare', args)
        if a == '0' == b:
            continue
        ok, _ = z3q.equal(rebuild(kind, a, name), rebuild(kind, b, name), witness=False)
        if not ok:
            raise Violation('%s/%s/%s' % (kind, name, label), '%s of %s is not the same with the hash seeds %s and %s:\n%s\n%s' % (
                label, name, hs[0], h, a[:300], b[:300]), 'r_compare', args)
        ctx.obligation('%s/%s' % (name, label[:60]))
    ctx.programs += len(hs)
    ctx.bound(hash_seeds=hs)
    ctx.sample('forall values: what is derived from %s is the same in %d processes' % (name, len(hs)))


# -- replay: the two results, on numbers -------------------------------------------------

def numbers(kind, text):
    """value at pseudo-random values of the variables"""
    import hashlib
    val = lambda k: Fraction(int(hashlib.md5(str(k).encode()).hexdigest()[:6], 16) % 997 + 100, 500)
    if kind in ('model', 'manifold'):
        s = Fraction(0)
        for mono, c in ast.literal_eval(text):
            q = Fraction(c)
            for v, e in mono:
                q *= val(v) ** e
            s += q
        return float(s)
    e = sympy.expand(eval(text, dict(vars(sympy))))
    while True:
        leaf = e.atoms(sympy.Derivative)
        if not leaf:
            break
        e = e.xreplace({q: sympy.Float(float(val(q)), 40) for q in leaf})
    e = e.xreplace({q: sympy.Float(float(val(q)), 40) for q in e.atoms(sympy.core.function.AppliedUndef)})
    e = e.xreplace({q: sympy.Float(float(val(q)), 40) for q in e.free_symbols})
    return float(e)


def r_compare(kind, name, hs):
    for h, label, a, b in rows(kind, name, hs):
        if label == 'raises':
            return True, '%s %s raises: %s / %s' % (kind, name, a, b)
        if a is None or b is None:
            return True, '"%s" with the hash seed %s only' % (label, h if a is None else hs[0])
        if a == '0' == b:
            continue
        p, q = numbers(kind, a), numbers(kind, b)
        if abs(p - q) > 1e-9 * (1 + abs(p)):
            return True, '%s of %s: %s with the hash seed %s, %s with %s' % (label, name, p, hs[0], q, h)
    return False, 'equal'
