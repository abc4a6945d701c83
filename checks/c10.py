"""C10: moment substitutions are identities of normalised random fields"""
import itertools

import sympy
from sympy import Derivative

from lib import pkfcheck, conc, z3q
from lib.harness import Violation
from lib.pkfcheck import make, equations
from lib.sem import value

PROPERTY = 'C10'
PLAIN_INPUTS = True
LEVEL = 'translation_validation'
EXPLANATION = (
    'The substitution trees and the internal closures are computed by the real Field / UnivariateTree / SymbolicPKF. Key and '
    'replacement are evaluated on a generic centred unit-variance random field: every moment E[d^a eps d^b eps], every jet of '
    'the variances is a universally quantified real, the derivatives of E[eps^2]=1 are the axioms; Z3 decides key == '
    'replacement for every entry. Presence of every moment of both orders >= 1 up to the requested degree, and the form of '
    'the replacements, are decided over all multi-indices of the degree.')
OUTSIDE = 'degrees above the stated ones; dimension above 3'
ASSUMPTIONS = ['centred unit-variance normalised error', 'standard deviation > 0', 'smooth fields', 'C(a,b) ensembles with second moments']

# histories of requested degrees
HIST = {1: [(6,), (2, 5, 3), (1, 4), (7,), (0, 2)], 2: [(4,), (3, 2, 5)], 3: [(3,), (2, 4)]}
DEEP = {1: [(9,), (3, 8, 4), (10,)], 2: [(6,), (2, 6, 4)], 3: [(5,), (3, 5)]}
FAMS = {'lin1d': 1, 'latex1d': 1, 'lin2d': 2, 'lin2d_yx': 2, 'lin3d': 3, 'sys1d': 1, 'sysord1d': 1, 'sys3': 1, 'sys2d': 2}


def cases(tier, seed):
    out = []
    for fam, d in FAMS.items():
        out.append(('internal/%s' % fam, 'internal', dict(fam=fam)))
        out.append(('relations/%s' % fam, 'relations', dict(fam=fam)))
        if fam in ('latex1d', 'sys3'):
            continue
        hs = HIST[d] if tier == 'quick' or fam.startswith('sys') else HIST[d] + DEEP[d]
        for h in hs:
            for mode in ('field', 'pkf', 'raw'):
                if mode != 'field' and h != hs[0]:
                    continue
                out.append(('tree/%s/%s/%s' % (fam, mode, '-'.join(map(str, h))), 'tree', dict(fam=fam, h=list(h), mode=mode)))
    return out


def weight(name):
    return 10 * ('3d' in name) + 5 * ('2d' in name) + ('6' in name)


def indices(n, d):
    return [a for a in itertools.product(range(d + 1), repeat=n) if sum(a) == d]


def D(eps, space, a):
    c = [(s, k) for s, k in zip(space, a) if k]
    return Derivative(eps, *c) if c else eps


def moments(mf, degree):
    from sympkf import Expectation
    S = mf.spatial_coordinates
    n = len(S)
    out = []
    for d1 in range(1, degree):
        for d2 in range(1, degree - d1 + 1):
            for a in indices(n, d1):
                for b in indices(n, d2):
                    if a <= b:
                        out.append(Expectation((D(mf.epsilon, S, a) * D(mf.epsilon, S, b)).doit()))
    return out


def allowed(e, mf, raw):
    """expectations in a replacement: only E[eps D^c eps]"""
    from sympkf import Expectation
    S = mf.spatial_coordinates
    for m in e.atoms(Expectation):
        ds = [q for q in m.atoms(Derivative)]
        if len(ds) > 1 or any(m != Expectation(mf.epsilon * q) for q in ds):
            return m
        if not ds and m != Expectation(mf.epsilon**2):
            return m
    return None


def get_trees(fam, h, mode):
    """[(degree, field index, tree)] given by the real code"""
    eqs, pkf, st = make(fam)
    out = []
    for n, u in enumerate(st.fields):
        mf = st.mf[u]
        if mode == 'raw':
            from sympkf.symbolic.pkfcas import UnivariateTree
            T = UnivariateTree(mf.epsilon, mf.spatial_coordinates, self_substitute=False)
        else:
            T = mf.subs_tree
        for d in h:
            tr = T(d)
            out.append((d, n, dict(tr)))
        if mode == 'pkf':
            keys = set(tr)
            out.append((h[-1], n, {k: v for k, v in pkf.subs_tree.items() if mf.epsilon.func in {f.func for f in k.atoms(sympy.Function)}}))
    return st, out


def check_tree(st, d, n, tr, mode):
    """first defect found without solver: (what, key) or None"""
    mf = st.mf[st.fields[n]]
    for m in moments(mf, d):
        if m not in tr:
            return 'moment %s of degree <= %d is missing' % (m, d), str(m)
    if mode != 'raw':
        for k, v in tr.items():
            bad = allowed(v, mf, mode)
            if bad is not None:
                return 'the replacement of %s contains %s' % (k, bad), str(k)
    return None


def tree(ctx, fam, h, mode):
    ctx.fn('UnivariateTree', 'Field.subs_tree', 'SymbolicPKF.subs_tree', 'PartialOrderDerivative.all_of_degree')
    args = dict(fam=fam, h=h, mode=mode)
    try:
        st, trees = get_trees(fam, h, mode)
    except Exception as e:
        raise Violation('%s/%s/%s/exc' % (fam, h, mode), 'tree of %s for degrees %s raises %r' % (fam, h, e), 'r_tree', args)
    env = st.env_out()
    done = set()
    for d, n, tr in trees:
        bad = check_tree(st, d, n, tr, mode)
        if bad:
            raise Violation('%s/%s/%s' % (fam, mode, bad[1]), '%s, degrees %s: %s' % (fam, h, bad[0]), 'r_tree', args)
        for k, v in tr.items():
            if (k, v) in done:
                continue
            done.add((k, v))
            ok, _ = st.prove(v, value(k, env), env=env)
            if not ok:
                raise Violation('%s/%s/%s' % (fam, mode, k), '%s: %s is not %s' % (fam, k, v), 'r_tree', args)
        ctx.programs += 1
        ctx.obligation('%s degree %d field %d: %d entries' % (fam, d, n, len(tr)))
    if done:
        ctx.sample('forall normalised fields: %s = %s' % tuple(max(done, key=lambda p: len(str(p[1])))))
    ctx.bound(family=fam, degrees=list(h))


def internal(ctx, fam):
    ctx.fn('Field.internal_closure', 'SymbolicPKF.internal_closure')
    args = dict(fam=fam)
    try:
        eqs, pkf, st = make(fam)
        entries = [('pkf', dict(pkf.internal_closure))] + [('field', dict(st.mf[u].internal_closure)) for u in st.fields]
    except Exception as e:
        raise Violation('%s/internal/exc' % fam, 'internal closure of %s raises %r' % (fam, e), 'r_internal', args)
    env = st.env_out()
    for lab, tab in entries:
        for k, v in tab.items():
            ok, _ = st.prove(v, value(k, env), env=env)
            if not ok:
                raise Violation('%s/internal/%s' % (fam, k), '%s: internal closure: %s is not %s' % (fam, k, v), 'r_internal', args)
            ctx.obligation(str(k))
        ctx.programs += 1
    miss = missing(st, pkf)
    if miss is not None:
        raise Violation('%s/internal/missing/%s' % (fam, miss), '%s: no internal closure of %s' % (fam, miss), 'r_internal', args)
    ctx.sample('forall: %s = %s' % max(((str(k), str(v)) for k, v in entries[0][1].items()), key=lambda p: len(p[1])))
    ctx.bound(family=fam)


def relation_pairs(st):
    """the documented relations of third-order moments with the metric: [(label, moment, replacement)]"""
    from sympkf.symbolic import pkfcas
    for u in st.fields:
        mf = st.mf[u]
        S = list(mf.spatial_coordinates)
        metric = lambda a, b: mf.metric_func(S.index(a), S.index(b))
        for kij in itertools.product(S, repeat=3):
            for nm in ('gamma', 'skewness'):
                if not hasattr(pkfcas, nm + '_def') or not hasattr(pkfcas, nm + '_subs'):
                    continue            # not used by the dynamics
                yield '%s%s' % (nm, kij), getattr(pkfcas, nm + '_def')(mf.epsilon, *kij), getattr(pkfcas, nm + '_subs')(metric, *kij)


def wanted(st, label, i):
    """E[d_k eps d_ij eps] or E[eps d_kij eps], from the label"""
    from sympkf import Expectation
    mf = st.mf[st.fields[i]]
    kij = itertools.product(mf.spatial_coordinates, repeat=3)
    for k in kij:
        if label == 'gamma%s' % (k,):
            return Expectation((Derivative(mf.epsilon, k[0]) * Derivative(mf.epsilon, k[1], k[2])).doit())
        if label == 'skewness%s' % (k,):
            return Expectation((mf.epsilon * Derivative(mf.epsilon, *k)).doit())


def relation_rows(fam):
    eqs, pkf, st = make(fam)
    rows, n, last = [], -1, None
    seen = set()
    for lab, k, v in relation_pairs(st):
        if lab in seen or n < 0:
            n, seen = n + 1, set()
        seen.add(lab)
        rows.append((lab, n, k, v))
    return st, rows


def relations(ctx, fam):
    ctx.fn('gamma_def', 'gamma_subs', 'skewness_def', 'skewness_subs')
    args = dict(fam=fam)
    try:
        st, rows = relation_rows(fam)
    except Exception as e:
        raise Violation('%s/relations/exc' % fam, 'relations of %s: %r' % (fam, e), 'r_relations', args)
    env = st.env_out()
    for lab, n, k, v in rows:
        want = wanted(st, lab, n)
        for what, e in (('the moment', k), ('the replacement', v)):
            ok, _ = st.prove(e, value(want, env), env=env)
            if not ok:
                raise Violation('%s/%s' % (fam, lab), '%s: %s %s given for %s' % (fam, what, e, want), 'r_relations', args)
        ctx.obligation('%s/%s/%d' % (fam, lab, n))
    if rows:
        ctx.sample('forall normalised fields: %s = %s' % rows[-1][2:])
    ctx.bound(family=fam)


def r_relations(fam):
    try:
        st, rows = relation_rows(fam)
    except Exception as e:
        return True, 'raises %r' % (e,)
    for lab, n, k, v in rows:
        want = wanted(st, lab, n)
        for e in (k, v):
            r = _compare(st, want, e, 6)
            if r:
                return True, r
    return False, 'identities hold'


def missing(st, pkf):
    """statistics of the closure that the dynamics rely on"""
    from sympkf import Expectation as E
    want = []
    for u in st.fields:
        mf = st.mf[u]
        S = mf.spatial_coordinates
        n = len(S)
        want += [E(mf.error), E(mf.error**2), E(mf.epsilon), E(mf.epsilon**2)]
        for k in (1, 2, 3):
            want += [E((mf.epsilon * D(mf.epsilon, S, a)).doit()) for a in indices(n, k)]
    for a, u in enumerate(st.fields):
        for v in st.fields[a + 1:]:
            want += [E(st.mf[u].error * st.mf[v].error), E(st.mf[u].epsilon * st.mf[v].epsilon)]
    for w in want:
        if w not in pkf.internal_closure:
            return w
    return None


# -- replay -----------------------------------------------------------------------

def _compare(st, k, v, K):
    for seed in (1, 2, 3):
        c = conc.Concrete(st, seed, K=K)
        a, b = c.at0(c.conc(k)), c.at0(c.conc(v))
        if sympy.simplify(a - b) != 0:
            return 'explicit ensemble (seed %d): %s = %s but its replacement %s = %s' % (seed, k, a, v, b)
    return None


def r_tree(fam, h, mode):
    try:
        st, trees = get_trees(fam, h, mode)
    except Exception as e:
        return True, 'raises %r' % (e,)
    for d, n, tr in trees:
        bad = check_tree(st, d, n, tr, mode)
        if bad:
            return True, bad[0]
    for d, n, tr in trees:
        for k, v in tr.items():
            r = _compare(st, k, v, max(6, d + 1))
            if r:
                return True, r
    return False, 'identities hold'


def r_internal(fam):
    try:
        eqs, pkf, st = make(fam)
        entries = [dict(pkf.internal_closure)] + [dict(st.mf[u].internal_closure) for u in st.fields]
    except Exception as e:
        return True, 'raises %r' % (e,)
    m = missing(st, pkf)
    if m is not None:
        return True, 'no closure of %s' % m
    for tab in entries:
        for k, v in tab.items():
            r = _compare(st, k, v, 6)
            if r:
                return True, r
    return False, 'identities hold'
