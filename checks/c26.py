"""C26: LaTeX names to program names"""
import itertools
import keyword

from lib import z3q
from lib.concolic import explore
from lib.harness import Violation
from lib.symstr import SStr, guarded, equal, code, TRUE, FALSE
from lib.z3q import z3

PROPERTY = 'C26'
LEVEL = 'other'
EXPLANATION = (
    'clean_latex_name is run on strings whose characters are symbolic (a str carrying a list of guarded character terms; '
    'replacements and concatenations are exact on the terms, tests are branches). For each length Z3 decides, over all '
    'characters of the alphabet, that the result is the specified name, that names that start with a letter or backslash-letter '
    'give valid identifiers which are no keyword, that converting again changes nothing, and that the paths cover all strings.')
OUTSIDE = 'longer names; characters outside the alphabet; two different names that become the same identifier'
ASSUMPTIONS = ['alphabet: letters, digits, _ { } \\ ^ ,']

ALPHABET = [chr(c) for c in range(ord('a'), ord('z') + 1)] + [chr(c) for c in range(ord('A'), ord('Z') + 1)] + list('0123456789_{}\\^,')
SMALL = list('aA1_{}\\^,')
SMALLER = {4: [list('a{}^'), list('a\\,')], 5: [list('a{}^'), list('a\\,')], 6: [list('a{}'), list('a\\,')]}


def clean(s):
    from sympkf.symbolic.tool import clean_latex_name
    return clean_latex_name(s)


class Named(object):
    """anything whose text is the name"""

    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


def cases(tier, seed):
    n = 9 if tier == 'quick' else 14
    out = [('string/%d' % k, 'names', dict(n=k, how='str')) for k in range(n + 1)]
    out += [('object/%d' % k, 'names', dict(n=k, how='obj')) for k in (1, 3, 5)]
    out += [('keywords', 'keywords', {}), ('symbols', 'objects', {})]
    return out


def weight(name):
    return 9 if '/9' in name or '/14' in name else 0


def is_letter(c):
    return z3.Or(z3.And(z3.UGE(c, 97), z3.ULE(c, 122)), z3.And(z3.UGE(c, 65), z3.ULE(c, 90)))


def is_word(c):
    return z3.Or(is_letter(c), z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), c == 95)


def in_alphabet(c):
    return z3.Or([is_word(c)] + [c == ord(x) for x in '{}\\^,'])


def spec(cs):
    """guarded characters of the specified name, before the keyword rule"""
    out = []
    for p, c in cs:
        out.append((z3.And(p, z3.Not(z3.Or([c == ord(x) for x in '\\{}']))), z3.If(z3.Or(c == 94, c == 44), code('_'), c)))
    return out


def is_keyword(g):
    return z3.Or([FALSE] + [equal(g, guarded(k)) for k in keyword.kwlist if len(k) <= len(g)])


def names(ctx, n, how):
    ctx.fn('clean_latex_name')
    V = {'c%d' % i: z3.BitVec('c%d' % i, 8) for i in range(n)}
    ax = [in_alphabet(v) for v in V.values()]
    if not V:
        V = {'dummy': z3.Int('dummy')}
        ax = [V['dummy'] == 0]
    cs = [V['c%d' % i] for i in range(n)]
    base = spec([(TRUE, c) for c in cs])
    kw = is_keyword(base)
    want = base + [(kw, code('_'))]
    escaped = [False]

    def prog(v):
        s = SStr(''.join(chr(int.__int__(v['c%d' % i])) for i in range(n)), [(TRUE, c) for c in cs])
        r = clean(Named(s) if how == 'obj' else s)
        if not isinstance(r, SStr) and n:
            escaped[0] = True
        return r, clean(r)

    def claims(v, o):
        r, again = (guarded(x) for x in o)
        start = FALSE
        if n >= 1:
            start = is_letter(cs[0])
        if n >= 2:
            start = z3.Or(start, z3.And(cs[0] == 92, is_letter(cs[1])))
        words = z3.And([TRUE] + [z3.Implies(p, is_word(c)) for p, c in r])
        first = FALSE
        for p, c in reversed(r):
            first = z3.If(p, z3.Or(is_letter(c), c == 95), first)
        valid = z3.And(words, first, z3.Not(is_keyword(r)))
        return [('name', equal(r, want)), ('identifier', z3.Implies(start, valid)), ('idempotent', equal(again, r))]
    rep = lambda vals: (lambda r: r[1] if r[0] else None)(r_names(text(n, vals), how))
    try:
        bad = explore(V, ax, prog, claims, rep, ctx, limit=400)
    except z3q.Inconclusive:
        if not escaped[0]:
            raise
        # the characters left the terms: explore smaller domains, up to 6 characters
        if n > 6:
            ctx.skipped += 1
            ctx.bound(not_encodable_length=n)
            return
        bad = None
        for domain in ([SMALL] if n <= 3 else SMALLER[n]):
            small = [z3.Or([v == ord(x) for x in domain]) for v in V.values() if v is not V.get('dummy')]
            bad = bad or explore(V, ax + small, prog, claims, rep, ctx, limit=5000)
    if bad:
        raise Violation('names/%d' % n, bad[1], 'r_names', dict(s=text(n, bad[0]), how=how))
    ctx.bound(length=n, kind=how)
    ctx.obligation('names/%s/%d' % (how, n))
    ctx.sample('forall strings of length %d over the alphabet: clean_latex_name is the specified identifier' % n)


def text(n, vals):
    return ''.join(chr(vals['c%d' % i]) for i in range(n))


def specified(s):
    r = ''.join(c for c in s if c not in '\\{}').replace('^', '_').replace(',', '_')
    return r + '_' if keyword.iskeyword(r) else r


def r_names(s, how):
    try:
        r = clean(Named(s) if how == 'obj' else s)
        again = clean(r)
    except Exception as e:
        return True, 'clean_latex_name(%r) raises %r' % (s, e)
    return str(r) != specified(s) or str(again) != str(r), 'clean_latex_name(%r) = %r, expected %r; again %r' % (s, r, specified(s), again)


def keywords(ctx):
    """every keyword with symbolic decorations (a removed character at a symbolic place)"""
    ctx.fn('clean_latex_name')
    for k in keyword.kwlist + keyword.softkwlist:
        V = {'p': z3.Int('p'), 'c': z3.BitVec('c', 8)}
        ax = [V['p'] >= 0, V['p'] <= len(k), z3.Or([V['c'] == ord(x) for x in '\\{}'])]

        def prog(v):
            p = v['p'].pin()
            s = SStr(k[:p] + chr(int.__int__(v['c'])) + k[p:], guarded(k[:p]) + [(TRUE, V['c'])] + guarded(k[p:]))
            r = clean(s)
            return r, clean(r), clean(SStr(k, guarded(k)))
        w = guarded(specified(k))
        claims = lambda v, o: [('name %d' % i, equal(guarded(x), w)) for i, x in enumerate(o)]

        def rep(vals):
            s = k[:vals['p']] + chr(vals['c']) + k[vals['p']:]
            r = r_names(s, 'str')
            r = r if r[0] else r_names(k, 'str')
            return r[1] if r[0] else None
        bad = explore(V, ax, prog, claims, rep, ctx)
        if bad:
            raise Violation('keyword/%s' % k, bad[1], 'r_keyword', dict(k=k, p=bad[0]['p'], c=bad[0]['c']))
    ctx.obligation('keywords')
    ctx.bound(keywords=len(keyword.kwlist + keyword.softkwlist))


def r_keyword(k, p, c):
    r = r_names(k[:p] + chr(c) + k[p:], 'str')
    return r if r[0] else r_names(k, 'str')


LABELS = ['x', 'x_1', '\\kappa_{11}', '\\nu_{u,xx}', 'V_{u}', '\\lambda', 'c^2', 'u^{a,b}', 'dx', 'in']


def objects(ctx):
    """sympy objects are named by their text; decided character by character on the sympy names"""
    from sympy import Symbol, Function, symbols
    ctx.fn('clean_latex_name')
    for n, l in enumerate(LABELS):
        for kind, o in (('symbol', Symbol(l)), ('function class', Function(l)), ('applied', Function(l)(symbols('t')).func)):
            r = str(clean(o))
            i = z3.Int('i')
            w = specified(l)
            at = lambda s: z3.Sum([z3.IntVal(0)] + [z3.If(i == j, ord(c), 0) for j, c in enumerate(s)])
            st, m = z3q.check([i >= 0, i <= max(len(r), len(w)), at(r) != at(w)])
            if st != 'unsat':
                raise Violation('object/%s/%s' % (kind, l), '%s %s is named %r, expected %r' % (kind, l, r, w), 'r_object', dict(l=l))
    ctx.obligation('objects')
    ctx.bound(labels=len(LABELS))


def r_object(l):
    from sympy import Symbol, Function
    got = {str(clean(Symbol(l))), str(clean(Function(l)))}
    return got != {specified(l)}, '%r is named %s' % (l, got)
