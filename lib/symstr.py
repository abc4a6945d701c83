"""Strings with symbolic characters: a `str` (concrete value of the path) with a
list of guarded characters [(presence, code)]; replacements, translations and
concatenations are exact on the terms, tests are recorded as branches."""
import keyword

from .z3q import z3

from .concolic import note, SInt

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def code(c):
    return z3.BitVecVal(ord(c) & 255, 8)


def simp(t):
    return z3.simplify(t)


def guarded(s):
    return s.g if isinstance(s, SStr) else [(TRUE, code(c)) for c in s]


def length(g):
    return z3.Sum([z3.IntVal(0)] + [z3.If(p, 1, 0) for p, _ in g])


def conj(*ts):
    ts = [x for x in ts if not z3.is_true(x)]
    if any(z3.is_false(x) for x in ts):
        return FALSE
    return TRUE if not ts else ts[0] if len(ts) == 1 else z3.And(ts)


def disj(*ts):
    ts = [x for x in ts if not z3.is_false(x)]
    if any(z3.is_true(x) for x in ts):
        return TRUE
    return FALSE if not ts else ts[0] if len(ts) == 1 else z3.Or(ts)


def neg(x):
    return FALSE if z3.is_true(x) else TRUE if z3.is_false(x) else z3.Not(x)


def equal(g, h):
    """term: both guarded lists denote the same string"""
    g = [(simp(p), simp(c)) for p, c in g]
    h = [(simp(p), simp(c)) for p, c in h]
    g, h = [x for x in g if not z3.is_false(x[0])], [x for x in h if not z3.is_false(x[0])]
    # equality of the suffixes; an absent character is skipped on its own side first
    n, m = len(g), len(h)
    sure_g = [sum(z3.is_true(p) for p, _ in g[i:]) for i in range(n + 1)]
    sure_h = [sum(z3.is_true(p) for p, _ in h[j:]) for j in range(m + 1)]
    memo = {}

    def eq(i, j):
        k = (i, j)
        if k in memo:
            return memo[k]
        if n - i < sure_h[j] or m - j < sure_g[i]:
            r = FALSE
        elif i == n:
            r = conj(*[neg(p) for p, _ in h[j:]])
        elif j == m:
            r = conj(*[neg(p) for p, _ in g[i:]])
        else:
            (p, c), (q, d) = g[i], h[j]
            skip_g = FALSE if z3.is_true(p) else conj(neg(p), eq(i + 1, j))
            skip_h = FALSE if z3.is_true(q) else conj(p, neg(q), eq(i, j + 1))
            same = simp(c == d)
            both = FALSE if z3.is_false(same) else conj(p, q, same, eq(i + 1, j + 1))
            r = disj(skip_g, skip_h, both)
        memo[k] = r
        return r
    return eq(0, 0)


class SStr(str):
    def __new__(cls, value, g):
        o = str.__new__(cls, value)
        o.g = g
        return o

    def __str__(self):
        return self

    def replace(self, old, new, count=-1):
        raw = str.replace(self, old, new, count)
        if len(old) != 1 or isinstance(old, SStr) or isinstance(new, SStr) or not isinstance(count, int):
            return raw
        out = []
        seen = z3.BitVecVal(0, 16)
        for p, c in self.g:
            is_old = simp(c == code(old))
            if count >= 0:
                # the first ones only
                here = z3.And(p, is_old)
                is_old, seen = simp(z3.And(here, z3.ULT(seen, count))), simp(z3.If(here, seen + 1, seen))
            if z3.is_false(is_old):
                out.append((p, c))
            elif len(new) == 1:
                out.append((p, simp(z3.If(is_old, code(new), c))))
            else:
                out.append((simp(z3.And(p, z3.Not(is_old))), c))
                out += [(simp(z3.And(p, is_old)), code(q)) for q in new]
        return SStr(raw, out)

    def translate(self, table):
        raw = str.translate(self, table)
        if not isinstance(table, dict):
            return raw
        out = []
        for p, c in self.g:
            rest = p
            for k, v in table.items():
                hit = simp(z3.And(p, c == k))
                if z3.is_false(hit):
                    continue
                rest = simp(z3.And(rest, c != k))
                v = '' if v is None else chr(v) if isinstance(v, int) else v
                out += [(hit, code(q)) for q in v]
            out.append((rest, c))
        return SStr(raw, out)

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SStr(str.__add__(self, o), self.g + guarded(o))

    def __radd__(self, o):
        return SStr(str.__add__(o, self), guarded(o) + self.g)

    def join(self, items):
        items = list(items)
        out = []
        for n, s in enumerate(items):
            out += (guarded(self) if n else []) + guarded(s)
        return SStr(str.join(self, items), out)

    def __format__(self, spec):
        return self if not spec else str.__format__(self, spec)

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return note(equal(self.g, guarded(o)), str.__eq__(self, o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        # a hash is for a look-up: which keyword it is (none) decides the path
        note(z3.Or([FALSE] + [equal(self.g, guarded(k)) for k in keyword.kwlist + keyword.softkwlist if len(k) <= len(self.g)]),
             any(str.__eq__(self, k) for k in keyword.kwlist + keyword.softkwlist))
        if any(str.__eq__(self, k) for k in keyword.kwlist + keyword.softkwlist):
            note(equal(self.g, guarded(str.__str__(self) + '')), True)
        return str.__hash__(self)

    def __len__(self):
        n = str.__len__(self)
        note(length(self.g) == n, True)
        return n

    def __bool__(self):
        return note(length(self.g) > 0, str.__len__(self) > 0)

    def __contains__(self, o):
        raw = str.__contains__(self, o)
        if len(o) != 1:
            return raw
        c = guarded(o)[0][1]
        return note(z3.Or([FALSE] + [z3.And(p, d == c) for p, d in self.g]), raw)

    def chars(self):
        """present characters, the presence pattern being recorded"""
        raw, k, out = str.__str__(self) + '', 0, []
        for p, c in self.g:
            p = simp(p)
            # aligned with the concrete value: present iff the next concrete character
            if z3.is_true(p):
                out.append(SStr(raw[k], [(TRUE, c)]))
                k += 1
            else:
                return None
        return out

    def __iter__(self):
        cs = self.chars()
        return iter(str.__iter__(self)) if cs is None else iter(cs)

    def __getitem__(self, i):
        cs = self.chars()
        raw = str.__getitem__(self, i)
        if cs is None or not isinstance(i, (int, slice)) or isinstance(i, SInt):
            return raw
        got = cs[i]
        return got if isinstance(got, SStr) else SStr(raw, [x for c in got for x in c.g])

    def startswith(self, pre, *a):
        raw = str.startswith(self, pre, *a)
        cs = self.chars()
        if a or not isinstance(pre, str) or cs is None:
            return raw
        return note(equal([x for c in cs[:len(pre)] for x in c.g], guarded(pre)), raw)

    def endswith(self, post, *a):
        raw = str.endswith(self, post, *a)
        cs = self.chars()
        if a or not isinstance(post, str) or cs is None or not post:
            return raw
        return note(equal([x for c in cs[-len(post):] for x in c.g], guarded(post)), raw)
