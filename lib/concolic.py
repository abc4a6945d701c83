"""Concolic execution of Python code on integers and characters: a symbolic
integer is an `int` with a term, so that type tests, hashing and library calls
see a real integer; comparisons record the branch taken. explore() covers the
whole domain: for every path Z3 decides the claims for all inputs following the
path, and the loop ends when Z3 proves that the paths cover the domain. When a
path used a value outside the terms (a library call on the raw integer), a
counterexample that the real code does not show restricts the path to its input."""
from . import z3q
from .z3q import z3, Inconclusive

_run = None


def note(term, value):
    """record the outcome of a test"""
    if _run is not None:
        c = term if value else z3.Not(term)
        c = z3.simplify(c)
        if not z3.is_true(c):
            _run.append(c)
    return value


def term(v):
    if isinstance(v, SInt):
        return v.t
    return z3.IntVal(int(v))


class SInt(int):
    def __new__(cls, value, t):
        o = int.__new__(cls, value)
        o.t = t
        return o

    def _raw(self):
        return int.__int__(self)

    def pin(self):
        note(self.t == self._raw(), True)
        return self._raw()

    def _op(self, o, f, swap=False):
        if not isinstance(o, int):
            return None
        a, b = (o, self) if swap else (self, o)
        return SInt(f(int.__int__(a), int.__int__(b)), f(term(a), term(b)))

    def __add__(self, o):
        r = self._op(o, lambda a, b: a + b)
        return NotImplemented if r is None else r

    def __radd__(self, o):
        r = self._op(o, lambda a, b: a + b, True)
        return NotImplemented if r is None else r

    def __sub__(self, o):
        r = self._op(o, lambda a, b: a - b)
        return NotImplemented if r is None else r

    def __rsub__(self, o):
        r = self._op(o, lambda a, b: a - b, True)
        return NotImplemented if r is None else r

    def __mul__(self, o):
        r = self._op(o, lambda a, b: a * b)
        if r is None:
            return o * self.pin() if isinstance(o, (list, tuple, str)) else NotImplemented
        return r

    def __rmul__(self, o):
        r = self._op(o, lambda a, b: a * b, True)
        if r is None:
            return o * self.pin() if isinstance(o, (list, tuple, str)) else NotImplemented
        return r

    def __neg__(self):
        return SInt(-self._raw(), -self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def _cmp(self, o, f):
        if not isinstance(o, int):
            return NotImplemented
        return note(f(self.t, term(o)), f(self._raw(), int.__int__(o)))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return note(self.t != 0, self._raw() != 0)

    def __hash__(self):
        return int.__hash__(self)

    def __int__(self):
        return self

    def __index__(self):
        return self.pin()

    def __floordiv__(self, o):
        return int(self.pin()) // o

    def __mod__(self, o):
        return int(self.pin()) % o

    def __pow__(self, o):
        return int(self.pin()) ** o

    def __divmod__(self, o):
        return divmod(self.pin(), o)

    def __repr__(self):
        return int.__repr__(self)
    __str__ = __repr__


def explore(variables, axioms, prog, claims, reproduce, ctx, limit=20000):
    """variables: {name: z3 int}; prog(inputs) with inputs {name: SInt} runs the real code;
    claims(inputs terms, outcome) -> [(label, z3 Bool or bool)];
    reproduce({name: int}) -> text or None.  Returns None or (inputs, text)."""
    global _run
    covered = []
    n = 0
    while True:
        r, m = z3q.check(list(axioms) + [z3.Not(c) for c in covered])
        if r == 'unknown':
            raise Inconclusive('unknown')
        if r == 'unsat':
            return None
        n += 1
        if n > limit:
            raise Inconclusive('more than %d paths' % limit)
        vals = {k: m.eval(v, model_completion=True).as_long() for k, v in variables.items()}
        point = [v == vals[k] for k, v in variables.items()]
        _run = pc = []
        try:
            out, err = prog({k: SInt(vals[k], v) for k, v in variables.items()}), None
        except Exception as e:
            out, err = None, e
        finally:
            _run = None
        pc = list(dict.fromkeys(pc))
        ctx.paths += 1
        if err is not None:
            text = reproduce(vals)
            if text:
                return vals, 'raises %r: %s' % (err, text)
            covered.append(z3.And(point))
            ctx.skipped += 1
            continue
        cl = claims({k: v for k, v in variables.items()}, out)
        z = z3.And([z3.BoolVal(c) if isinstance(c, bool) else c for _, c in cl])
        r, m = z3q.check(list(axioms) + pc + [z3.Not(z)])
        if r == 'unknown':
            raise Inconclusive('unknown')
        if r == 'sat':
            bad = {k: m.eval(v, model_completion=True).as_long() for k, v in variables.items()}
            text = reproduce(bad)
            if text:
                return bad, text
            text = reproduce(vals)
            if text:
                return vals, text
            pc = point       # values left the terms: the real code is right at this input
        covered.append(z3.And(pc) if pc else z3.BoolVal(True))
