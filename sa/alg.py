"""Normal form of arithmetic expressions: sums of products of powers of atoms, with rational coefficients and exponents."""
from fractions import Fraction as Fr

from .ir import N, cval

WRAP = {"builtins.float", "numpy.float64", "numpy.asarray", "numpy.array", "builtins.int"}
FUNCS = {"numpy.abs": "abs", "numpy.absolute": "abs", "numpy.fabs": "abs", "builtins.abs": "abs", "math.fabs": "abs",
         "numpy.exp": "exp", "math.exp": "exp", "numpy.log": "log", "math.log": "log", "numpy.log10": "log10", "math.log10": "log10",
         "numpy.sign": "sign"}


class NotArith(Exception):
    pass


def number(n):
    if n.op == "const":
        v = cval(n)
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return None
        try:
            return Fr(repr(v)) if isinstance(v, float) else Fr(v)
        except ValueError:
            return None
    return None


def const_poly(c):
    return {(): Fr(c)} if c else {}


def add(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v}


def mono_mul(x, y):
    d = dict(x)
    for k, e in y:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(((k, e) for k, e in d.items() if e), key=lambda t: (repr_key(t[0]), t[1])))


def repr_key(k):
    return (k[0], str(k[1:])) if isinstance(k, tuple) else ("n", str(k))


def mul(a, b):
    r = {}
    for x, u in a.items():
        for y, v in b.items():
            k = mono_mul(x, y)
            r[k] = r.get(k, 0) + u * v
    return {k: v for k, v in r.items() if v}


def root(c, e):
    """c ** e when it is rational."""
    if e.denominator == 1:
        return c ** int(e)
    if c == 1:
        return Fr(1)
    raise NotArith()


def power(a, e):
    e = Fr(e)
    if not a:
        if e > 0:
            return {}
        raise NotArith()
    if e.denominator == 1 and 0 <= e <= 4 and len(a) > 1:
        r = const_poly(1)
        for _ in range(int(e)):
            r = mul(r, a)
        return r
    if len(a) == 1:
        (m, c), = a.items()
        return {tuple((k, x * e) for k, x in m): root(c, e)}
    return {((("sum", frozenset(a.items())), e),): Fr(1)}


class Alg:
    """atom(node) may rewrite a node into another node, a polynomial, or None (keep)."""

    def __init__(self, atom=None):
        self.atom = atom or (lambda n: None)
        self.memo = {}

    def key(self, n):
        """Hashable normal form."""
        return frozenset(self.poly(n).items())

    def poly(self, n):
        if n in self.memo:
            return self.memo[n]
        r = self.poly0(n)
        self.memo[n] = r
        return r

    def poly0(self, n):
        x = self.atom(n)
        if isinstance(x, dict):
            return x
        if isinstance(x, N) and x is not n:
            return self.poly(x)
        c = number(n)
        if c is not None:
            return const_poly(c)
        if n.op == "bin":
            o, a, b = n.a
            if o == "+":
                return add(self.poly(a), self.poly(b))
            if o == "-":
                return add(self.poly(a), self.poly(b), -1)
            if o == "*":
                return mul(self.poly(a), self.poly(b))
            if o == "/":
                return mul(self.poly(a), power(self.poly(b), -1))
            if o == "**":
                e = self.poly(b)
                if set(e) <= {()}:
                    return power(self.poly(a), e.get((), Fr(0)))
        if n.op == "un" and n.a[0] == "-":
            return add({}, self.poly(n.a[1]), -1)
        if n.op == "un" and n.a[0] == "+":
            return self.poly(n.a[1])
        if n.op == "call" and isinstance(n.a[0], str):
            nm, args = n.a[0], n.a[1]
            if nm in WRAP and len(args) == 1:
                return self.poly(args[0])
            if nm in ("numpy.sqrt", "math.sqrt") and len(args) == 1:
                return power(self.poly(args[0]), Fr(1, 2))
            if nm in ("numpy.square",) and len(args) == 1:
                return power(self.poly(args[0]), 2)
            two = {"numpy.multiply": mul, "numpy.add": add}
            if nm in two and len(args) == 2:
                return two[nm](self.poly(args[0]), self.poly(args[1]))
            if nm == "numpy.subtract" and len(args) == 2:
                return add(self.poly(args[0]), self.poly(args[1]), -1)
            if nm in ("numpy.divide", "numpy.true_divide") and len(args) == 2:
                return mul(self.poly(args[0]), power(self.poly(args[1]), -1))
            if nm in FUNCS and len(args) == 1:
                return self.func(FUNCS[nm], self.poly(args[0]))
        return {((("n", n), Fr(1)),): Fr(1)}

    def func(self, f, p):
        if f == "log":
            r = self.log(p)
            if r is not None:
                return r
        if f == "exp" and p:
            # exp of a combination of logarithms
            r = const_poly(1)
            ok = True
            for m, c in p.items():
                if len(m) == 1 and m[0][0][0] == "log" and m[0][1] == 1:
                    r = mul(r, power(dict(m[0][0][1]), c))
                else:
                    ok = False
            if ok:
                return r
        if f == "abs":
            # |-x| = |x|
            if p:
                k = min(p, key=lambda m: str([(repr_key(x), e) for x, e in m]))
                if p[k] < 0:
                    p = add({}, p, -1)
            if set(p) <= {()}:
                return p
        return {(((f, frozenset(p.items())), Fr(1)),): Fr(1)}

    def log(self, p):
        if len(p) != 1:
            return None
        (m, c), = p.items()
        r = {}
        if c != 1:
            if c <= 0:
                return None
            r = {((("log", frozenset({((), c)})), Fr(1)),): Fr(1)}
        for k, e in m:
            if k[0] == "exp":
                r = add(r, {x: y * e for x, y in dict(k[1]).items()})
            else:
                r = add(r, {((("log", frozenset({(((k, Fr(1)),), Fr(1))})), Fr(1)),): Fr(e)})
        return r


def same(a, b, atom=None):
    """Whether two expressions have the same normal form (None when they are not arithmetic)."""
    A = Alg(atom)
    try:
        return A.key(a) == A.key(b)
    except (NotArith, ZeroDivisionError):
        return None
