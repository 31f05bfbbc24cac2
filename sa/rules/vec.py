"""Arrays and lists as ordered sequences of segments (for the metric and sample vectors)."""
from .common import *

FLAT = {"numpy." + x for x in ("atleast_1d", "atleast_2d", "array", "asarray", "ravel", "asanyarray", "ascontiguousarray", "copy")} | {
    "builtins.list", "builtins.tuple"}
JOIN = {"numpy." + x for x in ("concatenate", "hstack", "vstack", "row_stack")}
VALUE = {"numpy." + x for x in ("any", "all", "sum", "max", "min", "count_nonzero", "mean", "prod")} | {
    "builtins." + x for x in ("any", "all", "sum", "max", "min")}
LOSSY = {"numpy." + x for x in ("unique", "sort", "abs", "absolute", "round", "around", "rint", "floor", "ceil", "flip", "flipud",
                                "nan_to_num", "clip", "log", "log10", "maximum", "minimum", "sqrt", "roll", "negative", "cumsum",
                                "union1d", "trim_zeros", "float32", "float16")} | {"builtins.sorted", "builtins.set", "builtins.reversed"}
EMPTY = {"numpy.array", "numpy.empty", "numpy.zeros", "numpy.asarray"}


class Und(Exception):
    pass


class Unordered(Und):
    """The order of the sequence is not determined."""


class Vec:
    def __init__(self, cls):
        self.cls = cls
        self.root = None

    def atom(self, c):
        v = self.cls(c)
        if v is not None:
            return v
        if c.op == "exists" and guard_nodes(("if", c.a[2]), c.a[0]):
            raise Unordered("results of some cases are left out: " + str(c)[:150])
        if c.op in ("eq", "lt", "le") and any(x.op == "phi" for x in c.a):
            sides = []
            for x in c.a:
                while x.op == "phi":
                    t = self.tri(x.a[0])
                    if t is None:
                        return None
                    x = x.a[1] if t else x.a[2]
                sides.append(x)
            return self.tri(mk(c.op, *sides))
        try:
            if c.op == "truth":
                x = self.sized(c.a[0])
                if x is not None:
                    return self.nonempty(self.flat(x))
                if c.a[0].op in ("coll",) or c.a[0].op == "call" and c.a[0].a[0] in FLAT | JOIN:
                    return self.nonempty(self.flat(c.a[0]))
            if c.op in ("eq", "lt", "le"):
                for u, w, flip in ((c.a[0], c.a[1], False), (c.a[1], c.a[0], True)):
                    x = self.sized(u)
                    if x is not None and w.op == "const" and cval(w) in (0, 1):
                        ne = self.nonempty(self.flat(x))
                        if c.op == "eq":
                            return (not ne) if cval(w) == 0 else False if not ne else None
                        if not ne:
                            p, s = (cval(w), 0) if flip else (0, cval(w))
                            return p < s if c.op == "lt" else p <= s
                        # size >= 1
                        if flip:
                            return True if c.op == "lt" and cval(w) == 0 or c.op == "le" else None
                        return False if c.op == "lt" or cval(w) == 0 else None
        except Unordered:
            raise
        except Und:
            return None
        return None

    @staticmethod
    def sized(x):
        """The sequence x measures."""
        if x.op == "attr" and x.a[1] == "size":
            return x.a[0]
        if x.op == "call" and x.a[0] in ("builtins.len", "numpy.size"):
            return x.a[1][0]
        if x.op == "item" and x.a[0].op == "attr" and x.a[0].a[1] == "shape" and is_const(x.a[1], 0):
            return x.a[0].a[0]
        return None

    def tri(self, c):
        return tri(c, self.atom)

    def nonempty(self, segs):
        for s in segs:
            if s[0] == "leaf":
                return True
            t = self.tri(truth(s[1]))
            if t is None:
                raise Und(f"emptiness of {s[1]}")
            if t and self.nonempty(s[3]):
                return True
        return False

    def pick(self, n):
        """Resolve joins at the top of n."""
        while n.op == "phi":
            t = self.tri(n.a[0])
            if t is None:
                a, b = self.try_flat(n.a[1]), self.try_flat(n.a[2])
                if a is not None and a == b:
                    return n.a[1]
                self.by_value(n.a[0])
                if a == [] or b == []:
                    self.by_count(n.a[0])
                raise Und(f"condition {str(n.a[0])[:200]}")
            n = n.a[1] if t else n.a[2]
        return n

    def by_value(self, c):
        """A condition on the values of results themselves: what is kept depends on what was computed."""
        for m in deps(c):
            if m.op == "meth" and m.a[0].op == "asyncres" and m.a[1] in ("ready", "done", "successful", "running"):
                raise Unordered("results not finished in time are left out: " + str(c)[:150])
            if self.part(m):
                raise Unordered("only a part of the cases is used: " + str(m)[:150])
            if m.op == "exists" and isinstance(m.a[2], N) and by_result(m.a[2]):
                raise Unordered("results are kept or left out depending on their values: " + str(m.a[2])[:150])
            if m.op != "call" or m.a[0] not in VALUE or not m.a[1]:
                continue
            x = m.a[1][0]
            xs = [y for y in x.a if isinstance(y, type(x)) and y.op != "const"] if x.op in ("lt", "le", "eq", "ne", "cmp", "bin") else [x]
            if any(seg[0] == "each" and any(s[0] == "leaf" and s[1].op != "const" and s[1].op != "tuple" for s in seg[3])
                   for y in xs for seg in self.try_flat(y) or []):
                raise Unordered("results are kept or left out depending on their values: " + str(c)[:150])

    def by_count(self, c):
        """A part of the vector is left out for some numbers of cases."""
        for m in deps(c):
            if m.op in ("lt", "le", "eq") and any(x.op == "const" for x in m.a):
                for x in m.a:
                    y = self.sized(x)
                    segs = self.try_flat(y) if y is not None else None
                    if segs and all(sg[0] == "each" and sg[1].op == "param" for sg in segs):
                        raise Unordered("results are left out for some numbers of cases: " + str(c)[:100])

    def try_flat(self, n):
        try:
            return self.flat(n)
        except Und:
            return None

    def part(self, m):
        """Only a proper part of the cases is used, and nowhere the rest of them."""
        return partial(m) and not any(o.op == "item" and o.a[0] is m.a[0] and o is not m and (o.a[1].op in ("const", "slice"))
                                      for o in deps(self.root if self.root is not None else m))

    def flat(self, n):
        if self.root is None:
            self.root = n
        n = self.pick(n)
        if n.op == "call":
            nm, args = n.a[0], n.a[1]
            if nm in ("numpy.zeros", "numpy.empty") and args and is_const(args[0], 0):
                return []
            if nm in FLAT and args:
                return self.flat(args[0])
            if nm in JOIN and args:
                return self.parts(args[0])
            if nm in LOSSY and args and any(sg[0] == "each" for sg in self.flat(args[0])):
                raise Unordered(f"{nm} changes the results or their order: " + str(n)[:100])
            if nm == "numpy.append" and len(args) >= 2:
                return self.flat(args[0]) + self.flat(args[1])
        if n.op == "meth" and n.a[1] in ("flatten", "ravel", "tolist", "copy") and not n.a[2]:
            return self.flat(n.a[0])
        if n.op == "bin" and n.a[0] == "+" and (n.a[1].op in ("coll", "tuple") or n.a[2].op in ("coll", "tuple")):
            return self.flat(n.a[1]) + self.flat(n.a[2])
        if n.op in ("coll", "tuple"):
            if n.op == "coll" and n.a[0] == "set" and n.a[1]:
                raise Unordered("results in the order in which workers finish: " + str(n)[:150])
            if n.op == "coll" and n.a[0] != "list":
                raise Und("keyed collection")
            return self.parts(n)
        if n.op == "unk":
            raise Und(str(n)[:100])
        return [("leaf", n)]

    def parts(self, n):
        n = self.pick(n)
        if n.op == "coll" and n.a[0] == "set" and n.a[1]:
            raise Unordered("results in the order in which workers finish: " + str(n)[:150])
        if n.op == "tuple":
            return [s for x in n.a for s in self.flat(x)]
        if n.op != "coll":
            return self.flat(n)
        out = []
        for e in n.a[1]:
            out += self.ent(e)
        return out

    def ent(self, e):
        if e[0] in ("item", "splice"):
            return self.flat(e[1])
        if e[0] == "if":
            t = self.tri(e[1])
            if t is None:
                inner = [s for x in e[2] for s in self.ent(x)]
                if not inner:
                    return []
                self.by_value(e[1])
                self.by_count(e[1])
                raise Und(f"condition {str(e[1])[:200]}")
            return [s for x in e[2] for s in self.ent(x)] if t else []
        if e[0] == "for":
            it = e[1]
            if it.op == "coll" and it.a[0] == "set" and it.a[1]:
                raise Unordered("results in the order in which workers finish: " + str(it)[:150])
            if it.op == "call" and it.a[0] in ("builtins.sorted", "builtins.reversed") and it.a[1]:
                kw = dict(it.a[2])
                if it.a[0] == "builtins.reversed" or kw.get("reverse") is TRUE or kw.get("key") is mk("ext", "builtins.str"):
                    if any(m.op == "idx" for m in deps(it)) or it.a[0] == "builtins.reversed":
                        raise Unordered("results out of case order: " + str(it)[:150])
            if any(self.part(m) for m in deps(it)):
                raise Unordered("only a part of the cases is used: " + str(it)[:150])
            if any(m.op == "idx" and selective(e_) for e_ in e[3] for m in guard_nodes(e_, it)):
                raise Unordered("results of some cases are left out: " + str(e)[:150])
            for e_ in e[3]:
                if e_[0] == "if" and any(by_result(x) for x in (e_[1].a if e_[1].op == "and" else (e_[1],))) and not any(
                        o[0] == "if" and o[1] is NOT(e_[1]) for o in e[3]):
                    raise Unordered("results are left out depending on their values: " + str(e_[1])[:150])
            t = self.tri(truth(e[1]))
            if t is False:
                return []
            inner = [s for x in e[3] for s in self.ent(x)]
            return [("each", e[1], e[2], tuple(inner))] if inner else []
        raise Und(f"entry {e[0]}")


def partial(n):
    """A fixed proper part of a sequence that has one element per case."""
    if n.op != "item" or n.a[1].op != "slice" or n.a[0].op != "coll" or not any(e[0] == "for" for e in n.a[0].a[1]):
        return False
    lo, hi, step = n.a[1].a
    if not (lo is NONE or lo.op == "const") or any(m.op in ("idx", "mu", "unk", "phi") for x in (lo, hi, step) for m in deps(x)):
        return False
    if lo is not NONE and cval(lo):
        return True
    if step is not NONE and not is_const(step, 1):
        return True
    whole = [m for m in deps(hi) if m.op == "call" and m.a[0] == "builtins.len"]
    return hi is not NONE and not (whole and hi in whole)


def by_result(c):
    """A condition on the value of one simulation's result."""
    if c.op == "not":
        c = c.a[0]
    if c.op == "truth":
        c = c.a[0]
    xs = list(c.a[1]) if c.op == "call" and c.a[0] in VALUE else list(c.a) if c.op in ("lt", "le", "eq") else []
    for x in xs:
        if x.op in ("lt", "le", "eq") and c.op == "call":
            xs += [y for y in x.a if isinstance(y, N)]
        while x.op == "call" and x.a[0] in FLAT and x.a[1]:
            x = x.a[1][0]
        if x.op == "item" and x.a[0].op == "rcall":
            x = x.a[0]
        if x.op == "rcall" and x.a[0].rsplit(".", 1)[1] in ("calculate", "process_results"):
            return True
    return False


def selective(e):
    return e[0] == "if"


def guard_nodes(e, it):
    """Nodes of a guard on the position of the element itself."""
    out = []
    if e[0] == "if":
        for c in (e[1].a if e[1].op == "and" else (e[1],)):
            b = c.a[0] if c.op == "not" else c
            xs = [b.a[0]] if b.op == "truth" else list(b.a) if b.op in ("eq", "lt", "le") else []
            if any(x.op == "idx" and x.a[0] is it for x in xs) and all(x.op in ("idx", "const") for x in xs):
                out += [x for x in xs if x.op == "idx"]
    return out


def unordered_use(r, n):
    """Results delivered in completion order and used by position."""
    if not any(e.kind == "parallel-map" and e.extra and e.extra[0] is False for e in r.events):
        return None
    ds = list(deps(n))
    if any(m.op == "call" and m.a[0] == "builtins.sorted" for m in ds):
        return None
    for m in ds:
        if m.op == "idx" and m.a[0].op == "coll" and m.a[0].a[0] == "set":
            return m
        if m.op == "coll" and m.a[0] == "list":
            for e in m.a[1]:
                if e[0] in ("for", "splice") and e[1].op == "coll" and e[1].a[0] == "set" and e[1].a[1]:
                    return m
    return None
