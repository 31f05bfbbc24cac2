"""Invalid cases are rejected. The conditions under which a parser raises, and the record it makes of a case, are read
from the value graph over a finite partition of the possible cases: every field is absent or takes one value of each
region that the constants it is compared with can tell apart (numbers), or is empty, valid, has an amount that is not
positive, or names a species the model lacks (mixtures). In each class the parser must accept exactly when the stated rules
do, and an accepted case must carry the given values, in the right fields, with the documented defaults."""
import itertools
from fractions import Fraction as Fr

from .common import *
from ..alg import number
from ..ir import children

PARSE = {"ignition": "pymars.sampling.parse_ignition_inputs", "psr": "pymars.sampling.parse_psr_inputs",
         "flame": "pymars.sampling.parse_flame_inputs"}
RUN = "pymars.pymars.parse_inputs"
ASSUMES = ["field values have the types of the input format: numbers, strings, and mappings from species names to numbers",
           "assertions are enabled",
           "cantera.Solution.species_names lists exactly the species of the model"]


class Und(Exception):
    pass


class Other(Exception):
    """The species of another model, or of another phase, are consulted."""


class Reject(Exception):
    """Evaluation raises."""


class Ent:
    """A species name in an input; known tells whether the model has it."""

    def __init__(self, name, known):
        self.name, self.known = name, known

    def __repr__(self):
        return self.name


class Map:
    def __init__(self, tag, rows):
        self.tag, self.rows = tag, rows      # rows: (Ent, amount)

    def __repr__(self):
        return self.tag


class Names:
    """The species names of the model."""


class Keys:
    def __init__(self, rows):
        self.rows = rows


class Opaque:
    """A value that is only passed on."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


CASE, GAS = Opaque("case"), Opaque("model object")


class Eval:
    """Value of a node in one class of inputs."""

    def __init__(self, top, case, fields, gas_args, results=None):
        self.top = top                  # node -> the mapping with the fields
        self.case, self.fields, self.gas_args = case, fields, gas_args
        self.results = results or {}
        self.loops = {}
        self.memo = {}

    def v(self, n, env=()):
        k = (n, env)
        if k in self.memo:
            x = self.memo[k]
            if isinstance(x, Exception):
                raise x
            return x
        try:
            x = self.v0(n, env)
        except (Und, Reject) as ex:
            self.memo[k] = ex
            raise
        self.memo[k] = x
        return x

    def t(self, n, env=()):
        return self.truth(self.v(n, env))

    @staticmethod
    def truth(x):
        if isinstance(x, (bool, int, Fr, str, type(None), float)):
            return bool(x)
        if isinstance(x, Map):
            return bool(x.rows)
        if isinstance(x, Keys):
            return bool(x.rows)
        if isinstance(x, (tuple, list)):
            return bool(x)
        if isinstance(x, Ent):
            return True
        if isinstance(x, Opaque):
            return True
        raise Und(f"truth of {x}")

    def v0(self, n, env):
        for b, x in env:
            if b is n:
                return x
        if n in self.results:
            return self.results[n]
        if self.top(n):
            return CASE
        op = n.op
        if op == "const":
            c = number(n)
            return c if c is not None else cval(n)
        m = getattr(self, "op_" + op, None)
        if m is None:
            raise Und(f"unrecognised: {str(n)[:80]}")
        return m(n, env)

    def op_truth(self, n, env):
        return self.t(n.a[0], env)

    def op_not(self, n, env):
        return not self.t(n.a[0], env)

    def junction(self, n, env, stop):
        und = None
        for x in n.a:
            try:
                if self.t(x, env) == stop:
                    return stop
            except (Und, Reject) as ex:
                und = und or ex
        if und:
            raise und
        return not stop

    def op_and(self, n, env):
        return self.junction(n, env, False)

    def op_or(self, n, env):
        return self.junction(n, env, True)

    def num(self, n, env):
        x = self.v(n, env)
        if isinstance(x, bool):
            return Fr(int(x))
        if isinstance(x, (int, Fr)):
            return Fr(x)
        if x is None or isinstance(x, (str, Map)):
            raise Reject("type")
        raise Und(f"number {str(n)[:60]}")

    def op_lt(self, n, env):
        return self.num(n.a[0], env) < self.num(n.a[1], env)

    def op_le(self, n, env):
        return self.num(n.a[0], env) <= self.num(n.a[1], env)

    def op_eq(self, n, env):
        a, b = (self.v(x, env) for x in n.a)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a is b:
                return True
            raise Und("equality of an unknown value")
        if isinstance(a, Map) or isinstance(b, Map):
            e = [x for x in (a, b) if isinstance(x, Map) and not x.rows or x == []]
            if len(e) == 1 or len(e) == 2:
                return len(e) == 2
        return a is b or a == b

    def op_is(self, n, env):
        a, b = (self.v(x, env) for x in n.a)
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return a is b
        raise Und("identity")

    def op_in(self, n, env):
        a, b = self.v(n.a[0], env), self.v(n.a[1], env)
        if isinstance(b, Names):
            if isinstance(a, Ent):
                return a.known
            raise Und("membership of something else in the species names")
        if b is CASE:
            return self.fields.get(a, ABSENT) is not ABSENT
        if isinstance(b, (tuple, list)):
            return any(a is x or a == x for x in b)
        if isinstance(b, Map):
            return any(a is e for e, _ in b.rows)
        if isinstance(b, Keys):
            return any(a is e for e in b.rows)
        if isinstance(b, str) and isinstance(a, str):
            return a in b
        raise Und(f"membership {str(n)[:60]}")

    def op_phi(self, n, env):
        return self.v(n.a[1] if self.t(n.a[0], env) else n.a[2], env)

    def op_bin(self, n, env):
        a, b = self.num(n.a[1], env), self.num(n.a[2], env)
        try:
            f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "^": lambda: Fr(int(a) ^ int(b)),
                 "&": lambda: Fr(int(a) & int(b)), "|": lambda: Fr(int(a) | int(b)), "%": lambda: a % b}[n.a[0]]
            return f()
        except KeyError:
            raise Und(f"operator {n.a[0]}")
        except ZeroDivisionError:
            raise Reject("division")

    def op_un(self, n, env):
        if n.a[0] == "-":
            return -self.num(n.a[1], env)
        if n.a[0] == "+":
            return self.num(n.a[1], env)
        raise Und(f"operator {n.a[0]}")

    def rows(self, x):
        if isinstance(x, Map):
            return [(e, [(None, e)]) for e, _ in x.rows]
        if isinstance(x, Keys):
            return [(y, None) for y in x.rows]
        if isinstance(x, (list, tuple)):
            return [(y, None) for y in x]
        if x is None or isinstance(x, (Fr, bool)):
            raise Reject("not iterable")
        raise Und("iteration")

    def each(self, it, k, env):
        x = self.v(it, env)
        items = x.rows if isinstance(x, Keys) else [e for e, _ in x.rows] if isinstance(x, Map) else [y for y, _ in self.rows(x)]
        for y in items:
            yield env + ((mk("elem", it, k), y),)

    def op_exists(self, n, env):
        it, k, c = n.a[:3]
        und = None
        for e in self.each(it, k, env):
            try:
                if self.t(c, e):
                    return True
            except (Und, Reject) as ex:
                und = und or ex
        if und:
            raise und
        return False

    def op_elem(self, n, env):
        x = list(self.each(n.a[0], n.a[1], env))      # outside its loop: the value the last round left
        if not x:
            raise Reject("unbound")
        return x[-1][-1][1]

    def op_idx(self, n, env):
        return Opaque("index")

    def op_last(self, n, env):
        x = list(self.each(n.a[0], n.a[1], env))
        return self.v(n.a[2], x[-1]) if x else self.v(n.a[3], env)

    def op_first(self, n, env):
        for e in self.each(n.a[0], n.a[1], env):
            if self.t(n.a[2], e):
                return self.v(n.a[3], e)
        raise Und("no such element")

    def op_slice(self, n, env):
        return slice(*[None if x is None or x is NONE else int(self.num(x, env)) for x in n.a[:3]])

    def op_tuple(self, n, env):
        return tuple(self.v(x, env) for x in n.a)

    def op_global(self, n, env):
        raise Und(f"global {str(n)[:40]}")

    def op_coll(self, n, env):
        out = []
        for e in n.a[1]:
            if e[0] == "item":
                out.append(self.v(e[1], env))
            elif e[0] == "splice":
                x = self.v(e[1], env)
                if len(n.a[1]) == 1:
                    return x if not isinstance(x, Map) or n.a[0] in ("dict", "copy") else Keys([e for e, _ in x.rows])
                out += [y for y, _ in self.rows(x)]
            elif e[0] == "if":
                if self.t(e[1], env):
                    out += self.op_coll(mk("coll", "list", tuple(e[2])), env)
            elif e[0] == "for":
                got, same = [], self.v(e[1], env)
                kv = self.walk(e[3], [e2 for e2 in self.each(e[1], e[2], env)], got)
                if kv:
                    if len(n.a[1]) > 1:
                        raise Und("collection")
                    if isinstance(same, (Map, Keys)) and [tuple(x) for x in same.rows] == got:
                        return Map(getattr(same, "tag", getattr(same, "src", "?")), got)
                    return Map("changed", got)
                out += got
            else:
                raise Und("collection")
        if n.a[0] in ("dict",) and not n.a[1]:
            return Map("empty", [])
        return out

    def walk(self, entries, envs, out):
        kv = False
        for env in envs:
            for y in entries:
                if y[0] == "kv":
                    kv = True
                    out.append((self.v(y[1], env), self.v(y[2], env)))
                elif y[0] == "item":
                    out.append(self.v(y[1], env))
                elif y[0] == "if":
                    kv |= any(z[0] == "kv" for z in y[2])
                    if self.t(y[1], env):
                        kv |= self.walk(y[2], [env], out)
                elif y[0] == "for":
                    kv |= self.walk(y[3], list(self.each(y[1], y[2], env)), out)
                else:
                    raise Und("collection")
        return kv

    def get(self, key, default):
        if not isinstance(key, str):
            raise Und("key")
        x = self.fields.get(key, ABSENT)
        return default() if x is ABSENT else x

    def op_meth(self, n, env):
        b, nm, args, kw = self.v(n.a[0], env), n.a[1], n.a[2], n.a[3]
        if b is CASE:
            if nm == "get":
                return self.get(self.v(args[0], env), lambda: self.v(args[1], env) if len(args) > 1 else None)
            if nm == "keys":
                return [k for k, x in self.fields.items() if x is not ABSENT]
            raise Und(f"{nm} of the case")
        if isinstance(b, Map):
            if nm == "items":
                k = Keys(list(b.rows))
                k.src = b.tag
                return k
            if nm == "keys":
                return Keys([e for e, _ in b.rows])
            if nm == "values":
                return Keys([a for _, a in b.rows])
            if nm == "get":
                x = self.v(args[0], env)
                for e, a in b.rows:
                    if e is x:
                        return a
                return self.v(args[1], env) if len(args) > 1 else None
            if nm == "copy":
                return b
        if isinstance(b, list) and nm in ("items", "values", "keys") and not b:
            raise Reject("list has no " + nm)
        if isinstance(b, Ent) and nm in ("lower", "strip", "upper", "title", "casefold", "replace"):
            return Opaque(f"{b}.{nm}()")
        if isinstance(b, str) and nm in ("lower", "strip", "upper", "title", "casefold", "replace"):
            return getattr(b, nm)(*[self.v(x, env) for x in args])
        raise Und(f"method {nm}")

    def op_item(self, n, env):
        b, i = self.v(n.a[0], env), self.v(n.a[1], env)
        if b is CASE:
            def missing():
                raise Reject("missing key")
            return self.get(i, missing)
        if isinstance(b, Map):
            for e, a in b.rows:
                if e is i:
                    return a
            raise Reject("missing key")
        if isinstance(b, tuple) and isinstance(i, Fr):
            return b[int(i)]
        if isinstance(i, slice) and isinstance(b, (list, tuple, str)):
            return b[i]
        if isinstance(i, slice) and isinstance(b, Keys):
            return Keys(b.rows[i])
        if isinstance(i, slice) and isinstance(b, Map):
            raise Reject("slice of a mapping")
        if isinstance(b, Keys) and isinstance(i, Fr):
            b = b.rows
        if isinstance(b, list) and isinstance(i, Fr):
            if -len(b) <= i < len(b):
                return b[int(i)]
            raise Reject("index")
        raise Und(f"item {str(n)[:60]}")

    def op_attr(self, n, env):
        b = self.v(n.a[0], env)
        if b is GAS and n.a[1] == "species_names":
            return Names()
        if b is GAS and n.a[1] == "n_species":
            return Opaque("n_species")
        raise Und(f"attribute {n.a[1]}")

    def op_call(self, n, env):
        nm, args, kw = n.a[0], n.a[1], dict(n.a[2])
        if nm == "cantera.Solution":
            a = dict(zip(("infile", "name"), args))
            a.update(kw)
            got = tuple(None if a.get(k) is None else self.v(a[k], env) for k in ("infile", "name"))
            if got != self.gas_args and not (got[1] in (None, "") and self.gas_args[1] in (None, "") and got[0] is self.gas_args[0]):
                raise Other(got)
            return GAS
        if not isinstance(nm, str):
            raise Und("call")
        s = nm.split(".")[-1]
        xs = [self.v(x, env) for x in args]
        if s == "len" and len(xs) == 1:
            x = xs[0]
            return Fr(len(x.rows) if isinstance(x, (Map, Keys)) else len(x)) if isinstance(x, (Map, Keys, list, tuple, str)) else self.bad("len")
        if s in ("float", "float64") and len(xs) == 1 and isinstance(xs[0], (Fr, bool)):
            return Fr(xs[0])
        if s == "int" and len(xs) == 1 and isinstance(xs[0], (Fr, bool)):
            return Fr(int(xs[0]))
        if s == "bool" and len(xs) == 1:
            return self.truth(xs[0])
        if s == "str" and len(xs) == 1 and isinstance(xs[0], (str, Ent)):
            return xs[0]
        if s in ("list", "tuple", "sorted", "set", "frozenset") and len(xs) == 1:
            x = xs[0]
            return Keys([e for e, _ in x.rows]) if isinstance(x, Map) else x
        if s == "dict" and len(xs) == 1:
            return Map("empty", []) if xs[0] == [] else xs[0]
        if s in ("isnan", "isinf") and len(xs) == 1 and isinstance(xs[0], Fr):
            return False
        if s == "isfinite" and len(xs) == 1 and isinstance(xs[0], Fr):
            return True
        if s in ("min", "max", "sum") and len(xs) == 1:
            x = xs[0].rows if isinstance(xs[0], Keys) else xs[0]
            if isinstance(x, list) and all(isinstance(y, (Fr, bool)) for y in x):
                x = [Fr(y) for y in x]
                if not x and s != "sum":
                    raise Reject("empty")
                return {"min": min, "max": max, "sum": sum}[s](x) if x else Fr(0)
        if s in ("min", "max", "abs", "round") and xs and all(isinstance(y, Fr) for y in xs):
            return Fr({"min": min, "max": max, "abs": abs, "round": round}[s](*xs))
        if s in ("any", "all") and len(xs) == 1:
            x = xs[0].rows if isinstance(xs[0], Keys) else xs[0]
            if isinstance(x, list):
                return any(self.truth(y) for y in x) if s == "any" else all(self.truth(y) for y in x)
        if s == "isinstance" and len(args) == 2:
            names = {str(y) for y in ([args[1]] if args[1].op != "tuple" else args[1].a)}
            kinds = {"float", "int"} if isinstance(xs[0], Fr) else {"str"} if isinstance(xs[0], (str, Ent)) else {"dict"} if isinstance(xs[0], Map) else None
            if kinds and xs[0] is not None:
                if "float" in kinds:
                    if any("bool" in y for y in names) and len(names) == 1:
                        return False
                    if any(z in y for y in names for z in ("Number", "Real")) or {"float", "int"} <= {y.split(".")[-1] for y in names}:
                        return True
                    raise Und("isinstance")
                return any(k in y for k in kinds for y in names)
        raise Und(f"call {nm}")

    def op_ext(self, n, env):
        return Opaque(str(n))

    def op_cat(self, n, env):
        return Opaque("text")

    op_fmt = op_cat

    def op_sumfor(self, n, env):
        init, it, k, term, cond = n.a[:5]
        s = self.num(init, env)
        for e in self.each(it, k, env):
            if cond in (True, TRUE) or self.t(cond, e):
                s += self.num(term, e)
        return s

    raises = ()

    def op_exc(self, n, env):
        tid, i, types = n.a[:3]
        got = False
        for e in self.raises:
            t = [j for j, p in enumerate(e.pc) if p[0] == "try" and p[1] == tid]
            if t and caught(e.name, (types,)):
                lp = [p for p in e.pc if p[0] == "loop"]
                got = got or fires(self, e, lp[0][1] if lp and self.case_it is not None and lp[0][2] is self.case_it else None, tid)
        if not got and not all(str(x).split(".")[-1] == "AssertionError" for x in ((types,) if isinstance(types, str) else types)):
            raise Und("an exception of other origin")
        return got

    case_it = None

    def op_default(self, n, env):
        return self.v(n.a[0], env) if n.a and hasattr(n.a[0], "op") else self.bad("default")

    @staticmethod
    def bad(what):
        raise Und(what)


ABSENT = Opaque("absent")


# --------------------------------------------------------------------- classes of inputs
def regions(nodes):
    """One value of every region the constants in the conditions can tell apart."""
    cs = {Fr(0)}
    seen = set()

    def go(n):
        if n in seen:
            return
        seen.add(n)
        if n.op in ("lt", "le", "eq"):
            for x in n.a:
                c = number(x)
                if c is not None:
                    cs.add(c)
        for c in children(n):
            go(c)
    for n in nodes:
        go(n)
    cs = sorted(cs)
    out = [cs[0] - Fr(13, 7)]
    for a, b in zip(cs, cs[1:]):
        out += [a, a + (b - a) * Fr(3, 7)]
    return out + [cs[-1], cs[-1] + Fr(1717, 13)]


def mixtures(tag, nums):
    """(label, value, valid) for a mapping of amounts."""
    a, b = Ent(tag + "-a", True), Ent(tag + "-b", True)
    no = Ent(tag + "-unknown", False)
    two = Fr(29, 13)
    out = [("absent", ABSENT, None), ("empty", Map(tag, []), None), ("valid", Map(tag, [(a, two), (b, Fr(17, 11))]), True)]
    for x in nums:
        ok = x > 0
        lab = f"amount {'' if ok else 'not '}positive"
        out += [(lab, Map(tag, [(a, x)]), ok), (lab + " first", Map(tag, [(a, x), (b, two)]), ok),
                (lab + " last", Map(tag, [(a, two), (b, x)]), ok)]
    out += [("unknown species", Map(tag, [(no, two)]), False), ("unknown species first", Map(tag, [(no, two), (a, two)]), False),
            ("unknown species last", Map(tag, [(a, two), (no, two)]), False)]
    return out


FIELDS = {"temperature": "temperature", "pressure": "pressure", "equivalence-ratio": "equivalence_ratio", "fuel": "fuel",
          "oxidizer": "oxidizer", "reactants": "reactants", "composition-type": "composition_type"}
EXTRA = {"ignition": {"kind": "kind", "end-time": "end_time", "max-steps": "max_steps"}, "psr": {}, "flame": {"width": "width"}}
DEFAULTS = {"end-time": Fr(0), "max-steps": Fr(10000), "width": Fr(1, 10), "composition-type": "mole", "equivalence-ratio": Fr(0)}


def domains(kind, nums):
    """field -> [(label, value)]"""
    number_ = [("absent", ABSENT)] + [("positive" if x > 0 else "zero" if x == 0 else "negative", x) for x in nums]
    d = {"temperature": number_, "pressure": [(a, x if x is ABSENT else x * Fr(3, 2)) for a, x in number_],
         "equivalence-ratio": [(a, x if x is ABSENT else x * Fr(5, 4)) for a, x in number_]}
    d["pressure"] = number_
    d["equivalence-ratio"] = number_
    for m in ("fuel", "oxidizer", "reactants"):
        d[m] = [(a, x) for a, x, _ in mixtures(m, nums)]
    d["composition-type"] = [("absent", ABSENT), ("mole", "mole"), ("mass", "mass"), ("unknown", "volume"), ("empty", "")]
    if kind == "ignition":
        d["kind"] = [("absent", ABSENT), ("constant volume", "constant volume"), ("constant pressure", "constant pressure"),
                     ("unknown", "shock tube"), ("empty", "")]
        d["end-time"] = [("absent", ABSENT), ("positive", Fr(7, 3))]
        d["max-steps"] = [("absent", ABSENT), ("positive", Fr(555)), ("positive", Fr(20001))]
    if kind == "flame":
        d["width"] = number_
    return d


def base(kind, way):
    f = {"temperature": Fr(100123, 100), "pressure": Fr(2031, 100), "composition-type": "mole"}
    if way == "equivalence":
        f.update({"equivalence-ratio": Fr(47, 40), "fuel": mixtures("fuel", [])[2][1], "oxidizer": mixtures("oxidizer", [])[2][1]})
    else:
        f.update({"reactants": mixtures("reactants", [])[2][1]})
    if kind == "ignition":
        f.update({"kind": "constant pressure", "end-time": Fr(37, 100), "max-steps": Fr(777)})
    if kind == "flame":
        f["width"] = Fr(43, 100)
    return f


def worlds(kind, nums):
    d = domains(kind, nums)
    short_ = {m: [x for x in d[m] if x[0] in ("absent", "empty", "valid")] for m in ("fuel", "oxidizer", "reactants")}
    full = ["equivalence-ratio", "fuel", "oxidizer", "reactants", "composition-type"]
    seen = set()

    def key_(f):
        return tuple(sorted((k, id(v) if isinstance(v, (Map, Opaque)) else repr(v)) for k, v in f.items()))

    def emit(f, desc):
        k = key_(f)
        if k not in seen:
            seen.add(k)
            yield f, desc
    for way in ("equivalence", "reactants"):
        b = base(kind, way)
        yield from emit(b, f"a valid case with {way}")
        for a, vals in d.items():
            for lab, x in vals:
                yield from emit({**b, a: x}, f"{a} {lab}")
        for a in ("composition-type", "kind"):
            if a not in d:
                continue
            for c, vals in d.items():
                if c == a:
                    continue
                for (l1, x), (l2, y) in itertools.product(d[a], vals):
                    yield from emit({**b, a: x, c: y}, f"{a} {l1}, {c} {l2}")
    b = base(kind, "equivalence")
    doms = [[(l, x) for l, x in d["equivalence-ratio"]], short_["fuel"], short_["oxidizer"], short_["reactants"],
            [x for x in d["composition-type"] if x[0] in ("absent", "mole", "mass")]]
    for combo in itertools.product(*doms):
        f = dict(b)
        f.update({k: x for k, (_, x) in zip(full, combo)})
        yield from emit(f, ", ".join(f"{k} {l}" for k, (l, _) in zip(full, combo)))


def good_map(x):
    return isinstance(x, Map) and bool(x.rows) and all(e.known and a > 0 for e, a in x.rows)


def given(x):
    return x is not ABSENT and Eval.truth(x)


def spec(kind, f):
    """(accepted, the rule that decides)"""
    g = lambda k: f.get(k, ABSENT)         # noqa: E731
    for k in ("temperature", "pressure"):
        if g(k) is ABSENT or g(k) <= 0:
            return False, f"{k} must be positive"
    if kind == "ignition" and g("kind") not in ("constant volume", "constant pressure"):
        return False, "kind must be one of the two reactors"
    if kind == "flame" and g("width") is not ABSENT and g("width") <= 0:
        return False, "width must be positive"
    one, two = any(given(g(k)) for k in ("equivalence-ratio", "fuel", "oxidizer")), given(g("reactants"))
    if one == two:
        return False, "the mixture is given in exactly one way"
    if one:
        if g("equivalence-ratio") is ABSENT or g("equivalence-ratio") <= 0:
            return False, "the equivalence ratio must be positive"
        for k in ("fuel", "oxidizer"):
            if not good_map(g(k)):
                return False, f"{k} must have positive amounts of species of the model"
    elif not good_map(g("reactants")):
        return False, "reactants must have positive amounts of species of the model"
    c = g("composition-type")
    if c not in (ABSENT, "mole", "mass"):
        return False, "the composition type is mole or mass"
    if c == "mass" and one:
        return False, "mass composition is for reactants only"
    return True, "valid"


def fires(ev, e, k0, inside=None):
    """Does the raise event fire for this case? Loops over entries: for some entry."""
    def go(i, env):
        if i == len(pc):
            return True
        p = pc[i]
        if p[0] == "g":
            if not ev.t(p[1], env):
                return False
            return go(i + 1, env)
        if p[0] == "loop":
            if k0 is not None and p[1] is k0:
                return go(i + 1, env)
            und = None
            for e2 in ev.each(p[2], p[3], env):
                try:
                    if go(i + 1, e2):
                        return True
                    if left_early(ev, p, e2):
                        break
                except Und as ex:
                    und = ex
            if und:
                raise und
            return False
        if p[0] == "try":
            if p[1] != inside and caught(e.name, p[2]):
                return False                       # what happens then is up to the handler
            return go(i + 1, env)
        if p[0] == "handler":
            if not ev.t(mk("exc", p[1], p[2], p[3]), env):
                return False
            return go(i + 1, env)
        if p[0] == "with":
            return go(i + 1, env)
        raise Und(f"a raise inside {p[0]}")
    pc = list(e.pc)
    return go(0, ())


def left_early(ev, p, env):
    """Whether the loop p is left in the round env."""
    for st in (ev.loops.get(p[1]) or {"breaks": ()})["breaks"]:
        at = [i for i, x in enumerate(st.pc) if x[0] == "loop" and x[1] == p[1]]
        inner = st.pc[at[-1] + 1:] if at else ()
        if any(x[0] not in ("g", "with") for x in inner):
            raise Und("how a loop is left")
        if all(ev.t(x[1], env) for x in inner if x[0] == "g"):
            return True
    return False


def caught(name, types):
    if not isinstance(name, str):
        raise Und("the type of an exception")
    up = {"Exception", "BaseException"}
    if name in ("KeyError", "IndexError"):
        up.add("LookupError")
    for t in types:
        for x in ((t,) if isinstance(t, str) else t):
            if str(x).split(".")[-1] in up | {name.split(".")[-1]}:
                return True
    return False


def cases_loop(r, f):
    """The entry that one case adds to the result: (it, k, guards, record)."""
    n = q.unwrap_list(strip_versions(r.retf))
    while n.op == "phi" and n.a[1].op == "first":       # left early: judged separately
        n = q.unwrap_list(n.a[2])
    if n.op != "coll":
        raise Und("the result is not a list")
    es = list(n.a[1])
    if len(es) != 1 or es[0][0] != "for":
        raise Und("the result has other entries")
    _, it, k, sub = es[0][:4]
    gs = []
    while len(sub) == 1 and sub[0][0] == "if":
        gs.append(sub[0][1])
        sub = sub[0][2]
    if len(sub) != 1 or sub[0][0] != "item":
        raise Und("a case adds several entries")
    return it, k, gs, sub[0][1]


def parsers(C, rep):
    for kind, fid in PARSE.items():
        if fid not in C.prog.funcs:
            raise AnalysisError(f"anchor {fid} not found")
        fn = C.prog.funcs[fid]
        at = (fn.mod.path, fn.node.lineno)
        keys = [("rules", "a case is accepted exactly when it obeys the rules"),
                ("values", "an accepted case carries the given values in the matching fields"),
                ("defaults", "fields that are not given get the documented defaults"),
                ("all", "every case given is read")]
        try:
            parser(C, rep, kind, fid, at, dict(keys))
        except Und as ex:
            for k, w in keys:
                rep.und(f"{kind}.{k}", w, at, str(ex))


def parser(C, rep, kind, fid, at, what):
    r = C.run(fid, "full")
    names = [x.arg for x in C.prog.funcs[fid].node.args.args]
    it, k, gs, rec = cases_loop(r, fid)
    src = q.unwrap_list(strip_versions(it))
    if src is not P(names[1]):
        if src.op == "item" and src.a[1].op == "slice" and q.unwrap_list(src.a[0]) is P(names[1]):
            rep.put(verdict(False, r, it), f"{kind}.rules", what["rules"], at, f"only the cases {str(src.a[1])} are read")
            return
        raise Und("cases come from another list")
    el = mk("elem", it, k)
    top = lambda n: n is el                    # noqa: E731
    evs = [e for e in r.events if e.kind == "raise"]
    conds = [p[1] for e in evs for p in e.pc if p[0] == "g"] + gs
    loops = [L for L in r.loops.values() if L["it"] is it and L["k"] == k]
    stops = [[p[1] for p in st.pc if p[0] == "g"] for L in loops for st in L["breaks"]]
    stops += [[p[1] for p in e.pc if p[0] == "g"] for e in r.events if e.kind == "return" and len(e.stack) == 1
              and any(p[0] == "loop" and p[2] is it for p in e.pc)]
    nums = regions(conds)
    if len(nums) > 25:
        raise Und("too many constants")
    cid, fields = (rec.a[0], dict(rec.a[1])) if rec.op == "nt" else (None, None)
    if fields is None:
        raise Und("a case is not a record")
    sol, ph = Opaque("model file"), Opaque("phase")
    args = {P(names[0]): sol, P(names[2]): ph}
    carried = carries(loops, conds + list(fields.values()) + [x for g in stops for x in g])
    out = Outcome()
    history(kind, loops, carried, out, lambda f, desc, prev: case(kind, f, desc, top, dict(args), prev, evs, it, gs, fields, stops, out, at,
                                                                  sol, ph, r.loops), nums)
    wrong, wval, wdef, wstop, und, counts = out.wrong, out.val, out.dfl, out.stop, out.und, out.counts
    note = f"{counts[1]} accepted and {counts[0]} rejected classes of cases"
    nodes = conds + list(fields.values())
    rep.put(verdict(False, r, *nodes) if wrong else None if und else True, f"{kind}.rules", what["rules"],
            wrong[0] if wrong else at, wrong[1] if wrong else und or note)
    rep.put(verdict(False, r, *nodes) if wval else None if und or wrong and not counts[1] else True, f"{kind}.values", what["values"], at, wval or und or "")
    rep.put(verdict(False, r, *nodes) if wdef else None if und else True, f"{kind}.defaults", what["defaults"], at, wdef or und or "")
    rep.put(verdict(False, r, *nodes) if wstop else None if und else True, f"{kind}.all", what["all"], at, wstop or und or "")


class Outcome:
    def __init__(self):
        self.wrong = self.val = self.dfl = self.stop = self.und = None
        self.counts = [0, 0]


def carries(loops, nodes):
    """The variables a case finds as the previous case left them."""
    lids = {L["lid"] for L in loops}
    out, seen, todo = [], set(), list(nodes)
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n.op == "mu" and n.a[0] in lids and n not in out:
            out.append(n)
        todo += children(n)
    return out


def history(kind, loops, carried, out, run, nums):
    """Every case after none, and after every value an accepted case leaves behind."""
    prev = {}
    nxt = {}
    for m in carried:
        L = [L for L in loops if L["lid"] is m.a[0]][0]
        if m.a[1] not in L["init"] or m.a[1] not in L["next"]:
            raise Und("a value carried from case to case")
        prev[m] = strip_versions(L["init"][m.a[1]])
        nxt[m] = strip_versions(L["next"][m.a[1]])
    if not carried:
        for f, desc in worlds(kind, nums):
            run(f, desc, None)
        return
    if len(carried) > 1:
        raise Und("values carried from case to case")
    m = carried[0]
    left, n0 = [], 0
    for f, desc in worlds(kind, nums):
        v = run(f, desc, (m, prev[m], nxt[m], False))
        if v is not None and not any(same(v, y) or same(y, v) for y, _ in left):
            left.append((v, desc))
    for v, desc0 in left[:6]:
        for f, desc in worlds(kind, nums):
            run(f, f"after {desc0}: {desc}", (m, v, nxt[m], True))


def case(kind, f, desc, top, args, prev, evs, it, gs, fields, stops, out, at, sol, ph, loops_):
    """One class of cases; returns what it leaves for the next case if one is asked for."""
    left = None
    ev = Eval(top, CASE, f, (sol, ph), args)
    ev.raises, ev.case_it, ev.loops = evs, it, loops_
    want, rule = spec(kind, f)
    try:
        if prev:
            ev.results[prev[0]] = prev[1] if prev[3] else ev.v(prev[1])
        got, loc_ = True, None
        for e in evs:
            lp = [p for p in e.pc if p[0] == "loop"]
            k0 = lp[0][1] if lp and lp[0][2] is it else None
            try:
                if fires(ev, e, k0):
                    got, loc_ = False, e.loc
                    break
            except Reject:
                got, loc_ = False, e.loc
                break
        vals = {}
        if got:
            try:
                if not all(ev.t(g) for g in gs):
                    out.wrong = out.wrong or (at, f"{desc}: the case is left out without an error ({rule})")
                    return None
                for fld, node in fields.items():
                    vals[fld] = ev.v(node)
                for g in stops:
                    if all(ev.t(x) for x in g):
                        out.stop = out.stop or f"{desc}: the cases after this one are not read"
                if prev and not prev[3]:
                    left = ev.v(prev[2])
            except Reject:
                got = False
    except Und as ex:
        out.und = out.und or str(ex)
        return None
    except Other as ex:
        out.wrong = out.wrong or (at, f"{desc}: the species of model {ex.args[0][0]}, phase {ex.args[0][1] or '(default)'} are consulted")
        return None
    out.counts[want] += 1
    if got != want:
        out.wrong = out.wrong or (loc_ or at, f"{desc}: {'accepted' if got else 'rejected'} ({rule})")
        return left
    if not got:
        return None
    for key_, fld in {**FIELDS, **EXTRA[kind]}.items():
        x = f.get(key_, ABSENT)
        if fld not in vals:
            out.und = out.und or f"no field {fld}"
            continue
        y = vals[fld]
        if x is not ABSENT and not same(x, y):
            out.val = out.val or f"{desc}: {fld} is {y}, given {key_} {x}"
        if x is ABSENT:
            d = DEFAULTS.get(key_)
            ok = same(d, y) if d else not Eval.truth(y)
            if not ok:
                out.dfl = out.dfl or f"{desc}: {fld} is {y} when {key_} is absent"
    return left


def same(x, y):
    if isinstance(x, Map) or isinstance(y, Map):
        if isinstance(x, Map) and not x.rows:
            return not Eval.truth(y)
        return isinstance(x, Map) and isinstance(y, Map) and (x is y or x.tag == y.tag and x.rows == y.rows)
    if isinstance(x, list) and isinstance(y, Keys):
        return x == y.rows
    return x is y or not isinstance(y, bool) and x == y


# --------------------------------------------------------------------- run settings
def run_domains(nums):
    a, b = Ent("known-1", True), Ent("known-2", True)
    no = Ent("unknown", False)
    sp = [("absent", ABSENT), ("empty", []), ("known", [a, b]), ("unknown", [no]), ("unknown first", [no, a]), ("unknown last", [a, no])]
    cases = [("absent", ABSENT), ("empty", []), ("given", [Opaque("case 1")])]
    return {"model": [("absent", ABSENT), ("empty", ""), ("given", "model.yaml")],
            "error": [("absent", ABSENT), ("zero", Fr(0)), ("positive", Fr(51, 10))],
            "method": [("absent", ABSENT), ("empty", ""), ("DRG", "DRG"), ("DRGEP", "DRGEP"), ("PFA", "PFA"), ("unknown", "QSS")],
            "sensitivity-analysis": [("absent", ABSENT), ("off", False), ("on", True)],
            "targets": sp, "retained-species": [(x, list(y) if isinstance(y, list) else y) for x, y in sp],
            "upper-threshold": [("absent", ABSENT), ("given", Fr(31, 100))],
            "sensitivity-type": [("absent", ABSENT), ("initial", "initial"), ("greedy", "greedy")],
            "phase-name": [("absent", ABSENT), ("given", "gas")],
            "min-flame-speed": [("absent", ABSENT), ("given", Fr(3, 100))],
            "autoignition-conditions": cases, "psr-conditions": list(cases), "laminar-flame-conditions": list(cases)}


RUN_FIELDS = {"model": "model", "error": "error", "method": "method", "target_species": "targets", "sensitivity_analysis": "sensitivity-analysis",
              "upper_threshold": "upper-threshold", "sensitivity_type": "sensitivity-type", "phase_name": "phase-name",
              "min_flame_speed": "min-flame-speed"}
CASE_FIELDS = {"ignition_conditions": ("ignition", "autoignition-conditions"), "psr_conditions": ("psr", "psr-conditions"),
               "flame_conditions": ("flame", "laminar-flame-conditions")}


def run_spec(f):
    g = lambda k: f.get(k, ABSENT)         # noqa: E731
    if not given(g("model")):
        return False, "a model is needed"
    if not given(g("error")):
        return False, "an error limit is needed"
    if not given(g("method")) and not given(g("sensitivity-analysis")):
        return False, "a method or sensitivity analysis is needed"
    if given(g("method")):
        if g("method") not in ("DRG", "DRGEP", "PFA"):
            return False, "the method must be one of the three"
        if not given(g("targets")):
            return False, "graph-based methods need targets"
    for k in ("targets", "retained-species"):
        if given(g(k)) and not all(e.known for e in g(k)):
            return False, f"{k} must be species of the model"
    if not any(given(g(k)) for _, k in CASE_FIELDS.values()):
        return False, "at least one case is needed"
    return True, "valid"


def run_worlds(nums):
    d = run_domains(nums)
    b = {k: dict(v).get("given", dict(v).get("known", ABSENT)) for k, v in d.items()}
    b.update({"error": Fr(51, 10), "method": "DRGEP", "sensitivity-analysis": True, "sensitivity-type": "initial"})
    seen = []
    bases = [b, {**b, "sensitivity-analysis": ABSENT}, {**b, "method": ABSENT}, {**b, "method": ABSENT, "targets": ABSENT}]
    for x in bases:
        yield x, "a complete input"
        for k, vals in d.items():
            for lab, v in vals:
                yield {**x, k: v}, f"{k} {lab}"
    for (l1, m), (l2, s), (l3, t) in itertools.product(d["method"], d["sensitivity-analysis"], d["targets"]):
        yield {**b, "method": m, "sensitivity-analysis": s, "targets": t}, f"method {l1}, sensitivity-analysis {l2}, targets {l3}"
    ks = [k for _, k in CASE_FIELDS.values()]
    for combo in itertools.product(*(d[k] for k in ks)):
        yield {**b, **{k: x for k, (_, x) in zip(ks, combo)}}, ", ".join(f"{k} {l}" for k, (l, _) in zip(ks, combo))


def settings(C, rep):
    if RUN not in C.prog.funcs:
        raise AnalysisError(f"anchor {RUN} not found")
    fn = C.prog.funcs[RUN]
    at = (fn.mod.path, fn.node.lineno)
    what = {"rules": "a run is accepted exactly when it has all it needs", "values": "the settings of a run are those given",
            "cases": "the cases of a run are the parsed cases of the matching kind", "defaults": "settings that are not given get their defaults"}
    try:
        settings_(C, rep, fn, at, what)
    except Und as ex:
        for k, w in what.items():
            rep.und(f"run.{k}", w, at, str(ex))


def settings_(C, rep, fn, at, what):
    r = C.run(RUN, frozenset(q.PARSERS))
    top_ = P(fn.node.args.args[0].arg)
    rec = strip_versions(r.retf)
    if rec.op != "nt":
        raise Und("the result is not a record")
    fields = dict(rec.a[1])
    evs = [e for e in r.events if e.kind == "raise"]
    conds = [p[1] for e in evs for p in e.pc if p[0] == "g"]
    wrong = wval = wdef = wcase = und = None
    counts = [0, 0]
    for f, desc in run_worlds(regions(conds)):
        ev = RunEval(lambda n: n is top_, CASE, f, None)
        ev.loops = r.loops
        want, rule = run_spec(f)
        try:
            got, loc_ = True, None
            for e in evs:
                try:
                    if fires(ev, e, None):
                        got, loc_ = False, e.loc
                        break
                except Reject:
                    got, loc_ = False, e.loc
                    break
            vals = {}
            if got:
                try:
                    vals = {fld: ev.v(node) for fld, node in fields.items() if fld in RUN_FIELDS or fld in CASE_FIELDS}
                except Reject:
                    got = False
        except Und as ex:
            und = und or str(ex)
            continue
        except Other as ex:
            wrong = wrong or (at, f"{desc}: the species of model {ex.args[0][0]}, phase {ex.args[0][1] or '(default)'} are consulted")
            continue
        counts[want] += 1
        if got != want:
            wrong = wrong or (loc_ or at, f"{desc}: {'accepted' if got else 'rejected'} ({rule})")
            continue
        if not got:
            continue
        for fld, key_ in RUN_FIELDS.items():
            if fld not in vals:
                continue
            x, y = f.get(key_, ABSENT), vals[fld]
            if x is not ABSENT and not same(x, y) and (Eval.truth(x) or Eval.truth(y)):
                wval = wval or f"{desc}: {fld} is {y}, given {key_} {x}"
            if x is ABSENT:
                sa = given(f.get("sensitivity-analysis", ABSENT))
                ok = (isinstance(y, Fr) and y > 0 if sa else True) if fld == "upper_threshold" else \
                    y in ("initial", "greedy") if fld == "sensitivity_type" else not Eval.truth(y)
                if not ok:
                    wdef = wdef or f"{desc}: {fld} is {y} when {key_} is absent"
        for fld, (kind, key_) in CASE_FIELDS.items():
            y = vals.get(fld)
            x = f.get(key_, ABSENT)
            ph = f.get("phase-name", ABSENT)
            exp = (kind, f["model"], "" if ph is ABSENT else ph)
            if y is x and given(x):
                wcase = wcase or f"{desc}: {fld} holds the cases as given, not the parsed ones"
            elif not isinstance(y, Parsed):
                und = und or f"{fld} is not a parser's result"
            elif (y.kind, y.model, y.phase or "") != exp or not (y.cases is x or not given(x) and not Eval.truth(y.cases)):
                wcase = wcase or f"{desc}: {fld} holds {y}, from {y.model}, phase {y.phase}"
    nodes = conds + [fields[k] for k in fields if k in RUN_FIELDS or k in CASE_FIELDS]
    rep.put(verdict(False, r, *conds) if wrong else None if und else True, "run.rules", what["rules"], wrong[0] if wrong else at,
            wrong[1] if wrong else und or f"{counts[1]} accepted and {counts[0]} rejected classes of inputs")
    for k, w in (("values", wval), ("cases", wcase), ("defaults", wdef)):
        rep.put(verdict(False, r, *nodes) if w else None if und else True, f"run.{k}", what[k], at, w or und or "")


class Parsed:
    def __init__(self, kind, cases, model, phase):
        self.kind, self.cases, self.model, self.phase = kind, cases, model, phase

    def __repr__(self):
        return f"the {self.kind} cases of {self.cases}"


class RunEval(Eval):
    def op_exc(self, n, env):
        try:
            return super().op_exc(n, env)
        except Und:
            return False              # the model and the phase named exist

    def op_rcall(self, n, env):
        for kind, fid in PARSE.items():
            if n.a[0] == fid:
                a = dict(n.a[1])
                names = [x for x in a]
                m = {k.split(":")[-1]: v for k, v in a.items()}
                vals = [self.v(m[k], env) if k in m else None for k in ("model", "conditions", "phase_name")]
                return Parsed(kind, vals[1], vals[0], vals[2])
        raise Und(f"call {short(n.a[0])}")

    def op_call(self, n, env):
        if n.a[0] == "cantera.Solution":
            a = dict(zip(("infile", "name"), n.a[1]))
            a.update(dict(n.a[2]))
            m = self.v(a["infile"], env)
            ph = self.v(a["name"], env) if "name" in a else ""
            want = self.fields.get("phase-name", ABSENT)
            if m != self.fields.get("model") or (ph or "") != ("" if want is ABSENT else want):
                raise Other((m, ph))
            return GAS
        return super().op_call(n, env)

    def op_maybe(self, n, env):
        return self.v(n.a[2], env)

    def truth(self, x):
        return Eval.truth(x)


def required(C, rep):
    """main itself refuses graph-based methods without targets and a run without any method."""
    if q_main(C) is None:
        raise AnalysisError("anchor pymars.pymars.main not found")
    fid = q_main(C)
    r = C.run(fid, "run")
    fn = C.prog.funcs[fid]
    at = (fn.mod.path, fn.node.lineno)
    evs = [e for e in r.events if e.kind == "raise"]
    a, b = Ent("known-1", True), Ent("known-2", True)
    what = "the reduction refuses to start without targets for a graph-based method, or without any method"
    bad = und = None
    for m, sa, t in itertools.product((None, "", "DRG", "DRGEP", "PFA"), (False, True), ([], [a, b])):
        env = {P("method"): m, P("run_sensitivity_analysis"): sa, P("target_species"): t}
        ev = Eval(lambda n: False, None, {}, None, env)
        ev.loops = r.loops
        want = not (m and not t) and bool(m or sa)
        got, loc_ = True, None
        for e in evs:
            if len(e.stack) > 1 or [p for p in e.pc if p[0] in ("loop", "handler")]:
                continue
            try:
                if fires(ev, e, None):
                    got, loc_ = False, e.loc
                    break
            except Reject:
                got = False
            except Und as ex:
                und = und or str(ex)
        if got != want:
            bad = bad or (loc_ or at, f"method {m or 'not given'}, sensitivity analysis {'on' if sa else 'off'}, {len(t)} targets: "
                          f"{'accepted' if got else 'rejected'}")
    rep.put((None if und else verdict(False, r)) if bad else True, "main.rules", what, bad[0] if bad else at, bad[1] if bad else "")


def q_main(C):
    return "pymars.pymars.main" if "pymars.pymars.main" in C.prog.funcs else None


def check(C, rep):
    rep.section("cases", parsers)
    rep.section("run", settings)
    rep.section("main", required)
