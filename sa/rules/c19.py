"""Model comparison. The answer of the comparison is a formula over pairs of attributes of the two models. It is evaluated
relationally: every pair of corresponding attributes is abstracted to equal or different, and for each single difference
(each item of each kind of reaction, of a species, or of the sizes) the formula must be false, in both directions; without
a difference it must be true. Which numbers count as equal is judged at the comparison operators themselves."""
import functools
import re
from fractions import Fraction as Fr

from .common import *
from ..alg import number
from ..ir import N as Node, children

CMP = "pymars.tools.compare_models"
ASSUMES = ["attributes of cantera species, reactions and rates are those of cantera 3",
           "corresponding reactions have equal equations, so that sorting by equation aligns them (duplicates aside, which are judged apart)"]
ARRH = ("pre_exponential_factor", "temperature_exponent", "activation_energy")
KINDS = {
    "elementary": ARRH + ("allow_negative_pre_exponential_factor",), "three-body": ARRH + ("allow_negative_pre_exponential_factor",),
    "falloff": ("low_rate", "high_rate", "falloff_coeffs", "falloff_function", "chemically_activated", "allow_negative_pre_exponential_factor"),
    "chemically activated": ("low_rate", "high_rate", "falloff_coeffs", "falloff_function", "chemically_activated",
                             "allow_negative_pre_exponential_factor"),
    "pressure-log": ("rates",),
    "chebyshev": ("data", "pressure_range", "temperature_range", "n_temperature", "n_pressure"),
}
RATE_CLASSES = {"elementary": ("ArrheniusRate", "ArrheniusRateBase"), "three-body": ("ArrheniusRate", "ArrheniusRateBase"),
                "falloff": ("FalloffRate", "LindemannRate", "TroeRate", "SriRate", "TsangRate"),
                "chemically activated": ("FalloffRate", "LindemannRate", "TroeRate", "SriRate", "TsangRate"),
                "pressure-log": ("PlogRate",), "chebyshev": ("ChebyshevRate",)}
THIRD = ("three-body", "falloff", "chemically activated")
TRANSPORT = ("acentric_factor", "diameter", "dipole", "dispersion_coefficient", "geometry", "polarizability",
             "quadrupole_polarizability", "rotational_relaxation", "well_depth")
TRANSPORT_METHODS = ("__class__", "__doc__", "__init__", "clear_user_data", "set_customary_units", "update_user_data")
LENGTHS = {"falloff_coeffs": 4, "pressure_range": 2, "temperature_range": 2}
DICTS = {"composition", "reactants", "products", "efficiencies"}
VIEWS = {"keys", "values", "items"}
CONTAINERS = {"keys", "values", "items", "composition", "reactants", "products", "efficiencies", "falloff_coeffs", "data", "pressure_range", "temperature_range",
              "coeffs", "species_names", "input_data", "orders", "shape", "reaction_equations"}
SPECIES = {"name", "composition", "thermo", "transport", "charge", "size", "molecular_weight", "input_data", "clear_user_data", "from_dict",
           "from_yaml", "update_user_data"}
THERMO = {"coeffs", "min_temp", "max_temp", "reference_pressure", "n_coeffs", "input_data", "derived_type", "clear_user_data", "update_user_data"}
REACTION = {"equation", "reaction_type", "reversible", "duplicate", "reactants", "products", "rate", "third_body", "orders", "ID",
            "input_data", "allow_negative_orders", "allow_nonreactant_orders", "reactant_string", "product_string", "clear_user_data",
            "from_dict", "from_yaml", "update_user_data", "rate_coeff_units", "third_body_name"}
BODY = {"default_efficiency", "efficiencies", "name", "mass_action", "efficiency"}
COMMON_RATE = {"type", "sub_type", "input_data", "conversion_units", "from_dict", "from_yaml"}


class Und(Exception):
    pass


class Reject(Exception):
    """Evaluation raises."""


class T:
    """The value at a path of one of the two models."""
    __slots__ = ("side", "path", "sort", "h")

    def __init__(self, side, path, sort=None):
        self.side, self.path, self.sort = side, path, sort
        self.h = hash((side, path, sort))

    def __repr__(self):
        return f"model{self.side}{''.join('.' + str(x if not isinstance(x, tuple) else x[1]) for x in self.path)}"

    def __eq__(self, o):
        return isinstance(o, T) and (self.side, self.path, self.sort) == (o.side, o.path, o.sort)

    def __hash__(self):
        return self.h


class Zip:
    def __init__(self, xs):
        self.xs = xs


class Pos:
    """The position of a pair of corresponding items."""

    def __init__(self, label):
        self.label = label

    def __eq__(self, o):
        return isinstance(o, Pos) and o.label == self.label

    def __hash__(self):
        return hash(self.label)


class Range:
    """Positions of a sequence."""

    def __init__(self, of):
        self.of = of


class Row(list):
    """A list built from the items of a sequence."""
    base = None


class Rows:
    """A dictionary built from the items of a sequence."""

    def __init__(self, rows):
        self.rows = rows


class Key:
    """A key of a dictionary of the models (a species or element name)."""
    __slots__ = ("path", "lab")

    def __init__(self, path, lab):
        self.path, self.lab = path, lab

    def __eq__(self, o):
        return isinstance(o, Key) and (o.path, o.lab) == (self.path, self.lab)

    def __hash__(self):
        return hash((self.path, self.lab))


class Fn:
    def __init__(self, name):
        self.name = name


@functools.lru_cache(maxsize=None)
def plain(path):
    """The path without the order in which sequences were read."""
    return tuple(("@", x[1]) if isinstance(x, tuple) else x for x in path)


HERE = ("@", "this")


class World:
    def __init__(self, kind, diffs=(), expect=False, desc="", transport=(True, True), body=None, longer=1, bools=(True, True), order=None, first="this"):
        self.kind, self.expect, self.desc = kind, expect, desc
        self.diffs = set(diffs)
        self.first = first
        self.transport, self.longer, self.bools, self.order = transport, longer, bools, order
        self.body = body or ((kind in THIRD,) * 2)

    def differ(self, p):
        p = plain(p)
        if p in self.diffs:
            return True
        if p and p[-1] == "shape":
            if p[-2] in VIEWS:
                return p[:-2] + ("len",) in self.diffs
            return any(d[:-1] == p[:-1] and d[-1] in ("len", "cols") for d in self.diffs)
        if p and p[-1] == "items":
            return self.differ(p[:-1])
        if p and p[-1] == "values" and p[:-1] + ("len",) in self.diffs:
            return True
        if p and p[-1] == "species_names":
            return ("S", "len") in self.diffs or ("S", HERE, "name") in self.diffs
        if p and p[-1] == "coeffs":
            return any(d[:-2] == p[:-1] for d in self.diffs)
        if len(p) > 2 and p[-2] in ("cp", "h", "s") and isinstance(p[-1], Fr):
            t = p[-1]
            return any(d[:-1] == p[:-1] and (t < 1000 if d[-1] == "low" else t > 1000) for d in self.diffs)
        for d in self.diffs:
            if d[:len(p)] == p:
                if p[-1] in CONTAINERS or isinstance(p[-1], tuple):
                    return True
                raise Und("objects compared as a whole")
            if p[:len(d)] == d and d[-1] != "len":
                raise Und("a part of an attribute")
        return False


FREE = {}


def bound_items(n):
    """Items of sequences and their positions that occur in n."""
    got = FREE.get(n)
    if got is None:
        got = {n} if n.op in ("elem", "idx") else set()
        for c in children(n):
            got |= bound_items(c)
        FREE[n] = got = frozenset(got)
    return got


class Eval:
    def __init__(self, w, params):
        self.w = w
        self.params = params
        self.memo = {}
        self.used = set()
        self.guess = False

    def v(self, n, env=()):
        if env:
            free = bound_items(n)
            env = tuple(x for x in env if x[0] in free) if free else ()
        k = (n, env)
        if k in self.memo:
            x = self.memo[k]
            if isinstance(x, Exception):
                raise x
            return x
        try:
            x = self.v0(n, env)
        except (Und, Reject) as ex:
            self.memo[k] = ex
            raise
        self.memo[k] = x
        return x

    def v0(self, n, env):
        for b, x in env:
            if b is n:
                return x
        if n in self.params:
            return T(self.params[n], ())
        if n.op == "const":
            c = number(n)
            return c if c is not None and not isinstance(cval(n), bool) else cval(n)
        m = getattr(self, "op_" + n.op, None)
        if m is None:
            raise Und(f"unrecognised: {n.op}")
        return m(n, env)

    def t(self, n, env=()):
        return self.truth(self.v(n, env))

    def truth(self, x):
        if isinstance(x, T):
            ty = self.typ(x)
            if ty != "obj":
                self.guess = True           # generic models: attributes are not zero and not empty
            return True
        if isinstance(x, (bool, int, Fr, str, type(None), tuple)):
            return bool(x)
        if isinstance(x, Row):
            return bool(x)
        raise Und("truth")

    @staticmethod
    def bad():
        raise Und("arithmetic")

    def op_truth(self, n, env):
        return self.t(n.a[0], env)

    def op_not(self, n, env):
        return not self.t(n.a[0], env)

    def junction(self, n, env, stop):
        bad = None
        for x in n.a:
            try:
                if self.t(x, env) == stop:
                    return stop
            except (Und, Reject) as ex:
                bad = ex if bad is None or isinstance(ex, Und) else bad
        if bad:
            raise bad
        return not stop

    def op_and(self, n, env):
        return self.junction(n, env, False)

    def op_or(self, n, env):
        return self.junction(n, env, True)

    def op_phi(self, n, env):
        return self.v(n.a[1] if self.t(n.a[0], env) else n.a[2], env)

    # ----- structure of the models
    def typ(self, x):
        p = plain(x.path)
        if not p:
            return "obj"
        last = p[-1]
        if last in CONTAINERS:
            return "container"
        if last in ("thermo", "transport", "rate", "low_rate", "high_rate", "third_body"):
            return "obj"
        if isinstance(last, tuple):
            if p[-2] in ("S", "R"):
                return "obj"
            return "pair" if p[-2] == "rates" else "container" if p[-2] == "data" else "scalar"
        if last in ("S", "R", "rates"):
            return "seq"
        if p[-2:] and len(p) > 2 and p[-3] == "rates" and last == 1:
            return "obj"
        return "scalar"

    def owner(self, x):
        """Which kind of object: model, species, thermo, transport, reaction, rate, arrhenius, body."""
        p = plain(x.path)
        if not p:
            return "model"
        last = p[-1]
        if isinstance(last, tuple) and p[-2] in ("S", "R"):
            return "species" if p[-2] == "S" else "reaction"
        if last in ("thermo", "transport", "rate"):
            return last
        if last in ("low_rate", "high_rate") or len(p) > 2 and p[-3] == "rates" and last == 1:
            return "arrhenius"
        if last == "third_body":
            return "body"
        return None

    def has(self, x, name):
        o = self.owner(x)
        if o == "rate":
            k = self.w.kind
            return name in KINDS[k] or name in COMMON_RATE
        known = {"species": SPECIES, "thermo": THERMO | {"cp", "h", "s"}, "transport": set(TRANSPORT) | {"input_data"}, "reaction": REACTION, "body": BODY,
                 "arrhenius": set(ARRH) | COMMON_RATE, "model": {"n_species", "n_reactions", "species_names", "species", "reactions"}}.get(o)
        if known is None:
            raise Und(f"attribute {name}")
        if name in known:
            return True
        if o == "model":
            raise Und(f"attribute {name} of a model")
        return False

    def attr(self, x, name):
        if x is None:
            raise Reject(f"attribute {name} of None")
        if isinstance(x, T):
            if name == "shape" and self.typ(x) == "container":
                return T(x.side, x.path + ("shape",))
            if name == "size" and self.typ(x) == "container" and not any(d[-1] in ("len", "cols") for d in self.w.diffs):
                return T(x.side, x.path + ("shape",))
            if name != "__class__" and not self.has(x, name):
                raise Reject(f"no attribute {name}")
            o = self.owner(x)
            if name == "__class__":
                return T(x.side, x.path + ("type",))
            if o == "model":
                if name in ("n_species", "n_reactions"):
                    return T(x.side, (("S" if name == "n_species" else "R"), "len"))
            if o == "rate" and name in ("n_temperature", "n_pressure"):
                return T(x.side, x.path + ("data", "len" if name == "n_temperature" else "cols"))
            if o == "species" and name == "transport":
                return T(x.side, x.path + ("transport",)) if self.w.transport[x.side - 1] else None
            if o == "species" and name in ("molecular_weight", "charge", "size"):
                name = "composition" if name == "molecular_weight" else name
            if o == "reaction" and name == "third_body":
                return T(x.side, x.path + ("third_body",)) if self.w.body[x.side - 1] else None
            if o == "reaction" and name in ("reversible", "duplicate"):
                b = self.w.bools[0 if name == "reversible" else 1]
                if x.side == 2 and self.w.differ(x.path + (name,)):
                    return not b
                return b
            if o == "reaction" and name == "equation":
                if any(self.w.differ(x.path + (y,)) for y in ("reactants", "products", "reversible")):
                    raise Und("the equation of different reactions")
            return T(x.side, x.path + (name,))
        raise Und(f"attribute {name}")

    def op_attr(self, n, env):
        return self.attr(self.v(n.a[0], env), n.a[1])

    def op_dynattr(self, n, env):
        b, nm = self.v(n.a[0], env), self.v(n.a[1], env)
        if not isinstance(nm, str):
            raise Und("attribute name")
        if isinstance(b, T) and self.owner(b) == "transport" and nm in TRANSPORT_METHODS:
            return Fn(nm)
        if len(n.a) > 2 and isinstance(b, T) and not self.has(b, nm):
            return self.v(n.a[2], env)
        return self.attr(b, nm)

    def op_hasattr(self, n, env):
        b, nm = self.v(n.a[0], env), n.a[1]
        nm = nm if isinstance(nm, str) else self.v(nm, env)
        if b is None:
            return False
        if not isinstance(b, T):
            raise Und("hasattr")
        return self.has(b, nm)

    def op_spobj(self, n, env):
        return self.species(self.v(n.a[0], env), self.v(n.a[1], env))

    def species(self, m, name):
        """The species of a model that has the given name."""
        if isinstance(m, T) and self.owner(m) == "model" and isinstance(name, T) and plain(name.path)[:1] == ("S",) and name.path[-1] == "name":
            if m.side != name.side and (self.w.differ(name.path) or name.path[1][1] not in self.labels(T(m.side, ("S",)))):
                raise Reject("no species of that name")
            return T(m.side, name.path[:-1])
        raise Und("one species")

    def op_isinst(self, n, env):
        x, t = self.v(n.a[0], env), n.a[1]
        names = [str(y).split(".")[-1] for y in ([t] if not isinstance(t, Node) or t.op != "tuple" else t.a)]
        if x is None:
            return False
        if not (isinstance(x, T) and self.owner(x) == "rate"):
            raise Und("isinstance")
        k = RATE_CLASSES[self.w.kind]
        if any(y in k for y in names):
            if self.w.kind in ("falloff", "chemically activated") and not any(y == "FalloffRate" for y in names):
                raise Und("isinstance")
            return True
        if all(any(y in v for v in RATE_CLASSES.values()) for y in names):
            return False
        raise Und("isinstance")

    def op_ext(self, n, env):
        return Fn(str(n))

    def op_meth(self, n, env):
        return self.method(self.v(n.a[0], env), n.a[1], [self.v(x, env) for x in n.a[2]])

    def method(self, b, nm, args):
        if b is None:
            raise Reject(f"method {nm} of None")
        if isinstance(b, T):
            o = self.owner(b)
            if o == "model" and nm in ("species", "reactions"):
                if args:
                    if len(args) == 1 and isinstance(args[0], Pos):
                        return self.element(T(b.side, ("S" if nm == "species" else "R",)), args[0])
                    if nm == "species" and len(args) == 1:
                        return self.species(b, args[0])
                    raise Und("one species")
                return T(b.side, ("S" if nm == "species" else "R",))
            if o == "thermo" and nm in ("cp", "h", "s") and len(args) == 1 and isinstance(args[0], Fr):
                return T(b.side, b.path + (nm, args[0]))
            if self.dictlike(b) and plain(b.path)[-1] in DICTS:
                if nm in VIEWS:
                    return T(b.side, b.path + (nm,))
                if nm == "get" and args and isinstance(args[0], Key):
                    x = self.lookup(self.conc(b), args[0])
                    return (args[1] if len(args) > 1 else None) if x is KeyError else x
            if o == "body" and nm == "efficiency" and len(args) == 1 and isinstance(args[0], Key):
                x = self.lookup(self.conc(T(b.side, b.path + ("efficiencies",))), args[0])
                return T(b.side, b.path + ("default_efficiency",)) if x is KeyError else x
            if self.dictlike(b) and plain(b.path)[-1] == "keys" and nm in SETOPS and len(args) == 1:
                return self.arith(SETOPS[nm], b, args[0])
            if nm in ("copy", "ravel", "flatten", "tolist") and self.typ(b) == "container":
                return b
        if isinstance(b, str) and nm in ("startswith", "endswith") and all(isinstance(x, (str, tuple)) for x in args):
            return getattr(b, nm)(*args)
        if isinstance(b, Rows) and nm == "get":
            x = self.lookup(b, args[0])
            return (args[1] if len(args) > 1 else None) if x is KeyError else x
        if isinstance(b, Rows) and nm in ("keys", "values", "items"):
            out = Row(k if nm == "keys" else y if nm == "values" else (k, y) for k, y in b.rows)
            return out
        raise Und(f"method {nm}")

    def lookup(self, d, k):
        for a, x in d.rows:
            if self.same(a, k):
                return x
        return KeyError

    # ----- dictionaries
    @staticmethod
    def dictlike(x):
        p = plain(x.path)[-1:] if isinstance(x, T) else ()
        return bool(p) and (p[0] in DICTS or p[0] in VIEWS)

    def conc(self, x):
        """The two items of a dictionary (or its keys or values): one may differ, the other is common."""
        if not self.dictlike(x):
            return x
        view = plain(x.path)[-1]
        d = x.path[:-1] if view in VIEWS else x.path
        pd = plain(d)
        labs = ["this", "other"] if self.w.first == "this" else ["other", "this"]
        if pd + ("len",) in self.w.diffs and x.side != self.w.longer:
            labs = ["other"]
        other = pd + ("keys", HERE) in self.w.diffs and pd + ("len",) not in self.w.diffs and x.side == 2
        ks = [Key(pd, "that" if lab == "this" and other else lab) for lab in labs]
        vs = [T(x.side, d + ("values", ("@", lab, None))) for lab in labs]
        if view == "keys":
            return Row(ks)
        if view == "values":
            return Row(vs)
        return Row(zip(ks, vs)) if view == "items" else Rows(list(zip(ks, vs)))

    # ----- sequences
    def labels(self, x):
        """Items of a sequence: the pair that may differ, and all others."""
        p = plain(x.path)
        p = ("S",) if p == ("species_names",) else p
        short_ = p + ("len",) in self.w.diffs and x.side != self.w.longer
        if p[-1] in LENGTHS:
            return list(range(LENGTHS[p[-1]] - short_))
        if p[-1] in DICTS or p[-1] in ("keys", "values", "items", "shape"):
            raise Und(f"the items of {p[-1]}")
        return ["other"] if short_ else ["this", "other"] if self.w.first == "this" else ["other", "this"]

    def element(self, x, pos):
        lab = pos.label if isinstance(pos, Pos) else None
        if lab is None:
            raise Und("position")
        if lab not in self.labels(x):
            raise Reject("the shorter one has no such item")
        p = plain(x.path)
        if p == ("species_names",):
            return T(x.side, self.element(T(x.side, ("S",)), pos).path + ("name",))
        if self.w.order == p[-1] and x.sort is None and x.side == 2:
            lab = "other" if lab == "this" else "this"
        return T(x.side, x.path + (("@", lab, x.sort),))

    def each(self, it, k, env):
        x = self.v(it, env)
        if self.dictlike(x):
            x = self.conc(x)
            x = Row(a for a, _ in x.rows) if isinstance(x, Rows) else x
        el, ix = mk("elem", it, k), mk("idx", it, k)
        if isinstance(x, T):
            for lab in self.labels(x):
                yield env + ((el, self.element(x, Pos(lab))), (ix, Pos(lab)))
            return
        if isinstance(x, Range):
            if isinstance(x.of, T):
                for lab in self.labels(x.of):
                    yield env + ((el, Pos(lab)), (ix, Pos(lab)))
                return
        if isinstance(x, Zip) and any(self.dictlike(y) for y in x.xs):
            x = Zip([self.conc(y) for y in x.xs])
            x.xs = [Row(a for a, _ in y.rows) if isinstance(y, Rows) else y for y in x.xs]
        if isinstance(x, Zip):
            if all(isinstance(y, T) for y in x.xs):
                labs = [y for y in self.labels(x.xs[0]) if all(y in self.labels(z) for z in x.xs)]
                for lab in labs:
                    yield env + ((el, tuple(self.element(y, Pos(lab)) for y in x.xs)), (ix, Pos(lab)))
                return
            if all(isinstance(y, (Row, tuple)) for y in x.xs):
                for i, row in enumerate(zip(*x.xs)):
                    yield env + ((el, tuple(row)), (ix, Fr(i)))
                return
        if isinstance(x, (Row, tuple)):
            for i, y in enumerate(x):
                yield env + ((el, y), (ix, Fr(i)))
            return
        if isinstance(x, Rows):
            for i, (a, _) in enumerate(x.rows):
                yield env + ((el, a), (ix, Pos(("row", i))))
            return
        raise Und("iteration")

    def op_exists(self, n, env):
        it, k, c = n.a[:3]
        bad = None
        for e in self.each(it, k, env):
            try:
                if self.t(c, e):
                    return True
            except (Und, Reject) as ex:
                bad = ex if bad is None or isinstance(ex, Und) else bad
        if bad:
            raise bad
        return False

    def op_item(self, n, env):
        b, i = self.v(n.a[0], env), self.v(n.a[1], env)
        if isinstance(i, Key) or self.dictlike(b) and plain(b.path)[-1] in VIEWS:
            b = self.conc(b)
        if isinstance(b, T):
            if isinstance(i, Pos) and self.typ(b) in ("seq", "container"):
                return self.element(b, i)
            if self.typ(b) == "pair" and isinstance(i, Fr):
                return T(b.side, b.path + (int(i),))
            if self.typ(b) == "container" and plain(b.path)[-1] in LENGTHS:
                labs = self.labels(b)
                if isinstance(i, slice):
                    return Row(self.element(b, Pos(y)) for y in labs[i])
                if isinstance(i, Fr):
                    if not -len(labs) <= i < len(labs):
                        raise Reject("index")
                    return self.element(b, Pos(labs[int(i)]))
            raise Und("item")
        if isinstance(b, (Row, tuple)) and isinstance(i, slice):
            return Row(b[i])
        if isinstance(b, (Row, tuple)) and isinstance(i, Fr):
            if i >= len(b):
                raise Reject("index")
            return b[int(i)]
        if isinstance(b, Row) and isinstance(i, Pos) and b.base is not None and i.label in b.base:
            return b[b.base.index(i.label)]
        if isinstance(b, Rows):
            x = self.lookup(b, i)
            if x is KeyError:
                raise Reject("no such key")
            return x
        raise Und("item")

    def op_slice(self, n, env):
        xs = [None if x is None or x is NONE else self.v(x, env) for x in n.a[:3]]
        if not all(x is None or isinstance(x, Fr) for x in xs):
            raise Und("slice")
        return slice(*[None if x is None else int(x) for x in xs])

    def op_idx(self, n, env):
        raise Und("position outside its loop")

    def op_tuple(self, n, env):
        return tuple(self.v(x, env) for x in n.a)

    def op_coll(self, n, env):
        out = Row()
        kv = n.a[0] == "dict"

        def walk(es, env):
            for e in es:
                if e[0] == "item":
                    out.append(self.v(e[1], env))
                elif e[0] == "kv":
                    out.append((self.v(e[1], env), self.v(e[2], env)))
                elif e[0] == "splice":
                    x = self.v(e[1], env)
                    if isinstance(x, T) and len(n.a[1]) == 1:
                        return x
                    if self.dictlike(x):
                        x = self.conc(x)
                        x = Row(a for a, _ in x.rows) if isinstance(x, Rows) and not kv else x
                    if isinstance(x, Rows) and kv:
                        x = Row(x.rows)
                    if not isinstance(x, (Row, tuple)):
                        raise Und("list")
                    out.extend(x)
                elif e[0] == "if":
                    if self.t(e[1], env):
                        walk(e[2], env)
                elif e[0] == "for":
                    x = self.v(e[1], env)
                    if isinstance(x, T) and not self.dictlike(x):
                        out.base = self.labels(x)
                    for e2 in self.each(e[1], e[2], env):
                        walk(e[3], e2)
                else:
                    raise Und("list")
        x = walk(n.a[1], env)
        if x is not None:
            return x
        if n.a[0] == "set" and all(isinstance(x, Key) for x in out):
            base, out = out.base, Row(dict.fromkeys(out))
            out.base = base
        return Rows(list(out)) if kv else out

    def op_call(self, n, env):
        nm, args, kw = n.a[0], n.a[1], dict(n.a[2])
        if isinstance(nm, Node) and nm.op in ("attr", "dynattr") and not kw:
            b, name = self.v(nm.a[0], env), nm.a[1] if nm.op == "attr" else self.v(nm.a[1], env)
            if isinstance(b, T) and isinstance(name, str):
                return self.method(b, name, [self.v(x, env) for x in args])
        s = nm.split(".")[-1] if isinstance(nm, str) else ""
        if nm in ("builtins.sorted",):
            x = self.v(args[0], env)
            key_ = kw.get("key")
            key_ = None if key_ is None or key_ is NONE else str(key_)
            if isinstance(x, T):
                p = plain(x.path)[-1]
                okay = {"S": "name", "R": "equation", "rates": "itemgetter(0)"}.get(p)
                if key_ is None and p in DICTS:
                    return T(x.side, x.path + ("keys",))
                if p in VIEWS:
                    return x
                if key_ is None and p in ("rates", "species_names"):
                    return x if p == "species_names" else T(x.side, x.path, "by pressure")
                if key_ is None or okay is None or okay not in key_ or "reverse" in kw:
                    raise Und("another order")
                return T(x.side, x.path, key_)
            if isinstance(x, Row) and key_ is None:
                return x
            raise Und("sorted")
        if nm in ("operator.attrgetter", "operator.itemgetter"):
            return Fn(str(n))
        xs = [self.v(x, env) for x in args]
        if nm == "builtins.zip":
            return Zip(xs)
        if nm == "itertools.zip_longest" and all(isinstance(x, T) for x in xs):
            raise Und("zip_longest")
        if nm in ("builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset", "numpy.array", "numpy.asarray", "numpy.ravel",
                  "builtins.iter", "numpy.atleast_1d", "builtins.dict") and len(xs) == 1:
            x = xs[0]
            if nm in ("numpy.ravel", "numpy.atleast_1d") and (isinstance(x, Fr) or isinstance(x, T) and self.typ(x) == "scalar"):
                return Row([x])
            if isinstance(x, T) and plain(x.path)[-1] in DICTS and nm != "builtins.dict":
                return T(x.side, x.path + ("keys",))
            if isinstance(x, T) and plain(x.path)[-1] == "items" and nm == "builtins.dict":
                return T(x.side, x.path[:-1])
            return x
        if s == "len" and len(xs) == 1:
            if isinstance(xs[0], T):
                return T(xs[0].side, (xs[0].path[:-1] if plain(xs[0].path)[-1] in VIEWS else xs[0].path) + ("len",))
            if isinstance(xs[0], (Row, tuple)) and getattr(xs[0], "base", None) is None:
                return Fr(len(xs[0]))
            raise Und("len")
        if s == "range" and len(xs) == 1 and isinstance(xs[0], T) and xs[0].path[-1] == "len":
            return Range(T(xs[0].side, xs[0].path[:-1]))
        if nm == "numpy.shape" and isinstance(xs[0], T):
            return T(xs[0].side, xs[0].path + ("shape",))
        if s == "type" and len(xs) == 1:
            x = xs[0]
            if x is None or isinstance(x, T) and self.typ(x) == "obj":
                return T(x.side, x.path + ("type",)) if isinstance(x, T) else Fn("NoneType")
            raise Und("type")
        if s == "dir" and isinstance(xs[0], T) and self.owner(xs[0]) == "transport":
            return Row(TRANSPORT + TRANSPORT_METHODS)
        if s == "callable":
            if isinstance(xs[0], Fn):
                return True
            return False
        if s in ("isclose", "allclose", "array_equal", "array_equiv") and len(xs) >= 2:
            self.used.add(n)
            if s == "allclose" or s.startswith("array"):
                return self.close(xs[0], xs[1], s == "allclose")
            return self.close(xs[0], xs[1], True)
        if s in ("all", "any") and len(xs) == 1 and isinstance(xs[0], (bool, Row)):
            if isinstance(xs[0], bool):
                return xs[0]
            return (all if s == "all" else any)(self.truth(y) for y in xs[0])
        if s == "bool" and len(xs) == 1:
            return self.truth(xs[0])
        if s == "float" and len(xs) == 1 and isinstance(xs[0], (T, Fr)):
            return xs[0]
        if s in ("abs", "fabs", "absolute", "max", "min", "maximum") and any(isinstance(x, Row) for x in xs):
            return self.rows(lambda *ys: self.size(s, ys), *xs)
        if s in ("abs", "fabs", "absolute", "max", "min", "maximum"):
            return self.size(s, xs)
        raise Und(f"call {nm}")

    def size(self, s, xs):
        if s in ("abs", "fabs", "absolute") and len(xs) == 1:
            if isinstance(xs[0], Diff):
                return Diff(xs[0].x, xs[0].y, True)
            return xs[0] if isinstance(xs[0], (T, Scale)) else abs(xs[0]) if isinstance(xs[0], Fr) else self.bad()
        if s in ("max", "min", "maximum") and all(isinstance(x, (T, Fr, Scale)) for x in xs):
            return Scale()
        raise Und("arithmetic")

    def close(self, a, b, shapes):
        if shapes and isinstance(a, T) and isinstance(b, T) and self.typ(a) == "container" and \
                self.w.differ(a.path + ("shape",)) and plain(a.path) == plain(b.path):
            raise Reject("tables of different sizes")
        return self.same(a, b)

    # ----- comparison
    def same(self, a, b):
        if self.dictlike(a) and isinstance(b, (Row, Rows)) or self.dictlike(b) and isinstance(a, (Row, Rows)):
            a, b = self.conc(a), self.conc(b)
        if isinstance(a, Key) != isinstance(b, Key) and not isinstance(a, (Fr, type(None), tuple)) and not isinstance(b, (Fr, type(None), tuple)):
            raise Und("a key")
        if isinstance(a, T) and isinstance(b, T):
            if a.side == b.side:
                if a.path == b.path:
                    return True
                if self.w.order is None:
                    return False
            pa, pb = plain(a.path), plain(b.path)
            if pa != pb:
                return False                    # generic models: different attributes have different values
            if a.path != b.path:
                sorts = {x[2] for p in (a.path, b.path) for x in p if isinstance(x, tuple)}
                if len(sorts) > 1:
                    raise Und("items paired in different orders")
            if self.typ(a) in ("obj", "seq", "pair"):
                return False                    # objects are compared by identity
            return not self.w.differ(a.path)
        if isinstance(a, T) or isinstance(b, T):
            x, y = (a, b) if isinstance(a, T) else (b, a)
            if y is None:
                return False
            if isinstance(y, (Row, tuple, Rows)):
                return False
            self.guess = True
            return False
        if isinstance(a, (Row, tuple)) and isinstance(b, (Row, tuple)):
            if len(a) != len(b):
                return False
            return all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, Rows) and isinstance(b, Rows):
            if len(a.rows) != len(b.rows):
                return False
            for k, x in a.rows:
                y = self.lookup(b, k)
                if y is KeyError or not self.same(x, y):
                    return False
            return True
        if isinstance(a, Rows) or isinstance(b, Rows):
            raise Und("dictionaries")
        return a == b

    def op_eq(self, n, env):
        return self.same(self.v(n.a[0], env), self.v(n.a[1], env))

    def op_is(self, n, env):
        a, b = self.v(n.a[0], env), self.v(n.a[1], env)
        if isinstance(a, T) and isinstance(b, T) and a.path and a.path[-1] == "type":
            return self.same(a, b)
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) and isinstance(b, bool):
            return a is b
        raise Und("identity")

    def op_in(self, n, env):
        a, b = self.v(n.a[0], env), self.conc(self.v(n.a[1], env))
        if isinstance(b, Rows):
            return self.lookup(b, a) is not KeyError
        if isinstance(b, (Row, tuple)):
            return any(self.same(a, x) for x in b)
        if isinstance(a, str) and isinstance(b, str):
            return a in b
        if isinstance(b, T) and isinstance(a, T) and plain(b.path) == ("species_names",) and plain(a.path)[-1] == "name":
            return not self.w.differ(a.path) or a.side == b.side
        raise Und("membership")

    def order(self, n, env, strict):
        return self.less(n, self.v(n.a[0], env), self.v(n.a[1], env), strict)

    def less(self, n, a, b, strict):
        if isinstance(a, Row) or isinstance(b, Row):
            return self.rows(lambda x, y: self.less(n, x, y, strict), a, b)
        if isinstance(a, bool):
            a = Fr(int(a))
        if isinstance(b, bool):
            b = Fr(int(b))
        if isinstance(a, Fr) and isinstance(b, Fr):
            return a < b if strict else a <= b
        if isinstance(a, Diff) or isinstance(b, Diff):        # |x - y| against a tolerance
            d, tol = (a, b) if isinstance(a, Diff) else (b, a)
            if isinstance(tol, Diff) or not d.abs:
                raise Und("a difference")
            self.used.add(n)
            return self.same(d.x, d.y) == (d is a)
        if isinstance(a, T) and isinstance(b, T) and a.side != b.side and plain(a.path) == plain(b.path):
            if self.same(a, b):
                return not strict
            if a.path != b.path:
                raise Und("order")
            return b.side == self.w.longer         # the larger number is in that model
        raise Und("order")

    def op_lt(self, n, env):
        return self.order(n, env, True)

    def op_le(self, n, env):
        return self.order(n, env, False)

    def op_bin(self, n, env):
        return self.arith(n.a[0], self.v(n.a[1], env), self.v(n.a[2], env))

    def rows(self, f, *xs):
        """Elementwise over arrays of one element each (a number made into an array)."""
        ks = {len(x) for x in xs if isinstance(x, Row)}
        if len(ks) != 1:
            raise Und("arrays")
        k = ks.pop()
        return Row(f(*(x[i] if isinstance(x, Row) else x for x in xs)) for i in range(k))

    def arith(self, o, a, b):
        if o in "|&-^" and (self.dictlike(a) or self.dictlike(b) or isinstance(a, Row) and a and isinstance(a[0], Key)):
            a, b = self.conc(a), self.conc(b)
            if all(isinstance(x, Row) and all(isinstance(y, Key) for y in x) for x in (a, b)):
                both = [x for x in a if x in b]
                return Row(a + [x for x in b if x not in a] if o == "|" else both if o == "&" else [x for x in a if x not in b] + (
                    [x for x in b if x not in a] if o == "^" else []))
            raise Und("sets")
        if isinstance(a, Row) or isinstance(b, Row):
            return self.rows(lambda x, y: self.arith(o, x, y), a, b)
        if isinstance(a, Fr) and isinstance(b, Fr) and o in "+-*":
            return a + b if o == "+" else a - b if o == "-" else a * b
        if o == "-" and isinstance(a, T) and isinstance(b, T) and a.side != b.side:
            if self.typ(a) == "container":
                self.close(a, b, True)
            return Diff(a, b, False)
        if o in "*+" and all(isinstance(x, (T, Fr, Scale)) for x in (a, b)):
            return Scale()
        raise Und("arithmetic")

    def op_first(self, n, env):
        for e in self.each(n.a[0], n.a[1], env):
            if self.t(n.a[2], e):
                return self.v(n.a[3], e)
        raise Und("no such item")


SETOPS = {"union": "|", "intersection": "&", "difference": "-", "symmetric_difference": "^"}


class Diff:
    def __init__(self, x, y, abs_):
        self.x, self.y, self.abs = x, y, abs_


class Scale:
    """A number made from the sizes of attributes."""


# --------------------------------------------------------------------- single differences
S_, R_ = ("S", HERE), ("R", HERE)
RATE = R_ + ("rate",)


def entries(d):
    """Single differences of a dictionary."""
    yield "another key", [d + ("keys", HERE)]
    yield "an additional key", [d + ("keys", HERE), d + ("len",)]
    yield "another value", [d + ("values", HERE)]


def worlds():
    """(obligation key, what, World)"""
    ks = list(KINDS)
    for k in ks:
        for rev in (True, False):
            for dup in (True, False):
                yield "identical", "identical models are equal", World(k, expect=True, desc=f"{k} reactions", bools=(rev, dup))
    yield "identical", "identical models are equal", World("elementary", expect=True, desc="no transport data", transport=(False, False))
    for o in ("S", "R"):
        yield "order", "the order in which species and reactions are listed does not matter", World(
            "elementary", expect=True, desc=f"{'species' if o == 'S' else 'reactions'} listed in another order", order=o)
    for t in ((True, False), (False, True)):
        yield "transport.one-sided", "transport data are compared only when both have them", World(
            "elementary", expect=True, desc="only one model has transport data", transport=t)
    for lg in (1, 2):
        for s, w in (("S", "species"), ("R", "reactions")):
            yield "sizes", "models with different numbers of species or reactions differ", World(
                "elementary", [(s, "len")], desc=f"more {w} in model {lg}", longer=lg)
    yield "species.name", "models whose species differ in name differ", World("elementary", [S_ + ("name",)], desc="species name")
    for x, d in entries(S_ + ("composition",)):
        yield "species.composition", "models whose species differ in composition differ", World(
            "elementary", d, desc=f"species composition ({x})")
    for f in ("cp", "h", "s"):
        for rg in ("low", "high"):
            yield f"thermo.{f}-{rg}", "models whose species differ in thermodynamic data differ", World(
                "elementary", [S_ + ("thermo", f, rg)], desc=f"{f} in the {rg} temperature range")
    for a in TRANSPORT:
        yield f"transport.{a}", "models whose species differ in transport data differ", World(
            "elementary", [S_ + ("transport", a)], desc=f"transport parameter {a}")
    for k in ks:
        for a in ("reactants", "products"):
            for x, d in entries(R_ + (a,)):
                yield f"reaction.{a}", f"models whose reactions differ in {a} differ", World(
                    k, d, desc=f"{a} of a reaction ({x}; {k})")
        yield "reaction.kind", "models whose reactions differ in kind differ", World(
            k, [R_ + ("reaction_type",), RATE + ("type",)], desc=f"kind of a reaction ({k})")
        yield "reaction.kind", "models whose reactions differ in kind differ", World(
            k, [R_ + ("reaction_type",)], desc=f"kind of a reaction ({k}), same class of rate")
        for a in ("reversible", "duplicate"):
            yield f"reaction.{a}", f"models whose reactions differ in being {a} differ", World(
                k, [R_ + (a,)], desc=f"{a} mark of a reaction ({k})")
    for k in ("elementary", "three-body"):
        for a in ARRH:
            yield f"rate.{k}.{a}", "models whose reactions differ in a rate parameter differ", World(k, [RATE + (a,)], desc=f"{a} ({k})")
    for k in ("falloff", "chemically activated"):
        for lim in ("low_rate", "high_rate"):
            for a in ARRH:
                yield f"rate.{k}.{lim}.{a}", "models whose reactions differ in a rate parameter differ", World(
                    k, [RATE + (lim, a)], desc=f"{lim} {a} ({k})")
        c = RATE + ("falloff_coeffs",)
        for i in range(LENGTHS["falloff_coeffs"]):
            yield f"rate.{k}.coefficients", "models whose reactions differ in falloff coefficients differ", World(
                k, [c + (("@", i),)], desc=f"falloff coefficient {i + 1} ({k})")
        for lg in (1, 2):
            yield f"lengths.{k}", "tables of different lengths are reported as different", World(
                k, [c + ("len",)], desc=f"more falloff coefficients in model {lg} ({k})", longer=lg)
    r = RATE + ("rates",)
    for a in ARRH:
        yield f"rate.pressure-log.{a}", "models whose reactions differ in a rate parameter differ", World(
            "pressure-log", [r + (HERE, 1, a)], desc=f"{a} at one pressure")
    yield "rate.pressure-log.pressure", "models whose reactions differ in a rate parameter differ", World(
        "pressure-log", [r + (HERE, 0)], desc="a pressure of the table")
    for lg in (1, 2):
        yield "lengths.pressure-log", "tables of different lengths are reported as different", World(
            "pressure-log", [r + ("len",)], desc=f"more pressures in model {lg}", longer=lg)
    d = RATE + ("data",)
    yield "rate.chebyshev.data", "models whose reactions differ in a rate parameter differ", World("chebyshev", [d + (HERE, HERE)], desc="a Chebyshev coefficient")
    for a in ("pressure_range", "temperature_range"):
        for i in range(2):
            yield f"rate.chebyshev.{a}", "models whose reactions differ in a rate parameter differ", World(
                "chebyshev", [RATE + (a, ("@", i))], desc=f"{'upper' if i else 'lower'} end of the Chebyshev {a}")
    for lg in (1, 2):
        for dim in ("len", "cols"):
            yield "lengths.chebyshev", "tables of different lengths are reported as different", World(
                "chebyshev", [d + (dim,)], desc=f"more Chebyshev {'rows' if dim == 'len' else 'columns'} in model {lg}", longer=lg)
    for k in THIRD:
        yield "third-body.default_efficiency", "models whose reactions differ in third-body data differ", World(
            k, [R_ + ("third_body", "default_efficiency")], desc=f"third-body default_efficiency ({k})")
        for x, d in entries(R_ + ("third_body", "efficiencies")):
            yield "third-body.efficiencies", "models whose reactions differ in third-body data differ", World(
                k, d, desc=f"third-body efficiencies ({x}; {k})")
    for b in ((True, False), (False, True)):
        yield "third-body.presence", "models whose reactions differ in third-body data differ", World(
            "elementary", [R_ + ("third_body",)], desc=f"only model {1 if b[0] else 2} has a third body", body=b)


def variants():
    """The same relation with the two models exchanged, the items listed either way, and for each mark of the reactions."""
    for key_, what, w in worlds():
        seen = set()
        marks = [(a, b) for a in (True, False) for b in (True, False)] if key_ != "transport.one-sided" and w.bools == (True, True) else [w.bools]
        for lg in ((1, 2) if w.diffs and not any(d[-1] in ("len", "cols") and d[-2] not in DICTS for d in w.diffs) else (w.longer,)):
            for b in marks:
                for f in ("this", "other"):
                    if (lg, b, f) not in seen:
                        seen.add((lg, b, f))
                        yield key_, what, World(w.kind, w.diffs, w.expect, w.desc, w.transport, w.body, lg, b, w.order, f)


def comparison(C, rep):
    if CMP not in C.prog.funcs:
        raise AnalysisError(f"anchor {CMP} not found")
    fn = C.prog.funcs[CMP]
    at = (fn.mod.path, fn.node.lineno)
    r = C.run(CMP, "full")
    names = [x.arg for x in fn.node.args.args]
    params = {P(names[0]): 1, P(names[1]): 2}
    n = strip_versions(r.retf)
    got, used = {}, set()
    calls_ = [e for e in r.events if e.kind == "call" and e.name in ("numpy.allclose", "numpy.isclose", "numpy.subtract")]
    for key_, what, w in variants():
        rec = got.setdefault(key_, [what, None, None, 0])
        ev = Eval(w, params)
        rec[3] += 1
        try:
            x = ev.t(n)
            if x == w.expect and ev.guess:
                rec[2] = rec[2] or f"{w.desc}: zero or empty attributes"
            if x != w.expect:
                rec[1] = rec[1] or f"{w.desc}: reported {'equal' if x else 'different'}"
        except Reject as ex:
            rec[1] = rec[1] or f"{w.desc}: the comparison fails ({ex})"
        except Und as ex:
            rec[2] = rec[2] or f"{w.desc}: {ex}"
        used |= ev.used
        if key_.startswith("lengths"):
            for e in calls_:
                try:
                    if fails(Eval(w, params), e):
                        rec[1] = rec[1] or f"{w.desc}: {e.name} of tables of different sizes"
                        break
                except (Und, Reject) as ex:
                    rec[2] = rec[2] or f"{w.desc}: {ex}"
    for key_, (what, bad, und, k) in got.items():
        rep.put(verdict(False, r, n) if bad else None if und else True, key_, what, at, bad or und or f"{k} relations")
    duplicates(rep, r, n, at)
    tolerance(C, rep, r, used, at)


SAME_EQUATION = {"equation", "reactants", "products", "reactant_string", "product_string", "reaction_type", "reversible", "duplicate", "rate_type"}


def duplicates(rep, r, n, at):
    """Reactions with equal equations (marked as duplicates) have to be told apart before they are paired."""
    what = "duplicate reactions may be listed in any order"
    key_ = "order.duplicates"
    ks = [dict(m.a[2]).get("key") for m in deps(n) if m.op == "call" and m.a[0] == "builtins.sorted" and m.a[1] and any(
        x.op == "meth" and x.a[1] == "reactions" for x in (m.a[1][0], *ir_children(m.a[1][0]))) and not any(x.op == "idx" for x in deps(m.a[1][0]))]
    attrs = [re.findall(r"'(\w+)'|\.(\w+)", str(k).replace("operator.attrgetter", "").replace("operator.itemgetter", "")) if k is not None else None for k in ks]
    if not ks or any(a is None for a in attrs):
        rep.und(key_, what, at, "how reactions are paired")
        return
    attrs = [{x or y for x, y in a} for a in attrs]
    if any(a and a <= SAME_EQUATION for a in attrs):
        rep.put(verdict(False, r, n), key_, what, at, "reactions are paired after sorting by " + ", ".join(sorted(set().union(*attrs))))
    elif all(a & {"rate", "input_data"} for a in attrs):
        rep.put(True, key_, what, at)
    else:
        rep.und(key_, what, at, "the sorting key")


def fails(ev, e):
    """Is the comparison of arrays reached although their sizes differ?"""
    def go(i, env):
        if i == len(e.pc):
            xs = [ev.v(strip_versions(a), env) for a in e.args[:2]]
            try:
                ev.close(xs[0], xs[1], True)
            except Reject:
                return True
            return False
        p = e.pc[i]
        if p[0] == "g":
            return ev.t(strip_versions(p[1]), env) and go(i + 1, env)
        if p[0] == "loop":
            return any(go(i + 1, e2) for e2 in ev.each(strip_versions(p[2]), p[3], env))
        raise Und(f"a comparison inside {p[0]}")
    return go(0, ())


def has_abs(n):
    return n.op == "call" and str(n.a[0]).split(".")[-1] in ("abs", "fabs", "absolute") and n.a[1][0].op == "bin" and n.a[1][0].a[0] == "-"


def scale(n):
    """(number of different attributes a tolerance depends on, constant part)"""
    xs, seen = set(), set()
    todo = [n]
    plus = False
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "bin" and x.a[0] in "*+":
            plus |= x.a[0] == "+"
            todo += list(x.a[1:])
        elif x.op == "call" and str(x.a[0]).split(".")[-1] in ("abs", "fabs", "max", "min", "maximum", "absolute", "ravel", "asarray", "array", "float"):
            todo += list(x.a[1])
        elif x.op == "const":
            pass
        elif x.op in ("attr", "item", "meth", "phi", "elem", "dynattr"):
            xs.add(x)
        else:
            return None, None
    if plus and any(number(x) is not None for x in seen if x.op == "const" and number(x) is not None and number(x) > 0) and not xs:
        return 0, None
    return (None, None) if len(xs) > 2 else (len(xs), None)


def tolerance(C, rep, r, used, at):
    bad = asym = None
    und = None
    for n in sorted(used, key=str):
        if n.op in ("lt", "le"):
            sides, c = scale(n.a[1] if has_abs(n.a[0]) else n.a[0])
            if sides is None:
                und = "the form of a tolerance"
            elif not sides:
                bad = bad or "an absolute tolerance: numbers below it count as equal, however much they differ relative to each other"
            elif sides == 1:
                asym = asym or "the difference is measured against one of the two numbers only"
            continue
        nm, kw = n.a[0], dict(n.a[2])
        args = n.a[1]
        if nm in ("numpy.isclose", "numpy.allclose"):
            rt = kw.get("rtol", args[2] if len(args) > 2 else const(1e-5))
            ab = kw.get("atol", args[3] if len(args) > 3 else const(1e-8))
        elif nm in ("math.isclose", "cmath.isclose"):
            rt, ab = kw.get("rel_tol", const(1e-9)), kw.get("abs_tol", const(0.0))
        else:
            continue
        rt, ab = number(rt), number(ab)
        if rt is None or ab is None:
            und = "a tolerance is not a constant"
            continue
        if nm.startswith("numpy") and rt > 0:
            asym = asym or f"{nm} measures the difference against its second argument only"
        if ab > Fr(1, 10 ** 30):
            bad = bad or f"{nm} takes all numbers below {float(ab):g} as equal, however much they differ relative to each other"
        if rt > Fr(1, 1000):
            bad = bad or f"{nm} takes numbers as equal that differ by {float(rt):g} of their size"
    rep.put(verdict(False, r) if asym else None if und else True, "symmetric", "numbers are compared alike in either order", at, asym or und or "")
    rep.put(verdict(False, r) if bad else None if und else True, "tolerance", "numbers count as equal only if close relative to their size", at, bad or und or "")


def check(C, rep):
    rep.section("comparison", comparison)
