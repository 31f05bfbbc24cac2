"""Thermochemical states: an abstract interpretation of the mixture object (temperature, pressure, composition after each
assignment or call) decides with which state each kind of simulation starts, in every way a case can specify its mixture;
a component analysis of the sampled rows decides which quantity, of which instant or grid point, stands in which column."""
from ..ir import children
from .c05 import *

ASSUMES = ["Cantera: XP-style assignments set exactly the named quantities, None keeps a quantity; set_equivalence_ratio keeps "
           "temperature and pressure; X and Y alone keep temperature and density",
           "a reactor or flame takes over the state its mixture has when it is created"]
PAIRS = {"TP", "TPX", "TPY", "HP", "HPX", "HPY", "SP", "SPX", "SPY", "UV", "UVX", "UVY", "TD", "TDX", "TDY", "PV", "DP", "DPX", "DPY"}
ONE_ATM = mk("ext", "cantera.one_atm")
MIXTURES = ("ratio", "mole", "mass")
MATRIX = {"DRG": q.DRG + "create_drg_matrix", "DRGEP": q.DRGEP + "create_drgep_matrix", "PFA": q.PFA + "create_pfa_matrix"}


def prop(cid, name):
    return mk("attr", mk("attr", INST(cid), "properties", None), name, None)


class Mix:
    """World of a case that gives its mixture in one of the three ways."""

    def __init__(self, cid, how, kind=None):
        self.cid, self.how, self.kind = cid, how, kind

    def cls(self, c):
        x = c.a[0] if c.op == "truth" else None
        if x is prop(self.cid, "equivalence_ratio"):
            return self.how == "ratio"
        if x is prop(self.cid, "fuel") or x is prop(self.cid, "oxidizer"):
            return self.how == "ratio"
        if x is prop(self.cid, "reactants"):
            return self.how != "ratio"
        if c.op == "lt" and is_const(c.a[0]) and c.a[1] is prop(self.cid, "equivalence_ratio") and cval(c.a[0]) == 0:
            return self.how == "ratio"
        if c.op in ("eq", "in"):
            a, b = c.a
            for u, w in ((a, b), (b, a)):
                if u is prop(self.cid, "composition_type"):
                    return self.match(w, self.how if self.how != "ratio" else None, ("mole", "mass"))
                if u is prop(self.cid, "kind") and self.kind:
                    return self.match(w, self.kind, ("constant pressure", "constant volume"))
        return None

    @staticmethod
    def match(w, mine, known):
        if w.op == "const" and mine:
            return cval(w) == mine
        if w.op in ("coll", "tuple") and mine:
            xs = list(w.a) if w.op == "tuple" else [x[1] for x in w.a[1] if x[0] == "item"]
            if all(isinstance(x, N) and x.op == "const" for x in xs):
                return mine in [cval(x) for x in xs]
        return None


def product(n):
    """Factors of a product."""
    if n.op == "bin" and n.a[0] == "*":
        return product(n.a[1]) + product(n.a[2])
    return [n]


def factors(n, inverse=False):
    """[(factor, whether it divides)] of products and quotients."""
    if n.op == "bin" and n.a[0] in ("*", "/"):
        return factors(n.a[1], inverse) + factors(n.a[2], inverse != (n.a[0] == "/"))
    return [(n, inverse)]


class State:
    """Temperature, pressure and composition of a mixture object."""

    def __init__(self):
        self.T = self.P = self.C = None
        self.unknown = ""

    def apply(self, e, val):
        """One event on the object; val resolves values in the world."""
        if e.kind == "setattr":
            v = val(e.args[0])
            nm = e.name
            if nm in PAIRS:
                if v is None or v.op != "tuple" or len(v.a) != len(nm):
                    self.unknown = f"{nm} is assigned an unrecognised value"
                    return
                xs = [val(x) for x in v.a]
                keep = [x is NONE for x in xs]
                for i, f in enumerate(nm):
                    if f in "XY" and not keep[i]:
                        self.C = (f, xs[i])
                first = nm[:2]
                if first == "TP":
                    if not keep[0]:
                        self.T = xs[0]
                    if not keep[1]:
                        self.P = xs[1]
                elif not all(keep[:2]):
                    self.T = self.P = mk("unk", nm)
            elif nm in ("X", "Y"):
                self.C = (nm, v)
                self.P = mk("changed")
            elif nm in ("T", "P"):
                setattr(self, nm, v)
            return
        if e.kind == "meth":
            a = [x for x in e.node.a[2]]
            kw = dict(e.node.a[3])
            if e.name == "set_equivalence_ratio":
                names = ["phi", "fuel", "oxidizer", "basis"]
                m = dict(zip(names, a))
                m.update(kw)
                self.C = ("phi", tuple(val(m[x]) if x in m else None for x in names))
                return
            if e.name == "set_mixture_fraction":
                self.C = (e.name, None)
                return
            if e.name in ("equilibrate",):
                self.T = self.C = mk("changed")
                return
            if e.name in PURE:
                return
            self.unknown = f"{e.name}() may change the state"


PURE = {"species_index", "species", "reactions", "reaction", "species_name", "element_index", "report", "n_atoms", "write_yaml",
        "mole_fraction_dict", "mass_fraction_dict", "equivalence_ratio", "write_chemkin", "set_multiplier", "mixture_fraction",
        "elemental_mass_fraction", "elemental_mole_fraction"}


def bare(n):
    """Occurrence numbers and versions removed at the top."""
    n = strip_versions(n)
    return n


def on(e, obj):
    b = e.node if e.kind == "setattr" else e.args[0]
    return bare(b) is obj


def case_states(C, rep):
    for k, cid in CLS.items():
        if cid not in C.prog.classes:
            continue
        f = method(C, cid, "setup_case")
        r = C.run(f, "trace", self_cls=cid)
        fn = C.prog.funcs[f]
        at = (fn.mod.path, fn.node.lineno)
        gases = [e for e in r.events if e.kind == "call" and e.name == "cantera.Solution"]
        if len(gases) != 1:
            rep.und(f"{k}.state", "a simulation starts from the case's state", at, f"{len(gases)} model objects")
            continue
        gas = bare(gases[0].node)
        evs = [e for e in r.events if e.kind in ("setattr", "meth") and on(e, gas)]
        users = consumers(r, gas)
        for how in MIXTURES:
            w = Mix(cid, how)
            s, last, und, early = State(), None, "", None
            for e in evs:
                t = tri(AND(*q.pcguards(e.pc)), w.cls)
                if pcl(e) or t is None:
                    und = "the state is set under a condition that was not decided"
                    continue
                if t:
                    if users and e.seq > users[0].seq and early is None:
                        early = (s.T, s.P, s.C)
                    s.apply(e, lambda n: pick(n, w))
                    last = e
            und = und or s.unknown
            where = last.loc if last is not None else at

            def put(key, what, ok, why):
                rep.put(None if und else verdict(False, r, last.node if last is not None else r.retf) if ok is False else ok,
                        f"{k}.{key}.{how}", what, where, und or ("" if ok else why))
            put("temperature", "the simulation starts at the case's temperature", s.T is prop(cid, "temperature"),
                f"temperature is {str(s.T)[:80]}")
            P = s.P
            fs = product(P) if P is not None else []
            ok = sorted(map(id, fs)) == sorted(map(id, [prop(cid, "pressure"), ONE_ATM]))
            if not ok and P is not None and P.op not in ("changed",) and vague_value(P):
                ok = None
            put("pressure", "the simulation starts at the case's pressure, converted once from atmospheres", ok, f"pressure is {str(P)[:80]}")
            put("mixture", "the simulation starts with the case's mixture", mixture(cid, how, s.C), f"composition is {describe(s.C)}")
            late = [users[0]] if early is not None and early != (s.T, s.P, s.C) else []
            if users:
                rep.put(None if und else verdict(False, r, late[0].node) if late else True, f"{k}.before.{how}",
                        "the state is set before the simulation object is created", (late[0] if late else users[0]).loc,
                        "the mixture is changed afterwards" if late else "")
            else:
                rep.und(f"{k}.before.{how}", "the state is set before the simulation object is created", at)


def pick(n, w):
    for _ in range(50):
        if n is None or n.op != "phi":
            return n
        t = tri(n.a[0], w.cls)
        if t is None:
            a, b = pick(n.a[1], w), pick(n.a[2], w)
            return a if a is b else None
        n = n.a[1] if t else n.a[2]
    return None


def vague_value(n):
    return any(m.op in ("unk", "mu", "out", "phi", "rcall") for m in deps(n))


def describe(c):
    if c is None:
        return "not set"
    return f"{c[0]} {', '.join(str(x)[-60:] for x in (c[1] if isinstance(c[1], tuple) else (c[1],)))}"


def mixture(cid, how, c):
    if c is None:
        return False
    if how == "ratio":
        if c[0] != "phi":
            return False
        want = [prop(cid, x) for x in ("equivalence_ratio", "fuel", "oxidizer")]
        if any(x is None for x in c[1][:3]):
            return None
        basis = c[1][3]
        return all(a is b for a, b in zip(c[1][:3], want)) and (basis is None or is_const(basis, "mole"))
    if c[0] not in "XY":
        return False
    if c[1] is None:
        return None
    return c[0] == ("X" if how == "mole" else "Y") and c[1] is prop(cid, "reactants")


def consumers(r, gas):
    """Events that take over the state of the mixture."""
    out = []
    for e in r.events:
        if e.kind == "call" and e.name.startswith("cantera.") and e.name != "cantera.Solution" and any(bare(a) is gas for a in e.args):
            out.append(e)
        elif e.kind == "setfield" and any(m.op == "attr" and m.a[1] in ("Y", "T", "P", "state", "TPY") and bare(m.a[0]) is gas
                                          for m in deps(e.args[0])):
            out.append(e)
    return out


CONST_P = {"IdealGasConstPressureReactor", "IdealGasConstPressureMoleReactor", "ConstPressureReactor", "ConstPressureMoleReactor"}
CONST_V = {"IdealGasReactor", "IdealGasMoleReactor", "Reactor", "MoleReactor"}


def reactors(C, rep):
    cid = CLS["ignition"]
    f = method(C, cid, "setup_case")
    r = C.run(f, "trace", self_cls=cid)
    fn = C.prog.funcs[f]
    at = (fn.mod.path, fn.node.lineno)
    nets = [e for e in r.events if e.kind == "call" and e.name == "cantera.ReactorNet"]
    for kind, good, bad in (("constant pressure", CONST_P, CONST_V), ("constant volume", CONST_V, CONST_P)):
        what = f"{kind} cases are simulated in a {kind} reactor"
        w = Mix(cid, "mole", kind)
        if len(nets) != 1 or not nets[0].args:
            rep.und(f"reactor.{kind.split()[1]}", what, at)
            continue
        x = nets[0].args[0]
        xs = list(x.a) if x.op == "tuple" else [y[1] for y in x.a[1]] if x.op == "coll" else []
        x = pick(xs[0], w) if len(xs) == 1 else None
        if x is None or x.op not in ("call", "rcall") or not str(x.a[0]).startswith("cantera."):
            rep.und(f"reactor.{kind.split()[1]}", what, nets[0].loc)
            continue
        nm = x.a[0].rsplit(".", 1)[1]
        ok = True if nm in good else False if nm in bad else None
        rep.put(ok, f"reactor.{kind.split()[1]}", what, nets[0].loc, f"{nm} is used")


def undisturbed(C, rep):
    """Between setup and solution nothing changes the initial state."""
    for k, cid in CLS.items():
        for name in ("run_case", "calculate"):
            f = method(C, cid, name)
            if f is None or k == "psr":
                continue
            r = C.run(f, "trace", self_cls=cid, args=defaults(C, f) or None)
            solve = [e for e, _ in solver_calls(r)]
            if not solve:
                rep.und(f"{k}.{name}.undisturbed", "nothing changes the state before the simulation runs")
                continue
            bad = None
            for e in r.events:
                if e.seq > solve[0].seq or e.kind not in ("setattr", "meth") or e in solve:
                    continue
                b = strip_versions(e.node if e.kind == "setattr" else e.args[0])
                if b.op == "attr" and b.a[0] is INST(cid) and b.a[1] in ("gas", "reac") and (
                        e.kind == "setattr" and (e.name in PAIRS or e.name in ("T", "P", "X", "Y", "state", "mass", "volume"))
                        or e.name in ("equilibrate", "set_equivalence_ratio", "insert", "advance")):
                    bad = e
            rep.put(True if bad is None else verdict(False, r, bad.node), f"{k}.{name}.undisturbed",
                    "nothing changes the state before the simulation runs", (bad or solve[0]).loc, f"{bad.name} is set" if bad else "")


# ---------------------------------------------------------------- samples
MIXES = ("numpy.minimum", "numpy.maximum", "numpy.fmin", "numpy.fmax", "numpy.clip", "numpy.mean", "numpy.median", "numpy.average",
         "numpy.interp", "builtins.min", "builtins.max")
QUANT = {"T": "temperature", "P": "pressure", "Y": "mass fractions", "time": "time", "t": "time"}


class Rows:
    """Which quantity of which instant a component of a sampled row is."""

    def __init__(self, r, cid):
        self.r, self.cid = r, cid

    def what(self, n, pos=None):
        """(quantity, position, transposed) or None."""
        n = strip_versions(n)
        if n.op == "meth" and n.a[1] in ("copy", "flatten", "ravel", "tolist", "astype") or n.op == "call" and n.a[0] in (
                "numpy.array", "numpy.asarray", "builtins.float", "builtins.list", "numpy.copy"):
            return self.what(n.a[0] if n.op == "meth" else n.a[1][0], pos)
        if n.op == "elem":
            if n.a[0].op == "call" and n.a[0].a[0] == "builtins.zip":
                return None
            return self.what(n.a[0], ("k", n.a[1]))
        if n.op == "call" and n.a[0] == "numpy.full" and len(n.a[1]) == 2:
            x = self.what(n.a[1][1], "any")
            return x and (x[0], "any", x[2])
        if n.op == "call" and n.a[0] == "numpy.transpose":
            x = self.what(n.a[1][0], pos)
            return x and (x[0], x[1], not x[2])
        if n.op == "attr" and n.a[1] == "T" and n.a[0].op == "attr" and n.a[0].a[1] == "Y":
            x = self.what(n.a[0], pos)
            return x and (x[0], x[1], not x[2])
        if n.op == "attr" and n.a[1] in QUANT and n.a[1] != "time":
            if pos is None and self.cid == CLS["psr"] and n.a[0] is SELF(self.cid, "gas"):
                pos = "any" if n.a[1] == "P" else ("state", n.a[0])     # what the last solution left in the gas object
            return QUANT[n.a[1]], pos, False
        if n.op == "call" and n.a[0] in MIXES and n.a[1] and not any(m.op == "unk" for m in deps(n)):
            xs = [self.what(x) for x in n.a[1] if isinstance(x, N)] + [self.what(t) for x in n.a[1] if isinstance(x, N) for t in self.terms(x)]
            if any(x and x[0] in ("temperature", "pressure", "mass fractions") for x in xs):
                return "a value computed from several", "any", False
        if n.op == "call" and n.a[0] in ("numpy.sort", "builtins.sorted") and n.a[1]:
            x = self.what(n.a[1][0], pos)
            return x and (f"sorted {x[0]}", x[1], x[2])
        if n.op == "bin" and n.a[0] in ("*", "/"):
            x = self.scaled(n, pos)
            if x:
                return x
        if n.op == "bin" and n.a[0] in ("+", "-"):
            for u, c in ((n.a[1], n.a[2]), (n.a[2], n.a[1])):
                if is_const(c) and isinstance(cval(c), (int, float)) and (n.a[0] == "+" or c is n.a[2]):
                    x = self.what(u, pos)
                    return x and (x if cval(c) == 0 else (f"shifted {x[0]}", x[1], x[2]))
        if n.op == "bin" and n.a[0] in ("+", "-", "*", "/") and len(self.terms(n)) > 1 and not any(m.op == "unk" for m in deps(n)):
            xs = [self.what(x, pos) for x in self.terms(n)]
            if any(x and x[0] in ("temperature", "pressure", "mass fractions") for x in xs):
                return "a value computed from several", "any", False
        if n is prop(self.cid, "pressure"):
            return "pressure in atmospheres", "any", False
        if n.op == "const" and isinstance(cval(n), (int, float)) or n.op == "ext" and n.a[0].startswith("cantera."):
            return "a constant", "any", False
        if n.op == "attr" and n.a[0] is prop(self.cid, "x").a[0]:
            return f"the case's {n.a[1]}", "any", False
        if n.op == "item":
            b, i = n.a
            if i.op == "slice" and all(x is NONE for x in i.a):
                return self.what(b, pos)
            if i.op == "tuple" and len(i.a) == 2 and i.a[0].op == "slice" and all(x is NONE for x in i.a[0].a):
                x = self.what(b, self.position(i.a[1]))
                return x and (x[0], x[1], not x[2])
            if i.op == "const" and isinstance(cval(i), str):
                if b.op == "item" and is_const(b.a[1]) and isinstance(cval(b.a[1]), str) or b.op in ("call", "meth", "enter"):
                    return self.dataset(cval(i)), pos, False
                return None
            if b.op == "item" and is_const(b.a[1]) and isinstance(cval(b.a[1]), str) and i.op == "const" and cval(i) in (0, 1, 2):
                # a point of the traced curve: residence time, temperature, mass fractions
                return ("time", "temperature", "mass fractions")[cval(i)], ("p", b), False
            if pos is None or b.op == "call" and b.a[0] in MIXES:
                return self.what(b, self.position(i))
        return None

    def terms(self, n):
        """Operands of sums, differences and products that are not constants."""
        if n.op == "bin" and n.a[0] in ("+", "-", "*", "/"):
            return [t for x in n.a[1:] for t in self.terms(x)]
        return [] if n.op == "const" else [n]

    def scaled(self, n, pos):
        """A quantity times a constant; None when the factors are not understood."""
        scale, base = 1.0, []
        for f, inverse in factors(n):
            c = 101325.0 if f is ONE_ATM else cval(f) if is_const(f) and isinstance(cval(f), (int, float)) else None
            if c is None:
                base.append((f, inverse))
            elif inverse and not c:
                return None
            else:
                scale = scale / c if inverse else scale * c
        if len(base) != 1 or base[0][1]:
            return None
        x = self.what(base[0][0], pos)
        if x is None:
            return None
        k = {"pressure in atmospheres": 101325.0}.get(x[0], 1.0)
        if abs(scale / k - 1) < 1e-12:
            return "pressure" if k != 1.0 else x[0], x[1], x[2]
        return x if scale == 1 else (f"scaled {x[0]}", x[1], x[2])

    @staticmethod
    def position(i):
        if i.op == "idx":
            return "k", i.a[1]
        return "i", i

    names = {}

    def dataset(self, name):
        return self.names.get(name, name)


def rows(r, n):
    """Rows of a sampled array: lists of components; a component is a value or ("*", value) for a row part."""
    out = []
    seen = set()
    for root in [n] + [x for L in r.loops.values() for x in L["next"].values() if isinstance(x, N)]:
        for m in sorted(deps(root), key=lambda m: str(m.op)):
            if m in seen:
                continue
            seen.add(m)
            if m.op == "store":
                out.append((m.a[1], m.a[2], None))
            elif m.op == "storefor":
                for ent in m.a[3]:
                    if isinstance(ent, tuple) and len(ent) >= 2:
                        out.append((ent[0], ent[1], None))
    return out


def parts(n):
    """Components of a row built at once."""
    n2 = n
    if n2.op == "call" and n2.a[0] in ("numpy.array", "numpy.asarray") and n2.a[1]:
        return parts(n2.a[1][0])
    if n2.op == "call" and n2.a[0] in ("numpy.concatenate", "numpy.hstack", "numpy.append", "numpy.r_") and n2.a[1]:
        xs = n2.a[1] if n2.a[0] == "numpy.append" else None
        if xs is None:
            x = n2.a[1][0]
            xs = list(x.a) if x.op == "tuple" else [y[1] for y in x.a[1] if y[0] == "item"] if x.op == "coll" else None
            if xs is None or x.op == "coll" and any(y[0] != "item" for y in x.a[1]):
                return None
        out = []
        for x in xs:
            p = parts(x)
            out += p if p is not None and (x.op in ("coll", "tuple") or x.op == "call") else [("*", x)]
        return out
    if n2.op == "tuple":
        return list(n2.a)
    if n2.op == "coll":
        out = []
        for y in n2.a[1]:
            if y[0] == "item":
                out.append(y[1])
            elif y[0] == "splice":
                out.append(("*", y[1]))
            else:
                return None
        return out
    return None


def columns(sel):
    """Column selector -> (first, stop) or None."""
    if sel.op == "const" and isinstance(cval(sel), int):
        return cval(sel), cval(sel) + 1
    if sel.op == "slice":
        lo, hi, st = sel.a
        if st is NONE and (lo is NONE or is_const(lo)) and (hi is NONE or is_const(hi)):
            return (0 if lo is NONE else cval(lo)), (None if hi is NONE else cval(hi))
    return None


def sampled_rows(r, n):
    """[(row id, {column: component})]; column 2 is the rest of the row. None if a row is not understood."""
    groups = {}
    understood = True
    for idx, v, _ in rows(r, n):
        if idx.op == "tuple" and len(idx.a) == 2:
            c = columns(idx.a[1])
            if c is None:
                understood = False
                continue
            g = groups.setdefault(idx.a[0], {})
            if c[1] is not None and c[1] - c[0] == 1:
                g[c[0]] = v
            elif c[1] is None:
                g[c[0]] = ("*", v)
            else:
                p = parts(v)
                if p is None or len(p) != c[1] - c[0]:
                    understood = False
                    continue
                for i, x in enumerate(p):
                    g[c[0] + i] = x
        else:
            p = parts(v)
            if p is None:
                understood = False
                continue
            groups[idx] = dict(enumerate(p))
    if not groups:
        x = n
        if x.op == "call" and x.a[0] in ("numpy.array", "numpy.asarray", "numpy.vstack", "numpy.stack") and x.a[1]:
            x = x.a[1][0]
        if x.op == "call" and x.a[0] in ("numpy.column_stack", "numpy.hstack"):
            understood = False
        ents = x.a[1] if x.op == "coll" else [("item", y) for y in x.a] if x.op == "tuple" else None
        if ents is None:
            return [], False
        for i, y in enumerate(ents):
            y = innermost(y)
            p = parts(y) if y is not None else None
            if p is None:
                understood = False
                continue
            groups[i] = dict(enumerate(p))
    return list(groups.items()), understood


def innermost(y):
    while y[0] in ("for", "if"):
        b = y[-1]
        if not isinstance(b, tuple) or len(b) != 1:
            return None
        y = b[0]
    return y[1] if y[0] == "item" else None


def datasets(r):
    """Datasets written to a data file: {name: value}, location."""
    data = {}
    where = None
    for e in r.events:
        if e.kind == "meth" and e.name == "create_dataset" and e.node.a[2]:
            kw = dict(e.node.a[3])
            v = kw.get("data", e.node.a[2][1] if len(e.node.a[2]) > 1 else None)
            nm = e.node.a[2][0]
            if is_const(nm) and v is not None:
                data[cval(nm)] = v
                where = where or e.loc
        elif e.kind == "setitem" and len(e.args) == 2 and is_const(e.args[0]) and isinstance(cval(e.args[0]), str):
            data[cval(e.args[0])] = e.args[1]
            where = where or e.loc
    return data, where


def recorded(C, rep):
    """Datasets of the ignition data file: which quantity each holds, and whether all are taken at the same instants."""
    cid = CLS["ignition"]
    f = method(C, cid, "run_case")
    r = C.run(f, "trace", self_cls=cid, args=defaults(C, f) or None)
    data, where = datasets(r)
    what = "recorded quantities are taken at the same instants"
    if not data:
        rep.und("ignition.record", what)
        return {}
    names = sorted(data)
    w = Rows(r, cid)
    leaves, bad, und = [], "", ""
    try:
        aligned(r, tuple(data[n] for n in names), leaves, set())
    except Und as x:
        und = str(x)
    table = {}
    for leaf in leaves:
        qs = []
        for n, v in zip(names, leaf):
            x = quantity(v, cid)
            qs.append(x)
            if x is None:
                und = und or f"{n}: {str(v)[:60]}"
                continue
            if table.setdefault(n, x[0]) != x[0]:
                bad = bad or f"{n} holds {table[n]} and {x[0]}"
            if x[0] == "input value":
                bad = bad or f"{n} is not taken from the simulation: {str(v)[-60:]}"
        vs = {}
        for x in qs:
            if x is not None and x[0] != "time":
                vs.setdefault(x[1], []).append(x[2])
        for b, vv in vs.items():
            if len({id(v) for v in vv}) > 1:
                bad = bad or "values before and after a step are combined"
    if bad == "" and und == "":
        rep.ok("ignition.record", what, where, f"{len(leaves)} records of {len(names)} quantities")
    else:
        rep.put(verdict(False, r, r.retf) if bad else None, "ignition.record", what, where, bad or und)
    return table


def quantity(v, cid):
    """(quantity, object, version) of a recorded value."""
    while v.op == "meth" and v.a[1] in ("copy", "tolist") or v.op == "call" and v.a[0] in ("numpy.array", "numpy.copy", "builtins.float", "builtins.list"):
        v = v.a[0] if v.op == "meth" else v.a[1][0]
    if v.op == "item" and v.a[1].op == "slice" and all(x is NONE for x in v.a[1].a):
        v = v.a[0]
    if v.op in ("attr", "bin", "const") and not any(strip_versions(m) in (SELF(cid, "reac"), SELF(cid, "sim"), SELF(cid, "gas")) for m in deps(v)) \
            and not vague_value(v):
        return "input value", v, None
    if v.op == "attr" and v.a[1] in QUANT:
        b, ver = v.a[0], v.a[2]
        while b.op == "attr" and b.a[1] in ("phase", "thermo", "contents"):
            ver, b = b.a[2], b.a[0]
        b = strip_versions(b)
        if b is SELF(cid, "reac") or b is SELF(cid, "sim") and v.a[1] == "time":
            return QUANT[v.a[1]], b, ver
        if b is SELF(cid, "gas"):
            return QUANT[v.a[1]], b, ver
    return None


def aligned(r, ns, leaves, seen):
    """Traverse equally built lists in parallel and collect the entries at equal positions."""
    if ns in seen:
        return
    seen.add(ns)
    ops = {n.op for n in ns}
    if any(n.op == "call" and n.a[0] in ("numpy.array", "numpy.asarray") for n in ns):
        aligned(r, tuple(n.a[1][0] if n.op == "call" and n.a[0] in ("numpy.array", "numpy.asarray") else n for n in ns), leaves, seen)
        return
    if len(ops) != 1:
        raise Und("recorded lists are built differently")
    op = ops.pop()
    if op == "phi":
        if len({n.a[0] for n in ns}) != 1:
            raise Und("recorded lists grow under different conditions")
        for j in (1, 2):
            aligned(r, tuple(n.a[j] for n in ns), leaves, seen)
        return
    if op in ("first", "last"):
        if len({n.a[0] for n in ns}) != 1 or op == "first" and len({n.a[2] for n in ns}) != 1:
            raise Und("recorded lists grow in different loops")
        for j in ((3,) if op == "first" else (2, 3)):
            aligned(r, tuple(n.a[j] for n in ns), leaves, seen)
        return
    if op == "maybe":
        for j in (1, 2):
            aligned(r, tuple(n.a[j] for n in ns), leaves, seen)
        return
    if op in ("mu", "out"):
        lids = {n.a[0] for n in ns}
        if len(lids) != 1 or next(iter(lids)) not in r.loops:
            raise Und("recorded lists grow in different loops")
        L = r.loops[next(iter(lids))]
        key = ("loop", next(iter(lids)), tuple(n.a[1] for n in ns))
        if key in seen:
            return
        seen.add(key)
        aligned(r, tuple(L["init"][n.a[1]] for n in ns), leaves, seen)
        aligned(r, tuple(L["next"][n.a[1]] for n in ns), leaves, seen)
        return
    if op == "coll":
        entries(r, [n.a[1] for n in ns], leaves, seen)
        return
    if op == "undef":
        return
    raise Und(f"recorded lists: {op}")


def entries(r, es, leaves, seen):
    if len({len(e) for e in es}) != 1:
        raise Und("recorded lists have different lengths")
    for xs in zip(*es):
        ks = {x[0] for x in xs}
        if len(ks) != 1:
            raise Und("recorded lists have different entries")
        k = ks.pop()
        if k == "item":
            leaves.append(tuple(x[1] for x in xs))
        elif k == "splice":
            aligned(r, tuple(x[1] for x in xs), leaves, seen)
        elif k in ("for", "if"):
            if len({x[1:-1] for x in xs}) != 1:
                raise Und("recorded lists grow under different conditions")
            entries(r, [x[-1] for x in xs], leaves, seen)
        else:
            raise Und(f"recorded lists: {k}")


STEPS = ("numpy.arange", "numpy.linspace", "builtins.range", "builtins.len")
BOUNDS = ("numpy.minimum", "numpy.fmin", "numpy.clip", "builtins.min")


def filled(r, W, n):
    """Whether every row of a profile's sample is a point of that profile: (decision, reason).

    Rows are filled where the temperature reaches a threshold; the highest threshold, computed from the first and last
    temperatures, must be bounded by a temperature of the profile (rounding), reached when equal, and one step of the
    profile may reach several."""
    def temp(m):
        x = W.what(m) if m.op in ("elem", "item") else None
        return x[1] if x and x[0] == "temperature" and not x[2] and isinstance(x[1], tuple) else None

    def end(m):
        """Which end of the profile a temperature belongs to (0 or -1)."""
        p = temp(m)
        return cval(p[1]) if p and p[0] == "i" and is_const(p[1]) else None

    def own(c):
        """Nodes of a threshold, not looking into the temperatures of the profile."""
        seen, todo = set(), [c]
        while todo:
            m = todo.pop()
            if m not in seen:
                seen.add(m)
                todo += [] if temp(m) else children(m)
        return seen

    roots = [n]
    for L in r.loops.values():
        roots += [L["cond"], *L["next"].values(), *(g for b in L["breaks"] for g in q.pcguards(b.pc[len(L["entry"].pc):]))]
    nodes = {m for x in roots if isinstance(x, N) for m in deps(x)}
    guards = []
    for m in nodes:
        if m.op in ("lt", "le"):
            for t, c, strict in ((m.a[1], m.a[0], m.op == "lt"), (m.a[0], m.a[1], m.op == "le")):
                p = temp(t)
                if p and end(t) is None and {0, -1} <= {end(k) for k in own(c)}:
                    guards.append((c, strict))
    stores = [m for m in nodes if m.op == "store"]
    if len(set(guards)) != 1 or not stores:
        return None, "no threshold found"
    c, strict = guards[0]
    mine = own(c)
    if not any(end(k) == -1 for b in mine if b.op == "call" and b.a[0] in BOUNDS or b.op == "meth" and b.a[1] == "clip"
               or b.op == "store" and is_const(b.a[1]) and cval(b.a[1]) == -1 for k in children(b)):
        if any(k.op in ("call", "meth", "store", "phi", "rcall", "unk") and k.a[0] not in STEPS + BOUNDS for k in mine):
            return None, "threshold"
        return False, "rounding can put the last threshold above the final temperature"
    if strict:
        return False, "the final temperature itself does not reach the last threshold"
    at = {x.a[1].a[0] if x.a[1].op == "tuple" else x.a[1] for x in stores if not is_const(x.a[1])}
    i = next(iter(at)) if len(at) == 1 else None
    if i is not None and i.op == "mu" and i.a[0] in r.loops:
        L = r.loops[i.a[0]]
        if isinstance(L["it"], N) and any((W.what(k) or " ")[0] == "temperature" for k in deps(L["it"]) | {L["it"]}) and L["cond"] in (True, TRUE):
            return False, "one step of the profile fills one row only: later rows can be left unset"
    return True, ""


def samples(C, rep):
    table = recorded(C, rep)
    for k, cid in CLS.items():
        f = method(C, cid, "process_results")
        if f is None:
            continue
        fn = C.prog.funcs[f]
        at = (fn.mod.path, fn.node.lineno)
        r = C.run(f, "trace", self_cls=cid, args={"skip_data": FALSE})
        what = "a sampled state lists temperature, pressure and all mass fractions, in this order"
        what2 = "the values of a sampled state belong to one instant or grid point"
        n = r.retf
        if n.op == "phi":
            n = next((x for x in n.a[1:] if x.op == "tuple"), n)
        if n.op != "tuple" or len(n.a) != 2:
            rep.und(f"{k}.columns", what, at)
            continue
        rs, whole = sampled_rows(r, n.a[1])
        W = Rows(r, cid)
        W.names = table if k == "ignition" else {}
        if not rs:
            rep.und(f"{k}.columns", what, at)
            continue
        for i, (rid, g) in enumerate(rs):
            key = f"{k}.columns.{i}"
            comps = {}
            for c in sorted(g):
                v = g[c]
                star = isinstance(v, tuple)
                x = W.what(v[1] if star else v)
                comps[c] = (star, x, v)
            if set(comps) != {0, 1, 2}:
                ok = False if whole and all(c[1] for c in comps.values()) else None
                rep.put(ok, key, what, at, f"{len(comps)} parts")
                continue
            want = ["temperature", "pressure", "mass fractions"]
            got = [comps[c][1][0] if comps[c][1] else None for c in (0, 1, 2)]
            ok = None if None in got else got == want and comps[2][0] and not comps[0][0] and not comps[1][0]
            why = ", ".join(str(x) for x in got)
            if ok and k == "flame" and comps[2][1][2] is False:
                ok, why = False, "the mass fractions of one species at all grid points are taken"
            if ok is False and k == "ignition" and not table:
                ok = None
            rep.put(verdict(False, r, n.a[1]) if ok is False else ok, key, what, at, "" if ok else why)
            pos = [comps[c][1][1] if comps[c][1] else None for c in (0, 1, 2)]
            pos = [p for p in pos if p != "any"]
            ok = None if None in pos else len(set(pos)) == 1
            rep.put(verdict(False, r, n.a[1]) if ok is False else ok, f"{k}.instant.{i}", what2, at,
                    "" if ok else "; ".join(str(p)[:60] for p in pos))
        if k != "psr":
            ok, why = filled(r, W, n.a[1])
            rep.put(verdict(False, r, n.a[1]) if ok is False else ok, f"{k}.filled", "every sampled row is a state of the run", at, why)


def graph_reads(C, rep):
    """The graph stage sets the model to the sampled state before it computes rates."""
    for name, fid in STAGES.items():
        m = MATRIX[name]
        if m not in C.prog.funcs:
            raise AnalysisError(f"anchor {m} not found")
        r = C.run(fid, frozenset(q.LEAF - {m}))
        what = "the graph stage reads temperature, pressure and mass fractions from their columns"
        evs = [e for e in r.events if e.kind == "setattr" and (e.name in PAIRS or e.name in ("X", "Y"))
               and any(short(s[0]) == short(m) for s in e.stack)]
        fn = C.prog.funcs[m]
        at = (fn.mod.path, fn.node.lineno)
        if not evs:
            rep.und(f"{name}.state", what, at)
            continue
        s = State()
        for e in evs:
            s.apply(e, lambda n: n)
        lid = [p for p in evs[-1].pc if p[0] == "loop"]
        row = None
        for x in (s.T, s.P):
            if x is not None and x.op == "item":
                row = row if row is not None else x.a[0]
        und = s.unknown or ("no row" if row is None else "")
        if any(q.pcguards(e.pc[-1:]) for e in evs):
            und = und or "the state is set conditionally"
        ok = not und and s.T is mk("item", row, const(0)) and s.P is mk("item", row, const(1)) and s.C is not None and s.C[0] == "Y" \
            and s.C[1] is mk("item", row, mk("slice", const(2), NONE, NONE))
        rep.put(None if und else verdict(False, r, *[x for x in (s.T, s.P) if x is not None]) if not ok else True, f"{name}.state", what,
                evs[-1].loc, und or ("" if ok else f"T {str(s.T)[-30:]}, P {str(s.P)[-30:]}, composition {describe(s.C)[-60:]}"))
        # the row is one of the sampled states of this run
        src = row.a[0] if row is not None and row.op == "elem" else None
        good = src is not None and src.op == "item" and src.a[0].op == "rcall" and src.a[0].a[0] == SAMPLE and is_const(src.a[1], 1)
        part = not good and src is not None and src.op == "item" and src.a[1].op == "slice" and src.a[0].op == "item" \
            and src.a[0].a[0].op == "rcall" and src.a[0].a[0].a[0] == SAMPLE and any(x is not NONE for x in src.a[1].a[:2])
        rep.put(True if good else False if part else None, f"{name}.rows", "every sampled state of this run enters the graphs", evs[-1].loc)


def check(C, rep):
    rep.section("states", case_states)
    rep.section("reactors", reactors)
    rep.section("undisturbed", undisturbed)
    rep.section("samples", samples)
    rep.section("graph", graph_reads)
    from .c22 import fresh
    rep.section("traces", fresh)
