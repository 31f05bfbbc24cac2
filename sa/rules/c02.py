"""The collections handed to the constructor of the reduced model are put in normal form (comprehensions, loops with
continue/append, filters and helpers all become guarded members of one source collection). The guard of each member is
then read, three-valued, in every case of a finite table (species excluded or not; reaction with or without an excluded
reactant, product, third body, default efficiency, single collision partner) and compared with the definition; an atom
the reading does not know makes the obligation undecided. Every store to a species, reaction or third body that reaches
a kept object is enumerated: only the filtered efficiencies may be stored. Transport model, state and phase name are
followed to the starting model and the parameters."""
import itertools
from .common import *

ASSUMES = ["cantera: Reaction.reactants/products/third_body/efficiencies return what the model file states, and "
           "a reaction names only species of its model",
           "an explicit collision partner is a third body with default efficiency 0 and exactly one efficiency"]
EX = P("exclusion_list")


class Source:
    """The starting model inside trim and the names by which its parts appear."""

    def __init__(self, r):
        self.r = r
        self.sols = [e for e in calls(r, "cantera.Solution")]
        self.new = None
        self.src = None
        for e in self.sols:
            am = argmap(e)
            if "species" in am or "reactions" in am:
                self.new = e
            elif self.src is None:
                self.src = e
        self.sol = self.src.node if self.src else None


def a(base, name):
    return mk("attr", base, name, None)


def elem_name(S, x):
    """The element (it, k) whose species name x is, when x is the name of an iterated species of the model."""
    x = strip_versions(x)
    if x.op == "attr" and x.a[1] == "name":
        x = x.a[0]
    if x.op == "spobj":
        x = x.a[1]
    if x.op == "elem":
        it = q.unwrap_list(x.a[0])
        if it is a(S.sol, "species_names") or it.op == "meth" and it.a[0] is S.sol and it.a[1] == "species" and not it.a[2]:
            return x
    return None


def rx_elem(S, x):
    x = strip_versions(x)
    if x.op == "elem":
        it = q.unwrap_list(x.a[0])
        if it.op == "meth" and it.a[0] is S.sol and it.a[1] == "reactions" and not it.a[2]:
            return x
    return None


def iter_of(n):
    n = strip_versions(q.unwrap_list(n))
    while n.op == "meth" and n.a[1] in ("keys", "items", "copy") or n.op == "call" and n.a[0] in (
            "builtins.list", "builtins.set", "builtins.tuple", "builtins.dict", "builtins.sorted") and len(n.a[1]) == 1:
        n = n.a[0] if n.op == "meth" else n.a[1][0]
        n = strip_versions(q.unwrap_list(n))
    return n


def ex_in(S, c, x):
    """Truth of `x in/not in exclusion` style atoms for a species name x; (excluded, value) reader."""
    return c.op == "in" and strip_versions(c.a[0]) is x and strip_versions(q.unwrap_list(c.a[1])) is EX


def names_in(S, c):
    return c.op == "in" and strip_versions(q.unwrap_list(c.a[1])) is a(S.sol, "species_names")


def per_species(S, x, excluded):
    def cls(c):
        if ex_in(S, c, x):
            return excluded
        if names_in(S, c) and strip_versions(c.a[0]) is x:
            return True
        return None
    return cls


OWN = ("composition", "thermo", "transport", "charge", "size", "molecular_weight", "reversible", "duplicate", "ID", "orders",
       "allow_negative_orders", "allow_nonreactant_orders", "input_data")


def free_species(S, c):
    """A fact about one species that says nothing about its exclusion."""
    if c.op == "exists" or any(m is EX or m.op == "unk" for m in deps(c)):
        return False
    return all(ok_leaf(S, m) for m in deps(c) if m.op in ("call", "meth", "rcall", "param", "mu", "global"))


def ok_leaf(S, m):
    return m is P("initial_model_file") or m is P("phase_name") or m is S.sol or m.op == "meth" and (
        m.a[1] in ("species", "reactions", "startswith", "endswith", "lower", "upper", "keys", "items", "values")) or (
        m.op == "call" and m.a[0] in ("builtins.len", "builtins.str", "builtins.sum"))


def free_reaction(S, R, c):
    """A fact about a reaction that says nothing about which species it names or excludes."""
    if c.op == "exists" or c.op == "in" or any(m is EX or m.op == "unk" for m in deps(c)):
        return False
    about_r = [m for m in deps(c) if m.op == "attr" and m.a[0] is R]
    return bool(about_r) and all(m.a[1] in OWN for m in about_r) and free_species(S, c)


def reader(S, R, sc):
    """Reading of atoms about reaction R in scenario sc."""
    tb = a(R, "third_body")
    eff = a(tb, "efficiencies")

    def group(it):
        it = iter_of(it)
        if it is a(R, "products"):
            return "prod"
        if it is a(R, "reactants"):
            return "reac"
        if it is eff:
            return "eff"
        if it is a(R, "orders"):
            return "orders"         # an elementary reaction has none
        return None

    def partner(x):
        x = strip_versions(x)
        if x is a(tb, "name"):
            return True
        if x.op == "item" and is_const(x.a[1]) and cval(x.a[1]) in (0, -1) and iter_of(x.a[0]) is eff:
            return True
        if x.op == "item" and x.a[0].op == "item":
            return False
        if x.op == "call" and x.a[0] == "builtins.next" and x.a[1]:
            y = x.a[1][0]
            while y.op == "call" and y.a[0] == "builtins.iter":
                y = y.a[1][0]
            return iter_of(y) is eff
        if x.op == "coll" or x.op == "elem":
            return False
        return False

    def cls(c):
        c = strip_versions(c)
        if "kind" in sc:
            f = kind_atom(R, c)
            if f is not None:
                return f(sc["kind"])
        if c.op == "exists":
            g = group(c.a[0])
            if iter_of(c.a[0]) is EX and c.a[2].op == "in" and c.a[2].a[0] is mk("elem", c.a[0], c.a[1]):
                g = group(c.a[2].a[1])
                return sc[g] if g and (g != "eff" or sc["tb"]) else None
            x = mk("elem", c.a[0], c.a[1])
            ins = tri(c.a[2], per_species(S, x, True))
            out = tri(c.a[2], per_species(S, x, False))
            if g is None or ins is None or out is None:
                return None
            if g == "eff" and not sc["tb"]:
                return None
            return ins and sc[g] or out and sc[g + "_rest"]
        if c.op in ("eq", "is") and NONE in c.a:
            o = [y for y in c.a if y is not NONE]
            if o and o[0] is tb:
                return not sc["tb"]
        if c.op == "truth":
            m = c.a[0]
            if m is tb:
                return sc["tb"]
            if m is a(tb, "default_efficiency"):
                return sc["default"] if sc["tb"] else None
            if iter_of(m) is eff and sc["tb"]:
                return not sc["none"]
            if m.op == "call" and m.a[0] == "builtins.len" and iter_of(m.a[1][0]) is eff:
                return not sc["none"]
        if c.op in ("eq", "lt", "le"):
            x, y = c.a
            for u, v, flip in ((x, y, False), (y, x, True)):
                if u is a(tb, "default_efficiency") and v.op == "const" and sc["tb"]:
                    val = 1.0 if sc["default"] else 0.0
                    k = cval(v)
                    if c.op == "eq":
                        return val == k if k == 0 or not sc["default"] else None
                    if sc["default"] and k != 0:
                        return None
                    p, s = (k, val) if flip else (val, k)
                    return p < s if c.op == "lt" else p <= s
                if u.op == "call" and u.a[0] == "builtins.len" and u.a[1] and iter_of(u.a[1][0]) is eff and v.op == "const":
                    val = 1 if sc["one"] else 0 if sc["none"] else 2
                    k = cval(v)
                    if val == 2 and k not in (0, 1) and c.op == "eq":
                        return None
                    if c.op == "eq":
                        return val == k
                    p, s = (k, val) if flip else (val, k)
                    return p < s if c.op == "lt" else p <= s
                if flip is False and c.op == "eq" and {type(u), type(v)} and a(R, "third_body_name") in (u, v):
                    return None
        if c.op == "in" and strip_versions(q.unwrap_list(c.a[1])) is EX and partner(c.a[0]):
            if c.a[0] is a(tb, "name"):
                return sc["partner"] if sc["tb"] and sc["one"] and not sc["default"] else False
            if sc["none"] or not sc["tb"]:
                return None
            last = c.a[0].op == "item" and cval(c.a[0].a[1]) == -1
            return sc["first"] is not last if sc["eff"] and sc["eff_rest"] else sc["eff"]
        if c.op == "in" and names_in(S, c) and partner(c.a[0]):
            return True if sc["one"] else None
        return None
    return cls


KINDS = (("three-body-Arrhenius", "ArrheniusRate"), ("falloff-Troe", "TroeRate"), ("falloff-Lindemann", "LindemannRate"),
         ("falloff-SRI", "SriRate"), ("chemically-activated-Troe", "TroeRate"), ("Arrhenius", "ArrheniusRate"),
         ("pressure-dependent-Arrhenius", "PlogRate"), ("Chebyshev", "ChebyshevRate"))
ABOVE = {"TroeRate": ("FalloffRate",), "LindemannRate": ("FalloffRate",), "SriRate": ("FalloffRate",)}


def kind_atom(R, c):
    """(atom about the kind of the reaction) -> function of the kind, or None."""
    kind, rate = a(R, "reaction_type"), a(R, "rate")
    if c.op == "eq" and kind in c.a:
        o = [x for x in c.a if x is not kind]
        if o and o[0].op == "const":
            return lambda k: k[0] == cval(o[0])
    if c.op == "in" and c.a[0] is kind:
        it = q.unwrap_list(c.a[1])
        vs = [e[1] for e in it.a[1] if e[0] == "item"] if it.op == "coll" else list(it.a) if it.op == "tuple" else []
        if vs and all(x.op == "const" for x in vs):
            return lambda k: k[0] in [cval(x) for x in vs]
    if c.op == "in" and c.a[1] is kind and c.a[0].op == "const":
        return lambda k: cval(c.a[0]) in k[0]
    m = c.a[0] if c.op == "truth" else c
    if m.op == "meth" and m.a[0] is kind and m.a[1] in ("startswith", "endswith") and len(m.a[2]) == 1:
        vs = m.a[2][0].a if m.a[2][0].op == "tuple" else (m.a[2][0],)
        if all(x.op == "const" for x in vs):
            return lambda k: getattr(k[0], m.a[1])(tuple(cval(x) for x in vs))
    if c.op == "isinst" and c.a[0] is rate and c.a[1].op == "ext":
        n = str(c.a[1].a[0]).rsplit(".", 1)[-1]
        return lambda k: n in (k[1],) + ABOVE.get(k[1], ())
    return None


def with_kinds(g, R, scs):
    """The cases, split by the kind of the reaction where the guard g asks for it."""
    if not any(kind_atom(R, m) for m in deps(g)):
        yield from scs
        return
    for sc in scs:
        for k in KINDS[:5] if sc["tb"] else KINDS[5:]:
            yield dict(sc, kind=k)


def scenarios():
    some = [(x, y) for x in (False, True) for y in (False, True) if x or y]
    for (prod, pr), (reac, rr) in itertools.product(some, repeat=2):
        b = dict(prod=prod, prod_rest=pr, reac=reac, reac_rest=rr)
        b.update(orders=False, orders_rest=False)
        yield dict(b, tb=False, default=False, one=False, none=False, partner=False, eff=False, eff_rest=False, first=False)
        for default, cnt in itertools.product((False, True), ("none", "one", "more")):
            for x, y in some if cnt == "more" else [(False, True), (True, False)] if cnt == "one" else [(False, False)]:
                for first in (True, False) if x and y else (x,):
                    yield dict(b, tb=True, default=default, one=cnt == "one", none=cnt == "none", partner=x, eff=x, eff_rest=y,
                               first=first)


def text(sc):
    t = [("an" if sc["prod"] else "no") + " excluded product", ("an" if sc["reac"] else "no") + " excluded reactant"]
    if sc["tb"]:
        t.append("third body with " + ("non-zero" if sc["default"] else "zero") + " default efficiency and "
                 + ("one efficiency" if sc["one"] else "no efficiencies" if sc["none"] else "several efficiencies")
                 + (", an excluded partner" if sc["partner"] else ""))
    else:
        t.append("no third body")
    if "kind" in sc:
        t.append("kind " + sc["kind"][0])
    return ", ".join(t)


def kept(sc):
    if sc["prod"] or sc["reac"]:
        return False
    return not (sc["tb"] and not sc["default"] and sc["one"] and sc["partner"])


def build(C, rep):
    r = C.run(TRIM, "full")
    S = Source(r)
    if S.new is None or S.sol is None:
        rep.und("closed", "the reduced model is built from lists of species and reactions of the starting model")
        return
    for fs, v in cases(r.retf):
        rep.put(verdict(v is S.new.node, r, v), "result", "the model returned is the one built from the kept parts", S.new.loc,
                str(v)[:120])
    am = argmap(S.src)
    f, nm = am.get("infile", am.get(0)), am.get("name", am.get(1))
    rep.put(verdict(f is P("initial_model_file"), r, f), "source.file", "parts are taken from the given starting model", S.src.loc,
            str(f)[:100])
    rep.put(verdict(nm is P("phase_name"), r, nm) if nm is not None else False, "source.phase", "and from the given phase", S.src.loc,
            str(nm)[:100])
    new = argmap(S.new)
    # species
    sp = new.get("species")
    ms = list(members(sp)) if sp is not None else []
    if not ms:
        rep.und("species", "kept species", S.new.loc, str(sp)[:150])
    for k, v, gs, bs in ms:
        x = elem_name(S, v) if k == "item" else None
        obj = strip_versions(v) if k == "item" else None
        if x is None or len(bs) != 1 or not (obj.op in ("spobj", "elem")):
            rep.und("species", "kept species are objects of the starting model", S.new.loc, str(v)[:150])
            continue
        names = [x]
        if x.a[0].op == "meth":
            names = [a(x, "name")]
        g = AND(*[strip_versions(y) for y in gs]) if gs else TRUE
        for exc in (True, False):
            t = judge(tri_free(g, per_species(S, names[0], exc), lambda c: free_species(S, c)), not exc)
            rep.put(t, "species.excluded" if exc else "species.kept",
                    "an excluded species is left out" if exc else "a species that is not excluded is kept", S.new.loc,
                    "" if t else f"guard {str(g)[:200]}")
    if len(ms) > 1:
        rep.und("species.once", "species come from one list", S.new.loc)
    # reactions
    rx = new.get("reactions")
    ms = list(members(rx)) if rx is not None else []
    if not ms:
        rep.put(verdict(False, r, rx), "reactions", "reactions of the starting model are kept", S.new.loc, str(rx)[:150])
    R, G = None, None
    for k, v, gs, bs in ms:
        R = rx_elem(S, v) if k == "item" else None
        if R is None or len(bs) != 1:
            R = None
            rep.und("reactions", "kept reactions are the starting model's own objects", S.new.loc, str(v)[:150])
            continue
        G = AND(*[strip_versions(y) for y in gs]) if gs else TRUE
        table(S, rep, r, R, G)
    if R is not None and len(ms) == 1:
        stores(S, rep, r, R, G)
    phase(S, rep, r, new)


def table(S, rep, r, R, G):
    und, bad, n = [], [], 0
    for sc in with_kinds(G, R, scenarios()):
        n += 1
        t = judge(tri_free(G, reader(S, R, sc), lambda c: free_reaction(S, R, c)), kept(sc))
        if t is None:
            und.append(sc)
        elif t is False:
            bad.append((sc, not kept(sc)))
    what = "a reaction is kept exactly when all its reactants, products and its explicit collision partner remain"
    if bad:
        sc, t = bad[0]
        rep.bad("reactions.kept", what, S.new.loc, f"{'kept' if t else 'dropped'} with {text(sc)} (and {len(bad) - 1} more of {n} "
                f"cases); guard {str(G)[:300]}")
    elif und:
        rep.und("reactions.kept", what, S.new.loc, f"{len(und)} of {n} cases not decided, e.g. {text(und[0])}; guard {str(G)[:300]}")
    else:
        rep.ok("reactions.kept", what, S.new.loc, f"{n} cases")


CHANGES = ("set_multiplier", "modify_reaction", "modify_species", "add_reaction", "add_species")


def chain(b):
    """b and the objects it is a part of."""
    out = [b]
    while b.op in ("attr", "item", "meth") or b.op == "elem" and b.a[0].op == "meth":
        b = b.a[0].a[0] if b.op == "elem" else b.a[0]
        out.append(b)
    return out


def stores(S, rep, r, R, G):
    tb = a(R, "third_body")
    eff = a(tb, "efficiencies")
    n = 0
    covered = {}
    for e in r.events:
        if e.kind == "meth" and e.args and strip_versions(e.args[0]) is strip_versions(S.new.node) and e.name in CHANGES:
            rep.put(verdict(False, r, e.args[0]), "unchanged.model", "the built model is not changed afterwards", e.loc, e.name)
        if e.kind == "setattr" and e.node is not None and e.node is not S.new.node:
            b = strip_versions(e.node)
            ch = chain(b)
            if any(m.op == "spobj" or elem_name(S, m) is not None for m in ch):
                rep.bad("unchanged.species", "species objects are not modified", e.loc, f"stores {e.name}")
                n += 1
                continue
            if S.new.node in ch:
                rep.bad("unchanged.model", "the built model is not changed afterwards", e.loc, f"stores {e.name} of {str(b)[-80:]}")
                continue
            rr = [m for m in ch if rx_elem(S, m) is not None]
            if not rr:
                continue
            n += 1
            if not (b.op == "attr" and b.a[1] == "third_body" and e.name == "efficiencies"):
                rep.put(verdict(False, r, b), "unchanged.reactions", "kept reactions are not modified", e.loc,
                        f"stores {e.name} of {str(b)[:100]}")
                continue
            Re = rr[0]
            value(S, rep, r, e, mk("attr", b, "efficiencies", None), Re)
            g = AND(*[strip_versions(y) for y in q.pcguards(e.pc)])
            ok = True
            for sc in with_kinds(g, Re, scenarios()):
                if not (kept(sc) and sc["tb"] and sc["eff"]):
                    continue
                t = judge(tri_free(g, reader(S, Re, sc), lambda c: free_reaction(S, Re, c)), True)
                if t is not True:
                    ok = None if t is None else False
                    if ok is False:
                        rep.bad("efficiencies.all", "efficiencies of removed species are dropped from every kept third body", e.loc,
                                f"not with {text(sc)}")
                        break
            if ok is not False:
                covered[e] = ok
    if True in covered.values():
        rep.ok("efficiencies.all", "efficiencies of removed species are dropped from every kept third body")
    elif covered:
        rep.und("efficiencies.all", "efficiencies of removed species are dropped from every kept third body",
                list(covered)[0].loc)
    elif not any(o.key == "efficiencies.all" for o in rep.obs):
        sus = [e for e in r.events if e.kind in ("meth", "mutate", "setitem") and e.name in ("clear", "update", "pop", "setitem")]
        rep.put(None if sus else False, "efficiencies.all", "efficiencies of removed species are dropped from every kept third body",
                S.new.loc, "no store of filtered efficiencies")


def value(S, rep, r, e, eff, R):
    v = e.args[0]
    what = "remaining efficiencies keep their values"
    ms = list(members(v))
    if not ms:
        rep.put(verdict(False, r, v), "efficiencies.values", what, e.loc, str(v)[:150])
        return
    for k, kv, gs, bs in ms:
        if k != "kv" or len(bs) != 1 or iter_of(bs[0][0]) is not eff:
            rep.put(None if k != "splice" else verdict(False, r, kv) if iter_of(kv) is eff else None, "efficiencies.values", what,
                    e.loc, str(v)[:200])
            continue
        key, val = map(strip_versions, kv)
        g = AND(*[strip_versions(y) for y in gs]) if gs else TRUE
        okv = val.op == "item" and iter_of(val.a[0]) is eff and val.a[1] is key and key.op == "elem" and iter_of(key.a[0]) is eff
        rep.put(verdict(okv, r, val, key), "efficiencies.values", what, e.loc, "" if okv else f"{key}: {val}"[:200])
        for exc in (True, False):
            t = judge(tri_free(g, per_species(S, key, exc), lambda c: free_species(S, c) or val in deps(c)), not exc)
            rep.put(t, "efficiencies.dropped" if exc else "efficiencies.kept",
                    "an efficiency of a removed species is dropped" if exc else "an efficiency of a remaining species is kept",
                    e.loc, "" if t else f"guard {str(g)[:150]}")


def mentions(c):
    """c tells something about the phase name other than which model it selects."""
    return c.op == "truth" and c.a[0] is P("phase_name") or P("phase_name") in c.a


STATE = ("TP", "TPX", "TPY", "TPQ", "PX", "TD", "TDX", "TDY", "HP", "HPX", "HPY", "UV", "UVX", "UVY", "SP", "SV", "state")


def phase(S, rep, r, new):
    t = new.get("transport_model")
    ok = t is not None and strip_versions(t) is a(S.sol, "transport_model")
    sets = [e for e in r.events if e.kind == "setattr" and e.node is S.new.node]
    tm = [e for e in sets if e.name == "transport_model"]
    if tm:
        t = tm[-1].args[0]
        ok = strip_versions(t) is a(S.sol, "transport_model") and not q.pcguards(tm[-1].pc)
    rep.put(verdict(ok, r, t) if t is not None else False, "transport", "the transport model is the starting model's",
            (tm[-1] if tm else S.new).loc, str(t)[:100])
    st = [e for e in sets if e.name in STATE]
    ok, why = False, "no state is set"
    if st:
        e = st[-1]
        v = e.args[0]
        why = f"{e.name} = {str(v)[:150]}"
        first = [mk("attr", S.sol, "T", None), mk("attr", S.sol, "P", None)]
        v2 = strip_versions(v)
        if e.name == "state":
            ok = None
        elif e.name.startswith("TP"):
            if v2.op == "attr" and v2.a[0] is S.sol and v2.a[1] in ("TP", "TPX", "TPY"):
                ok = True
            elif v2.op == "tuple":
                ok = all(same_tp(S, v2.a[i], i) for i in (0, 1))
            else:
                ok = verdict(False, r, v2)
        if ok and q.pcguards(e.pc):
            ok, why = verdict(False, r, *q.pcguards(e.pc)), "only set under a condition"
        moved = [x for x in r.events if x.kind == "setattr" and x.node is S.sol and x.name in STATE]
        if ok and moved:
            ok, why = verdict(False, r), "the starting model's state was changed before"
    rep.put(ok, "state", "temperature and pressure are the starting model's", st[-1].loc if st else S.new.loc, why)
    # phase name
    given = truth(P("phase_name"))
    nm = new.get("name")
    cur = {True: nm, False: nm}
    last = None
    for e in sets:
        if e.name != "name":
            continue
        g = AND(*q.pcguards(e.pc))
        last = e
        for b in (True,):
            ts = tri_free(strip_versions(g), lambda c: True if c is given else False if c is mk("eq", *sorted((P("phase_name"), const("")), key=lambda n: n.id)) else None,
                          lambda c: not mentions(c) and not has_unk_deep(r, c) and c.op in ("lt", "le", "eq", "in", "truth"))
            if ts == {True}:
                cur[b] = e.args[0]
            elif None in ts:
                cur[b] = None
            elif True in ts and e.args[0] is not P("phase_name"):
                cur[b] = e.args[0]
    v = cur[True]
    if v is not None:
        v = resolve(v, {given})
    e = last or S.new
    rep.put(None if v is None and last is not None else verdict(v is P("phase_name"), r, v), "phase",
            "the reduced phase carries the requested phase name", e.loc, str(v)[:100])


def same_tp(S, v, i):
    n = ("T", "P")[i]
    if v is a(S.sol, n):
        return True
    return v.op == "item" and v.a[0].op == "attr" and v.a[0].a[0] is S.sol and v.a[0].a[1] in ("TP", "TPX", "TPY") and is_const(
        v.a[1], i)


def check(C, rep):
    rep.section("closed", build)
