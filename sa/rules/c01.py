"""Membership dataflow: for every call of trim reachable from a reduction stage the analysis computes a formula
over-approximating 'species x is in the exclusion list' (from the value graph of the caller, with its helpers
inlined) and shows it contradicts 'x is protected' and, for the graph stages, 'x is a target'. The protected set is
followed from parse_inputs (every case kind, every mixture field) through main to each stage."""
from .common import *

ASSUMES = ["at least one thermochemical state is sampled", "trim removes exactly its exclusion list (decided by C02)",
           "species names given to the stages exist in the model (checked by parse_inputs, decided here)"]


def stage_trims(C, rep, name):
    fid = STAGES.get(name, RUN_SA)
    r = C.run(fid, "leaf")
    trims = calls(r, TRIM)
    if not trims:
        rep.und(f"{name}.trims", "no call of trim found in the stage")
        return
    for i, e in enumerate(trims):
        ex = argmap(e).get("exclusion_list")
        if ex is None:
            rep.und(f"{name}.trim", "exclusion list not visible", e.loc)
            continue
        may = May(r, e.guards())
        f = may.isin(X, ex)
        safe = mk("in", X, P("species_safe"))
        f2 = rewrite_targets(f, name)
        for what, key, facts in (("retained species", "safe", {safe}),) + ((
                ("target species", "targets", {mk("in", X, P("species_targets"))}),) if name in STAGES else ()):
            g = assume(f2 if key == "targets" else f, frozenset(facts))
            if key == "targets":
                g = nonempty(g)
            if g is FALSE:
                rep.ok(f"{name}.exclusion.{key}", f"exclusion list of trim in {short(e.func)} holds no {what}", e.loc)
            elif may.opaque or has_unk_deep(r, f):
                rep.und(f"{name}.exclusion.{key}", f"exclusion list of trim in {short(e.func)} not fully understood", e.loc,
                        str(may.opaque[:2])[:300])
            else:
                rep.bad(f"{name}.exclusion.{key}", f"a {what[:-1] if what.endswith('s') else what} can be in the exclusion "
                        f"list passed to trim in {short(e.func)}", e.loc, f"remaining condition: {str(g)[:400]}")


def rewrite_targets(f, name):
    """x in search(...) holds whenever x is one of the targets given to the search."""
    fid = SEARCH.get(name)
    mp = {}
    for m in deps(f):
        if m.op == "in" and m.a[0] is X and m.a[1].op == "rcall" and m.a[1].a[0] == fid:
            t = q.nodearg(m.a[1], "species_targets")
            if t is not None and t is P("species_targets"):
                mp[m] = OR(m, mk("in", X, t))
    return subst(f, mp) if mp else f


def nonempty(g):
    """Assume that iterated sampled data are not empty."""
    ts = {m for m in deps(g) if m.op == "truth" and any(
        x.op == "rcall" and x.a[0] in (SAMPLE,) for x in deps(m.a[0]))}
    return assume(g, frozenset(ts)) if ts else g


def search_keeps_targets(C, rep, name):
    fid = SEARCH[name]
    if name == "DRGEP":
        return
    r = C.run(fid, "full")
    T = P("species_targets")
    hit = None
    for kind, v, gs, bs in flow_members(r, r.retf):
        its = [b[0] for b in bs]
        if kind == "splice" and T in sources(r, v) and not gs:
            hit = True
        if kind == "item" and v.op == "elem" and v.a[0] is T and not gs:
            hit = True
        if kind in ("item", "splice"):
            for m in deps(v):
                if m.op == "call" and isinstance(m.a[0], str) and m.a[0].startswith("networkx.") and any(
                        x.op == "elem" and T in sources(r, x.a[0]) for x in deps(m)):
                    bad = [g for g in gs if not benign_not_in(g)]
                    hit = hit or not bad
        if kind == "splice" and v.op in ("elem", "call", "meth") and T in deps(v) and hit is None:
            pass
    rep.put(True if hit else (None if has_unk_deep(r, r.retf) else False), f"{name}.search.targets",
            f"{short(fid)} returns what is reached from every target, the target itself included", None,
            "" if hit else str(r.retf)[:300])


def benign_not_in(g):
    return g.op == "not" and g.a[0].op == "in" or g.op in ("truth",)


def drgep_safe(C, rep):
    pass


def main_protects(C, rep):
    r = C.run(MAIN + "main", "run")
    safe, tg = P("safe_species"), P("target_species")
    for name, fid in list(STAGES.items()) + [("SA", RUN_SA)]:
        evs = calls(r, fid)
        if not evs:
            rep.und(f"main.{name}", f"call of {short(fid)} not found in main")
            continue
        for e in evs:
            am = argmap(e)
            need = [("species_safe", safe, "retained species")]
            if name == "SA":
                need.append(("species_safe", tg, "target species"))
            else:
                need.append(("species_targets", tg, "target species"))
            for arg, want, what in need:
                v = am.get(arg)
                f = r.interp.isin(X, v) if v is not None else FALSE
                got = assume(f, frozenset({mk("in", X, want)})) is TRUE
                rep.put(verdict(got, r, v), f"main.{name}.{what.split()[0]}", f"main hands every {what[:-1] if 0 else what} to "
                        f"{short(fid)} as {arg}", e.loc, "" if got else str(v)[:200])


def parse_protects(C, rep):
    r = C.run(MAIN + "parse_inputs", "parse")
    rets = [e for e in r.events if e.kind == "return" and e.func == MAIN + "parse_inputs"]
    ret = r.retf
    safe = q.project(ret, (("attr", "safe_species"),))
    srcs = sources(r, safe)
    tgt = sources(r, ret, (("attr", "target_species"),))
    gd = mk("meth", P("input_dict"), "get", (const("retained-species"),), (), None)
    mem = []
    for s in srcs:
        mem += list(flow_members(r, s))
    removed = any(m.op == "removed" for s in srcs for m in deep_deps(r, s))
    # mixture species of all kinds of cases
    kinds = {"parse_ignition_inputs": "autoignition", "parse_psr_inputs": "stirred-reactor", "parse_flame_inputs": "flame"}
    fields = ("fuel", "oxidizer", "reactants")
    if ret.op == "nt":
        safe = dict(ret.a[1])["safe_species"]
    safe_in = set(tgt) | set(srcs) | {m for t in tgt for m in [q.unwrap_list(t)]} | {
        v for kind, v, gs, bs in mem if kind == "splice" and is_get(v, "retained-species") and not gs}
    u = has_unk_deep(r, safe)
    roots = {}
    for m in deep_deps(r, safe, ret):
        if m.op == "rcall" and m.a[0] in q.PARSERS:
            roots.setdefault(short(m.a[0]), m)
    # a name is looked up in a text: it may be a part of another name ('H' in 'H2')
    text = any(m.op == "in" and (m.a[1].op == "meth" and m.a[1].a[1] == "join" or m.a[1].op in ("str", "fmt") or m.a[1].op == "call" and
                                 m.a[1].a[0] in ("builtins.str", "builtins.repr")) for m in deep_deps(r, safe))
    for z, txt in kinds.items():
        for fl in fields:
            got = collects(r, safe, roots[z], fl, safe_in) if z in roots else False
            rep.put(True if got and not removed else (None if (u or got is None) and not text else False), f"parse_inputs.retain.{z}.{fl}",
                    f"every {fl} species of every {txt} case is added to the retained species", None,
                    "" if got else "there are inputs for which it does not reach safe_species")
    # user's retained species
    base = any(kind == "splice" and is_get(v, "retained-species") and not gs for kind, v, gs, bs in mem)
    rep.put(True if base and not removed else (None if u else False), "parse_inputs.retain.user",
            "the user's retained species reach safe_species", None, "" if base else str(srcs)[:200])
    # names checked against the model
    for what, key in (("targets", "targets"), ("retained-species", "retained")):
        ok, rel = False, False
        for e in rets:
            gl = []
            for g in e.guards():
                gl += list(g.a) if g.op == "and" else [g]
            for g in gl:
                if g.op == "not" and g.a[0].op == "exists":
                    it, k, c = g.a[0].a
                    el = mk("elem", it, k)
                    its = {m for s in sources(r, q.unwrap_list(it)) for m in [s]} | {it}
                    hit = any(is_get(m, what) for s in its for m in [s] + [y for kk, y, gg, bb in flow_members(r, s) if not gg])
                    if hit and c.op == "not" and c.a[0].op == "in" and c.a[0].a[0] is el and is_names(c.a[0].a[1]):
                        ok = True
                    if hit and c.op == "or" and any(y.op == "not" and y.a[0].op == "in" and y.a[0].a[0] is el and
                                                    is_names(y.a[0].a[1]) for y in c.a):
                        ok = True
                if any(is_get(m, what) for m in deps(g)) and any(is_names(m) for m in deps(g)):
                    rel = True
        rep.put(True if ok else (None if rel else False), f"parse_inputs.check.{key}",
                f"parse_inputs rejects {what} the model lacks", rets[0].loc if rets else None)


def is_get(m, key):
    if m.op == "meth" and m.a[1] == "get" and m.a[2] and is_const(m.a[2][0], key):
        return True
    if m.op == "item" and is_const(m.a[1], key):
        return True
    return False


def is_names(m):
    return (m.op == "attr" and m.a[1] == "species_names") or (
        m.op == "call" and m.a[0] in ("builtins.set", "builtins.list", "builtins.frozenset") and m.a[1] and is_names(m.a[1][0])) or (
        m.op == "coll" and len(m.a[1]) == 1 and m.a[1][0][0] == "splice" and is_names(m.a[1][0][1]))


def expand_sources(r, x):
    out = [x]
    for s in sources(r, x):
        if s not in out:
            out.append(s)
        for kind, v, gs, bs in members(s):
            if v not in out:
                out.append(v)
    return out


def case_origins(r, n):
    """Names of the case parsers whose result the value n is an element of."""
    out = set()
    for m in deep_deps(r, n):
        if m.op == "rcall" and m.a[0] in q.PARSERS:
            out.add(short(m.a[0]))
    return out


def benign_guard(g, v, r, tgt):
    """Skipping a species is fine only when it is protected already or the field is empty."""
    if g.op == "not" and g.a[0].op == "in" and g.a[0].a[0] is v:
        return True
    if g.op == "and":
        return all(benign_guard(x, v, r, tgt) for x in g.a)
    if g.op == "truth":
        return True
    if g.op == "not" and g.a[0].op == "exists":
        return False
    return False


def check(C, rep):
    for name in ("DRG", "DRGEP", "PFA", "SA"):
        rep.section(f"{name}.trims", stage_trims, name)
    for name in ("DRG", "PFA"):
        rep.section(f"{name}.search", search_keeps_targets, name)
    rep.section("main", main_protects)
    rep.section("parse_inputs", parse_protects)
