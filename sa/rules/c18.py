"""Ranking arguments for every loop of the package, read off the loop-carried recurrences of the value graph. For-loops
over finite collections and ranges end by construction; each while-loop (and each loop over an endless iterator) must
show, in every case of an iteration that is followed by another, a strict progress measure with a loop-invariant bound:
threshold loops (raised by a positive step below an invariant maximum, or lowered above a fixed positive floor and only
before the first raise), shrinking work lists, simulated time below the end time, counters. Recursion is excluded by the
call graph."""
import ast

from .stage import *

ASSUMES = ["each step of the integrator advances its time", "edge weights are at most one (C13), so products along "
           "cycles do not grow", "a stage's threshold bound is finite"]


def inv(S_, n):
    return not any(m.op == "mu" and m.a[0] is S_.info["lid"] for m in deps(n))


def endless(n):
    """n is infinite: no threshold exceeds such a bound."""
    if n.op == "const":
        return cval(n) == float("inf")
    if n.op == "bin" and n.a[0] in ("+", "-", "*"):
        return endless(n.a[1]) or endless(n.a[2])
    if n.op == "bin" and n.a[0] == "/":
        return endless(n.a[1])
    if n.op == "phi":
        return endless(n.a[1]) or endless(n.a[2])
    if n.op == "call" and n.a[0] in ("builtins.max", "numpy.maximum", "numpy.max"):
        return any(endless(x) for x in n.a[1])
    if n.op == "coll":
        return any(i[0] == "item" and endless(i[1]) for i in n.a[1])
    if n.op == "tuple":
        return any(endless(x) for x in n.a)
    return n.op == "call" and n.a[0] == "builtins.float" and bool(n.a[1]) and is_const(n.a[1][0]) and \
        str(cval(n.a[1][0])).strip("+").lower() in ("inf", "infinity")


def shrinking(n):
    """A factor of the step n is a difference of two varying values, which may be zero or negative."""
    if n.op == "bin" and n.a[0] == "*":
        return shrinking(n.a[1]) or shrinking(n.a[2])
    if n.op == "bin" and n.a[0] == "/":
        return shrinking(n.a[1])
    return n.op == "bin" and n.a[0] == "-" and not is_const(n.a[1]) and not is_const(n.a[2])


def bounded(S_, guards, ts):
    """A guard keeps one of ts at or below a loop-invariant, finite value."""
    for g in guards:
        h = g
        if h.op == "not" and h.a[0].op in ("lt", "le"):
            lo, hi = h.a[0].a
            if hi in ts and inv(S_, lo) and not endless(lo):
                return True
        if h.op in ("lt", "le") and h.a[0] in ts and inv(S_, h.a[1]) and not endless(h.a[1]):
            return True
    return False


def floored(guards, t):
    for g in guards:
        if g.op == "not" and g.a[0].op in ("lt", "le") and g.a[0].a[0] is t and g.a[0].a[1].op == "const":
            v = cval(g.a[0].a[1])
            if isinstance(v, (int, float)) and v > 0:
                return True
        if g.op in ("lt", "le") and g.a[1] is t and g.a[0].op == "const" and isinstance(cval(g.a[0]), (int, float)) and \
                cval(g.a[0]) > 0:
            return True
    return False


def ratio(n, m):
    l = linear(n)
    if l is not None and set(l) == {m}:
        return l[m]
    return None


def threshold(C, rep, name):
    S_ = StageLoop(C, name)
    r = S_.r
    if S_.info is None or S_.thr is None:
        rep.und(f"{name}.loop", "the threshold loop was not recognised")
        return
    i = S_.info
    loc = i["loc"]
    mus = S_.mus()
    T = mus[S_.thr]
    INC = mus.get(S_.inc) if S_.inc else None
    facts = {strip_versions(mk("le", const(0.0), P("error_limit")))}
    raise_, lower = [], []
    for fs, t, inc, c, g in S_.continuing(facts):
        l = linear(t)
        gs = q.flat([strip_versions(x) for x in (g.a if g.op == "and" else (g,))] + [strip_versions(f) for f in fs] +
                    [x for x in (c.a if c.op == "and" else (c,))])
        if l is not None and l.get(T) == 1 and set(l) - {T}:
            raise_.append((fs, t, inc, l, gs))
        elif ratio(t, T) is not None and 0 < ratio(t, T) < 1:
            lower.append((fs, t, inc, ratio(t, T), gs))
        elif t is T:
            rep.bad(f"{name}.progress", "the threshold changes in every iteration", loc,
                    f"unchanged when {[str(x)[:80] for x in list(fs)[:3]]}")
        elif l is not None and l.get(T) and not any(not isinstance(k, N) or k.op != "mu" for k in l if k != 1):
            rep.bad(f"{name}.progress", "the threshold is raised by a step or lowered by a factor", loc, f"next: {str(t)[:200]}")
        else:
            rep.put(None, f"{name}.progress", "the threshold is raised by a step or lowered by a factor", loc, str(t)[:200])
    if not raise_:
        rep.put(None, f"{name}.raise", "accepted iterations raise the threshold", loc)
    for fs, t, inc, l, gs in raise_:
        step = {k: v for k, v in l.items() if k is not T}
        ok, why = None, f"step {str(step)[:120]}"
        if set(step) == {1}:
            ok = step[1] > 0
        elif INC is not None and set(step) == {INC}:
            ini = i["init"][S_.inc]
            ok = step[INC] > 0 and is_const(ini) and cval(ini) > 0
            if ok and inc is not INC:
                rt = ratio(inc, INC)
                ok = rt is not None and rt >= 1
                why = f"the step becomes {str(inc)[:100]}"
        elif any(isinstance(k, N) and shrinking(k) for k in step):
            ok = verdict(False, r, *[k for k in step if isinstance(k, N)])
        rep.put(ok, f"{name}.raise", "the threshold is raised by a positive step", loc, "" if ok else why)
        b = bounded(S_, gs, {T, t})
        rep.put(verdict(b, r, *gs), f"{name}.bound", "the loop ends once the threshold exceeds every coefficient", loc,
                "" if b else "an iteration that raised the threshold can always be followed by another")
    for fs, t, inc, rt, gs in lower:
        f = floored(gs, t)
        rep.put(verdict(f, r, *gs), f"{name}.floor", "a threshold that shrinks below a fixed floor is an error", loc,
                "" if f else "no floor on the lowered threshold")
        if INC is not None:
            ri = ratio(inc, INC)
            rep.put((ri is not None and ri > 0) or verdict(False, r, inc), f"{name}.lowerstep", "the step stays positive", loc,
                    str(inc)[:100])
        # lowering is possible only before the first raise
        flags = []
        for k, m in mus.items():
            if truth(m) in fs or m in fs:
                flags.append((k, m, True))
            elif NOT(truth(m)) in fs:
                flags.append((k, m, False))
        good, seen = None, []
        for k, m, pol in flags:
            seen.append(k[-1])
            ini = i["init"][k]
            vals = []
            for fs2, t2, inc2, l2, gs2 in raise_:
                v = resolve(i["next"][k], fs2)
                vals.append(v)
            off = all(truth_const(v) is (not pol) for v in vals) and vals
            if off:
                good = True
        if good is None:
            good = verdict(False, r, *list(fs)) if flags or not any(
                mentions_state(x, S_) for x in fs) else None
        rep.put(good, f"{name}.lower", "the threshold is lowered only before it was ever raised", loc,
                "" if good else f"lowering and raising can alternate (flags examined: {seen})")


def truth_const(v):
    if v.op == "const":
        return bool(cval(v))
    if v.op in ("nt", "replaced"):
        return True
    return None


def mentions_state(x, S_):
    """A condition over loop-carried state other than the threshold and error numbers."""
    for m in deps(x):
        if m.op == "mu" and m.a[0] is S_.info["lid"] and m.a[1] not in (S_.thr, S_.inc):
            return True
    return False


# ------------------------------------------------------------------- sensitivity analysis
def sa(C, rep):
    r = C.run(RUN_SA, "leaf")
    loops = [i for i in r.loops.values() if i["it"].op == "while"]
    hit = None
    for i in loops:
        trimmed = any(any(p[0] == "loop" and p[1] is i["lid"] for p in e.pc) for e in calls(r, TRIM))
        if trimmed:
            hit = i
    if hit is None:
        # a for-loop over the candidates ends by construction
        fors = [e for e in calls(r, TRIM) if any(p[0] == "loop" for p in e.pc)]
        rep.put(True if fors else None, "SA.shrink", "candidates are considered at most once")
        return
    i = hit
    lid, loc = i["lid"], i["loc"]
    lists = [k for k in i["init"] if k[0] == "h" and k[1] != "fs" and i["init"][k] is not None and
             i["init"][k].op in ("coll", "phi", "out") and any(m.op == "removed" or m.op == "coll" for m in deps(
                 i["next"][k] or NONE))]
    work = [k for k in lists if mk("mu", lid, k) in deps(i["cond"]) or any(
        mk("mu", lid, k) in deps(g) for g in q.next_guards(i))]
    what = "every further iteration considers one candidate fewer"
    if not work:
        names = [k for k in i["next"] if k[0] == "v" and i["next"][k] is not None and i["next"][k] is not mk("mu", lid, k) and
                 mk("mu", lid, k) in deps(i["cond"])]
        for k in names:             # built anew from something else than the list of the previous iteration
            for fs, v in cases(i["next"][k]):
                v = r.st.heap.get(v, v)
                v = strip_versions(v) if isinstance(v, N) else NONE
                e = v.a[1][0] if v.op == "coll" and len(v.a[1]) == 1 else None
                if e is not None and e[0] == "for" and e[1].op in ("attr", "call", "param") and not any(
                        x.op == "in" and mk("mu", lid, k) in deps(x.a[1]) for y in e[3] for n in ent_nodes(y) for x in deps(n)):
                    rep.bad("SA.shrink", what, loc, f"the list of candidates starts anew from {str(e[1])[:100]}")
                    return
        rep.put(verdict(False, r, i["cond"]) if not lists and not names and i["cond"] is not TRUE else None, "SA.shrink", what, loc,
                "no work list shrinks in the loop")
        return
    k = work[0]
    m = mk("mu", lid, k)
    nx = i["next"][k]
    bad = None
    for fs, v in cases(nx):
        n = 0
        while v.op == "removed":
            v = v.a[0]
            n += 1
        if v is m and n >= 1:
            continue
        if v is m:
            bad = "the list is unchanged"
        elif any(x.op == "unk" for x in deps(v)):
            bad = bad or None
            rep.und("SA.shrink", what, loc, str(v)[:150])
            return
        elif v.op == "coll" and len(v.a[1]) == 1 and v.a[1][0][0] in ("for", "if"):
            # filtered copy of the list that drops the candidate
            rep.put(filtered(v, m), "SA.shrink", what, loc, str(v)[:150])
            return
        elif v.op == "item" and v.a[0] is m:
            continue
        else:
            bad = str(v)[:150]
    rep.put(True if not bad else verdict(False, r, nx), "SA.shrink", what, loc, bad or "")
    # nothing is taken from an empty list
    rem = {x for x in deps(nx) if x.op == "removed"}
    for e in r.events:
        if e.kind != "reduce" or e.name not in ("builtins.min", "builtins.max", "numpy.argmin", "numpy.argmax", "numpy.min",
                                              "numpy.max", "numpy.nanmin", "numpy.nanargmin", "numpy.amin"):
            continue
        if not any(p[0] == "loop" and p[1] is lid for p in e.pc) or len(e.args) != 1 or dict(e.kw).get("default") is not None:
            continue
        arg = e.args[0]
        after = any(x.op == "removed" or x.op == "call" and x.a[0] == "numpy.delete" for x in deps(arg))
        want = {truth(x) for x in rem} if after else {truth(m)} | {truth(x) for x in rem}
        gs = q.flat(pcg_(e.pc))
        short_ = [x for g in gs for x in ([g] if g.op != "and" else g.a)]
        ok = any(w in short_ for w in want) or any(nonempty(g, rem if after else rem | {m}) for g in short_)
        inner = cond_inside(r, e, want)
        rep.put(True if ok or inner else verdict(False, r, arg), "SA.empty", "the smallest error is taken only of a non-empty "
                "list of candidates", e.loc, "" if ok or inner else "the list may be empty here")
    # errors stay aligned with the candidates
    errs = [kk for kk in i["init"] if kk != k and i["next"][kk] is not None and kk[0] == "v" and any(
        x.op == "rcall" and x.a[0] == ERROR for x in deep_deps(r, i["init"][kk]))]
    idxs = {x.a[2] for x in rem if len(x.a) > 2 and isinstance(x.a[2], N)}
    for kk in errs:
        em = mk("mu", lid, kk)
        if not any(e.kind == "reduce" for e in r.events):
            continue
        if not any(em in deps(x) for x in idxs):
            continue
        for fs, v in cases(i["next"][kk]):
            if v.op == "call" and v.a[0] == "numpy.delete" and v.a[1][0] is em:
                ok = v.a[1][1] in idxs
                if not ok and len(v.a[1]) > 1 and any(x.op == "item" and x.a[1] is v.a[1][1] for x in idxs):
                    ok = True               # removed by name: the entry at that position
                why = "another entry is deleted"
            elif v is em:
                ok, why = False, "the errors keep the entry of the candidate that was taken"
            elif any(x in rem for x in deep_deps(r, v)) and any(x.op == "rcall" and x.a[0] == ERROR for x in deep_deps(r, v)):
                ok, why = True, ""
            else:
                ok, why = None, str(v)[:150]
            rep.put(ok, "SA.aligned", "errors and candidates stay aligned", loc, "" if ok else why)


def ent_nodes(e):
    if e[0] == "if":
        yield e[1]
    for x in e[1:]:
        if isinstance(x, N):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple):
                    yield from ent_nodes(y)


def filtered(v, m):
    e = v.a[1][0]
    return True if any(x is m for x in deps(v)) and any(isinstance(y, tuple) and y and y[0] == "if" for y in flat_ents(e)) else None


def flat_ents(e):
    yield e
    if e[0] == "for":
        for x in e[3]:
            yield from flat_ents(x)
    if e[0] == "if":
        for x in e[2]:
            yield from flat_ents(x)


def pcg_(pc):
    return [p[1] for p in pc if p[0] == "g"]


def nonempty(g, lists):
    if g.op in ("lt", "le", "eq", "not"):
        return any(x.op == "call" and x.a[0] == "builtins.len" and x.a[1][0] in lists for x in deps(g))
    return False


def cond_inside(r, e, want):
    return False


# ------------------------------------------------------------------- simulations
def simulation(C, rep, cid):
    for mname in ("run_case", "calculate"):
        fid = method(C, cid, mname)
        r = C.run(fid, "trace", self_cls=cid)
        nm = f"{cid.rsplit('.', 1)[1]}.{mname}"
        loops = {p[1]: p for e in r.events for p in e.pc if p[0] == "loop"}
        for e in r.events:
            if e.kind == "meth" and e.name in ("step", "advance") and e.node is not None:
                ls = [p for p in e.pc if p[0] == "loop"]
                if not ls:
                    continue
        for lid, p in loops.items():
            i = r.loops.get(lid)
            if i is None:
                continue
            it = i["it"]
            if it.op != "while" and not unbounded(it):
                lim = it.a[1][0] if it.op == "call" and it.a[0] == "builtins.range" and it.a[1] else it
                rep.put(True, f"{nm}.ends", "the loop runs over a finite range", i["loc"], str(lim)[:80])
                continue
            steps = [e for e in r.events if e.kind == "meth" and e.name in ("step", "advance", "advance_to_steady_state")
                     and any(x[0] == "loop" and x[1] is lid for x in e.pc)]
            ok, why = time_bound(r, i, steps)
            if ok is None:
                ok, why = counter_bound(r, i)
            rep.put(ok, f"{nm}.ends", "the loop ends at the end time or a step limit", i["loc"], why)


def time_bound(r, i, steps):
    lid = i["lid"]
    gs = q.flat([i["cond"]] + q.next_guards(i)) if isinstance(i["cond"], N) else q.flat(q.next_guards(i))
    timed = []
    for g in gs:
        h, neg = (g.a[0], True) if g.op == "not" else (g, False)
        if h.op in ("lt", "le"):
            a, b = h.a if not neg else (h.a[1], h.a[0])
            if any(m.op == "attr" and m.a[1] == "time" for m in deps(a)) and not any(
                    m.op == "mu" and m.a[0] is lid for m in deps(strip_versions(b))) and not any(
                    m.op == "attr" and m.a[1] == "time" for m in deps(b)):
                timed.append(g)
    if not timed:
        return None, "no bound on the simulated time"
    n = len(i["entry"].pc)
    cs = set(q.flat([i["cond"]])) if isinstance(i["cond"], N) else set()
    for e in steps:
        left = [g for g in q.flat(pcg_(e.pc[n:])) if g not in cs]
        if not left:
            return True, ""
    if not steps:
        return (None if any(has_unk_deep(r, g) for g in timed) else False), "the simulation is not advanced in the loop"
    return None, "the simulation is advanced only under a condition"


def counter_bound(r, i):
    """Some loop-carried number makes strict progress towards an invariant bound in every case."""
    lid = i["lid"]
    mus = {k: mk("mu", lid, k) for k in i["init"] if k[0] == "v"}
    gs = q.flat(([i["cond"]] if isinstance(i["cond"], N) else []) + q.next_guards(i))
    hit = None
    for k, m in mus.items():
        nx = i["next"].get(k)
        if nx is None:
            continue
        ls = [linear(v) for _, v in cases(nx)]
        up = all(l is not None and l.get(m) == 1 and set(l) == {m, 1} and l[1] > 0 for l in ls)
        down = all(l is not None and l.get(m) == 1 and set(l) == {m, 1} and l[1] < 0 for l in ls)
        if not (up or down):
            continue
        for g in gs:
            h, neg = (g.a[0], True) if g.op == "not" else (g, False)
            if h.op in ("lt", "le"):
                a, b = h.a if not neg else (h.a[1], h.a[0])
                la, lb = linear(a), linear(b)
                lo = up and la and la.get(m) and not any(x.op == "mu" and x.a[0] is lid for x in deps(b))
                hi = down and lb and lb.get(m) and not any(x.op == "mu" and x.a[0] is lid for x in deps(a))
                if lo or hi:
                    return True, ""
            if h.op == "eq" and neg and any(m in deps(x) for x in h.a):
                hit = True
            if g.op == "truth" and g.a[0] is m and down:
                return True, ""
    if hit:
        return None, "the counter is compared for equality"
    u = any(has_unk_deep(r, x) for x in [i["cond"]] + [v for v in i["next"].values() if v is not None] if isinstance(x, N))
    return (None if u else False), "no bound on the number of iterations was found"


# ------------------------------------------------------------------- graph search
def search(C, rep):
    fid = DRGEP + "mod_dijkstra"
    if fid not in C.prog.funcs:
        rep.note("the path search is not a function of its own")
        return
    r = C.run(fid, "full", args={"cutoff": NONE})
    ws = [i for i in r.loops.values() if i["it"].op == "while" or unbounded(i["it"])]
    for i in ws:
        lid = i["lid"]
        works = [k for k in i["init"] if k[0] == "h" and i["next"][k] is not None and any(
            m.op == "removed" for m in deps(i["next"][k]))]
        if not works:
            rep.put(None, "search.ends", "the search ends", i["loc"], "no work list recognised")
            continue
        for k in works:
            m = mk("mu", lid, k)
            st, why = True, ""
            for fs, v in cases(i["next"][k]):
                core, pushes = shrink(v, m)
                if core is None:
                    st, why = (None, str(v)[:150]) if st is True else (st, why)
                elif not core:
                    st, why = False, "an iteration takes nothing from the work list"
                for g, val in pushes:
                    s, w = improving(r, i, g, val)
                    if s is not True:
                        st, why = (s, w) if st is not False else (st, why)
            rep.put(st, "search.ends", "a node is put back on the work list only when a strictly better path to it was found",
                    i["loc"], why)


def shrink(v, m):
    """(taken something?, [(guard, pushed value)]) of one iteration's work list."""
    if v.op == "removed":
        c, p = shrink(v.a[0], m)
        return (True if c is not None else None), p
    if v is m:
        return False, []
    if v.op == "coll" and v.a[1] and v.a[1][0][0] == "splice":
        c, p = shrink(v.a[1][0][1], m)
        for e in v.a[1][1:]:
            p = p + pushed(e, ())
        return c, p
    return None, []


def pushed(e, gs):
    if e[0] == "for":
        return [x for y in e[3] for x in pushed(y, gs)]
    if e[0] == "if":
        return [x for y in e[2] for x in pushed(y, gs + (e[1],))]
    if e[0] == "item":
        return [(gs, e[1])]
    return []


def improving(r, i, gs, val):
    """The guard demands `node not seen or value > seen[node]` and seen is updated with that value."""
    if val.op != "tuple" or len(val.a) < 2:
        return None, f"pushes {str(val)[:100]}"
    d, node = val.a[0], val.a[-1]
    for g in q.flat(gs):
        alts = g.a if g.op == "or" else (g,)
        ok = 0
        lists = []
        for a in alts:
            h, neg = (a.a[0], True) if a.op == "not" else (a, False)
            if h.op == "in" and neg and h.a[0] is node:
                ok += 1
                lists.append(h.a[1])
            elif h.op == "lt" and not neg and h.a[1] is d or h.op == "le" and neg and h.a[0] is d:
                ok += 1
            elif h.op in ("le",) and not neg and h.a[1] is d and node in deps(h.a[0]):
                return False, "a path that is only as good as the known one is pushed again"
        if ok == len(alts) and ok:
            for s in lists:
                # the table of seen values is updated under the same guard
                if s.op == "mu":
                    t = r.loops.get(s.a[0])
                    nx = t["next"].get(s.a[1]) if t else None
                    if nx is not None and nx is not s and d in deps(nx):
                        return True, ""
                    return (None if nx is None or has_unk_deep(r, nx) else False), "the best known value is not recorded"
            return True, ""
    return (None if any(has_unk_deep(r, g) for g in gs) else False), "a node is pushed again although no better path was found"


# ------------------------------------------------------------------- everything else
def rest(C, rep):
    covered = set(STAGES.values()) | {RUN_SA, DRGEP + "mod_dijkstra"}
    n = 0
    for fid, f in sorted(C.prog.funcs.items()):
        loops = [x for x in ast.walk(f.node) if isinstance(x, (ast.While, ast.For))]
        n += len([x for x in loops if isinstance(x, ast.For)])
        endless = [x for x in loops if isinstance(x, ast.While) or any(
            isinstance(y, ast.Attribute) and y.attr in ("count", "cycle", "repeat") or
            isinstance(y, ast.Name) and y.id in ("count", "cycle", "repeat") for y in ast.walk(x.iter))]
        if not endless or fid in covered or f.cls is not None and short(fid) in ("run_case", "calculate"):
            continue
        r = C.run(fid, "leaf" if fid not in C.layer("leaf") else "full", self_cls=None)
        for i in r.loops.values():
            if i["it"].op != "while" and not unbounded(i["it"]):
                continue
            own = any(getattr(x, "lineno", 0) == (i["loc"] or (0, 0))[1] for x in endless)
            if not own:
                continue
            st, why = True, ""
            s, why = time_bound(r, i, [e for e in r.events if e.kind == "meth" and e.name in ("step", "advance") and any(
                p[0] == "loop" and p[1] is i["lid"] for p in e.pc)])
            if s is None:
                s, why = counter_bound(r, i)
            if s is False and not (i["cond"] is TRUE or unbounded(i["it"])):
                s = None
            if s is False and f.mod.name == "pymars.simulation":
                s = None
            rep.put(s, f"{short(fid)}.ends", "the loop ends", i["loc"], why)
    rep.ok("for-loops", f"{n} for-loops over collections and ranges end by construction")
    # recursion
    import re
    graph = {}
    names = {}
    for fid, f in C.prog.funcs.items():
        names.setdefault(short(fid), []).append(fid)
    for fid, f in C.prog.funcs.items():
        graph[fid] = set()
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call):
                t = x.func
                if isinstance(t, ast.Name):
                    s = C.prog.lookup(f.mod, t.id)
                    if s is not None and s[0] == "func":
                        graph[fid].add(s[1].fid)
                elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in ("self", "cls") and f.cls:
                    g = C.prog.find_method(f.cls, t.attr)
                    if g is not None:
                        graph[fid].add(g.fid)
                elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                    s = C.prog.lookup(f.mod, t.value.id)
                    if s is not None and s[0] == "mod" and f"{s[1]}.{t.attr}" in C.prog.funcs:
                        graph[fid].add(f"{s[1]}.{t.attr}")
    state = {}

    def visit(f):
        state[f] = 1
        for g in graph.get(f, ()):
            if state.get(g) == 1:
                return [f, g]
            if g not in state:
                c = visit(g)
                if c:
                    return c
        state[f] = 2
        return None
    for f in graph:
        if f not in state:
            c = visit(f)
            if c:
                rep.und("recursion", "recursion in the package", None, " -> ".join(c))
                return
    rep.ok("recursion", f"no recursion among {len(graph)} functions")


def check(C, rep):
    for name in STAGES:
        rep.section(f"{name}.loop", threshold, name)
    rep.section("SA.loop", sa)
    for cid in sim_classes(C):
        rep.section(cid.rsplit(".", 1)[1], simulation, cid)
    rep.section("search", search)
    rep.section("rest", rest)
