"""Guarded value flow: every model that can reach the result of a stage is traced back through joins and
loop-carried variables together with the conditions under which it flows. A candidate must either be guarded by
`its own error <= error_limit` (a form that is false for NaN) or be rebuilt at the threshold of the last accepted
iteration (linear arithmetic over the loop's recurrences, and a case analysis showing that the loop goes on only
after an accepted iteration or a lowered first threshold). Each (model, error) record is checked for pairing: the error
must be calculate_error of the metrics simulated from the file written from that same model against the starting
model's metrics."""
from .stage import *

ASSUMES = ["rebuilding a candidate at the same threshold gives the same model and error (C09)",
           "the error limit is positive"]
LIM = P("error_limit")


def start_metrics(n, name):
    n = strip_versions(n)
    if n.op == "item" and is_const(n.a[1], 0) and n.a[0].op == "rcall" and n.a[0].a[0] == SAMPLE:
        return q.nodearg(n.a[0], "model") is P("model_file")
    if name == "SA" and n.op == "rcall" and n.a[0] == METRICS:
        return q.nodearg(n, "model") is P("model_file") and q.nodearg(n, "reuse_saved") is TRUE
    return False


def err_model(n):
    """Model whose error an ERROR call computes (through metrics and the written file)."""
    t = q.nodearg(n, "metrics_test")
    if t is None or t.op != "rcall" or t.a[0] != METRICS:
        return None
    f = q.nodearg(t, "model")
    if f is None or f.op != "rcall" or f.a[0] != WRITE:
        return None
    return q.nodearg(f, "solution")


def pair_status(r, m, e, name):
    if m.op == "rcall" and m.a[0] == TRIM:
        if e.op == "rcall" and e.a[0] == ERROR:
            em = err_model(e)
            if em is None:
                return None if has_unk_deep(r, e) else False
            return em is m
        if e.op in ("const", "attr", "param", "mu"):
            return False
        if e.op == "call" and e.a[0] in ("builtins.float", "numpy.float64") and len(e.a[1]) == 1:
            return pair_status(r, m, e.a[1][0], name)
        if e.op in ("call", "bin") and not has_unk_deep(r, e) and any(
                x.op in ("attr", "mu") and (x.op == "mu" or x.a[1] == "error") or x.op == "rcall" and x.a[0] == ERROR and
                err_model(x) is not m for x in operands(e)):
            return False            # mixed with another model's error
        return None
    if m.op == "call" and m.a[0] == "cantera.Solution":
        if e.op == "const" or e is P("starting_error"):
            return True
        return False if e.op == "rcall" else None
    if m.op in ("attr", "item") and e.op in ("attr", "item"):
        if m.a[0] is e.a[0]:
            return True
        return False if m.a[0].op == "mu" and e.a[0].op == "mu" else None
    if m.op == "attr" and m.a[0].op == "mu" and e.op in ("const", "rcall"):
        return False
    return None


def operands(e):
    if e.op == "call":
        return [y for x in e.a[1] for y in operands(x)]
    if e.op == "bin":
        return [y for x in e.a[1:3] for y in operands(x)]
    return [e]


def pairs(C, rep, name):
    fid = STAGES.get(name, RUN_SA)
    r = C.run(fid, "leaf")
    for e in calls(r, ERROR):
        am = argmap(e)
        mo = am.get("metrics_original")
        st = all(start_metrics(s, name) for s in sources(r, mo)) if mo is not None else False
        mt = am.get("metrics_test")
        swapped = mt is not None and start_metrics(mt, name)
        rep.put(verdict(st, r, mo), f"{name}.error.reference", f"the error in {short(e.func)} is taken against the starting "
                "model's metrics", e.loc, "" if st else ("arguments swapped: " if swapped else "") + str(mo)[:200])
        em = err_model(e.node)
        rep.put(verdict(em is not None and not (em.op == "call"), r, mt), f"{name}.error.candidate",
                f"the error in {short(e.func)} is that of metrics simulated from a written candidate", e.loc,
                "" if em is not None else str(mt)[:200])
    for e, f in model_pairs(r):
        m, er = f.get("model"), f.get("error")
        if m is None or er is None:
            continue
        st = True
        why = ""
        for fs, v in cases(mk("tuple", strip_versions(m), strip_versions(er))):
            a, b = v.a
            s = pair_status(r, a, b, name)
            if s is not True and any(x.op in ("out", "first", "last") for x in (a, b)) or s is None:
                s = carried_pair(r, a, b, name)
                if s is None and leaf_pairs(r, a, b, name) is False:
                    s = False
            if s is not True:
                why = f"model {str(a)[:120]} with error {str(b)[:160]}"
                st = s if st is True or s is False else st
            if s is False:
                break
        rep.put(st, f"{name}.pair", f"model and error of the record built in {short(e.func)} belong together", e.loc, why)
    for e in replaced_events(r):
        kw = dict(e.kw)
        if ("error" in kw) != ("model" in kw):
            rep.put(None if has_unk_deep(r, *kw.values()) else False, f"{name}.pair", "a record's model or error is replaced "
                    "without the other", e.loc)


def within(n, f):
    """An attribute pushed into a gate or the value of a left loop."""
    if f is None:
        return n
    if n.op == "phi":
        return PHI(n.a[0], within(n.a[1], f), within(n.a[2], f))
    return n if n is UNDEF else proj1(n, f)


def split(n):
    """(carrier, attribute or None)"""
    if n.op == "attr" and n.a[0].op in ("mu", "out", "first", "last"):
        return n.a[0], n.a[1]
    return n, None


def update(r, n):
    """(loop, value before the loop, value after an iteration, value carried into it) of a loop-carried value."""
    x, f = split(n)
    if x.op in ("mu", "out"):
        info = r.loops.get(x.a[0])
        if info is None:
            return None
        i, nx = info["init"].get(x.a[1]), info["next"].get(x.a[1])
        m = mk("mu", x.a[0], x.a[1])
        if i is None or nx is None:
            return None
        return (info["it"], info["k"]), within(strip_versions(i), f), within(strip_versions(nx), f), within(m, f)
    if x.op == "last":
        return (x.a[0], x.a[1]), within(x.a[3], f), within(x.a[2], f), UNDEF
    return None


def carried_pair(r, a, b, name, hyp=frozenset()):
    """Pairing of a model and an error carried through the same loop, by induction over its iterations."""
    if (a, b) in hyp:
        return True
    s = pair_status(r, a, b, name)
    if s is not None and not any(split(x)[0].op in ("mu", "out", "first", "last") for x in (a, b)) or s is True:
        return s
    (x, f), (y, g) = split(a), split(b)
    if x.op == "first" and y.op == "first" and x.a[:3] == y.a[:3]:
        return joint(r, within(x.a[3], f), within(y.a[3], g), name, hyp)
    u, v = update(r, a), update(r, b)
    if u is None or v is None or u[0] != v[0] or len(hyp) > 6:
        return s
    out = True if UNDEF in (u[1], v[1]) else joint(r, u[1], v[1], name, hyp)
    if out is not True:
        return out
    return joint(r, u[2], v[2], name, hyp | {(u[3], v[3])}, (u[3], v[3]))


def joint(r, a, b, name, hyp, kept=None):
    out = True
    for _, t in cases(mk("tuple", strip_versions(a), strip_versions(b))):
        m, e = t.a
        if kept and (m is kept[0] or m is UNDEF) and (e is kept[1] or e is UNDEF):
            continue
        if kept and UNDEF in kept and (m is kept[0] or e is kept[1] or UNDEF in (m, e)):
            s = False if UNDEF in (m, e) or kept[0] is not UNDEF else None
        else:
            s = carried_pair(r, m, e, name, hyp)
        if s is not True:
            out = s if out is True or s is False else out
        if out is False:
            break
    return out


def leaf_pairs(r, a, b, name):
    ms = [strip_versions(x) for g, x in q.gsources(r, a)]
    es = [strip_versions(x) for g, x in q.gsources(r, b)]
    tm = {x for x in ms if x.op == "rcall" and x.a[0] == TRIM}
    te = {err_model(x) for x in es if x.op == "rcall" and x.a[0] == ERROR}
    if any(x.op in ("unk", "mu") for x in ms + es) or None in te:
        return None
    other_m = [x for x in ms if x not in tm]
    other_e = [x for x in es if not (x.op == "rcall" and x.a[0] == ERROR)]
    okm = all(x.op == "call" and x.a[0] == "cantera.Solution" for x in other_m)
    oke = all(x.op == "const" or x is P("starting_error") for x in other_e)
    if tm == te and okm and oke:
        return True
    return False if okm and oke else None


# ---------------------------------------------------------------- acceptance
def expand(r, n, depth=0):
    """Values of n at the end of the last iteration (mu of that iteration left alone)."""
    if depth > 12:
        return {n}
    if n.op == "phi":
        return expand(r, n.a[1], depth + 1) | expand(r, n.a[2], depth + 1)
    if n.op == "out":
        return expand(r, n.a[3], depth + 1) if n.a[3] is not None else {n}
    if n.op == "first":
        return expand(r, n.a[3], depth + 1)
    if n.op == "last":
        return expand(r, n.a[2], depth + 1)
    if n.op == "attr" and n.a[0].op in ("phi", "out", "first", "last", "nt", "replaced"):
        out = set()
        for b in expand(r, n.a[0], depth + 1):
            out |= {x for x in expand(r, proj1(b, n.a[1]), depth + 1)}
        return out
    return {n}


def proj1(b, name):
    if b.op in ("nt", "replaced"):
        f = dict(b.a[1])
        if name in f:
            return f[name]
        if b.op == "replaced":
            return mk("attr", b.a[0], name, None)
    return mk("attr", b, name, None)


def limit_atoms(r, gs):
    """Conditions about the error limit among the guards (flags set in a loop are followed)."""
    out = []
    for g in q.flat(gs):
        todo = [g]
        if g.op == "truth" and g.a[0].op in ("out", "first", "last", "mu"):
            todo += [x for x in expand(r, g.a[0])]
        elif g.op in ("out", "first", "last"):
            todo += list(expand(r, g))
        elif g.op == "not" and g.a[0].op in ("out", "first", "last", "truth"):
            b = g.a[0].a[0] if g.a[0].op == "truth" else g.a[0]
            todo += [NOT(x) for x in expand(r, b) if is_bool(x)]
        for x in todo:
            for y in (x.a if x.op == "and" else (x,)):
                if y.op in ("le", "lt", "not", "eq", "or", "call") and LIM in deps(y):
                    out.append(y)
    return out


def accepts(r, g, model):
    """g is `E <= error_limit` with E the error of `model`."""
    if g.op == "le" and g.a[1] is LIM:
        vals = expand(r, g.a[0])
        return any(v.op == "rcall" and v.a[0] == ERROR and err_model(v) is model for v in map(strip_versions, vals))
    if g.op == "and":
        return any(accepts(r, x, model) for x in g.a)
    return False


def acceptance(C, rep, name):
    fid = STAGES.get(name, RUN_SA)
    r = C.run(fid, "leaf")
    leaves = {}
    for gs, l in q.gsources(r, r.retf, (("attr", "model"),)):
        l = strip_versions(l)
        if l.op == "unk":
            rep.und(f"{name}.accept", "too many flows into the result")
            return
        if l.op == "rcall" and l.a[0] == TRIM:
            leaves.setdefault(l, []).append([strip_versions(g) for g in gs])
    S_ = StageLoop(C, name) if name in STAGES else None
    post = {strip_versions(e.node) for e in S_.posttrims} if S_ else set()
    where = {strip_versions(e.node): e.loc for e in calls(r, TRIM)}
    if not leaves:
        rep.und(f"{name}.accept", "no candidate model reaches the result")
    for l, gss in leaves.items():
        if l in post:
            step_back(C, rep, name, S_, l, where.get(l))
            continue
        bad = None
        for gs in gss:
            if not any(accepts(r, g, l) for g in limit_atoms(r, gs)):
                bad = [str(g)[:160] for g in limit_atoms(r, gs)]
                break
        what = "a candidate reaches the result only under `its error <= error limit`"
        if bad is None:
            rep.ok(f"{name}.accept", what, where.get(l))
        else:
            und = has_unk_deep(r, r.retf) or name == "SA" and any(      # a counted loop that is left early
                x.op == "exists" and not str(x.a[0]).startswith("while") and LIM in deps(x) for gs in gss for g in gs for x in deps(g))
            rep.put(None if und else False, f"{name}.accept", what, where.get(l), f"conditions found: {bad[:3]}")


def step_back(C, rep, name, S_, model, loc):
    r = S_.r
    key = f"{name}.stepback"
    what = "after a rejection the model is rebuilt at the last accepted threshold"
    if S_.info is None or S_.thr is None:
        rep.und(key, what, loc, "threshold loop not recognised")
        return
    m = S_.mus()
    ex1 = strip_versions(argmap(S_.intrims[0])["exclusion_list"])
    ex2 = strip_versions(q.nodearg(model, "exclusion_list"))
    T = unify(ex1, ex2, m[S_.thr])
    if T is None or T is UNDEF:
        rep.und(key, what, loc, "the rebuilt exclusion list is not that of the loop at another threshold")
        return
    # last iteration of the loop: not a retry
    thr, inc = S_.info["next"].get(S_.thr), S_.info["next"].get(S_.inc) if S_.inc else None
    verdicts = []
    for fs, v in cases(mk("tuple", thr, inc if inc is not None else NONE)):
        l = linear(v.a[0])
        if l is None or l.get(m[S_.thr]) != 1:
            continue         # threshold lowered: another iteration follows
        T2 = S_.last_value(T, frozenset(fs))
        lt = linear(T2) if T2 is not None else None
        step = {k: x for k, x in l.items() if k is not m[S_.thr]}
        want = {m[S_.thr]: 1}
        for k, x in step.items():
            want[k] = -x
        if lt is None or any(k != 1 and not (isinstance(k, N) and k.op == "mu") for k in lt):
            verdicts.append((None, f"threshold {str(T)[:150]}"))
        else:
            ok = {k: float(x) for k, x in lt.items()} == {k: float(x) for k, x in want.items() if x}
            verdicts.append((ok, "rebuilt at " + " + ".join(f"{float(x):g}*{key_name(k)}" for k, x in lt.items()) +
                             " of the rejected iteration, expected " +
                             " + ".join(f"{float(x):g}*{key_name(k)}" for k, x in want.items())))
    if not verdicts:
        rep.und(key, what, loc, "no step of the threshold found")
    else:
        bad = [w for s, w in verdicts if s is False]
        und = [w for s, w in verdicts if s is None]
        rep.put(False if bad else None if und else True, key, what, loc, (bad or und or [""])[0])
    # going on only after an accepted iteration
    nt = [f for e, f in model_pairs(r) if e.pc and any(p[0] == "loop" for p in e.pc)]
    errs = set()
    for e in S_.errors:
        if any(p[0] == "loop" and p[1] is S_.info["lid"] for p in e.pc):
            errs.add(strip_versions(e.node))
    res = None
    for er in errs:
        f0 = NOT(mk("le", er, LIM))
        hits = []
        for fs, t, i, c, g in S_.continuing({f0}):
            l = linear(t)
            lowered = not (l is not None and l.get(m[S_.thr], 0) == 1)
            # an unchanged step keeps the previous record: its error was accepted before
            shortcut = not mentions(er, c, g, fs, f0)
            if not lowered and not shortcut:
                hits.append(str(c)[:160])
        res = hits if res is None else res + hits
    if res is None:
        rep.und(f"{name}.goon", "no error computed in the threshold loop", loc)
    else:
        rep.put(verdict(not res, r, S_.info["cond"]), f"{name}.goon",
                "the threshold is raised further only after an accepted iteration", S_.info["loc"],
                "" if not res else f"the loop goes on although the error is not within the limit, when {res[0]}")


def key_name(k):
    return k if not isinstance(k, N) else (k.a[1][-1] if k.op == "mu" else str(k)[:40])


def mentions(er, c, g, fs, f0):
    """The error of this iteration decides about going on."""
    return any(er in deps(strip_versions(x)) for x in [c, g] + [f for f in fs if f is not f0])


def check(C, rep):
    for name in ("DRG", "DRGEP", "PFA", "SA"):
        rep.section(f"{name}.pair", pairs, name)
        rep.section(f"{name}.accept", acceptance, name)
