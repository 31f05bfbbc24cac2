"""Setting-threading analysis. For every call that crosses a stage boundary (command line -> main -> stage -> sampling,
simulation objects, trimming, matrices, search and writing) the value bound to each setting's parameter is traced through
joins, loops and records to its sources; they must be exactly the setting the caller was given."""
from .stage import *

ASSUMES = ["a falsy setting (empty list, empty phase name, zero) may be replaced by an equivalent empty value"]
COND = ("ignition_conditions", "psr_conditions", "flame_conditions")


def empty_value(v):
    return v is NONE or v.op == "const" and not cval(v) or v.op in ("coll", "tuple") and not (v.a[1] if v.op == "coll" else v.a)


def given(xs, more=(), zero=True):
    """What is known when a setting (one of the values xs) is given and not empty (or, zero=False, given at all)."""
    return frozenset([f for x in xs for f in ((truth(x),) if zero else ()) + (NOT(mk("is", NONE, x)), NOT(mk("is", x, NONE)))] + list(more))


def replaces(gs, xs, more=(), zero=True):
    """Whether a default chosen under the conditions gs can take the place of a given setting."""
    return assume(AND(*gs), given(xs, more, zero)) is not FALSE


def exact(r, n, want, threads=False, zero=True):
    """(True/False/None, why): n always is the setting `want` (or an empty value where `want` is empty)."""
    if n is None:
        return False, "not passed on"
    wants = want if isinstance(want, (set, list, tuple)) else (want,)
    wants = {strip_versions(w) for w in wants}
    bad = None
    for gs, v in q.gsources(r, n):
        v = strip_versions(q.unwrap_list(v))
        if v in wants:
            continue
        fs = q.flat(gs)
        if v.op == "call" and v.a[0] in ("builtins.int", "builtins.float", "builtins.str", "os.fspath") and v.a[1] and v.a[1][0] in wants:
            continue
        off = any(NOT(truth(w)) in fs or mk("is", NONE, w) in fs or mk("is", w, NONE) in fs for w in wants)
        if not zero:
            off = any(mk("is", NONE, w) in fs or mk("is", w, NONE) in fs for w in wants)      # zero is a setting of its own
        if off and empty_value(v) and not threads:
            continue
        if threads and fs and any(machine(m) for x in [v, *fs] for m in deps(x)) and (off or not replaces(gs, wants) or not is_const(v)):
            continue            # zero workers stand for a number derived from the machine
        if v.op == "default" and off:
            continue
        bad = v
        break
    if bad is None:
        return True, ""
    if has_unk_deep(r, n):
        return None, str(bad)[:160]
    return False, f"it is {str(bad)[:160]}"


def machine(m):
    return m.op == "call" and any(x in str(m.a[0]) for x in ("cpu_count", "sched_getaffinity", "process_cpu_count"))


def put(rep, r, key, what, e, n, want, threads=False):
    st, why = exact(r, n, want, threads, want is not P("min_flame_speed"))
    rep.put(st, key, what, e.loc, why)


def stage(C, rep, name):
    fid = STAGES[name]
    r = C.run(fid, "leaf")
    base = {c: P(c) for c in COND}
    base.update(phase_name=P("phase_name"), min_flame_speed=P("min_flame_speed"))
    n = 0
    for e in calls(r, SAMPLE, METRICS):
        am = argmap(e)
        sh = short(e.name)
        want = dict(base)
        if e.name == SAMPLE:
            want["model"] = P("model_file")
            want["path"] = P("path")
        for a, w in want.items():
            put(rep, r, f"{name}.{sh}.{a}", f"{a} given to {short(fid)} reaches {sh} called in {short(e.func)}", e, am.get(a), w)
            n += 1
        put(rep, r, f"{name}.{sh}.num_threads", f"the worker count reaches {sh} called in {short(e.func)}", e,
            am.get("num_threads"), P("num_threads"), True)
    for e in calls(r, TRIM):
        am = argmap(e)
        put(rep, r, f"{name}.trim.initial_model_file", "candidates are cut from the stage's starting model", e,
            am.get("initial_model_file"), P("model_file"))
        put(rep, r, f"{name}.trim.phase_name", "candidates are cut from the configured phase", e, am.get("phase_name"), P("phase_name"))
    for e in calls(r, WRITE):
        put(rep, r, f"{name}.write.path", f"the model written in {short(e.func)} goes to the output directory", e,
            argmap(e).get("path"), P("path"))
    sols = [e for e in r.events if e.kind == "call" and e.name == "cantera.Solution"]
    for e in sols:
        kw = dict(e.kw)
        put(rep, r, f"{name}.Solution.model", "the starting model is loaded from the model file", e, kw.get("infile"), P("model_file"))
        put(rep, r, f"{name}.Solution.phase", "the starting model is loaded with the configured phase", e, kw.get("name"), P("phase_name"))
    for e in calls(r, MATRIX[name]):
        pass
    if not calls(r, SAMPLE):
        rep.put(None, f"{name}.sample", "the stage samples its starting model")


def sa(C, rep):
    r = C.run(RUN_SA, "leaf")
    base = {c: P(c) for c in COND}
    base.update(phase_name=P("phase_name"), min_flame_speed=P("min_flame_speed"))
    for e in calls(r, SAMPLE, METRICS):
        am = argmap(e)
        sh = short(e.name)
        for a, w in base.items():
            put(rep, r, f"SA.{sh}.{a}", f"{a} given to run_sa reaches {sh} called in {short(e.func)}", e, am.get(a), w)
        put(rep, r, f"SA.{sh}.num_threads", f"the worker count reaches {sh} called in {short(e.func)}", e,
            am.get("num_threads"), P("num_threads"), True)
    for e in calls(r, TRIM):
        put(rep, r, "SA.trim.phase_name", "candidates are cut from the configured phase", e, argmap(e).get("phase_name"), P("phase_name"))
    finals = [e for e in calls(r, WRITE) if not any(p[0] in ("loop", "with") for p in e.pc)]
    for e in finals:
        put(rep, r, "SA.write.path", "the final model goes to the output directory", e, argmap(e).get("path"), P("path"))
    for e in [e for e in r.events if e.kind == "call" and e.name == "cantera.Solution"]:
        kw = dict(e.kw)
        put(rep, r, "SA.Solution.model", "the starting model is loaded from the model file", e, kw.get("infile"), P("model_file"))
        put(rep, r, "SA.Solution.phase", "the starting model is loaded with the configured phase", e, kw.get("name"), P("phase_name"))
    algorithm(C, rep, r)


def algorithm(C, rep, r):
    """The greedy algorithm re-evaluates the remaining species after each removal, the other does not."""
    whiles = {i["lid"] for i in r.loops.values() if i["it"].op == "while"}
    inner = []
    for e in calls(r, METRICS):
        ls = [p[1] for p in e.pc if p[0] == "loop"]
        if len(ls) >= 2 and ls[0] in whiles:
            inner.append(e)
    what = "the configured algorithm decides whether the remaining species are evaluated again"
    al = P("algorithm_type")
    greedy = mk("eq", al, const("greedy"))
    if not inner:
        rep.put(None if any(has_unk_deep(r, i["cond"]) for i in r.loops.values() if isinstance(i["cond"], N)) or not whiles else False,
                "SA.algorithm", what, None, "the species are never evaluated again")
    for e in inner:
        gs = q.flat(pcguards_(e))
        init = [g for g in gs if al in deps(g)]
        ok = any(str(g).replace(" ", "").replace("(", "").replace(")", "") == "$algorithm_type=='greedy'" for g in init) or greedy in gs \
            or any(g.op == "not" and g.a[0].op == "eq" and any(is_const(x, "initial") for x in g.a[0].a) for g in init)
        if ok:
            rep.put(True, "SA.algorithm", what, e.loc)
        elif init:
            wrong = any(g.op == "eq" and any(is_const(x, "initial") for x in g.a) for g in init) or \
                NOT(greedy) in init
            rep.put(False if wrong else None, "SA.algorithm", what, e.loc, "; ".join(str(g)[:80] for g in init))
        else:
            rep.put(False, "SA.algorithm", what, e.loc, "the evaluation does not depend on the algorithm")


def pcguards_(e):
    return [p[1] for p in e.pc if p[0] == "g"]


# ------------------------------------------------------------------- sampling
SIMARGS = {"IgnitionSimulation": "ignition_conditions", "PSRSimulation": "psr_conditions", "FlameSimulation": "flame_conditions"}


def sampling(C, rep, fid):
    r = C.run(fid, frozenset({S + "_run_workers"}))
    fn = short(fid)
    seen = set()
    for e in r.events:
        if e.kind != "new" or not e.name.startswith(SIM):
            continue
        nm = short(e.name)
        if nm not in SIMARGS or not e.extra:
            continue
        seen.add(nm)
        f = e.extra
        cond = P(SIMARGS[nm])
        pr = f.get("properties")
        its = [x.a[0] for x in sources(r, pr) if x.op == "elem"] if pr is not None else []
        ok = bool(its) and all(q.unwrap_list(i) is cond for i in its) and len(its) == len(sources(r, pr))
        rep.put(verdict(ok, r, pr), f"{fn}.{nm}.properties", f"{fn} runs {nm} on the given {SIMARGS[nm]}", e.loc,
                "" if ok else str(pr)[:120])
        put(rep, r, f"{fn}.{nm}.model", f"{fn} simulates the given model file", e, f.get("model"), P("model"))
        put(rep, r, f"{fn}.{nm}.phase_name", f"{fn} simulates the given phase", e, f.get("phase_name"), P("phase_name"))
        if nm == "IgnitionSimulation" and fid == SAMPLE:
            put(rep, r, f"{fn}.{nm}.path", "intermediate files go to the output directory", e, f.get("path"), P("path"))
        if nm == "FlameSimulation":
            m = f.get("min_flame_speed")
            st, why = flame_floor(r, m)
            rep.put(st, f"{fn}.{nm}.min_flame_speed", "the minimum flame speed reaches the flame simulations", e.loc, why)
    if fid == SAMPLE:
        for e in r.events:
            if e.kind in ("extcall", "call") and e.name == "cantera.Solution":
                kw = argmap(e)
                put(rep, r, f"{fn}.Solution.model", "saved samples are compared with the given model file", e, kw.get("infile", kw.get(0)),
                    P("model"))
                put(rep, r, f"{fn}.Solution.phase", "saved samples are compared with the given phase", e, kw.get("name", kw.get(1)),
                    P("phase_name"))
    for nm in SIMARGS:
        if nm not in seen:
            rep.put(None, f"{fn}.{nm}", f"{fn} builds {nm} objects")
    for e in r.events:
        if e.kind == "rcall" and e.name == S + "_run_workers":
            put(rep, r, f"{fn}.workers", f"{fn} uses the given number of workers", e, argmap(e).get("num_threads"),
                P("num_threads"), True)


def flame_floor(r, m):
    w = P("min_flame_speed")
    cover = []
    if m is None:
        return False, "never set from the argument"
    bad = None
    for gs, v in q.gsources(r, m) or [((), m)]:
        if v is w:
            fs = q.flat(gs)
            if truth(w) in fs:
                return False, "a minimum of zero is replaced by the default"
            cover.append(AND(*gs))
            continue
        if v is UNDEF or v.op == "undef":
            if gs and replaces(gs, [w], zero=False):
                return (None if has_unk_deep(r, m) else False), "not passed on in some runs"
            continue
        if is_const(v) or v.op in ("attr",):
            fs = q.flat(gs)
            if any(w in deps(g) for g in fs):
                if replaces(gs, [w], zero=False):
                    return (None if any(q.has_unk(g) for g in gs) else False), "a given minimum is replaced by the default"
                continue
        bad = v
    if bad is not None:
        return (None if has_unk_deep(r, m) else False), str(bad)[:120]
    rest = assume(OR(*cover), given([w], zero=False)) if cover else TRUE
    if rest is not TRUE:
        plain = all(x.op in ("param", "const", "call", "ext", "eq", "lt", "le", "not", "and", "or", "truth", "phi", "bin", "is") for x in deps(rest))
        return (False if plain and not has_unk_deep(r, m) else None), f"passed on only if {str(rest)[:100]}"
    return True, ""


# ------------------------------------------------------------------- main and command line
MAINMAP = {"model_file": "model_file", "ignition_conditions": "ignition_conditions", "psr_conditions": "psr_conditions",
           "flame_conditions": "flame_conditions", "error_limit": "error_limit", "phase_name": "phase_name",
           "path": "path", "min_flame_speed": "min_flame_speed"}


def main_(C, rep):
    r = C.run(MAIN + "main", "run")
    for fid in list(STAGES.values()) + [RUN_SA]:
        es = calls(r, fid)
        if not es:
            rep.put(None, f"main.{short(fid)}", f"main calls {short(fid)}")
        for e in es:
            am = argmap(e)
            sf = short(fid)
            f = C.prog.funcs.get(fid)
            for a, w in MAINMAP.items():
                if fid == RUN_SA and a == "model_file":
                    # decided by the hand-over rule when a graph stage ran; otherwise the input model
                    st = True
                    for gs, v in q.gsources(r, am.get(a)):
                        if v is P("model_file"):
                            continue
                        if any(m.op == "rcall" and m.a[0] in STAGES.values() for m in deps(v)):
                            continue
                        st = None if has_unk_deep(r, v) else False
                    rep.put(st, f"main.{sf}.{a}", "the sensitivity analysis starts from the input model or a stage's result", e.loc)
                    continue
                put(rep, r, f"main.{sf}.{a}", f"{w} given to main reaches {sf}", e, am.get(a), P(w))
            put(rep, r, f"main.{sf}.num_threads", f"the worker count given to main reaches {sf}", e, am.get("num_threads"),
                P("num_threads"), True)
            if fid != RUN_SA:
                put(rep, r, f"main.{sf}.species_targets", f"targets reach {sf}", e, am.get("species_targets"), P("target_species"))
                safe = am.get("species_safe")
                st, why = exact(r, safe, P("safe_species"))
                if st is False:
                    # a larger protected list is decided by C01
                    if safe is not None and assume(r.interp.isin(X, safe), frozenset({mk("in", X, P("safe_species"))})) is TRUE:
                        st = True
                rep.put(st, f"main.{sf}.species_safe", f"protected species reach {sf}", e.loc, why)
                if "threshold_upper" in [x.arg for x in f.node.args.args + f.node.args.kwonlyargs] if f is not None else False:
                    put(rep, r, f"main.{sf}.threshold_upper", f"the upper threshold reaches {sf}", e, am.get("threshold_upper"),
                        P("upper_threshold"))
            else:
                st, why = True, ""
                w = P("sensitivity_type")
                for gs, v in q.gsources(r, am.get("algorithm_type") or UNDEF):
                    if v is w or is_const(v, "greedy") and not replaces(gs, [w]):
                        continue
                    st, why = (None if has_unk_deep(r, v) else False), str(v)[:100]
                if am.get("algorithm_type") is None:
                    st, why = False, "not passed on"
                rep.put(st, f"main.{sf}.algorithm_type", "the kind of sensitivity analysis reaches run_sa", e.loc, why)
                for a, fld, zero in (("starting_error", "error", None), ("species_limbo", "limbo_species", None)):
                    st, why = True, ""
                    for gs, v in q.gsources(r, am.get(a) or UNDEF):
                        if v.op == "attr" and v.a[1] == fld and v.a[0].op == "rcall" and v.a[0].a[0] in STAGES.values():
                            continue
                        if empty_value(v):
                            for nm in STAGES:
                                if gs and all(tri(strip_versions(g), method_is(nm)) is True for g in gs):
                                    st, why = (None if has_unk_deep(r, *gs) else False), f"nothing is passed on after {nm}"
                            continue
                        st, why = (None if has_unk_deep(r, v) else False), str(v)[:100]
                    flows = [v for gs, v in q.gsources(r, am.get(a) or UNDEF)]
                    for s in STAGES.values():
                        if calls(r, s) and not any(any(m.op == "rcall" and m.a[0] == s for m in deps(v)) for v in flows):
                            st, why = (None if any(has_unk_deep(r, v) for v in flows) else False), f"{short(s)}'s {fld} is dropped"
                    rep.put(st, f"main.{sf}.{a}", f"the {fld} of the previous stage reaches run_sa", e.loc, why)
            method_guard(rep, r, e, fid)


def method_is(nm):
    """Truth of conditions on the method when method nm is run, followed by the sensitivity analysis."""
    m = P("method")

    def cls(c):
        if c.op == "eq" and m in c.a and any(x.op == "const" for x in c.a):
            return any(is_const(x, nm) for x in c.a)
        if c.op == "in" and c.a[0] is m:
            it = q.unwrap_list(c.a[1])
            vs = [e[1] for e in it.a[1] if e[0] == "item"] if it.op == "coll" else list(it.a) if it.op == "tuple" else []
            if vs and all(x.op == "const" for x in vs):
                return any(is_const(x, nm) for x in vs)
        if c is truth(m) or c is truth(P("run_sensitivity_analysis")):
            return True
        if c.op == "is" and NONE in c.a and m in c.a:
            return False
        return None
    return cls


def method_guard(rep, r, e, fid):
    m = P("method")
    gs = q.flat(pcguards_(e))
    if fid == RUN_SA:
        w = P("run_sensitivity_analysis")
        ok = truth(w) in gs or any(w in deps(g) for g in gs)
        bad = NOT(truth(w)) in gs
        rep.put(False if bad or not ok else True, "main.run_sa.when", "sensitivity analysis runs when it is asked for", e.loc,
                "" if ok and not bad else "its call does not depend on the setting")
        extra = [g for g in gs if w not in deps(g) and not harmless(g)]
        return
    name = [k for k, v in STAGES.items() if v == fid][0]
    sel = [g for g in gs if m in deps(g)]
    hit = any(g.op == "eq" and m in g.a and any(is_const(x, name) for x in g.a) for g in sel)
    wrong = any(g.op == "eq" and m in g.a and any(is_const(x) and cval(x) != name for x in g.a) for g in sel) or any(
        g.op == "not" and g.a[0].op == "eq" and any(is_const(x, name) for x in g.a[0].a) for g in sel)
    rep.put(True if hit and not wrong else (False if wrong else None), f"main.{short(fid)}.when",
            f"method {name} selects {short(fid)}", e.loc, "; ".join(str(g)[:60] for g in sel))


def harmless(g):
    return True


FIELDS = {"model_file": "model", "error_limit": "error", "ignition_conditions": "ignition_conditions",
          "psr_conditions": "psr_conditions", "flame_conditions": "flame_conditions", "method": "method",
          "target_species": "target_species", "safe_species": "safe_species", "phase_name": "phase_name",
          "run_sensitivity_analysis": "sensitivity_analysis", "upper_threshold": "upper_threshold",
          "sensitivity_type": "sensitivity_type", "min_flame_speed": "min_flame_speed"}


def cli(C, rep):
    r = C.run(MAIN + "pymars", "cli")
    es = calls(r, MAIN + "main")
    if not es:
        rep.put(None, "pymars.main", "the command line calls main")
    for e in es:
        am = argmap(e)
        for a, fld in FIELDS.items():
            v = am.get(a)
            ok, why = True, ""
            srcs = q.gsources(r, v) if v is not None else []
            for gs, s in srcs:
                s = strip_versions(s)
                if s.op == "attr" and s.a[1] == fld and s.a[0].op == "rcall" and s.a[0].a[0] == MAIN + "parse_inputs":
                    continue
                ok, why = False, str(s)[:120]
            if not srcs:
                ok, why = False, "not passed on"
            rep.put(verdict(ok, r, v), f"pymars.main.{a}", f"the input file's {fld} reaches main as {a}", e.loc, why)
        for a in ("path", "num_threads"):
            v = am.get(a)
            ok, why = True, ""
            srcs = q.gsources(r, v) if v is not None else []
            for gs, s in srcs:
                if args_attr(s, a):
                    continue
                fs = q.flat(gs)
                if s.op == "const" and any(f.op == "is" and any(args_attr(x, a) for x in f.a) for f in fs):
                    continue        # the option not given: C20 reads the value for every command line
                ok, why = False, str(s)[:120]
            if not srcs:
                ok, why = False, "not passed on"
            rep.put(verdict(ok, r, v), f"pymars.main.{a}", f"the command line's {a} reaches main", e.loc, why)


def args_attr(s, a):
    s = strip_versions(s)
    return s.op == "attr" and s.a[1] == a and s.a[0].op == "meth" and s.a[0].a[1] in ("parse_args", "parse_known_args")


INPUTS = {"model": ("model", ""), "error": ("error", 0.0), "method": ("method", ""), "target_species": ("targets", None),
          "sensitivity_analysis": ("sensitivity-analysis", False), "sensitivity_type": ("sensitivity-type", "initial"),
          "phase_name": ("phase-name", ""), "min_flame_speed": ("min-flame-speed", None),
          "upper_threshold": ("upper-threshold", None)}
CASES = {"ignition_conditions": ("parse_ignition_inputs", "autoignition-conditions"),
         "psr_conditions": ("parse_psr_inputs", "psr-conditions"),
         "flame_conditions": ("parse_flame_inputs", "laminar-flame-conditions")}


def is_get(m, key):
    if m.op == "meth" and m.a[1] == "get" and m.a[2] and is_const(m.a[2][0], key) and m.a[0] is P("input_dict"):
        return True
    return m.op == "item" and is_const(m.a[1], key) and m.a[0] is P("input_dict")


def inputs(C, rep):
    r = C.run(MAIN + "parse_inputs", "parse")
    ret = r.retf
    for fld, (key, dflt) in INPUTS.items():
        v = dict(ret.a[1]).get(fld) if ret.op == "nt" else q.project(ret, (("attr", fld),))
        ok, why, hit = True, "", False
        gets = [m for m in deep_deps(r, v) if m.op in ("meth", "item") and is_get(m, key)] if v is not None else []
        for gs, s in q.gsources(r, v) if v is not None else []:
            s = q.unwrap_list(s)
            if is_get(s, key):
                hit = True
                continue
            if fld == "upper_threshold" and is_const(s, 0.1) and not replaces(gs, gets):
                continue
            if empty_value(s) or is_const(s, dflt) or is_const(s):
                # a default for an absent key
                fs = q.flat(gs)
                if not replaces(gs, gets, (mk("in", const(key), P("input_dict")),), fld != "min_flame_speed") or any(
                        g.op == "not" and g.a[0].op == "in" and is_const(g.a[0].a[0], key) for g in fs):
                    continue
            ok, why = False, str(s)[:120]
        rep.put(verdict(ok and hit, r, v), f"parse_inputs.{fld}", f"the input's {key!r} is the {fld} of the run", None, why)
    for fld, (pf, key) in CASES.items():
        v = dict(ret.a[1]).get(fld) if ret.op == "nt" else q.project(ret, (("attr", fld),))
        ok, why = True, ""
        srcs = sources(r, v) if v is not None else []
        for s in srcs:
            s = q.unwrap_list(s)
            if not (s.op == "rcall" and short(s.a[0]) == pf):
                ok, why = False, str(s)[:120]
                continue
            am = dict(s.a[1])
            for a, k in (("model", "model"), ("conditions", key), ("phase_name", "phase-name")):
                if am.get(a) is None or not all(is_get(q.unwrap_list(y), k) or a == "conditions" and empty_value(y) for y in sources(r, am[a])):
                    ok, why = False, f"{a} of {pf} is {str(am.get(a))[:80]}"
        rep.put(verdict(ok and bool(srcs), r, v), f"parse_inputs.{fld}", f"the input's {key!r} become the {fld} of the run", None, why)


SETTINGS = ("phase_name", "path", "min_flame_speed", "threshold_upper", "error_limit")


def defaults(C, rep):
    """No setting is replaced by another value where the stage was given it or was given none."""
    for name, fid in [*STAGES.items(), ("SA", RUN_SA)]:
        r = C.run(fid, "leaf")
        roots = [r.retf] + [x for e in r.events for x in [e.node, *(e.args or ()), *(v for _, v in (e.kw or ()))] if isinstance(x, N)]
        nodes = {m for x in roots for m in deps(x)} | {m for i in r.loops.values() for x in i["next"].values() if isinstance(x, N) for m in deps(x)}
        for s in SETTINGS:
            w = P(s)
            hits = [m for m in nodes if m.op == "phi" and w in m.a[1:] and m.a[0] in (truth(w), NOT(truth(w)), mk("is", NONE, w), mk("is", w, NONE))]
            hits = [x for m in hits for x in m.a[1:] if x is not w and is_const(x) and not empty_value(x)]
            rep.put(not hits, f"{name}.default.{s}", f"{short(fid)} uses {s} as given", None, f"{hits[0]} takes its place" if hits else "")


def loaded(C, rep):
    """Simulations load the configured phase of the model file they were built for."""
    for nm in SIMARGS:
        cid = SIM + nm
        if cid not in C.prog.classes:
            rep.und(f"{nm}.Solution", "simulations load the model they are given")
            continue
        f = method(C, cid, "setup_case")
        if f is None:
            continue
        r = C.run(f, "trace", self_cls=cid)
        for e in r.events:
            if e.kind == "call" and e.name == "cantera.Solution":
                kw = dict(e.kw)
                args = dict(zip(("infile", "name"), e.args or ()))
                for a, fld in (("infile", "model"), ("name", "phase_name")):
                    v = kw.get(a, args.get(a))
                    ok = v is not None and all(x is SELF(cid, fld) for x in sources(r, v))
                    rep.put(verdict(ok, r, *([v] if v is not None else [])), f"{nm}.Solution.{fld}", f"{nm} loads the {fld} it was given",
                            e.loc, "" if ok else str(v)[:80])


def check(C, rep):
    for name in STAGES:
        rep.section(f"{name}.settings", stage, name)
    rep.section("SA.settings", sa)
    rep.section("sample", sampling, SAMPLE)
    rep.section("sample_metrics", sampling, METRICS)
    rep.section("main", main_)
    rep.section("pymars", cli)
    rep.section("defaults", defaults)
    rep.section("loaded", loaded)
    rep.section("parse_inputs", inputs)
