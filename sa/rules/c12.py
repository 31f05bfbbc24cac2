"""Value flow of files and models: for every way a reduction stage returns, the file name in the result is the return
value of a write whose argument is the very model in the result and whose directory is the run's output directory, and
no later deletion reaches it. Every simulation of a candidate reads a file written from the candidate it is paired with;
every candidate of the sensitivity analysis is cut from the file of the current model. The writer itself is analysed:
it writes the given model to the path it returns, below the given directory."""
from .stage import *

ASSUMES = ["Solution.write_yaml writes the solution to the given path", "os.path.join(path, name) lies in path"]
ALL = dict(STAGES, SA=RUN_SA)


def result(C, rep, name):
    fid = ALL[name]
    r = C.run(fid, "leaf")
    R = unloop(r, r.retf)
    zero = unloop(r, r.retf, True)
    pairs = [mk("tuple", field(R, "model"), field(R, "filename"))]
    if zero is not R:
        pairs.append(mk("tuple", field(zero, "model"), field(zero, "filename")))
    key = f"{name}.result"
    for t in pairs:
        for fs, v in cases(t):
            m, f = v.a
            if m is UNDEF or f is UNDEF or m.op == "attr" and m.a[0] is UNDEF:
                continue
            if any(resolve(strip_versions(last_iteration(r, l)), fs) is FALSE for l in while_lids(r, v)):
                continue
            what = "the file in the result is written from the model in the result"
            if not (f.op == "rcall" and f.a[0] == WRITE):
                s = False if f.op in ("param", "attr", "const") and not has_unk_deep(r, f) else None
                rep.put(s, key, what, r_loc(r, fid), f"file name is {str(f)[:200]}")
                continue
            s, why = same_value(r, q.nodearg(f, "solution"), m, fs)
            rep.put(s, key, what, write_loc(r, f), why)
            p = q.nodearg(f, "path")
            rep.put(verdict(same_param(r, p, "path"), r, p), f"{name}.dir", "the result is written to the output directory",
                    write_loc(r, f), f"directory {str(p)[:120]}")
    # nothing deletes the file of the result
    finals = {l for _, l in q.gsources(r, r.retf, (("attr", "filename"),)) if l.op == "rcall" and l.a[0] == WRITE}
    wr = calls(r, WRITE)
    bad = None
    for e in calls(r, "os.remove", "os.unlink", "shutil.rmtree"):
        if not e.args:
            continue
        src = sources(r, e.args[0])
        for f in finals:
            if f in src:
                ws = [w for w in wr if w.node is f]
                if ws and ws[0].seq < e.seq:
                    bad = (e, f)
    rep.put(False if bad else True, f"{name}.kept", "the file of the result is not deleted afterwards",
            bad[0].loc if bad else r_loc(r, fid), "deleted here" if bad else "")
    # nor does it live in a temporary directory
    tmp = [w for w in wr if w.node in finals and any(x.op == "ctx" or "TemporaryDirectory" in str(x)[:200] for x in
                                                    deps(q.nodearg(w.node, "path")) if x.op in ("call", "ctx", "meth"))]
    if tmp:
        rep.bad(f"{name}.kept", "the file of the result is not in a temporary directory", tmp[0].loc)


def r_loc(r, fid):
    f = r.ctx.prog.funcs[fid]
    return (f.mod.path, f.node.lineno)


def write_loc(r, f):
    for e in calls(r, WRITE):
        if e.node is f:
            return e.loc
    return None


def simulated(C, rep, name):
    fid = ALL[name]
    r = C.run(fid, "leaf")
    for e in calls(r, METRICS, SAMPLE):
        f = argmap(e).get("model")
        what = f"the simulations in {short(e.func)} use the starting model or a file written from a candidate"
        st, why = True, ""
        for s in sources(r, f):
            s = strip_versions(s)
            if s is P("model_file"):
                if name in STAGES and e.name == METRICS:
                    st, why = False, "a candidate is simulated from the starting model's file"
                continue
            if s.op == "rcall" and s.a[0] == WRITE:
                continue
            st, why = verdict(False, r, s), str(s)[:200]
        rep.put(st, f"{name}.simulated", what, e.loc, why)
    # candidates are cut from the file of the current model
    for e in calls(r, TRIM):
        f = argmap(e).get("initial_model_file")
        fs = strip_versions(f)
        if name in STAGES:
            rep.put(verdict(same_param(r, f, "model_file"), r, f), f"{name}.base", "candidates are cut from the starting model",
                    e.loc, str(f)[:150])
        else:
            ok = all(s is P("model_file") or s.op == "rcall" and s.a[0] == WRITE for s in map(strip_versions, sources(r, f)))
            rep.put(verdict(ok, r, f), f"{name}.base", "candidates are cut from the current model's file", e.loc, str(fs)[:150])
    for e, f in model_pairs(r):
        m, fn = f.get("model"), f.get("filename")
        if m is None or fn is None:
            continue
        st, why = True, ""
        w0 = strip_versions(fn)
        if w0.op == "rcall" and w0.a[0] == WRITE and alike(strip_versions(q.nodearg(w0, "solution")), strip_versions(m)):
            rep.ok(f"{name}.record", f"model and file of the record built in {short(e.func)} belong together", e.loc)
            continue
        for fs, v in cases(mk("tuple", strip_versions(m), strip_versions(fn))):
            a, b = v.a
            if b.op == "rcall" and b.a[0] == WRITE:
                s, w = same_value(r, q.nodearg(b, "solution"), a, fs)
            elif a.op == "call" and a.a[0] == "cantera.Solution":
                s, w = (a.a[1] and a.a[1][0] is b or dict(a.a[2]).get("infile") is b) or verdict(False, r, b), f"model {a} file {b}"
            elif a.op == "attr" and b.op == "attr" and a.a[0] is b.a[0]:
                s, w = True, ""
            elif a.op == "attr" and b.op == "attr" and a.a[0].op == b.a[0].op == "mu":
                s, w = False, f"model of {a.a[0]} with file of {b.a[0]}"
            elif a.op == "rcall" and a.a[0] == TRIM and b.op == "attr" and b.a[0].op == "mu" or b is P("model_file"):
                s, w = verdict(False, r, a, b), f"model {str(a)[:120]} with file {str(b)[:120]}"
            else:
                s, w = None, f"{str(a)[:120]} / {str(b)[:120]}"
            if s is False and w0.op == "rcall" and w0.a[0] == WRITE and same_shape(strip_versions(q.nodearg(w0, "solution")),
                                                                                   strip_versions(m)):
                s = None            # told apart only deep inside the conditions of the loop
            if s is False and any(x.op == "first" and not str(x.a[0]).startswith("while") for x in (*deps(a), *deps(b))):
                s = None            # a counted loop that is left early
            if s is not True:
                st, why = (s, w) if st is True or s is False else (st, why)
        rep.put(st, f"{name}.record", f"model and file of the record built in {short(e.func)} belong together", e.loc, why)


def same_shape(a, b):
    """The same alternatives in the same places, conditions aside."""
    if a is b:
        return True
    if a.op != b.op:
        return False
    if a.op == "phi":
        return a.a[0].op == b.a[0].op and same_shape(a.a[1], b.a[1]) and same_shape(a.a[2], b.a[2])
    if a.op == "first":
        return a.a[0] is b.a[0] and same_shape(a.a[3], b.a[3])
    return False


def handover(C, rep):
    r = C.run(MAIN + "main", "run")
    for e in calls(r, RUN_SA):
        f = argmap(e).get("model_file")
        st, why, n = True, "", 0
        for s in sources(r, f):
            if s is P("model_file"):
                n += 1
                continue
            if s.op == "attr" and s.a[1] == "filename" and s.a[0].op == "rcall" and s.a[0].a[0] in STAGES.values():
                n += 1
                continue
            st, why = verdict(False, r, s), str(s)[:200]
        rep.put(st if n else None, "main.handover", "the sensitivity analysis starts from the previous stage's file", e.loc, why)
        # with a graph method the stage's file, without one the input file
        meth = P("method")
        for nm in STAGES:
            facts = {mk("eq", meth, const(nm))}
            for e2 in calls(r, STAGES[nm]):
                for fs, v in cases(f, pick(e, nm, f)):
                    if v is P("model_file"):
                        rep.put(verdict(False, r, f), "main.handover", f"after {nm} the sensitivity analysis starts from its "
                                "result", e.loc, "starts from the original model")


def pick(e, nm, f):
    """Facts of a run with method nm."""
    out = set()
    conds = set()
    for g in list(gates(f)):
        conds.add(g)
    for g in conds:
        if g.op == "eq" and P("method") in g.a:
            o = [x for x in g.a if x is not P("method")]
            if o and o[0].op == "const":
                out.add(g if cval(o[0]) == nm else NOT(g))
        elif g is truth(P("method")):
            out.add(g)
        elif g.op == "in" and g.a[0] is P("method"):
            vals = [v for k, v, _, _ in members(g.a[1]) if k == "item"]
            if all(v.op == "const" for v in vals):
                out.add(g if nm in [cval(v) for v in vals] else NOT(g))
    return out


def writer(C, rep):
    r = C.run(WRITE, "full")
    ws = [e for e in r.events if e.name == "write_yaml"]
    if not ws:
        rep.und("write.model", "no write_yaml call found")
        return
    fn = None
    for e in ws:
        base = e.node.a[0] if e.node is not None and e.node.op == "meth" else None
        rep.put(verdict(base is not None and only(sources(r, base), P("solution")), r, base), "write.model",
                "the given model is what is written", e.loc, str(base)[:120])
        a = (e.node.a[2][0] if e.node.a[2] else dict(e.node.a[3]).get("filename")) if base is not None else None
        if a is None:
            rep.und("write.path", "the returned path is the path written", e.loc)
            continue
        s, why = same_value(r, a, r.retf)
        rep.put(s, "write.path", "the returned path is the path written", e.loc, why)
        fn = a
        un = q.pcguards(e.pc)
        if un:
            rep.put(verdict(False, r, *un), "write.always", "the model is written unconditionally", e.loc, str(un)[:200])
        else:
            rep.ok("write.always", "the model is written unconditionally", e.loc)
    for fs, v in cases(r.retf):
        ok = v.op == "call" and v.a[0] == "os.path.join" and v.a[1] and v.a[1][0] is P("path")
        rep.put(verdict(ok, r, v) if not (v.op == "cat") else None, "write.dir", "the path lies in the given directory", ws[0].loc,
                str(v)[:150])
        given = truth(P("output_filename"))
        if ok and given in fs:
            rep.put(verdict(v.a[1][-1] is P("output_filename"), r, v), "write.name", "a given file name is used", ws[0].loc,
                    str(v)[:150])
    for e in calls(r, "os.remove"):
        if e.seq > ws[-1].seq:
            rep.bad("write.kept", "the written file is not deleted", e.loc)


def check(C, rep):
    for name in ALL:
        rep.section(f"{name}.result", result, name)
        rep.section(f"{name}.simulated", simulated, name)
    rep.section("main.handover", handover)
    rep.section("write", writer)
