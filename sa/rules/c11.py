"""File-lifetime (typestate) analysis. Every write of a model file in a reduction stage must be the final result, lie in
a TemporaryDirectory block, or be followed on every non-raising path of the same iteration by the deletion of that very
file (the guards of the deletion must follow from the guards of the write, up to `is not the input model`). Every
deletion in the package is enumerated: its argument must trace back to a file the run wrote or is about to rewrite, and
the input model must be excluded wherever it could flow in. Sampling workers must release the intermediate file of a
simulation on the normal and on the exceptional path."""
from .stage import *

ASSUMES = ["a TemporaryDirectory removes its contents on leaving the block", "os.remove deletes exactly its argument"]
ALL = dict(STAGES, SA=RUN_SA)
DEL = ("os.remove", "os.unlink", "os.rmdir", "os.removedirs", "shutil.rmtree", "shutil.move", "os.rename", "os.replace")
DELM = ("unlink", "rmdir")


def in_tempdir(r, w):
    """The written path lies in a TemporaryDirectory whose block is still open at the write."""
    p = q.nodearg(w.node, "path")
    if p is None:
        return False
    for it in w.pc:
        if it[0] == "with" and "TemporaryDirectory" in str(it[1])[:120]:
            src = sources(r, p)
            if src and all(it[1] in deps(s) for s in src):
                return True
    return False


def loops_of(e):
    return [p[1] for p in e.pc if p[0] == "loop"]


def guards_after(pc):
    return [p[1] for p in pc if p[0] == "g"]


def removal(r, w):
    """(status, text) of the deletion of the file written by event w."""
    best = (False, "never deleted")
    for e in r.events:
        if e.kind not in ("call", "meth") or not (e.name in DEL or e.name in DELM) or e.seq < w.seq:
            continue
        arg = e.args[0] if e.kind == "call" and e.args else (e.node.a[0] if e.node is not None and e.node.op == "meth" else None)
        if arg is None:
            continue
        lw, le = loops_of(w), loops_of(e)
        facts = set(q.flat(guards_after(w.pc)))
        hit = w.node is arg
        res = []
        for fs, v in cases(strip_versions(arg), [strip_versions(f) for f in facts]):
            if strip_versions(w.node) is strip_versions(v):
                hit = True
            elif strip_versions(w.node) in map(strip_versions, sources(r, v)):
                hit = None if hit is not True else hit
        if hit is False:
            continue
        if lw and le[:len(lw)] != lw:
            # deleted after the loop: only the last one
            best = (False, f"deleted at line {e.loc[1]} outside the loop that writes it") if best[0] is False else best
            continue
        if hit is None:
            best = (None, f"possibly deleted at line {e.loc[1]}")
            continue
        # residual guard
        fs = frozenset(strip_versions(f) for f in facts)
        left = []
        for g in guards_after(e.pc):
            g = resolve(strip_versions(g), fs)
            for x in (g.a if g.op == "and" else (g,)):
                if x in fs or x is TRUE:
                    continue
                if about_input(x) or about_existence(x) or fresh(x):
                    continue
                left.append(x)
        if not left:
            between = [x for x in r.events if x.kind == "raise" and w.seq < x.seq < e.seq and loops_of(x)[:len(lw)] == lw]
            if between:
                best = (False, f"an error raised at line {between[0].loc[1]} skips the deletion")
                continue
            return True, ""
        u = any(has_unk_deep(r, x) for x in left)
        best = (None if u else False, f"deleted at line {e.loc[1]} only if {str(left[0])[:160]}")
    return best


def about_input(x):
    """The file is not the input model."""
    if x.op == "not" and x.a[0].op in ("eq", "is"):
        return P("model_file") in x.a[0].a
    return False


def fresh(x):
    """`new record is not the one of an earlier iteration`."""
    if x.op == "not" and x.a[0].op == "is":
        ops = [y.op for y in x.a[0].a]
        return "nt" in ops and ("mu" in ops or "param" in ops or "const" in ops)
    return False


def about_existence(x):
    if x.op == "truth":
        x = x.a[0]
    return x.op == "call" and x.a[0] in ("os.path.isfile", "os.path.exists")


def stage_files(C, rep, name):
    fid = ALL[name]
    r = C.run(fid, "leaf")
    finals = {strip_versions(l) for _, l in q.gsources(r, r.retf, (("attr", "filename"),))}
    ws = calls(r, WRITE)
    if not ws:
        rep.und(f"{name}.cleanup", "no model file is written")
    for w in ws:
        what = f"the file written in {short(w.func)} is the result, in a temporary directory or deleted"
        if strip_versions(w.node) in finals and not loops_of(w):
            rep.ok(f"{name}.cleanup", what + ": the result", w.loc)
            continue
        if in_tempdir(r, w):
            rep.ok(f"{name}.cleanup", what + ": temporary directory", w.loc)
            continue
        st, why = removal(r, w)
        if st is False and has_unk_deep(r, w.node):
            st = None
        rep.put(st, f"{name}.cleanup", what, w.loc, why)
    # files written without the writer of models
    from types import SimpleNamespace
    for e in list(file_writes(r)) + [e for e in r.events if e.kind == "meth" and e.name in MWRITERS] + calls(r, *COPIES):
        arg = (e.args[1] if e.name in COPIES and len(e.args) > 1 else e.args[0] if e.args and e.kind == "call" else
               e.node.a[2][0] if e.node is not None and e.node.op == "meth" and e.node.a[2] else None)
        if arg is None:
            continue
        what = f"the file written in {short(e.func)} is the result, in a temporary directory or deleted"
        if strip_versions(arg) in finals:
            rep.ok(f"{name}.cleanup", what + ": the result", e.loc)
            continue
        if any(it[0] == "with" and "TemporaryDirectory" in str(it[1])[:120] and it[1] in deps(arg) for it in e.pc):
            rep.ok(f"{name}.cleanup", what + ": temporary directory", e.loc)
            continue
        st, why = removal(r, SimpleNamespace(node=arg, seq=e.seq, pc=e.pc))
        rep.put(st if st is not False else verdict(False, r, arg), f"{name}.cleanup", what, e.loc, why)
    # temporary directories made by hand
    for e in calls(r, "tempfile.mkdtemp", "tempfile.mkstemp"):
        rep.und(f"{name}.cleanup", "temporary directory made by hand", e.loc)


def deletions(C, rep):
    """Every deletion in the package, by function."""
    import ast
    n = 0
    fids = []
    for f in C.prog.funcs.values():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call):
                nm = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", "")
                if nm in {d.rsplit(".", 1)[1] for d in DEL} | {"unlink", "rmdir", "remove"}:
                    fids.append(f.fid)
                    break
    for name, fid in ALL.items():
        r = C.run(fid, "leaf")
        for e, arg in dels(r):
            n += 1
            key = f"{name}.deletes"
            what = "only files the run wrote are deleted, never the input model"
            gs = set(q.flat(guards_after(e.pc)))
            excl = any(about_input(strip_versions(g)) for g in gs)
            st, why = True, ""
            for fs, v in cases(strip_versions(arg), [strip_versions(g) for g in gs]):
                for s in map(strip_versions, sources(r, v)):
                    if s.op == "rcall" and s.a[0] == WRITE:
                        continue
                    if s is P("model_file"):
                        if not excl:
                            st, why = verdict(False, r, v, *gs), "the input model's file name can reach the deletion"
                        continue
                    if "mkdtemp" in str(s)[:60] or "TemporaryDirectory" in str(s)[:80]:
                        continue
                    st, why = verdict(False, r, s), f"deletes {str(s)[:150]}"
            rep.put(st, key, what, e.loc, why)
    # sampling
    for fid in (SAMPLE, METRICS):
        if fid not in C.prog.funcs:
            continue
        r = C.run(fid, frozenset({S + "_run_workers"}))
        for e, arg in dels(r):
            n += 1
            key = f"{short(fid)}.deletes"
            what = "a saved file is deleted only just before it is rewritten"
            gs = q.flat(guards_after(e.pc))
            ok = None
            for w in r.events:
                if w.name in ("numpy.savetxt", "numpy.save", "builtins.open") and w.seq > e.seq and w.args and (
                        w.args[0] is arg or same_value(r, w.args[0], arg)[0]):
                    extra = [g for g in q.flat(guards_after(w.pc)) if g not in gs]
                    ok = not extra or ok
            if ok is None:
                ok = verdict(False, r, arg)
            rep.put(ok if ok is not False else verdict(False, r, arg), key, what, e.loc, str(arg)[:120])
    # writers
    for fid in (WRITE, "pymars.soln2ck.write"):
        if fid not in C.prog.funcs:
            continue
        r = C.run(fid, "full")
        for e, arg in dels(r):
            n += 1
            ok = None
            for w in r.events:
                wa = None
                if w.name == "builtins.open" and w.args:
                    wa = w.args[0]
                elif w.name == "write_yaml" and w.node is not None and w.node.op == "meth" and w.node.a[2]:
                    wa = w.node.a[2][0]
                if wa is not None and w.seq > e.seq and (wa is arg or same_value(r, wa, arg)[0]):
                    ok = True
            rep.put(True if ok else verdict(False, r, arg), f"{fid.split('.')[1]}.deletes",
                    "only the output file about to be rewritten is deleted", e.loc, str(arg)[:150])
    # simulations
    for cid in sim_classes(C):
        for m in ("setup_case", "run_case", "calculate", "process_results", "clean"):
            fid = method(C, cid, m)
            if fid is None:
                continue
            r = C.run(fid, "trace", self_cls=cid)
            me = mk("inst", cid, "self")
            for e, arg in dels(r):
                n += 1
                s = [strip_versions(x) for x in sources(r, arg)]
                ok = all(x is mk("attr", me, "save_file", None) for x in s)
                # or the very file this method opened for writing
                for w in r.events:
                    if w.name in ("h5py.File", "builtins.open") and w.args and strip_versions(w.args[0]) in s:
                        ok = True
                rep.put(verdict(ok, r, arg), f"{cid.rsplit('.', 1)[1]}.{m}.deletes",
                        "a simulation deletes only its own intermediate file", e.loc, str(arg)[:150])
    covered = set(ALL.values()) | {SAMPLE, METRICS, WRITE, "pymars.soln2ck.write"}
    for fid in fids:
        f = C.prog.funcs[fid]
        if f.mod.name in ("pymars.tools", "pymars.pymars", "pymars.reduce_model", "pymars.psr_solver"):
            r = C.run(fid, "leaf")
            for e, arg in dels(r):
                if e.func != fid:
                    continue                # the stage's own deletions are judged there
                rep.put(verdict(False, r, arg), f"{short(fid)}.deletes", "nothing is deleted here", e.loc, str(arg)[:150])
    if n == 0:
        rep.und("deletes", "no deletion found in the package")


def dels(r):
    out = []
    for e in r.events:
        if e.kind == "call" and e.name in DEL and e.args:
            out.append((e, e.args[0]))
        elif e.kind == "meth" and e.name in DELM and e.node is not None and e.node.op == "meth":
            out.append((e, e.node.a[0]))
    return out


WRITERS = ("h5py.File", "builtins.open", "numpy.savetxt", "numpy.save", "numpy.savez")


MWRITERS = ("write_yaml", "write_chemkin")
COPIES = ("shutil.copy", "shutil.copyfile", "shutil.copy2")


def file_writes(r):
    for e in r.events:
        if e.kind == "call" and e.name in WRITERS:
            mode = e.args[1] if len(e.args) > 1 else dict(e.kw).get("mode")
            if e.name in ("h5py.File", "builtins.open"):
                if mode is None or mode.op == "const" and cval(mode) in ("r", "rb"):
                    continue
            yield e


def workers(C, rep):
    """Which simulations write a file, and whether the workers release it."""
    writes = {}
    for cid in sim_classes(C):
        me = mk("inst", cid, "self")
        r = C.run(method(C, cid, "run_case"), "trace", self_cls=cid)
        ws = list(file_writes(r))
        writes[cid] = ws
        path = set()
        for e in ws:
            arg = e.args[0]
            ok = strip_versions(arg) is mk("attr", me, "save_file", None)
            path.add(strip_versions(arg))
        sf = save_paths(C, cid)
        nm = cid.rsplit(".", 1)[1]
        for e in ws:
            a = strip_versions(e.args[0])
            ok = a is mk("attr", me, "save_file", None) or a in sf
            rep.put(verdict(ok, r, e.args[0]), f"{nm}.file", "the intermediate file is the one that is released", e.loc,
                    str(a)[:120])
        if ws:
            rep.put(len(sf) == 1 or (None if any(q.has_unk(x) for x in sf) else False), f"{nm}.path",
                    "every assignment of the intermediate file names the same path", None, "; ".join(str(x)[:80] for x in sf))
            rc = C.run(method(C, cid, "clean"), "trace", self_cls=cid)
            hit = None
            for e, arg in dels(rc):
                if strip_versions(arg) is mk("attr", me, "save_file", None) or strip_versions(arg) in sf:
                    left = [g for g in q.flat(guards_after(e.pc)) if not about_existence(g) and not only_none(g, {mk("attr", me, "save_file", None), strip_versions(arg)} | sf)]
                    hit = (not left, e, left)
            if hit is None:
                rep.put(verdict(False, rc, rc.retf), f"{nm}.clean", "clean deletes the intermediate file", None, "no deletion")
            else:
                rep.put(verdict(hit[0], rc, *hit[2]), f"{nm}.clean", "clean deletes the intermediate file", hit[1].loc,
                        str(hit[2])[:150])
        rc = C.run(method(C, cid, "calculate"), "trace", self_cls=cid)
        for e in file_writes(rc):
            rep.bad(f"{nm}.calculate", "candidate simulations write no files", e.loc)
    writing = [c for c, w in writes.items() if w]
    if not writing:
        rep.ok("workers", "no simulation writes an intermediate file")
        return
    # worker functions that run such a simulation
    jobs = {}
    r = C.run(SAMPLE, frozenset({S + "_run_workers"}))
    for e in r.events:
        if e.kind == "rcall" and e.name == S + "_run_workers":
            w = argmap(e).get("worker")
            sims = argmap(e).get("simulations")
            for cid in writing:
                if sims is not None and any(m.op in ("inst", "ref") and cid in str(m) for m in deep_deps(r, sims)):
                    for s in sources(r, w):
                        if s.op == "fn":
                            jobs[s.a[0]] = cid
    if not jobs:
        rep.und("worker.release", "the worker of file-writing simulations was not found")
    for fid, cid in jobs.items():
        released(C, rep, fid)


def only_none(g, paths):
    """Guard `save_file is not None` or truthiness, of the file that is deleted."""
    if g.op == "not" and g.a[0].op in ("is", "eq") and NONE in g.a[0].a:
        return any(strip_versions(x) in paths for x in g.a[0].a)
    return g.op == "truth" and strip_versions(g.a[0]) in paths


def save_paths(C, cid):
    out = set()
    for m in ("__init__", "setup_case", "run_case", "process_results", "calculate"):
        fid = method(C, cid, m)
        if fid is None:
            continue
        r = C.run(fid, "trace", self_cls=cid)
        for e in r.events:
            if e.kind == "setfield" and e.name == "save_file":
                for s in sources(r, e.args[0] if e.args else NONE):
                    s = strip_versions(s)
                    if s is not NONE:
                        out.add(s)
    return out


def released(C, rep, fid):
    r = C.run(fid, "sim")
    runs = [e for e in r.events if e.name in ("run_case",) or (e.kind == "rcall" and str(e.name).endswith(".run_case"))]
    cleans = [e for e in r.events if e.name == "clean" or str(e.name).endswith(".clean")]
    nm = short(fid)
    if not runs:
        rep.und(f"{nm}.release", "no simulation is run in the worker")
        return
    for e in runs:
        normal = [c for c in cleans if c.seq > e.seq and not [g for g in guards_after(c.pc) if g not in guards_after(e.pc)]
                  and not any(p[0] == "handler" for p in c.pc)]
        exc = [c for c in cleans if c.seq > e.seq and any(p[0] in ("handler", "finally") for p in c.pc) and
               (any(p[0] == "finally" for p in c.pc) or catches_all(c.pc))]
        tried = any(p[0] == "try" for p in e.pc)
        what = "the intermediate file is released when the simulation "
        rep.put(verdict(bool(normal), r), f"{nm}.release", what + "succeeds", e.loc)
        rep.put(verdict(bool(exc) and tried, r), f"{nm}.release", what + "fails", e.loc,
                "" if exc and tried else "clean() is not reached when run_case raises")
        for x in r.events:
            if str(x.name).endswith("process_results") and x.seq > e.seq:
                ok = any(p[0] == "try" for p in x.pc) or True
                for c in normal:
                    if c.seq < x.seq and not any(p[0] == "finally" for p in c.pc):
                        rep.bad(f"{nm}.release", "the intermediate file is released only after it was read", c.loc)


def catches_all(pc):
    for p in pc:
        if p[0] == "handler":
            s = str(p)
            if "BaseException" in s or "()" in s or "None" in s:
                return True
            return False
    return False


def check(C, rep):
    for name in ALL:
        rep.section(f"{name}.cleanup", stage_files, name)
    rep.section("deletes", deletions)
    rep.section("workers", workers)
