"""The vectors of metrics and samples are computed abstractly once with one worker and once with several; both must
flatten to the same sequence, one result per case in case order, each of the simulation built from that very case.
Parallel maps that deliver in completion order yield an unordered collection, from which no positional sequence may be
built. The size of every pool is evaluated for the requested worker counts and machine sizes; each simulation object is
created for its own case with its own number, and files it writes carry that number."""
from .c04 import *

ASSUMES = ["Pool.map/starmap/imap deliver results in the order of the jobs and map/starmap only return when all are done",
           "a simulation is deterministic"]
ASYNC = ("imap", "imap_unordered", "map_async", "starmap_async", "apply_async", "submit")


def count(n, req, cores):
    """Value of a worker count for a requested number and a number of cores, or None."""
    if n.op == "const":
        return cval(n)
    if n is P("num_threads"):
        return req
    if n.op == "call" and n.a[0] in ("multiprocessing.cpu_count", "os.cpu_count", "os.process_cpu_count"):
        return cores
    if n.op == "call" and n.a[0] in ("builtins.max", "builtins.min"):
        args = list(n.a[1])
        if len(args) == 1 and args[0].op == "tuple":
            args = list(args[0].a)
        elif len(args) == 1 and args[0].op == "coll":
            args = [x[1] for x in args[0].a[1] if x[0] == "item"]
        vs = [count(x, req, cores) for x in args]
        return None if None in vs or not vs else (max if n.a[0].endswith("max") else min)(vs)
    if n.op == "call" and n.a[0] == "builtins.int" and len(n.a[1]) == 1:
        return count(n.a[1][0], req, cores)
    if n.op == "bin" and n.a[0] in ("+", "-", "*", "//"):
        a, b = count(n.a[1], req, cores), count(n.a[2], req, cores)
        if a is None or b is None:
            return None
        return {"+": a + b, "-": a - b, "*": a * b, "//": a // b if b else None}[n.a[0]]
    if n.op == "phi":
        t = cond(n.a[0], req, cores)
        return None if t is None else count(n.a[1] if t else n.a[2], req, cores)
    return None


def cond(c, req, cores):
    def cls(x):
        if x.op == "truth":
            v = count(x.a[0], req, cores)
            return None if v is None else bool(v)
        if x.op in ("eq", "is", "lt", "le"):
            if NONE in x.a:
                o = [y for y in x.a if y is not NONE]
                return False if o and count(o[0], req, cores) is not None else None
            a, b = count(x.a[0], req, cores), count(x.a[1], req, cores)
            if a is None or b is None:
                return None
            return a == b if x.op in ("eq", "is") else a < b if x.op == "lt" else a <= b
        return None
    return tri(c, cls)


def pools(C, rep):
    for fname in (METRICS, SAMPLE):
        r = C.run(fname, "sim")
        ps = {}
        for e in r.events:
            if e.kind == "parallel-map" and e.node is not None:
                ps.setdefault(e.node, []).append(e)
        makers = {e.node: e for e in r.events if e.kind in ("call", "meth") and e.node in ps}
        for p, es in ps.items():
            n = proc(p)
            at = (makers.get(p) or es[0]).loc
            if n is None:
                rep.bad(f"{short(fname)}.size", "the pool has the requested number of workers", at, "all cores") if p.op == "call" else None
                continue
            bad, und = None, False
            for req in (0, 2, 3, 7):
                for cores in (1, 2, 8):
                    if any(cond(g, req, cores) is False for g in q.pcguards(es[0].pc)):
                        continue
                    v = count(n, req, cores)
                    want = req or max(cores - 1, 1)
                    if v is None:
                        und = True
                    elif v != want:
                        bad = f"{v} workers when {req} are requested on {cores} cores"
            rep.put(False if bad else None if und else True, f"{short(fname)}.size",
                    "a pool has the requested number of workers, for zero all cores but one and at least one", at, bad or str(n)[:100])
            for e in es:
                if e.name in ASYNC:
                    done = [x for x in r.events if x.kind == "meth" and x.name in ("join",) and x.args and x.args[0] is p]
                    rep.put(None if not done else True, f"{short(fname)}.finished", "all simulations have finished before results are used",
                            e.loc, e.name)
                else:
                    rep.ok(f"{short(fname)}.finished", "all simulations have finished before results are used", e.loc, e.name)
            kill = [x for x in r.events if x.kind == "meth" and x.name == "terminate" and x.args and x.args[0] is p
                    and x.seq < min(e.seq for e in es)]
            for x in kill:
                rep.bad(f"{short(fname)}.finished", "workers are not stopped before they are done", x.loc)
        # where serial execution is chosen it must not depend on anything that changes results: same loop body
        if not ps:
            rep.note(f"{short(fname)}: no worker pool")


def proc(p):
    if p.op == "call":
        kw = dict(p.a[2])
        n = kw.get("processes", kw.get("max_workers"))
        return n if n is not None else (p.a[1][0] if p.a[1] else None)
    if p.op == "meth":
        kw = dict(p.a[3])
        return kw.get("processes") or (p.a[2][0] if p.a[2] else None)
    return None


def objects(C, rep):
    for fname in (METRICS, SAMPLE):
        r = C.run(fname, "sim", args={"num_threads": const(3)})
        for k, cid in CLS.items():
            for node, e in news(r, cid).items():
                ls = pcl(e)
                own = [p for p in ls if p[2] is conds(k)]
                fl = e.extra if isinstance(e.extra, dict) else {}
                what = f"every {k} case has its own simulation object and number"
                idx = fl.get("idx")
                if idx is None:
                    rep.und(f"{short(fname)}.{k}.own", what, e.loc)
                    continue
                if not own:
                    rep.put(None if ls else verdict(False, r, idx), f"{short(fname)}.{k}.own", what, e.loc, "not created per case")
                    continue
                ok = idx is mk("idx", conds(k), own[-1][3]) or any(m is mk("idx", conds(k), own[-1][3]) for m in injective(idx))
                rep.put(verdict(ok, r, idx), f"{short(fname)}.{k}.own", what, e.loc, f"number {str(idx)[:100]}")
                shared = [(f, m) for f, v in fl.items() if v is not None for m in deps(v)
                          if m.op in ("ref", "inst") and m is not node and m.op == "ref"]
                rep.put(None if shared else True, f"{short(fname)}.{k}.shared", f"simulations of {k} cases share no object", e.loc,
                        str(shared)[:150] if shared else "")
    for k, cid in CLS.items():
        f = method(C, cid, "setup_case")
        if f is None:
            continue
        r = C.run(f, "full", self_cls=cid)
        for e in r.events:
            if e.kind == "setfield" and e.name == "save_file":
                v = e.args[0]
                if v is NONE or v.op == "const" and not cval(v):
                    continue
                ok = SELF(cid, "idx") in deps(strip_versions(v))
                tmp = any(m.op == "call" and "temp" in str(m.a[0]) for m in deps(v))
                rep.put(True if ok or tmp else verdict(False, r, v), f"{k}.file", "a file written by a simulation carries the number of its case", e.loc,
                        str(v)[:150])


def injective(n):
    """n and the values it is an injective function of."""
    out = [n]
    while True:
        if n.op == "bin" and n.a[0] in ("+", "-") and any(x.op == "const" for x in n.a[1:]):
            n = n.a[1] if n.a[2].op == "const" else n.a[2]
        elif n.op == "call" and n.a[0] in ("builtins.str", "builtins.int", "builtins.float") and len(n.a[1]) == 1:
            n = n.a[1][0]
        elif n.op in ("fmt",):
            n = n.a[0]
        elif n.op == "cat" and len([x for x in n.a if x.op != "const"]) == 1:
            n = [x for x in n.a if x.op != "const"][0]
        else:
            return out
        out.append(n)


def check(C, rep):
    rep.section("vectors", vectors)
    rep.section("pools", pools)
    rep.section("objects", objects)
