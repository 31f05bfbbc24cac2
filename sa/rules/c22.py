"""Reactor and flame metrics: the value each method returns when the simulation succeeds is resolved to positions of the
traced response curve or the flame profile; the tracer's points are decided by parallel traversal of the lists it grows
and by a normal form of the index expressions, its equations by a normal form of the residual; def-use and event order
decide that each trace starts from the inlet state captured at setup; the flame floor is decided as in C05."""
from ..alg import Alg, NotArith
from ..ir import children
from .c17 import *

ASSUMES = ["the turning point is where the traced residence times are smallest, as the tracer documents",
           "convergence is judged by C24, the Jacobian is not judged"]
TRACE = "pymars.psr_solver.trace_extinction_curve"
RES = "pymars.psr_solver._core_residual"
WANT = (("extinction", 0), ("log_mid", 1), ("near_0.1s", 1))
FLOOR = 0.05
ARR = {"numpy.array", "numpy.asarray", "builtins.list", "builtins.int", "numpy.copy", "builtins.float", "builtins.tuple"}


def leaves_of(n, w):
    """Alternatives of n that remain in world w."""
    out, todo, seen = [], [n], set()
    while todo:
        m = todo.pop()
        if m in seen:
            continue
        seen.add(m)
        if m.op == "phi":
            t = tri(m.a[0], w.cls)
            todo += [m.a[1]] * (t is not False) + [m.a[2]] * (t is not True)
        elif m.op == "maybe":
            todo += [m.a[1], m.a[2]]
        elif m.op == "call" and m.a[0] in ("numpy.array", "numpy.asarray", "builtins.float") and len(m.a[1]) == 1 and m.a[1][0].op != "coll":
            todo.append(m.a[1][0])
        else:
            out.append(m)
    return out


def entries_of(n):
    if n.op == "call" and n.a[0] in ("numpy.array", "numpy.asarray", "builtins.list", "builtins.tuple") and n.a[1]:
        n = n.a[1][0]
    if n.op == "tuple":
        return list(n.a)
    if n.op == "coll" and all(e[0] == "item" for e in n.a[1]):
        return [e[1] for e in n.a[1]]
    return None


def paths_of(n, w):
    """[(source, keys)] of a chain of subscripts, one for each alternative."""
    out = []
    for n in leaves_of(n, w):
        if n.op == "item" and n.a[1].op == "const":
            out += [(x, k + [cval(n.a[1])]) for x, k in paths_of(n.a[0], w)]
        elif n.op == "meth" and n.a[1] == "get" and n.a[2] and n.a[2][0].op == "const":
            out += [(x, k + [cval(n.a[2][0])]) for x, k in paths_of(n.a[0], w)]
        else:
            out.append((n, []))
    return out


def within(n, stop):
    """Nodes of n down to the nodes in stop."""
    seen, todo = set(), [n]
    while todo:
        m = todo.pop()
        if m in seen or m in stop:
            continue
        seen.add(m)
        todo += children(m)
    return seen


class Good(World):
    """The simulation succeeds."""

    def cls(self, c):
        v = super().cls(c)
        if v is None and c.op in ("is", "eq") and NONE in c.a:
            o = [x for x in c.a if x is not NONE]
            if o and o[0].op == "phi":
                ls = leaves_of(o[0], self)
                if all(x.op in ("rcall", "item") for x in ls):
                    return False
        return v


def psr_metrics(C, rep):
    cid = CLS["psr"]
    what = "metrics are extinction time, temperature at the log midpoint, temperature nearest 0.1 s"
    for name in ("run_case", "calculate", "process_results"):
        f = method(C, cid, name)
        if f is None:
            rep.und(f"psr.{name}.metrics", what)
            continue
        m = Method(C, cid, name)
        w = Good(cid, init={}, loops=m.r.loops)
        vs = leaves_of(m.r.retf, w)
        if name == "process_results":
            vs = [y for v in vs for y in leaves_of(v.a[0] if v.op == "tuple" and len(v.a) == 2 else v, w)]
        for i, (pt, j) in enumerate(WANT):
            res = []
            for v in vs:
                es = entries_of(v)
                if es is None or len(es) != len(WANT):
                    res.append((None, "") if es is None else (False, f"{len(es)} metrics"))
                    continue
                for src, keys in paths_of(es[i], w):
                    if src.op == "rcall" and src.a[0] == TRACE or src.op == "item" and src.a[0].op == "rcall" and src.a[0].a[0] == TRACE:
                        ok = keys == ["points", pt, j]
                        res.append((ok, "" if ok else f"entry {i} is {'/'.join(map(str, keys))}"))
                    elif src.op == "attr" and src.a[0] is INST(cid):
                        res.append((False, f"entry {i} comes from the stored {src.a[1]}, not from a new trace"))
                    else:
                        res.append((None, ""))
            bad = [x for x in res if x[0] is False]
            und = [x for x in res if x[0] is None]
            st, why = (bad or und or res or [(None, "")])[0]
            rep.put(verdict(False, m.r, m.r.retf) if st is False else st, f"psr.{name}.metric{i}", what, m.at, why)
    # the same tracing for both
    calls_ = {}
    for name in ("run_case", "calculate"):
        f = method(C, cid, name)
        if f is not None:
            r = Method(C, cid, name).r
            calls_[name] = [argmap(e) for e in r.events if e.kind == "rcall" and e.name == TRACE]
    a, b = calls_.get("run_case", []), calls_.get("calculate", [])
    what = "starting and candidate models are traced with the same settings"
    if len(a) != 1 or len(b) != 1:
        rep.und("psr.same", what)
    else:
        diff = [k for k in a[0] if strip_versions(a[0][k]) is not strip_versions(b[0].get(k, NONE))]
        rep.put(not diff or None if any(has_unk_deep(None, a[0][k], b[0].get(k, NONE)) for k in diff) else not diff, "psr.same", what,
                None, ", ".join(diff))


def fresh(C, rep):
    cid = CLS["psr"]
    what = "each trace starts from the inlet state of the case"
    f = method(C, cid, "setup_case")
    if f is None:
        rep.und("psr.inlet", what)
        return
    rs = C.run(f, "trace", self_cls=cid)
    gas = SELF(cid, "gas")
    gnode = [e.args[0] for e in rs.events if e.kind == "setfield" and e.name == "gas"]
    fields = {e.name: e for e in rs.events if e.kind == "setfield"}
    states = [e for e in rs.events if (e.kind == "setattr" or e.kind == "meth" and e.name not in PURE)
              and strip_versions(e.node if e.kind == "setattr" else e.args[0]) in [strip_versions(g) for g in gnode] + [gas]]
    last = max((e.seq for e in states), default=-1)

    def letter(x):
        x = strip_versions(x)
        while x.op == "meth" and x.a[1] == "copy" or x.op == "call" and x.a[0] in ARR | {"copy.copy", "copy.deepcopy"}:
            x = x.a[0] if x.op == "meth" else x.a[1][0]
        if x.op == "attr" and (x.a[0] is gas or strip_versions(x.a[0]) in [strip_versions(g) for g in gnode]):
            return x.a[1]
        return None

    def comps(v):
        """Names of the mixture's quantities v consists of, through the fields stored at setup."""
        v = strip_versions(v)
        if v.op == "attr" and v.a[0] is INST(cid) and v.a[1] in fields and v is not gas:
            e = fields[v.a[1]]
            if q.pcguards(e.pc):
                return None
            if e.seq < last:
                return ["early"]
            return comps(e.args[0])
        if v.op == "item" and v.a[1].op == "slice" and all(x is NONE or x.op == "const" for x in v.a[1].a):
            c = comps(v.a[0])
            return c[slice(*[cval(x) for x in v.a[1].a])] if c else None
        if v.op == "item" and v.a[1].op == "const" and isinstance(cval(v.a[1]), int):
            c = comps(v.a[0])
            return [c[cval(v.a[1])]] if c and cval(v.a[1]) < len(c) else None
        if v.op in ("tuple", "coll"):
            xs = entries_of(v)
            out = []
            for x in xs or []:
                c = comps(x)
                if c is None or len(c) != 1:
                    return None
                out += c
            return out or None
        l = letter(v)
        return [l] if l else None
    for name in ("run_case", "calculate"):
        g = method(C, cid, name)
        if g is None:
            rep.und(f"psr.{name}.inlet", what)
            continue
        r = Method(C, cid, name).r
        ts = [e for e in r.events if e.kind == "rcall" and e.name == TRACE]
        if not ts:
            rep.und(f"psr.{name}.inlet", what)
            continue
        for t in ts:
            obj = strip_versions(argmap(t).get("gas", NONE))
            prior = [e for e in r.events if e.seq < t.seq and (
                e.kind == "setattr" and strip_versions(e.node) is obj or e.kind == "meth" and e.name not in PURE and strip_versions(e.args[0]) is obj
                or e.kind == "rcall" and any(strip_versions(a) is obj for a in e.args))]
            st, why = None, ""
            if obj is gas:
                st, why = reset(prior, set(q.pcguards(t.pc)), comps)
            rep.put(verdict(False, r, *t.args) if st is False else st, f"psr.{name}.inlet", what, t.loc, why)
    # nothing else writes the stored state
    stored = {n for n, e in fields.items() if n != "gas" and comps(e.args[0])}
    bad = None
    for name in ("run_case", "calculate", "process_results"):
        g = method(C, cid, name)
        if g is None:
            continue
        for e in Method(C, cid, name).r.events:
            if e.kind == "setfield" and e.name in stored or e.kind in ("setitem", "mutate") and any(
                    m.op == "attr" and m.a[0] is INST(cid) and m.a[1] in stored for m in [strip_versions(e.node)]):
                bad = e
    rep.put(True if bad is None and stored else None if bad is None else False, "psr.inlet.kept", "the stored inlet state is not overwritten",
            bad.loc if bad else None, bad.name if bad else "")


def reset(prior, gt, comps):
    """Whether the events before a trace leave the mixture in the stored inlet state."""
    cur, vague, cond = {"T": "left over", "P": "left over", "C": "left over"}, False, False
    for e in prior:
        uncond = set(q.pcguards(e.pc)) <= gt
        if e.kind == "rcall":
            cur = {k: "left over" for k in cur}
            continue
        if e.kind == "meth":
            vague = True
            continue
        c = comps(e.args[0])
        new = {}
        if e.name == "state":
            new = {k: k if c == ["state"] else None for k in cur}
        elif e.name in PAIRS and e.name[:2] == "TP":
            for i, l in enumerate(e.name):
                x = c[i] if c and i < len(c) else None
                new["C" if l in "XY" else l] = ("C" if x == l and l in "XY" else x) if x else None
        elif e.name in ("X", "Y"):
            new = {"C": "C" if c == [e.name] else (c or [None])[0], "P": "changed"}
        elif e.name in ("T", "P"):
            new = {e.name: (c or [None])[0]}
        else:
            vague = True
            continue
        if uncond:
            cur.update(new)
            if len(new) == 3:
                vague = cond = False
        else:
            cond = True
    if vague or None in cur.values():
        return None, ""
    bad = [k for k, v in cur.items() if v != k]
    if bad:
        return False, "the mixture is reset only under a condition" if cond else \
            ", ".join(f"{'composition' if k == 'C' else k} is {cur[k]}" for k in bad)
    return (None, "") if cond else (True, "")


# ---------------------------------------------------------------- the tracer
def lists_of(n):
    """(sequence, index) of an entry read from a sequence whose choice may have been distributed over the read."""
    if n.op == "item":
        return n.a
    if n.op == "phi":
        a, b = lists_of(n.a[1]), lists_of(n.a[2])
        if a and b and a[1] is b[1]:
            return mk("phi", n.a[0], a[0], b[0]), a[1]
    if n.op == "meth" and n.a[1] == "copy" or n.op == "call" and n.a[0] in ("numpy.copy",):
        return lists_of(n.a[0] if n.op == "meth" else n.a[1][0])
    return None


def norm(n, memo):
    """Array and integer wrappers removed."""
    n0 = n
    if n in memo:
        return memo[n]
    for _ in range(12):
        ch = [m for m in deps(n) if m.op == "call" and m.a[0] in ARR and len(m.a[1]) == 1 and not m.a[2]]
        if not ch:
            break
        inner = [m for m in ch if not any(x in deps(m.a[1][0]) for x in ch)]
        n = subst(n, {m: m.a[1][0] for m in inner})
    memo[n0] = n
    return n


def joint(r, ns, out, seen):
    """Values several variables have together at the exits of the loop."""
    if ns in seen:
        return
    seen.add(ns)
    for j, n in enumerate(ns):
        if n.op == "call" and n.a[0] in ARR and len(n.a[1]) == 1:
            joint(r, ns[:j] + (n.a[1][0],) + ns[j + 1:], out, seen)
            return
    c = next((n.a[0] for n in ns if n.op == "phi"), None)
    if c is not None:
        for j in (1, 2):
            joint(r, tuple(n.a[j] if n.op == "phi" and n.a[0] is c else n for n in ns), out, seen)
        return
    fs = [n for n in ns if n.op == "first"]
    if fs and all(n.op == "first" and n.a[2] is fs[0].a[2] for n in ns):
        joint(r, tuple(n.a[3] for n in ns), out, seen)
        return
    out.append(ns)


def tracer(C, rep):
    if TRACE not in C.prog.funcs:
        rep.und("trace", "the tracer is analysed")
        return
    opaque = frozenset([f for f in C.prog.funcs if f.startswith("pymars.psr_solver._")] +
                       [TRACE + ".<locals>." + x for x in ("solve_fixed_tau", "correct")])
    r = C.run(TRACE, opaque, args={"stop_at_extinction": TRUE})
    f = C.prog.funcs[TRACE]
    at = (f.mod.path, f.node.lineno)

    def get(n, key):
        if n is not None and n.op == "coll":
            for e in n.a[1]:
                if e[0] == "kv" and e[1].op == "const" and cval(e[1]) == key:
                    return e[2]
        return None
    pts = get(r.retf, "points")
    P = {}
    for k, _ in WANT:
        x = get(pts, k)
        if x is not None and x.op == "tuple" and len(x.a) == 3:
            ls = [lists_of(y) for y in x.a]
            if all(ls):
                P[k] = ls
    what = "time, temperature and composition of a point belong to the same point of the curve"
    for k, _ in WANT:
        if k not in P:
            rep.und(f"trace.{k}.same", what, at)
            continue
        same = len({l[1] for l in P[k]}) == 1
        rep.put(verdict(same, r, *[l[1] for l in P[k]]), f"trace.{k}.same", what, at, "" if same else "different positions are combined")
    if len(P) < 3:
        rep.und("trace.points", "the three points are the documented ones", at)
        return
    memo = {}
    seqs = {tuple(norm(l[0], memo) for l in P[k]) for k in P}
    what = "residence time, temperature and composition are recorded together"
    if len(seqs) != 1:
        rep.und("trace.lists", what, at)
        return
    A, B, S = next(iter(seqs))
    leaves = []
    try:
        aligned(r, (A, B, S), leaves, set())
    except Und as ex:
        rep.und("trace.lists", what, at, str(ex))
        leaves = []
    n_sp = mk("attr", mk("param", "gas"), "n_species", None)
    for lv in leaves:
        st, why = recorded_point(lv, n_sp)
        rep.put(verdict(False, r, *lv) if st is False else st, "trace.lists", what, at, why)
    # ---- the fold
    what = "the extinction point is the smallest residence time reached"
    ie = norm(P["extinction"][0][1], memo)
    out = []
    joint(r, (A, B, ie), out, set())
    st, why, n = None, "", 0
    for a, b, i in out:
        if i is NONE or i.op == "mu":
            continue
        n += 1
        if i.op == "call" and i.a[0] in ("numpy.argmin", "numpy.argmax") and len(i.a[1]) == 1 and i.a[1][0] is a:
            ok = i.a[0] == "numpy.argmin"
        elif i.op in ("const", "bin", "un") or i.op == "call" and i.a[0] in ("numpy.argmin", "numpy.argmax") and i.a[1] and i.a[1][0] is b:
            ok = False
        else:
            ok = None
        st, why = (ok, "" if ok else str(i)[:100]) if st is None and n == 1 or st is True else (st, why)
    rep.put(verdict(False, r, ie) if st is False else st, "trace.extinction", what, at, why)
    # ---- the two other points
    A, ie = P["extinction"][0]
    near, mid = P["near_0.1s"][0][1], P["log_mid"][0][1]
    for key, ix, target in (("near_0.1s", near, const(0.1)),
                            ("log_mid", mid, mk("call", "numpy.sqrt", (mk("bin", "*", mk("item", A, ie), mk("item", A, near)),), (), 0))):
        what = f"point {key} is the nearest one on the burning branch"
        st, why = nearest(ix, A, ie, target)
        rep.put(verdict(False, r, ix) if st is False else st, f"trace.{key}", what, at, why)


def upto(n, A, ie):
    """Whether n is a part of the curve, and if so whether it is the part up to the fold."""
    if n is A:
        return False
    if n.op == "item" and n.a[0] is A and n.a[1].op in ("slice", "call", "tuple"):
        s = n.a[1]
        if s.op == "slice":
            lo, hi, step = (list(s.a) + [NONE, NONE])[:3]
            if lo is NONE or lo.op == "const" and cval(lo) in (0, None):
                if step is NONE or step.op == "const" and cval(step) in (1, None):
                    try:
                        return Alg().key(hi) == Alg().key(mk("bin", "+", ie, const(1)))
                    except (NotArith, ZeroDivisionError):
                        return None
            return False
    return None


def nearest(ix, A, ie, target):
    while ix.op == "call" and ix.a[0] in ARR and len(ix.a[1]) == 1:
        ix = ix.a[1][0]
    if ix.op != "call" or ix.a[0] not in ("numpy.argmin", "numpy.argmax") or len(ix.a[1]) != 1:
        return (False, str(ix)[:80]) if ix.op in ("const", "bin") else (None, "")
    body = ix.a[1][0]
    us = [m for m in deps(body) if upto(m, A, ie) is not None and not (m is A)]
    if not us:
        return (False, "the whole curve is searched") if A in deps(body) else (None, "")
    outer = [m for m in us if not any(x.op == "item" and x.a[0] is m for x in deps(body))]
    if len(outer) != 1:
        return None, ""
    u = outer[0]
    if upto(u, A, ie) is not True:
        return False, "another part of the curve is searched"
    if ix.a[0] != "numpy.argmin":
        return False, "the farthest point is taken"
    X = mk("param", "$u")
    try:
        al = Alg(lambda n: X if n is u else None)
        have = al.key(body)
        d = mk("bin", "-", X, target)
        good = [Alg().key(mk("call", "numpy.abs", (d,), (), 0)), Alg().key(mk("bin", "**", d, const(2)))]
        lg = mk("bin", "-", mk("call", "numpy.log", (X,), (), 0), mk("call", "numpy.log", (target,), (), 0))
        maybe = [Alg().key(mk("call", "numpy.abs", (lg,), (), 0)), Alg().key(mk("bin", "**", lg, const(2)))]
    except (NotArith, ZeroDivisionError):
        return None, ""
    if have in good:
        return True, ""
    if have in maybe:
        return None, "nearest in the logarithm"
    inner = within(body, {u, A, ie} | {m.a[1] for m in deps(body) if m.op == "item" and m.a[0] is A and m.a[1].op != "slice"})
    if any(m.op == "call" and m.a[0] not in ("numpy.abs", "numpy.sqrt", "numpy.log", "numpy.exp", "math.sqrt", "builtins.abs", "numpy.square",
                                             "math.log", "math.exp", "numpy.mean") or m.op not in ("bin", "un", "call", "const", "item") for m in inner):
        return None, ""
    return False, str(strip_for_show(body, A))[:150]


def strip_for_show(n, A):
    return subst(n, {A: mk("param", "times")})


def recorded_point(lv, n_sp):
    """One row of the lists: the time, temperature and composition come from the same solution."""
    a, b, s = lv
    s = s.a[0] if s.op == "meth" and s.a[1] == "copy" else s
    if s.op == "call" and s.a[0] in ARR and len(s.a[1]) == 1:
        s = s.a[1][0]
    if s.op == "attr" and s.a[1] in ("Y", "X") and s.a[0].op == "param":
        return False, "the composition is the one the mixture was left with, not the solution's"
    if s.op != "item":
        return None, ""
    base = s.a[0]
    try:
        al = Alg(lambda n: n_sp if strip_versions(n) is n_sp else None)
        K = al.key
        sl = s.a[1]
        if sl.op != "slice":
            return None, ""
        lo, hi = sl.a[0], sl.a[1]
        okS = (lo is NONE or lo.op == "const" and cval(lo) in (0, None)) and hi is not NONE and K(hi) == K(n_sp)
        T = mk("item", base, n_sp)
        t = mk("item", base, mk("bin", "+", n_sp, const(1)))

        def canon(n):
            if n.op == "item" and n.a[0] is base:
                for x, y in ((n_sp, T), (mk("bin", "+", n_sp, const(1)), t)):
                    if n.a[1].op not in ("slice",) and Alg(lambda z: n_sp if strip_versions(z) is n_sp else None).key(n.a[1]) == K(x):
                        return y
            return None
        al2 = Alg(canon)
        if not okS:
            return False, "the composition is another part of the solution"
        kt, kb = al2.key(a), al2.key(b)
        if kt == al2.key(mk("call", "numpy.exp", (t,), (), 0)):
            ok = kb == al2.key(mk("bin", "*", T, const(1000.0)))
            return ok, "" if ok else f"temperature {str(b)[-60:]}"
        # a solution at given residence time
        if base.op == "item" and base.a[0].op == "rcall":
            am = dict(base.a[0].a[1]) if base.a[0].a[1] and isinstance(base.a[0].a[1][0], tuple) else {}
            vals = list(am.values()) or [x for x in base.a[0].a[1] if isinstance(x, N)]
            if a in vals or any(same_key(a, v) for v in vals):
                ok = kb == al2.key(T)
                return ok, "" if ok else f"temperature {str(b)[-60:]}"
            if a.op == "param":
                return False, f"the solution was found for another residence time than {a}"
        if base in deps(a) and all(m.op in ("bin", "un", "const", "item", "call", "attr", "param") and (m.op != "call" or m.a[0] in (
                "numpy.exp", "numpy.log", "numpy.abs", "builtins.float")) for m in within(a, {base})):
            return False, "the residence time is not the exponential of its logarithm"
        return None, ""
    except (NotArith, ZeroDivisionError):
        return None, ""


def same_key(a, b):
    try:
        return Alg().key(a) == Alg().key(b)
    except (NotArith, ZeroDivisionError):
        return False


def residual(C, rep):
    """The equations: composition and energy balance of a stirred reactor."""
    if RES not in C.prog.funcs or TRACE not in C.prog.funcs:
        rep.und("trace.balance", "the balance equations are those of a stirred reactor")
        return
    f = C.prog.funcs[RES]
    at = (f.mod.path, f.node.lineno)
    names = [x.arg for x in f.node.args.args]
    need = {"gas", "Y", "T", "tau", "P", "Y_in", "h_in", "h_scale", "Wk"}
    if not need <= set(names):
        rep.und("trace.balance", "the balance equations are those of a stirred reactor", at)
        return
    r = C.run(RES, "full")
    p = {n: mk("param", n) for n in names}
    what = "the balance equations are those of a stirred reactor"
    rows = []
    alts = leaves_of(r.retf, World("x"))
    for v in alts:
        if v.op == "call" and v.a[0] in ("numpy.full",) or not any(m.op == "attr" and m.a[1] == "net_production_rates" for m in deps(v)) and \
                any(m.op == "call" and m.a[0] in ("numpy.full", "numpy.ones", "numpy.ones_like", "numpy.full_like") for m in deps(v)):
            continue        # stands for a state that cannot be evaluated (C24)
        rows.append(v)
    st = why = None
    if len(rows) == 1 and rows[0].op == "call" and rows[0].a[0] in ("numpy.concatenate", "numpy.hstack", "numpy.append"):
        es = entries_of(rows[0].a[1][0]) if rows[0].a[0] != "numpy.append" else list(rows[0].a[1])
        e1 = entries_of(es[1]) if es and len(es) == 2 else None
        if es and len(es) == 2:
            sp, en = es[0], e1[0] if e1 and len(e1) == 1 else es[1]
            vers = {}
            for m in deps(sp) | deps(en):
                if m.op == "attr" and m.a[0] is p["gas"]:
                    vers.setdefault(m.a[1], set()).add(m.a[2])
            G = lambda nm: mk("attr", p["gas"], nm, None)
            try:
                al = Alg(lambda n: strip_versions(n) if n.op == "attr" and n.a[2] is not None else None)
                B = lambda o, x, y: mk("bin", o, x, y)
                wsp = B("-", B("-", p["Y"], p["Y_in"]), B("/", B("*", B("*", p["tau"], G("net_production_rates")), p["Wk"]), G("density")))
                wen = B("/", B("-", G("enthalpy_mass"), p["h_in"]), p["h_scale"])
                neg = al.key(mk("un", "-", wsp))
                ok1 = al.key(sp) in (al.key(wsp), neg)
                ok2 = al.key(en) in (al.key(wen), al.key(mk("un", "-", wen)))
                st = ok1 and ok2
                why = "" if st else "species balance" if not ok1 else "energy balance"
            except (NotArith, ZeroDivisionError):
                st = None
            if st:
                # all quantities at the state that is being judged
                set_ = [e for e in r.events if e.kind in ("setattr", "meth") and strip_versions(e.node if e.kind == "setattr" else e.args[0]) is p["gas"]
                        and not (e.kind == "meth" and e.name in PURE)]
                fin = {v for s in vers.values() for v in s}
                ok = bool(set_) and len(fin) == 1 and None not in fin
                tp = [e for e in set_ if e.kind == "setattr"]
                y = [e for e in set_ if e.kind == "meth" and "mass_fractions" in e.name or e.kind == "setattr" and "Y" in e.name]
                if not ok:
                    st, why = False, "rates and density are not read at one state"
                elif not tp or not y:
                    st, why = None, ""
                else:
                    e = tp[-1]
                    v = e.args[0]
                    if e.name in ("TP", "TPY") and v.op == "tuple":
                        st = v.a[0] is p["T"] and v.a[1] is p["P"] and (e.name == "TP" or v.a[2] is p["Y"])
                        why = "" if st else f"{e.name} is set to {v}"
                    else:
                        st = None
                    if st and y[-1].kind == "meth":
                        st = y[-1].args[1] is p["Y"]
                        if st and y[-1].seq > e.seq:
                            st, why = False, "temperature and pressure are set before the composition"
    rep.put(verdict(False, r, r.retf) if st is False else st, "trace.balance", what, at, why or "")
    # ---- with what it is evaluated
    opaque = frozenset({RES, "pymars.psr_solver._core_jacobian"})
    r = C.run(TRACE, opaque, args={"stop_at_extinction": TRUE})
    g = mk("param", "gas")
    want = {"P": "P", "Y_in": "Y", "h_in": "enthalpy_mass", "Wk": "molecular_weights"}
    what = "the balances use the inlet state"
    evs = [e for e in r.events if e.kind == "rcall" and e.name == RES]
    res = {}
    for e in evs:
        am = argmap(e)
        for k, nm in want.items():
            v = am.get(k)
            if v is None:
                continue
            b = strip_versions(v)
            while b.op == "meth" and b.a[1] == "copy" or b.op == "call" and b.a[0] in ARR and len(b.a[1]) == 1:
                b = b.a[0] if b.op == "meth" else b.a[1][0]
            late = k != "Wk" and any(m.op == "attr" and m.a[0] is g and m.a[2] is not None for m in deps(v))
            if b.op == "attr" and b.a[0] is g:
                ok = b.a[1] == nm and not late
            else:
                ok = False if b.op == "call" and b.a[0] in ("numpy.full", "numpy.ones", "numpy.zeros", "numpy.mean", "numpy.full_like") else None
            res.setdefault(k, []).append((ok, e, "read after the mixture was changed" if late else str(b)[:60]))
    for k in want:
        xs = res.get(k)
        if not xs:
            rep.und(f"trace.inlet.{k}", what, at)
            continue
        bad = [x for x in xs if x[0] is False]
        u = [x for x in xs if x[0] is None]
        x = (bad or u or xs)[0]
        rep.put(x[0], f"trace.inlet.{k}", what, x[1].loc, x[2] if x[0] is not True else f"{len(xs)} evaluations")
    # state vector positions
    what = "composition, temperature and residence time come from the same unknown"
    n_sp = mk("attr", g, "n_species", None)
    bad = und = None
    n = 0
    for e in evs:
        am = argmap(e)
        if not {"Y", "T", "tau"} <= set(am):
            continue
        n += 1
        st, why = recorded_point((am["tau"], am["T"], am["Y"]), n_sp)
        if st is None and am["tau"].op == "param" and am["Y"].op == "item":
            base = am["Y"].a[0]
            try:
                al = Alg()
                st = (am["T"].op == "item" and am["T"].a[0] is base and al.key(am["T"].a[1]) == al.key(n_sp)
                      and am["Y"].a[1].op == "slice" and am["Y"].a[1].a[0] is NONE and al.key(am["Y"].a[1].a[1]) == al.key(n_sp))
            except (NotArith, ZeroDivisionError):
                st = None
        if st is False:
            bad = (e, why)
        elif st is None:
            und = (e, why)
    x = bad or und
    rep.put(False if bad else None if und or not n else True, "trace.unknown", what, x[0].loc if x else at, x[1] if x else f"{n} evaluations")


# ---------------------------------------------------------------- flames
class Fast(World):
    """Speed above the floor."""

    def cls(self, c):
        if c.op in ("lt", "le"):
            a, b = c.a
            f = SELF(self.cid, "min_flame_speed")
            if a is f and self.velocity(b):
                return True
            if b is f and self.velocity(a):
                return False
        return super().cls(c)


def flame(C, rep):
    cid = CLS["flame"]
    for name in ("run_case", "calculate", "process_results"):
        f = method(C, cid, name)
        what = "the metric is the flame speed at the inlet"
        if f is None:
            rep.und(f"flame.{name}.metric", what)
            continue
        m = Method(C, cid, name)
        w = Fast(cid, init=m.init, loops=m.r.loops)
        ls = leaves_of(m.r.retf, w)
        if name == "process_results":
            ls = [y for x in ls for y in (leaves_of(x.a[0], w) if x.op == "tuple" and len(x.a) == 2 else [x])]
        solve = [e for e, _ in solver_calls(m.r)]
        st, why = None, ""
        for v in ls:
            if v.op == "item" and v.a[0].op == "attr" and v.a[0].a[1] in ("velocity", "u") and v.a[1].op in ("const", "un"):
                ok = v.a[1].op == "const" and cval(v.a[1]) == 0
                if ok and not solve:
                    ok = None
                elif ok and v.a[0].a[2] is None:
                    ok, why = False, "read before the flame is solved"
            elif v is NONE or v.op in ("const", "bin", "un", "attr", "call"):
                ok = False
            else:
                ok = None
            if ok is False:
                why = why or f"returns {str(v)[-100:]}"
            st = ok if st is None and v is ls[0] or st is True else False if ok is False else st
        rep.put(verdict(False, m.r, m.r.retf) if st is False else st, f"flame.{name}.metric", what, m.at, why)
        # no exception above the floor
        bad = None
        for s, node, typ in m.r.raises:
            outs = tri_free(AND(*q.pcguards(s.pc)), w.cls, w.free)
            if outs == {True}:
                bad = typ
        rep.put(verdict(False, m.r, m.r.retf) if bad else True, f"flame.{name}.above", "a speed above the minimum is accepted", m.at, bad or "")
        for s in ("below", "at"):
            w = World(cid, speed=s, init=m.init, loops=m.r.loops)
            what = f"a speed {s} the minimum counts as no flame"
            if name == "calculate":
                st, why = m.zero(w, None, None)
            else:
                st, why = m.strict(w, None, None), "the method returns"
            rep.put(verdict(False, m.r, m.r.retf) if st is False else st, f"flame.{name}.{s}", what, m.at, "" if st else why)
    # ---- the floor
    f = method(C, cid, "__init__")
    what = "the minimum flame speed is the user's if given, 0.05 m/s otherwise"
    import ast
    cl = C.prog.classes.get(cid)
    val = None
    for s in cl.node.body if cl is not None else []:
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if any(isinstance(t, ast.Name) and t.id == "min_flame_speed" for t in ts) and isinstance(s.value, ast.Constant):
                val = s.value.value
    if f is None:
        rep.und("flame.floor", what)
        return
    r = C.run(f, "trace", self_cls=cid)
    fn = C.prog.funcs[f]
    at = (fn.mod.path, fn.node.lineno)
    P = mk("param", "min_flame_speed")
    given = lambda c: (False if c.op in ("is", "eq") and set(c.a) == {NONE, P} else None)
    absent = lambda c: (True if c.op in ("is", "eq") and set(c.a) == {NONE, P} else False if c.op == "truth" and c.a[0] is P else None)
    evs = [e for e in r.events if e.kind == "setfield" and e.name == "min_flame_speed"]

    def final(cls):
        v, known = (const(val) if val is not None else None), True
        for e in evs:
            t = tri(AND(*q.pcguards(e.pc)), cls)
            x = e.args[0]
            while x.op == "phi":
                g = tri(x.a[0], cls)
                if g is None:
                    return None
                x = x.a[1] if g else x.a[2]
            if t is True:
                v = x
            elif t is None:
                return "cond" if any(c.op == "truth" and c.a[0] is P or c.op in ("lt", "le") for c in undetermined(AND(*q.pcguards(e.pc)), cls, [])) else None
        return v
    a, b = final(given), final(absent)
    st = verdict(False, r) if a == "cond" else None if a is None else a is P or (
        verdict(False, r, a) if a.op in ("const", "bin") or a.op == "call" and a.a[0] in ("builtins.max", "builtins.min") else None)
    rep.put(st, "flame.floor.given", what, at, "" if st else "a given value is not always used" if a == "cond" else str(a)[:80])
    st = None if b is None or b == "cond" else b.op == "const" and cval(b) == FLOOR
    if st is False and b.op not in ("const", "bin"):
        st = None
    rep.put(st, "flame.floor.default", what, at, "" if st else str(b)[:80])


def check(C, rep):
    rep.section("psr", psr_metrics)
    rep.section("fresh", fresh)
    rep.section("trace", tracer)
    rep.section("balance", residual)
    rep.section("flame", flame)
