"""Converged points of the reactor curve: every value the tracer keeps (seeds and continuation points) is traced back to
the solver call it comes from; in each abstract outcome of the solvers (reported success, small residual, fallback
converged) the condition of keeping it must be false or the value must come from a solver that converged. The fallback's
own results, the values standing for states that cannot be evaluated and the exits without a turning point are decided
from their return values in the same way."""
import itertools
from .c22 import *

ASSUMES = ["scipy.optimize.root reports its residual in `fun`", "the residual of a solution is judged by its 2-norm or largest entry"]
NEW = "pymars.psr_solver._damped_newton"
JAC = "pymars.psr_solver._core_jacobian"
ROOT = ("scipy.optimize.root", "scipy.optimize.fsolve")
TOL = 1e-6      # largest residual that counts as solved


def solver_of(n):
    """(solver call, part) if n is the solution or the verdict of a solver call."""
    if n.op == "attr" and n.a[0].op == "call" and n.a[0].a[0] in ROOT:
        return n.a[0], n.a[1]
    if n.op == "item" and n.a[0].op == "rcall" and n.a[0].a[0] == NEW and is_const(n.a[1]):
        return n.a[0], cval(n.a[1])
    return None


def used(v):
    """Solver calls whose solution is part of v, not those that only gave a first guess."""
    out, seen, todo = set(), set(), [v]
    while todo:
        n = todo.pop()
        if n in seen or n.op in ("mu", "out"):
            continue
        seen.add(n)
        s = solver_of(n)
        if s is not None:
            if s[1] in ("x", 0):
                out.add(s[0])
            continue
        if n.op == "call" and n.a[0] in ROOT or n.op == "rcall" and n.a[0] == NEW:
            continue
        todo += children(n)
    return out


def size(x, whole):
    """x is the norm of a residual for which whole() holds: True, False (of a part of it), None."""
    if x.op == "call" and x.a[0] in ("numpy.linalg.norm", "numpy.max", "numpy.amax", "builtins.max") and x.a[1]:
        b = x.a[1][0]
    elif x.op == "meth" and x.a[1] == "max":
        b = x.a[0]
    else:
        return None
    while b.op == "call" and b.a[0] in ("numpy.abs", "numpy.absolute", "numpy.asarray", "numpy.array", "builtins.abs") and b.a[1]:
        b = b.a[1][0]
    if whole(b):
        return True
    return False if b.op == "item" and whole(b.a[0]) else None


def small(c, whole):
    """("ok"/"no", tolerance, norm of everything) for a comparison of the norm of a residual with a tolerance."""
    if c.op not in ("lt", "le"):
        return None
    for x, t, k in ((c.a[0], c.a[1], "ok"), (c.a[1], c.a[0], "no")):
        s = size(x, whole)
        if s is not None:
            return k, t, s
    return None


class Outcome:
    """One abstract outcome of the solvers: {(call, 'success'|'norm'|'flag'): bool}."""

    def __init__(self, val):
        self.val = val

    def cls(self, c):
        if c.op == "truth":
            s = solver_of(c.a[0])
            if s is not None:
                return self.val.get((s[0], "success" if s[1] == "success" else "flag" if s[1] == 1 else s[1]))
        for (s, k), v in self.val.items():
            if k == "norm":
                x = small(c, lambda b: solver_of(b) == (s, "fun"))
                if x is not None:
                    return v if x[0] == "ok" else not v
        return None

    def converged(self, s):
        return bool(self.val.get((s, "norm" if s.op == "call" else "flag")))


def verdicts(c):
    """Solver calls whose verdict or residual c is about, not those that only gave a first guess to one."""
    out, seen, todo = set(), set(), [c]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        s = solver_of(n)
        if s is not None:
            if s[1] not in ("x", 0):
                out.add(s[0])
        elif not (n.op == "call" and n.a[0] in ROOT or n.op == "rcall" and n.a[0] == NEW):
            todo += children(n)
    return out


def free(c):
    return not any(m.op == "unk" for m in deps(c)) and not verdicts(c)


def leaves(v, cls):
    """Values v can have."""
    todo, out, seen = [v], [], set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        ph = inner_phi(n)
        if ph is None:
            out.append(n)
            continue
        ts = tri_free(ph.a[0], cls, free)
        if None in ts:
            raise Und(f"condition {show24(ph.a[0])}")
        if True in ts:
            todo.append(subst(n, {ph: ph.a[1]}))
        if False in ts:
            todo.append(subst(n, {ph: ph.a[2]}))
        if len(seen) > 200:
            raise Und("too many alternatives")
    return out


def inner_phi(n):
    """A choice between solver results inside n, outside the solvers' arguments."""
    seen, todo = set(), [n]
    while todo:
        m = todo.pop()
        if m in seen or m.op in ("mu", "out") or solver_of(m) is not None or m.op == "call" and m.a[0] in ROOT or m.op == "rcall" and m.a[0] == NEW:
            continue
        seen.add(m)
        if m.op == "phi" and used(m):
            return m
        todo += children(m)
    return None


def show24(n):
    return str(strip_versions(n))[-120:]


def kept(L):
    """[(condition, value)] the loop adds to its lists in one iteration."""
    out = []

    def ents(es, g):
        for e in es:
            if e[0] == "item":
                out.append((g, e[1]))
            elif e[0] == "if":
                ents(e[-1], AND(g, e[1]))

    def walk(n, g):
        if n.op == "phi":
            walk(n.a[1], AND(g, n.a[0]))
            walk(n.a[2], AND(g, NOT(n.a[0])))
        elif n.op == "coll":
            ents(n.a[1], g)
        elif n.op != "mu":
            out.append((g, n))
    for k, n in L["next"].items():
        if isinstance(n, N):
            walk(n, TRUE)
    return [(g, v) for g, v in out if used(v)]


def judged(pairs, given=TRUE):
    """(decision, reason): nothing is kept that no solver accepted."""
    if not pairs:
        return None, "no solutions are kept"
    n = 0
    for g, v in pairs:
        g = AND(given, g)
        mine = used(v)
        atoms = []
        for s in sorted(mine, key=str):
            atoms += [(s, "success"), (s, "norm")] if s.op == "call" else [(s, "flag")]
        if len(atoms) > 9:
            return None, "too many solvers"
        for vals in itertools.product((True, False), repeat=len(atoms)):
            o = Outcome(dict(zip(atoms, vals)))
            os = tri_free(g, o.cls, lambda c: free(c) or not verdicts(c) & mine)
            if os == {False}:
                continue
            try:
                vs = leaves(v, o.cls)
            except Und as x:
                return None, str(x)
            for x in vs:
                for s in used(x):
                    if not o.converged(s):
                        if True not in os:
                            return None, "a condition was not decided"
                        which = "the solver" if s.op == "call" else "the fallback"
                        return False, f"a point is kept although {which} did not converge: {show24(x)}"
            n += 1
    return True, f"{len(pairs)} values"


def tolerances(r, nodes):
    """Every residual test of a solution in nodes: (decision, reason)."""
    tests = {}
    for c in nodes:
        if c.op in ("lt", "le"):
            x = small(c, lambda b: solver_of(b) is not None and solver_of(b)[1] == "fun")
            if x is not None:
                tests[c] = x
    for c, (k, t, whole) in tests.items():
        if whole is False:
            return False, "only a part of the residual is tested", len(tests)
        if not is_const(t):
            return None, f"tolerance {show24(t)}", len(tests)
        if cval(t) > TOL:
            return False, f"a residual of {cval(t):g} counts as solved", len(tests)
    return (True, "", len(tests)) if tests else (None, "no test of the residual was found", 0)


def points(C, rep):
    if TRACE not in C.prog.funcs:
        raise AnalysisError(f"anchor {TRACE} not found")
    f = C.prog.funcs[TRACE]
    at = (f.mod.path, f.node.lineno)
    r = C.run(TRACE, frozenset({RES, JAC, NEW}), args={"stop_at_extinction": TRUE})
    loops = [(l, L) for l, L in r.loops.items() if kept(L)]
    what = "a point is kept only if its solver converged"
    if len(loops) != 1:
        rep.und("points.march", what, at, f"{len(loops)} continuation loops")
        return
    lid, L = loops[0]
    st, why = judged(kept(L))
    rep.put(verdict(False, r, *[v for _, v in kept(L)]) if st is False else st, "points.march", what, L["loc"], why)
    # the seeds
    seeds = []
    for k, n in L["init"].items():
        if isinstance(n, N) and used(n):
            if n.op == "coll":
                seeds += [(TRUE, e[1]) for e in n.a[1] if e[0] == "item" and used(e[1])]
            else:
                seeds.append((TRUE, n))
    st, why = judged(seeds, AND(*q.pcguards(L["entry"].pc)))
    rep.put(verdict(False, r, *[v for _, v in seeds]) if st is False else st, "points.seeds",
            "the curve starts from converged solutions only", L["loc"], why)
    nodes = {m for g, v in kept(L) + seeds for m in deps(g) | deps(v)} | {m for g in q.pcguards(L["entry"].pc) for m in deps(g)}
    st, why, n = tolerances(r, nodes)
    rep.put(verdict(False, r, r.retf) if st is False else st, "points.tolerance", "a point counts as solved when its residual is below a small tolerance",
            at, why or f"{n} tests")
    # the fallback solves the same equations from the same guess
    what = "the fallback solves the equations the solver was given"
    sols = [e for e in r.events if e.kind == "call" and e.name in ROOT]
    fall = [e for e in r.events if e.kind == "rcall" and e.name == NEW]
    for i, e in enumerate(fall):
        b = [s for s in sols if s.seq < e.seq]
        a = argmap(e).get("residual", e.args[0] if e.args else None)
        if not b or a is None or not b[-1].args:
            rep.und("points.fallback", what, e.loc)
            continue
        ok = a is b[-1].args[0]
        rep.put(True if ok else verdict(False, r, a) if a.op == "closure" and b[-1].args[0].op == "closure" else None, "points.fallback", what, e.loc,
                "" if ok else "another residual")
    turning(C, rep, r, lid, L, at)
    seed_times(C, rep, at)


def turning(C, rep, r, lid, L, at):
    """A point of extinction exists only where the curve turned; a curve that does not turn is an error."""
    what = "the points are reported only if the curve turned"
    pts = None
    if r.retf.op == "coll":
        pts = next((e[2] for e in r.retf.a[1] if e[0] == "kv" and is_const(e[1]) and cval(e[1]) == "points"), None)
    x = next((e[2] for e in pts.a[1] if e[0] == "kv" and is_const(e[1]) and cval(e[1]) == "extinction"), None) if pts is not None and pts.op == "coll" else None
    i = lists_of(x.a[0]) if x is not None and x.op == "tuple" and x.a else None
    if i is None:
        rep.und("turn", what, at)
        return
    i = i[1]
    n0 = len(L["entry"].pc)
    nodes = {m for b in L["breaks"] for g in q.pcguards(b.pc[n0:]) for m in deps(g)}
    def product(c):
        return c.op == "lt" and is_const(c.a[1]) and cval(c.a[1]) == 0 and c.a[0].op == "bin" and c.a[0].a[0] == "*" and any(
            x.op in ("mu", "out") and x.a[0] is lid for x in c.a[0].a[1:]) and any(m.op == "call" and m.a[0] == "numpy.sign" for m in deps(c.a[0]))
    signs = {c for c in nodes if product(c)} | {c for c in nodes if c.op == "eq" and any(x.op == "mu" and x.a[0] is lid for x in c.a)
             and any(m.op == "call" and m.a[0] == "numpy.sign" for x in c.a for m in deps(x))}
    if not signs:
        rep.und("turn", what, at, "the test of the direction was not recognised")
        return

    def cls(c):
        # the direction never changed: in the loop, and in conditions on the loop as a whole
        if product(c):
            return False
        if c in signs:
            return True
        if c.op == "eq" and any(m.op == "call" and m.a[0] == "numpy.sign" for x in c.a for m in deps(x)) and any(
                x.op in ("mu", "out") and x.a[0] is lid for x in c.a):
            return True
        if c.op == "exists" and c.a[0] is L["it"]:
            return tri(c.a[-1], cls) if isinstance(c.a[-1], N) else None
        return None
    bad, und, n = None, None, 0
    todo, seen = [i], set()
    while todo:
        m = todo.pop()
        if m in seen:
            continue
        seen.add(m)
        while m.op == "call" and m.a[0] in ("builtins.int",) and len(m.a[1]) == 1:
            m = m.a[1][0]
        if m.op == "phi":
            t = tri(m.a[0], cls)
            if t is not False:
                todo.append(m.a[1])
            if t is not True:
                todo.append(m.a[2])
            continue
        if m.op == "first":
            os = tri_free(m.a[2], cls, lambda c: not any(y.op == "unk" for y in deps(c)))
            n += 1
            if os == {False}:
                continue
            todo.append(m.a[3])
            continue
        if m is NONE or m.op == "mu" and m.a[0] is lid and isinstance(L["init"].get(m.a[1]), N) and L["init"][m.a[1]] is NONE or m.op == "undef":
            continue
        if m.op == "out" and m.a[0] is lid and L["init"].get(m.a[1]) is NONE:
            nx = L["next"].get(m.a[1])
            if nx is not None and nx.op != "mu":
                todo.append(nx)
            continue
        if m.op == "call" and m.a[0] in ("numpy.argmin", "numpy.argmax", "builtins.len") or m.op in ("const", "bin"):
            bad = m
        else:
            und = m
    rep.put(verdict(False, r, i) if bad is not None else None if und is not None or not n else True, "turn", what, L["loc"],
            f"a curve that never turned gets the point {show24(bad)}" if bad is not None else show24(und) if und is not None else "")
    # without a turning point the tracer raises
    what = "a curve that does not turn is an error"
    last = [s for s, node, typ in r.raises if not any(p[0] == "loop" for p in s.pc) and
            any(any(m.op in ("out", "first", "exists") for m in deps(g)) for g in q.pcguards(s.pc))]
    none = [s for s in last if any(c.op in ("is", "eq") and NONE in c.a or c.op in ("truth", "exists") or c.op in ("lt", "le", "eq") for g in q.pcguards(s.pc) for c in deps(g))]
    rep.put(True if none else verdict(False, r, r.retf), "turn.error", what, at, "" if none else "nothing is raised after the march")


def seed_times(C, rep, at):
    """The residence time recorded with a seed is the one its equations were solved at."""
    what = "a seed is recorded with the residence time it was solved at"
    r = C.run(TRACE, frozenset({RES, JAC}), args={"stop_at_extinction": TRUE})
    sols = [e for e in r.events if e.kind == "call" and e.name in ROOT]
    evs = [e for e in r.events if e.kind == "rcall" and e.name == RES and "tau" in argmap(e)]
    taus = None
    for l, L in r.loops.items():
        lists = [n for n in L["init"].values() if isinstance(n, N) and n.op == "coll" and n.a[1] and all(e[0] == "item" for e in n.a[1])]
        cand = [n for n in lists if all(e[1].op == "param" or is_const(e[1]) for e in n.a[1])]
        if len(cand) == 1 and len(lists) >= 3:
            taus = [e[1] for e in cand[0].a[1]]
    if taus is None or len(sols) < len(taus):
        rep.und("seeds.time", what, at)
        return
    whole(C, rep, r, at)
    for i, t in enumerate(taus):
        lo, hi = sols[i].seq, sols[i + 1].seq if i + 1 < len(sols) else None
        mine = [argmap(e)["tau"] for e in evs if lo < e.seq and (hi is None or e.seq < hi)]
        if not mine:
            rep.und(f"seeds.time.{i}", what, sols[i].loc)
            continue
        bad = [x for x in mine if x is not t]
        simple = all(x.op == "param" or is_const(x) for x in bad)
        rep.put(True if not bad else verdict(False, r, *bad) if simple else None, f"seeds.time.{i}", what, sols[i].loc,
                "" if not bad else f"solved at {show24(bad[0])}, recorded with {show24(t)}")


def whole(C, rep, r, at):
    """No balance is left out of the residual that is judged."""
    nodes = set()
    for L in r.loops.values():
        for n in [*L["next"].values(), *(g for b in L["breaks"] for g in q.pcguards(b.pc))]:
            if isinstance(n, N):
                nodes |= deps(n)
    n, part = 0, None
    for m in nodes:
        if m.op == "call" and m.a[0] == "numpy.linalg.norm" and m.a[1]:
            x = m.a[1][0]
            bal = [y for y in deps(x) if y.op == "rcall" and y.a[0] == RES]
            if not bal:
                continue
            n += 1
            parts = [y for y in deps(x) if y.op == "item" and y.a[0] in bal and not (y.a[1].op == "slice" and all(z is NONE for z in y.a[1].a))]
            if parts and not any(y in children(z) for y in bal for z in deps(x) if z not in parts):
                part = parts[0]
    rep.put(verdict(False, r, part) if part is not None else True if n else None, "points.equations", "every balance is part of the residual that is judged",
            at, f"only {show24(part)}" if part is not None else f"{n} residuals")


def fallback(C, rep):
    """The fallback reports success only for a state whose residual is small."""
    what = "the fallback reports success only when the residual of its result is small"
    if NEW not in C.prog.funcs:
        rep.und("fallback", what)
        return
    f = C.prog.funcs[NEW]
    at = (f.mod.path, f.node.lineno)
    r = C.run(NEW, "full", args=defaults(C, NEW) or None)
    fn = mk("param", f.node.args.args[0].arg)
    seen, found = set(), []

    def walk(n, g, inside):
        if (n, g) in seen:
            return
        seen.add((n, g))
        if n.op == "phi":
            walk(n.a[1], AND(g, n.a[0]), inside)
            walk(n.a[2], AND(g, NOT(n.a[0])), inside)
        elif n.op == "first":
            walk(n.a[3], n.a[2], n.a[4])
        else:
            found.append((n, g))
    walk(r.retf, TRUE, None)

    def key(n):
        """A state, whether named inside or after the loop."""
        return (n.a[0], n.a[1]) if n.op in ("mu", "out") else n

    def same(b, u):
        """b is the residual at u."""
        return calls_at(b, fn) is not None and key(calls_at(b, fn)) == key(u)
    st, why, n = True, "", 0
    for v, g in found:
        if v.op != "tuple" or len(v.a) != 2:
            if v.op not in ("undef", "const"):
                st, why = (None, "") if st is True else (st, why)
            continue
        u, flag = v.a
        n += 1
        c = flag if flag.op != "const" else g
        if flag.op == "const" and not cval(flag):
            continue
        tests = []
        for m in {c} | deps(c):
            x = small(m, lambda b: same(b, u))
            if x is not None and fn not in deps(x[1]):
                tests.append((m, x))
        if not tests:
            if any(m.op == "unk" for m in deps(c)):
                st = None if st is True else st
            else:
                st, why = False, f"success is reported without a test of the residual: {show24(v)}"
            continue
        # without the test there is no success
        def cls(y):
            for m, x in tests:
                if y is m:
                    return x[0] != "ok"
            return None
        os = tri_free(truth(c) if flag.op != "const" and c.op not in ("lt", "le", "and", "or", "not") else c, cls,
                      lambda y: not any(z.op == "unk" for z in deps(y)))
        if True in os:
            st, why = False, f"success is reported with a large residual: {show24(v)}"
        elif None in os and st is True:
            st, why = None, ""
        for m, x in tests:
            t = linear(x[1])
            t = None if t is None or set(t) - {1} else t.get(1, 0)
            if x[2] is False:
                st, why = False, "only a part of the residual is tested"
            elif t is None:
                st, why = (None, f"tolerance {show24(x[1])}") if st is True else (st, why)
            elif t > TOL:
                st, why = False, f"a residual of {float(t):g} counts as solved"
    rep.put(verdict(False, r, r.retf) if st is False else st if n else None, "fallback", what, at, why or f"{n} results")


def calls_at(b, fn):
    """Argument of a call of the function fn."""
    if b.op in ("pcall", "dcall", "vcall", "icall", "call", "rcall") and b.a:
        if b.a[0] is fn and len(b.a) > 1:
            x = b.a[1]
            return x[0] if isinstance(x, tuple) and x and isinstance(x[0], N) else None
    return None


def penalties(C, rep):
    """A state for which the balances cannot be evaluated has a large residual."""
    what = "a state that cannot be evaluated never counts as a solution"
    if RES not in C.prog.funcs:
        rep.und("penalty", what)
        return
    f = C.prog.funcs[RES]
    at = (f.mod.path, f.node.lineno)
    r = C.run(RES, "full")
    st, why, n = True, "", 0
    for v in leaves_of(r.retf, World("x")):
        if "net_production_rates" in {m.a[1] for m in deps(v) if m.op == "attr"}:
            continue
        n += 1
        if v.op == "call" and v.a[0] in ("numpy.full", "numpy.ones", "numpy.zeros", "numpy.zeros_like", "numpy.ones_like", "numpy.full_like"):
            c = v.a[1][1] if v.a[0].startswith("numpy.full") and len(v.a[1]) > 1 else const(1.0 if "ones" in v.a[0] else 0.0)
        elif v.op == "bin" and v.a[0] == "*" and any(is_const(x) for x in v.a[1:]) and any(
                x.op == "call" and x.a[0] in ("numpy.ones", "numpy.ones_like") for x in v.a[1:]):
            c = next(x for x in v.a[1:] if is_const(x))
        else:
            st, why = (None, show24(v)) if st is True else (st, why)
            continue
        if c.op == "un" and c.a[0] == "-":
            c = c.a[1]
        if c.op == "ext" and c.a[0] in ("numpy.inf", "numpy.nan", "math.inf"):
            continue
        if not is_const(c) or not isinstance(cval(c), (int, float)):
            st, why = (None, show24(c)) if st is True else (st, why)
        elif not abs(cval(c)) > 1000 * TOL:
            st, why = False, f"such a state has the residual {cval(c):g}"
    rep.put(verdict(False, r, r.retf) if st is False else st if n else None, "penalty", what, at, why or f"{n} cases")


def check(C, rep):
    rep.section("points", points)
    rep.section("fallback", fallback)
    rep.section("penalty", penalties)
