"""Exception-flow analysis of the simulation methods: every call of a solver is traced to the handler that catches its
error, and in each way a simulation can fail (solver error at that call, temperature criterion never met, allowed steps
used up, speed at or below the floor, no curve) the conditions of all returns and raises are decided.  The methods used
for the starting model must then raise and those used for candidates must return zero.  Which methods these are follows
from the value flow of sample and sample_metrics; callers may not catch the error, and metrics of the starting model
that were computed leniently must be checked for zero."""
from ..interp import exc_matches
from ..ir import children
from .c04 import *

ASSUMES = ["Cantera reports solver failures as CanteraError; the stirred-reactor solver raises RuntimeError itself",
           "a simulation that reports neither an error nor a missing event has succeeded"]
SOLVE = {"step", "advance", "advance_to_steady_state", "solve", "equilibrate"}
HOT = "T"
EVALUATE = SA + "evaluate_species_errors"


def solver_calls(r):
    out = []
    for e in r.events:
        if e.kind == "meth" and e.name in SOLVE:
            out.append((e, ("CanteraError",)))
        elif e.kind == "rcall" and isinstance(e.name, str) and e.name.startswith("pymars.psr_solver."):
            out.append((e, ("CanteraError", "RuntimeError")))
    return out


def excs(r):
    """Handler markers (tid, index) -> node."""
    out = {}
    roots = [r.retf] + [p[1] for e in r.events for p in e.pc if p[0] == "g"]
    roots += [a for e in r.events for a in e.args if isinstance(a, N)]
    for n in roots:
        for m in deps(n):
            if m.op == "exc":
                out.setdefault((m.a[0], m.a[1]), m)
    return out


def catcher(r, e, typ, table):
    """Handler marker of the handler that catches an error of type typ raised by event e, None if it escapes, "?" if unknown."""
    for p in reversed(e.pc):
        if p[0] != "try":
            continue
        hs = sorted((i, m) for (t, i), m in table.items() if t is p[1] and i >= 0)
        for i, m in hs:
            if any(exc_matches(typ, t) for t in m.a[2]):
                return m
        if any(exc_matches(typ, t) for t in p[2]):
            return "?"
        if "?" in p[2]:
            return "?"
    return None


class World:
    """One way a simulation can end."""

    def __init__(self, cid, exc=None, hot=None, exhausted=False, speed=None, init=None, loops=None):
        self.cid, self.exc, self.hot, self.exhausted, self.speed = cid, exc, hot, exhausted, speed
        self.loops, self.open = loops or {}, set()
        self.init = init or {}

    def cls(self, c):
        if c.op == "exc":
            return c is self.exc
        if c.op == "exists":
            if self.exhausted and self.steps(c.a[0]):
                return False
            return False if tri(c.a[2], self.cls) is False else None
        if c.op == "truth":
            if self.exhausted and c.a[0] is SELF(self.cid, "time_end"):
                return False
            v = self.value(c.a[0])
            if v is not None and v.op == "const":
                return bool(cval(v))
            if v is not None and v is not c.a[0] and v.op in ("exists", "not", "and", "or", "lt", "le", "eq", "truth"):
                return tri(v, self.cls)
            return None
        if c.op in ("is", "eq") and NONE in c.a:
            o = [x for x in c.a if x is not NONE]
            v = self.value(o[0]) if o else NONE
            if v is NONE:
                return True
            if v is not None and v.op in ("rcall", "bin", "item", "call", "const", "coll", "tuple"):
                return False
            return None
        if c.op in ("lt", "le"):
            a, b = c.a
            if self.hot is False:
                if self.temp(b) and not self.temp(a):
                    return False
                if self.temp(a) and not self.temp(b):
                    return True
            if self.speed is not None:
                f = SELF(self.cid, "min_flame_speed")
                if a is f and self.velocity(b):
                    return {"below": False, "at": c.op == "le"}[self.speed]
                if b is f and self.velocity(a):
                    return {"below": True, "at": c.op == "le"}[self.speed]
        return None

    def steps(self, it):
        return it.op == "call" and it.a[0] == "builtins.range" and SELF(self.cid, "max_steps") in deps(it)

    @staticmethod
    def temp(n):
        while n.op == "bin" and n.a[0] in ("+", "-"):
            n = n.a[1]
        return n.op == "attr" and n.a[1] == HOT

    @staticmethod
    def velocity(n):
        return n.op == "item" and n.a[0].op == "attr" and n.a[0].a[1] in ("velocity", "u")

    @classmethod
    def magnitude(cls, n):
        return n.op == "call" and n.a[0] in ("builtins.abs", "numpy.abs", "numpy.absolute", "numpy.fabs", "math.fabs") \
            and any(cls.velocity(m) for m in deps(n))

    def values(self, n, fixed=None):
        """Values n can have in this world (None: not determined)."""
        if len(fixed or ()) > 6:
            return [None]
        fixed = fixed or {}
        mine = self.cls
        self.cls = lambda c: fixed[c] if c in fixed else mine(c)
        try:
            v = self.value(n)
            if v is not None:
                return [v]
            while n.op == "phi" and tri(n.a[0], self.cls) is not None:
                n = n.a[1] if tri(n.a[0], self.cls) else n.a[2]
            us = [x for x in undetermined(n.a[0], self.cls, []) if self.free(x)] if n.op == "phi" else []
        finally:
            self.cls = mine
        if not us:
            return [None]
        return [x for t in (True, False) for x in self.values(n, {**fixed, us[0]: t})]

    def reach(self, c):
        """Nodes c depends on, also through the values loops carry on; not the versions of objects."""
        seen, todo = set(), [c]
        while todo:
            m = todo.pop()
            if m in seen:
                continue
            seen.add(m)
            if m.op == "attr":
                todo.append(m.a[0])
                continue
            if m.op in ("mu", "out") and m.a[0] in self.loops:
                L = self.loops[m.a[0]]
                todo += [x for x in (L["init"].get(m.a[1]), L["next"].get(m.a[1])) if isinstance(x, N)]
                continue
            todo += children(m)
        return seen

    def free(self, c):
        """Whether c, undetermined in this world, can be either way in it."""
        ds = self.reach(c)
        if any(m.op in ("unk", "exc") for m in ds):
            return False
        if self.hot is not None:
            return not any(self.temp(m) for m in ds)
        if self.speed is not None:
            if self.speed == "below" and c.op in ("lt", "le"):
                # anywhere below the floor: far below zero or just short of it
                for a, b in (c.a, c.a[::-1]):
                    if (b is SELF(self.cid, "min_flame_speed") and self.magnitude(a)
                            or is_const(b) and (self.velocity(a) or self.magnitude(a))):
                        return True
            return not any(self.velocity(m) for m in ds)
        if self.exhausted:
            return any(m.op == "attr" and m.a[1] == HOT for m in ds) or not any(m.op in ("mu", "out", "first", "last", "exists") for m in ds)
        return True

    def value(self, n):
        """n in this world as far as it is determined."""
        for _ in range(200):
            if n.op == "phi":
                t = tri(n.a[0], self.cls)
                if t is None:
                    a, b = self.value(n.a[1]), self.value(n.a[2])
                    return a if a is not None and a is b else None
                n = n.a[1] if t else n.a[2]
            elif n.op == "out":
                if n.a[0] not in self.loops:
                    return None
                n = mk("mu", n.a[0], n.a[1])
            elif n.op == "maybe":
                a, b = self.value(n.a[1]), self.value(n.a[2])
                return a if a is b else None
            elif n.op in ("first", "last"):
                v = n.a[3] if n.op == "first" else n.a[2]
                if not (deps(v) & {n.a[1]}) or v.op in ("mu", "phi"):
                    n = v
                else:
                    return None
            elif n.op == "mu":
                L = self.loops.get(n.a[0])
                if L is None or n in self.open:
                    return n
                self.open.add(n)
                nx = L["next"].get(n.a[1])
                v = self.value(nx) if nx is not None else n
                self.open.discard(n)
                if v is n:
                    n = L["init"][n.a[1]]
                    continue
                i = self.value(L["init"][n.a[1]])
                return i if v is not None and v.op == "const" and v is i else n
            elif n.op == "attr" and n.a[0] is INST(self.cid) and n.a[1] in self.init:
                n = self.init[n.a[1]]
            else:
                return n
        return None


def initial(C, cid):
    """Fields set to constants before a simulation starts."""
    f = method(C, cid, "setup_case")
    out = {}
    if f is None:
        return out
    r = C.run(f, "full", self_cls=cid)
    for e in r.events:
        if e.kind == "setfield" and e.node is INST(cid) or e.kind == "setfield":
            v = e.args[0]
            if not q.pcguards(e.pc) and v.op == "const":
                out[e.name] = v
            else:
                out.pop(e.name, None)
    return out


def is_zero(n):
    if n is None:
        return None
    if n.op == "const":
        return isinstance(cval(n), (int, float)) and not isinstance(cval(n), bool) and cval(n) == 0
    if n.op == "call" and n.a[0] in ("numpy.zeros", "numpy.zeros_like"):
        return True
    if n.op == "call" and n.a[0] == "numpy.full":
        return is_zero(n.a[1][1]) if len(n.a[1]) > 1 else None
    if n.op == "call" and n.a[0] in FLAT and n.a[1]:
        return is_zero(n.a[1][0])
    if n.op in ("coll", "tuple"):
        xs = n.a if n.op == "tuple" else [x[1] for x in n.a[1]]
        zs = [is_zero(x) if isinstance(x, N) else None for x in xs]
        return False if False in zs else None if None in zs else True
    if n.op in ("mu", "unk", "first", "phi", "out"):
        return None
    return False


def defaults(C, fid):
    """Arguments the callers leave out."""
    f = C.prog.funcs[fid]
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    out = {}
    for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
        import ast
        if isinstance(d, ast.Constant):
            out[n] = const(d.value)
    for n, d in zip(a.kwonlyargs, a.kw_defaults):
        import ast
        if isinstance(d, ast.Constant):
            out[n.arg] = const(d.value)
    return out


class Method:
    """Outcome of one method of a simulation class in the ways a simulation can fail."""

    def __init__(self, C, cid, name):
        self.C, self.cid, self.name = C, cid, name
        self.fid = method(C, cid, name)
        self.r = C.run(self.fid, "trace", self_cls=cid, args=defaults(C, self.fid) or None)
        self.init = initial(C, cid)
        self.table = excs(self.r)
        f = C.prog.funcs[self.fid]
        self.at = (f.mod.path, f.node.lineno)
        self.returns = [e for e in self.r.events if e.kind == "return" and e.name == self.fid]
        self.whole = not any(e.kind == "return" for e in self.r.events) or bool(self.returns)

    def worlds(self):
        """(key, description, world, event, caught?)"""
        k = {c: n for n, c in CLS.items()}.get(self.cid)
        out = []
        for e, types in solver_calls(self.r):
            for t in types:
                h = catcher(self.r, e, t, self.table)
                w = World(self.cid, exc=h if isinstance(h, N) else None, init=self.init, loops=self.r.loops)
                out.append((f"{t}", f"{t} from {e.name.rsplit('.', 1)[-1]}()", w, e, h))
        if k == "ignition":
            if any(World(self.cid).temp(m) for e in self.r.events for p in e.pc if p[0] == "g" for m in deps(p[1])):
                out.append(("cold", "no ignition", World(self.cid, hot=False, init=self.init, loops=self.r.loops), None, None))
            elif self.solves():
                out.append(("cold", "no ignition", None, None, None))
        if k == "flame" and self.solves():
            for s in ("below", "at"):
                out.append(("slow", f"speed {s} the minimum", World(self.cid, speed=s, init=self.init, loops=self.r.loops), None, None))
        return out

    def solves(self):
        return bool(solver_calls(self.r))

    def returned(self, w):
        """Whether the method returns normally in world w: set of outcomes."""
        outs = set()
        for e in self.returns:
            outs |= tri_free(AND(*q.pcguards(e.pc)), w.cls, w.free)
        if not self.returns:
            outs = {None}
        return True if True in outs else None if None in outs else False

    def strict(self, w, e, h):
        """The failure ends the run: no normal return."""
        if e is not None:
            if h is None:
                return True
            if h == "?":
                return None
        x = self.returned(w)
        if x and e is not None and any(n.op == "maybe" and any(World.velocity(m) for m in deps(n)) for y in self.returns for g in q.pcguards(y.pc) for n in deps(g)):
            return None     # decided by a name the failing block may or may not have set
        return None if x is None else not x

    def zero(self, w, e, h):
        """The failure yields zero without an exception."""
        if e is not None:
            if h is None:
                return False, "the error is not caught"
            if h == "?":
                return None, ""
        # no uncaught raise
        for st, node, typ in self.r.raises:
            outs = tri_free(AND(*q.pcguards(st.pc)), w.cls, w.free)
            if True in outs:
                return False, f"raises {typ}"
            if None in outs:
                return None, f"may raise {typ}"
        zs = {is_zero(v): v for v in w.values(self.r.retf)}
        z = False if False in zs else None if None in zs else True
        return z, "" if z else f"returns {str(zs[z])[:120]}"


def used(C, fname, part):
    """Methods whose result becomes the metric of a kind of case, with the calls made on the same simulation."""
    args = {"num_threads": const(1)}
    if fname == METRICS:
        args["reuse_saved"] = FALSE
    r = C.run(fname, "sim", args=args)
    out = {}
    for k in KINDS:
        V = Vec(nofile(present({k})))
        try:
            n = r.retf
            if fname == SAMPLE:
                n = V.pick(n)
                if n.op != "tuple" or len(n.a) != 2:
                    continue
                n = n.a[0]
            segs = V.flat(n)
        except Und:
            continue
        for s in segs:
            for x in s[3] if s[0] == "each" else [s]:
                inst, call, _ = leaf_inst(x[1]) if x[0] == "leaf" else (None, None, None)
                if inst is None or kind_of_inst(r, inst) != k:
                    continue
                ev = [e for e in r.events if e.kind == "rcall" and e.node is call]
                if not ev:
                    continue
                mine = [e for e in r.events if e.kind == "rcall" and e.seq <= ev[0].seq and q.nodearg(e.node, "self") is inst
                        and set(q.pcguards(e.pc)) <= set(q.pcguards(ev[0].pc))]
                out[k] = (short(call.a[0]), [(short(e.name), e) for e in mine], ev[0])
    return r, out


def methods(C, rep):
    rs, us = used(C, SAMPLE, "metric")
    rm, um = used(C, METRICS, "metric")
    for k, cid in CLS.items():
        if cid not in C.prog.classes:
            continue
        if k not in us:
            rep.und(f"{k}.starting", f"a failing {k} simulation of the starting model stops the run")
        else:
            ms = [Method(C, cid, n) for n, _ in dict(us[k][1]).items() if method(C, cid, n)]
            strict_all(rep, k, cid, ms)
        if k not in um:
            rep.und(f"{k}.candidate", f"a failing {k} simulation of a candidate yields zero")
        else:
            ms = [Method(C, cid, n) for n, _ in dict(um[k][1]).items() if method(C, cid, n) and n != "setup_case"]
            leaf = um[k][0]
            for m in ms:
                # every candidate simulation goes through m: failures must become zero in the method that is used
                for key, text, w, e, h in m.worlds():
                    what = f"a failing {k} simulation of a candidate yields zero ({text})"
                    if w is None:
                        rep.und(f"{k}.candidate.{key}", what, m.at)
                        continue
                    st, why = m.zero(w, e, h)
                    if st is True and m.name != leaf:
                        st = None
                    rep.put(verdict(st, m.r, m.r.retf) if st is False else st, f"{k}.candidate.{key}", what,
                            e.loc if e is not None else m.at, why)
    narrow(C, rep)


def strict_all(rep, k, cid, ms):
    """Each failure is an error in one of the methods run for the starting model."""
    done = set()
    for m in ms:
        for key, text, w, e, h in m.worlds():
            what = f"a failing {k} simulation of the starting model stops the run ({text})"
            at = e.loc if e is not None else m.at
            if w is None:
                rep.und(f"{k}.starting.{key}", what, at)
                continue
            st = m.strict(w, e, h)
            if st is not True and e is None:
                # another method run for the same case may report it
                others = [o for o in ms if o is not m and any(x[0] == key and x[2] is not None and o.strict(*x[2:]) is True for x in o.worlds())]
                if others:
                    st = True
            done.add(key)
            rep.put(verdict(False, m.r, m.r.retf) if st is False else st, f"{k}.starting.{key}", what, at, "" if st else f"{m.name}() returns")
    if not done:
        rep.und(f"{k}.starting", f"a failing {k} simulation of the starting model stops the run")
    if k == "ignition":
        for m in ms:
            if not any(e.kind == "meth" and e.name == "step" for e in m.r.events):
                continue
            w = World(cid, exhausted=True, init=m.init, loops=m.r.loops)
            what = "a starting simulation that is not steady after the allowed steps stops the run"
            has = any(w.steps(p[2]) for e in m.r.events for p in e.pc if p[0] == "loop")
            if not has:
                rep.und("ignition.starting.steps", what, m.at)
                continue
            st = m.strict(w, None, None)
            rep.put(verdict(False, m.r, m.r.retf) if st is False else st, "ignition.starting.steps", what, m.at,
                    "" if st else f"{m.name}() returns")


NARROW = {"CanteraError"}


def narrow(C, rep):
    """Handlers around solver calls of candidates catch nothing but solver failures."""
    n = 0
    for k, cid in CLS.items():
        for name in ("run_case", "calculate", "process_results"):
            fid = method(C, cid, name)
            if fid is None:
                continue
            m = Method(C, cid, name)
            for e, types in solver_calls(m.r):
                n += 1
                for p in e.pc:
                    if p[0] != "try":
                        continue
                    for (t, i), x in m.table.items():
                        if t is not p[1] or i < 0:
                            continue
                        wide = [y for y in x.a[2] if y not in types and y not in NARROW and y != "?"]
                        if not wide:
                            continue
                        st = m.returned(World(cid, exc=x, init=m.init, loops=m.r.loops))
                        rep.put(None if st is None else not st, f"{k}.{name}.narrow", "errors of other kinds are not swallowed",
                                e.loc, f"{', '.join(wide)} is caught and the run goes on")
    # the mixture state and the reactor solver must not hide errors either
    rep.put(True if n else None, "narrow", "errors of other kinds are not swallowed", None, f"{n} solver calls")


def callers(C, rep):
    """Nobody between the simulation and the user catches the error of a starting simulation."""
    F = {"RuntimeError", "CanteraError"}
    jobs = [(SAMPLE, "sim"), (METRICS, "sim")] + [(f, "leaf") for f in STAGES.values()] + [(RUN_SA, "leaf")] + [
        (q.MAIN + "main", "run"), (q.MAIN + "pymars", "cli")]
    n = 0
    for fid, layer in jobs:
        if fid not in C.prog.funcs:
            continue
        r = C.run(fid, layer)
        table = excs(r)
        for e in r.events:
            if e.kind != "rcall" or not isinstance(e.name, str):
                continue
            nm = short(e.name)
            if layer == "sim" and nm not in ("run_case", "process_results", "calculate") or layer == "leaf" and e.name not in (SAMPLE, METRICS) or \
                    layer in ("run", "cli") and not (e.name in STAGES.values() or e.name == RUN_SA or nm in ("main", "run_sa")):
                continue
            n += 1
            for p in e.pc:
                if p[0] != "try" or not any(exc_matches("RuntimeError", t) or exc_matches("CanteraError", t) for t in p[2]):
                    continue
                h = catcher(r, e, "RuntimeError", table)
                if not isinstance(h, N):
                    rep.und(f"{short(fid)}.escape", "an error of a starting simulation reaches the caller", e.loc)
                    continue
                outs = set()
                for x in r.events:
                    if x.kind == "return" and x.name == fid:
                        outs |= tri_free(AND(*q.pcguards(x.pc)), lambda c: True if c is h else False if c.op == "exc" else None, lambda c: True)
                rep.put(verdict(False, r, r.retf) if True in outs else True if outs == {False} else None, f"{short(fid)}.escape",
                        "an error of a starting simulation reaches the caller", e.loc, f"{nm} is called inside a handler of {', '.join(h.a[2])}")
    rep.put(True if n else None, "callers", "an error of a starting simulation reaches the caller", None, f"{n} calls")


def lenient(C, rep):
    """Metrics of the starting model obtained from sample_metrics are refused when one of them is zero."""
    for name, fid in dict(STAGES, SA=RUN_SA).items():
        r = C.run(fid, "leaf")
        for e in calls(r, METRICS):
            model = argmap(e).get("model")
            if pcl(e) or not same_param(r, model, "model_file"):
                continue
            what = "metrics of the starting model are refused when a simulation failed"
            w = zero_atoms(True, e.node)

            def free(c):
                if c.op == "eq" and any(x.op == "param" for x in c.a) and any(is_const(x) and isinstance(cval(x), str) for x in c.a):
                    return True         # a setting with a fixed set of names
                todo, ops = [c], {"truth", "not", "eq", "lt", "le", "const", "exists", "elem", "idx", "call", "meth"}
                while todo:
                    m = todo.pop()
                    if m is e.node:
                        continue
                    if m.op not in ops or m.op in ("call", "meth") and str(m.a[m.op == "meth"]).rsplit(".", 1)[-1] not in (
                            "all", "any", "isclose", "count_nonzero"):
                        return False
                    todo += children(m)
                return True
            ok = None
            later = [x.seq for x in r.events if x.kind == "rcall" and x.name in (METRICS, EVALUATE) and x.seq > e.seq]
            st, why = False, "a zero metric goes unnoticed"
            for x in r.events:
                if x.kind != "raise" or x.seq < e.seq or pcl(x) or later and x.seq > min(later):
                    continue
                ts = tri_free(AND(*[g for g in q.pcguards(x.pc) if g not in q.pcguards(e.pc)]), w, free)
                if ts == {True}:
                    st = True
                    break
                if None in ts and e.node in deps(AND(*q.pcguards(x.pc))):
                    st = None
            rep.put(verdict(False, r, e.node) if st is False else st, f"{name}.lenient", what, e.loc, "" if st else why)


def check(C, rep):
    rep.section("methods", methods)
    rep.section("callers", callers)
    rep.section("lenient", lenient)
