"""The ignition criterion: every comparison of the temperature is brought to linear normal form; the recorded value, the
flags it depends on and the exits of the loop are evaluated in two abstract states (not ignited yet, ignited) for both
outcomes of the comparison, which decides that the first instant, and only it, is recorded.  The exits of the starting
run are evaluated with the comparison in both outcomes, and its errors with the step loop left by its own exit."""
from .c17 import *

ASSUMES = ["the simulated time is positive after a step", "a starting run whose profile is sampled ignites or is refused (C05)"]
CID = CLS["ignition"]
RISE = 400
TEMP_NAMES = ("temperature",)


def stamp(v):
    """The step after which a state quantity was read: a call, "start" (before any step of the run or iteration) or None."""
    while v.op == "meth" and v.a[1] in ("copy", "item") or v.op == "call" and v.a[0] in ("builtins.float", "numpy.float64"):
        v = v.a[0] if v.op == "meth" else v.a[1][0]
    if v.op != "attr":
        return None
    ver, b = v.a[2], v.a[0]
    while ver is None and b.op == "attr" and b.a[2] is not None:
        ver, b = b.a[2], b.a[0]
    while ver is not None:
        if ver.op == "upd":
            x = ver.a[2]
            if ver.a[1] == "$call" and isinstance(x, N) and x.op == "meth" and x.a[1] in SOLVE:
                return x
            ver = ver.a[0]
        elif ver.op in ("v0", "mu"):
            return "start"
        else:
            return None
    return "start"


def dataset(n):
    """Name of the stored table a value is read from, None otherwise."""
    for _ in range(8):
        if n.op == "item" and n.a[1].op == "const" and isinstance(cval(n.a[1]), str):
            return cval(n.a[1])
        if n.op == "item" and n.a[1].op in ("slice", "tuple"):
            if n.a[1].op == "slice" and (n.a[1].a[0] not in (NONE, const(0)) or n.a[1].a[2] not in (NONE, const(1))):
                return None         # some of the first rows are left out, or the order is another
            n = n.a[0]
        elif n.op == "call" and n.a[0] in ("numpy.array", "numpy.asarray", "builtins.list", "numpy.ravel") and n.a[1]:
            n = n.a[1][0]
        elif n.op == "meth" and n.a[1] in ("copy", "flatten", "tolist"):
            n = n.a[0]
        else:
            return None
    return None


class Crit:
    """Recognises the temperature comparison in the live (reactor) or stored (data file) form."""

    def __init__(self, r):
        self.r = r
        self.bad = []       # comparisons of another form
        self.vague = []
        self.seen = set()

    def now(self, n):
        """n is the temperature of the run at the current instant: stamp or position, None if it is not."""
        if n.op == "attr" and n.a[1] == "T" and strip_versions(n.a[0]) in (SELF(CID, "reac"), mk("attr", SELF(CID, "reac"), "phase", None),
                                                                          mk("attr", SELF(CID, "reac"), "thermo", None), SELF(CID, "gas")):
            s = stamp(n)
            return None if s == "start" else s
        p = position(n)
        if p is not None and p[0] in TEMP_NAMES and p[1].op in ("idx", "later"):
            return p[1]
        if dataset(n) in TEMP_NAMES:
            return mk("const", "all")
        return None

    def start(self, n):
        """n is the temperature the run starts from."""
        if strip_versions(n) is prop(CID, "temperature"):
            return True
        if n.op == "attr" and n.a[1] == "T" and stamp(n) == "start" and n.a[2] is None:
            return True
        if n.op == "attr" and n.a[1] == "T" and n.a[2] is not None and n.a[2].op == "v0":
            return True
        p = position(n)
        return p is not None and p[0] in TEMP_NAMES and is_const(p[1]) and cval(p[1]) == 0

    def read(self, c):
        """("hot", position) when c holds iff the temperature has risen enough, ("cold", position) for the opposite."""
        if c.op not in ("lt", "le"):
            return None
        a, b = linear(c.a[0]), linear(c.a[1])
        if a is None or b is None:
            return None
        d = dict(b)
        for k, v in a.items():
            d[k] = d.get(k, 0) - v
        d = {k: v for k, v in d.items() if v}
        atoms = [k for k in d if k != 1]
        cur = [k for k in atoms if self.now(k) is not None]
        if not cur:
            return None
        if len(cur) != 1 or any(not self.start(k) for k in atoms if k not in cur):
            if any(m.op in ("mu", "out", "unk", "rcall", "phi", "first", "last") for k in atoms for m in deps(strip_versions(k))):
                self.vague.append(c)
            else:
                self.bad.append((c, "it is not the rise above the initial temperature"))
            return None
        k = cur[0]
        o = [x for x in atoms if x is not k]
        s = d[k]
        rise = d.get(1, 0)
        if len(o) != 1 or d[o[0]] != -s or s not in (1, -1):
            self.bad.append((c, "it is not the rise above the initial temperature"))
            return None
        if rise != -s * RISE:
            self.bad.append((c, f"the rise is {float(-rise / s):g} K"))
            return None
        if (c.op == "le") != (s > 0):
            self.bad.append((c, f"a rise of exactly {RISE} K is not counted"))
            return None
        self.seen.add(c)
        return ("hot" if s > 0 else "cold"), self.now(k)


def position(n):
    """(table, index) of an element of a stored table; a table read from row k > 0 on is taken k rows later."""
    if n.op in ("item", "elem") and n.a[0].op == "item" and n.a[0].a[1].op == "slice" and dataset(n.a[0]) is None:
        lo, _, st = n.a[0].a[1].a
        t = dataset(n.a[0].a[0])
        if t is not None and is_const(lo) and isinstance(cval(lo), int) and cval(lo) > 0 and st in (NONE, const(1)):
            if n.op == "elem" or n.a[1].op == "idx":
                i = n.a[1] if n.op == "item" else mk("idx", n.a[0].a[0], n.a[1])
                return t, mk("later", i, lo)
        return None
    if n.op == "item":
        t = dataset(n.a[0])
        if t is not None and n.a[1].op in ("idx", "const"):
            return t, n.a[1]
    if n.op == "elem":
        t = dataset(n.a[0])
        if t is not None:
            return t, mk("idx", n.a[0], n.a[1])
    return None


def when(v):
    """Instant a recorded time belongs to, None if v is not a time of the run."""
    if v.op == "attr" and v.a[1] == "time" and strip_versions(v.a[0]) is SELF(CID, "sim"):
        return stamp(v)
    p = position(v)
    if p is not None and p[0] == "time":
        return p[1]
    # the time a step returns
    if v.op == "meth" and v.a[1] == "step":
        return v
    return None


class Phase:
    """Abstract state of a run: values of loop-carried flags, outcome of the temperature comparison, kind of run."""

    def __init__(self, r, crit, timed, hot=None, env=None, left=None):
        self.r, self.crit, self.timed, self.hot, self.env, self.left = r, crit, timed, hot, env or {}, left or {}

    def cls(self, c):
        if c.op == "exc":
            return False
        x = self.crit.read(c)
        if x is not None:
            return None if self.hot is None else self.hot == (x[0] == "hot")
        if c.op == "truth":
            return self.truth(c.a[0])
        if c.op in ("eq", "is"):
            for u, w in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
                if u.op == "const":
                    v = self.val(w)
                    if v is None:
                        continue
                    if v.op == "const":
                        return cval(v) == cval(u) if c.op == "eq" else v is u
                    if when(v) is not None:
                        return False
        if c.op in ("lt", "le") and any(x.op == "const" for x in c.a):
            a, b = (x if x.op == "const" else self.val(x) for x in c.a)
            if a is not None and b is not None and a.op == b.op == "const":
                try:
                    return cval(a) < cval(b) if c.op == "lt" else cval(a) <= cval(b)
                except TypeError:
                    return None
            if a is not None and a.op == "const" and cval(a) == 0 and b is not None and when(b) is not None:
                return True
            if b is not None and b.op == "const" and cval(b) == 0 and a is not None and when(a) is not None:
                return False
        if c.op == "exists" and c in self.left:
            return self.left[c]
        return None

    def truth(self, x):
        if strip_versions(x) is SELF(CID, "time_end"):
            return self.timed
        v = self.val(x)
        if v is None:
            return None
        if v.op == "const":
            return bool(cval(v))
        if when(v) is not None:
            return True
        if v.op in ("not", "and", "or", "lt", "le", "eq", "truth", "is"):
            return tri(v, self.cls)
        return None

    def val(self, n):
        for _ in range(60):
            if n in self.env:
                return self.env[n]
            if n.op == "phi":
                t = tri(n.a[0], self.cls)
                if t is None:
                    a, b = self.val(n.a[1]), self.val(n.a[2])
                    return a if a is not None and a is b else None
                n = n.a[1] if t else n.a[2]
            elif n.op == "maybe":
                a, b = self.val(n.a[1]), self.val(n.a[2])
                return a if a is b else None
            elif n.op == "un" and n.a[0] == "not":
                t = self.truth(n.a[1])
                return None if t is None else const(not t)
            else:
                return n
        return None

    def leaves(self, n):
        """Values n can have."""
        if n in self.env:
            return [n]
        if n.op == "phi":
            t = tri(n.a[0], self.cls)
            out = []
            if t is not False:
                out += self.leaves(n.a[1])
            if t is not True:
                out += self.leaves(n.a[2])
            return out
        if n.op == "maybe":
            return self.leaves(n.a[1]) + self.leaves(n.a[2])
        return [n]

    def outs(self, c):
        """Outcomes of a condition, atoms not about the temperature or the flags being free."""
        return tri_free(c, self.cls, self.free)

    def free(self, c):
        if c.op in ("unk", "exc"):
            return False
        return not any(self.crit.now(m) is not None and self.crit.read(c) is None and c.op in ("lt", "le") for m in c.a if isinstance(m, N)) \
            and not any(m.op == "mu" and m in self.env for m in deps(c)) and not any(m.op == "unk" for m in deps(c))


class Run:
    """One simulation method, one kind of run (up to an end time or to steady state)."""

    def __init__(self, C, name, timed):
        self.C, self.name, self.timed = C, name, timed
        self.fid = method(C, CID, name)
        a = defaults(C, self.fid)
        if name == "process_results":
            a["skip_data"] = TRUE
        if "stop_at_ignition" in a:
            a["stop_at_ignition"] = FALSE
        self.r = C.run(self.fid, "trace", self_cls=CID, args=a or None)
        self.crit = Crit(self.r)
        f = C.prog.funcs[self.fid]
        self.at = (f.mod.path, f.node.lineno)

    def phase(self, **k):
        return Phase(self.r, self.crit, self.timed, **k)

    def results(self):
        """Loop results that make up the returned metric in this kind of run, and other values."""
        p = self.phase()
        todo, out, seen = [self.r.retf], [], set()
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            if n.op == "phi":
                t = tri(n.a[0], p.cls)
                if t is not False:
                    todo.append(n.a[1])
                if t is not True:
                    todo.append(n.a[2])
            elif n.op == "maybe":
                todo += [n.a[1], n.a[2]]
            else:
                out.append(n)
        return out

    def lid(self, n):
        if n.op == "first":
            return n.a[4]
        if n.op in ("out", "mu"):
            return n.a[0]
        if n.op == "last":
            for l, L in self.r.loops.items():
                if L["it"] is n.a[0]:
                    return l
        return None


def first_only(C, rep):
    """The recorded delay is the time of the first instant that meets the criterion."""
    for name in ("run_case", "calculate", "process_results"):
        if method(C, CID, name) is None:
            continue
        for timed in (True, False) if name != "process_results" else (None,):
            R = Run(C, name, timed)
            mode = {True: "end time", False: "steady state", None: "stored"}[timed]
            key = f"{name}.{mode.replace(' ', '-')}"
            what = f"{name} reports the first time of a rise of {RISE} K ({mode})"
            st, why, at = delay(R)
            for c, w in R.crit.bad[:1]:
                rep.put(verdict(False, R.r, c), f"{key}.criterion", "ignition is a rise of at least 400 K above the initial temperature",
                        at, f"{w}: {show(c)}")
            if not R.crit.bad:
                rep.put(True if R.crit.seen and not R.crit.vague else None, f"{key}.criterion",
                        "ignition is a rise of at least 400 K above the initial temperature", at, f"{len(R.crit.seen)} comparisons")
            elif st is False:
                continue
            rep.put(verdict(False, R.r, R.r.retf) if st is False else st, f"{key}.first", what, at, why)


def show(n):
    return str(strip_versions(n))[:160]


def delay(R):
    res = R.results()
    loops = [n for n in res if n.op in ("first", "out") and R.lid(n) is not None or n.op == "last" and R.lid(n) is not None]
    found = [n for n in res if n.op == "first" and R.lid(n) is None or n.op == "item" and dataset(n.a[0]) == "time"]
    if found and not loops:
        for n in found:
            s, w = search(R, n)
            if s is not True:
                return s, w, R.at
        return True, "search in the stored tables", R.at
    at = R.at
    if not loops:
        return None, "the way the delay is found was not recognised", at
    st, why = True, f"{len(loops)} loops"
    for n in loops:
        lid = R.lid(n)
        L = R.r.loops.get(lid)
        if L is None:
            return None, "", at
        at = L["loc"]
        s, w = one(R, n, lid, L, [m for m in loops if R.lid(m) is lid])
        if s is not True:
            return s, w, at
    others = [n for n in res if n not in loops]
    for n in others:
        if when(n) is not None:
            return False, f"returns {show(n)}", at
    return st, why, at


def search(R, n):
    """A search without a loop: the first element of a filtered sequence, or the first index of an array comparison."""
    if n.op == "first":
        c, v = n.a[2], n.a[3]
        x = R.crit.read(c)
        if x is None:
            return None, "the comparison is not the documented one"
        if x[0] != "hot":
            return False, "the first time below the limit is taken"
        w = when(v)
        return (True, "") if w is not None and w is x[1] else (None, f"records {show(v)}")
    i, pos = n.a[1], 0
    if i.op == "item" and is_const(i.a[1]):
        pos, i = cval(i.a[1]), i.a[0]
        if i.op == "item" and is_const(i.a[1]) and cval(i.a[1]) == 0:
            i = i.a[0]
    if i.op != "call" or not i.a[1] or i.a[0] not in ("numpy.where", "numpy.flatnonzero", "numpy.nonzero", "numpy.argmax", "numpy.argwhere"):
        return None, "the way the delay is found was not recognised"
    x = R.crit.read(i.a[1][0])
    if x is None:
        return None, "the comparison is not the documented one"
    if x[0] != "hot":
        return False, "the first time below the limit is taken"
    if pos != 0:
        return False, f"element {pos} of the times above the limit is taken"
    return True, ""


def one(R, n, lid, L, mine):
    """The value n recorded by loop L."""
    carried = [m for m in (mk("mu", lid, k) for k in L["next"]) if isinstance(m, N)]
    # the carried value that records the delay
    if n.op == "out":
        carry = mk("mu", lid, n.a[1])
    elif n.op == "last":
        mine_ = direct(n.a[2])
        cs = [m for m in carried if L["next"].get(m.a[1]) is not None and direct(L["next"][m.a[1]]) & mine_ and m in direct(L["next"][m.a[1]])]
        if len(cs) != 1:
            return None, "the way the delay is found was not recognised"
        carry = cs[0]
    else:
        cs = [m for m in carried if m in deps(n.a[3]) and m in direct(n.a[3])]
        carry = cs[0] if len(cs) == 1 else None
        if carry is None:
            # the value leaves the loop at once
            for m in mine:
                if m.op == "out":
                    carry = mk("mu", lid, m.a[1])
    init = {}
    for m in carried:
        i = L["init"].get(m.a[1])
        if i is not None and i.op == "const":
            init[m] = i
        elif i is not None and m is carry and i.op == "attr":
            i = initial(R.C, CID).get(i.a[1])
            if i is not None:
                init[m] = i
    n0 = len(L["entry"].pc)
    brk = [AND(*q.pcguards(b.pc[n0:])) for b in L["breaks"]]
    goes = AND(*q.pcguards(L["nxt"].pc[n0:])) if L["nxt"] is not None else FALSE

    def good(p, vs, must):
        """All values are times of the instant compared (must) / none is (not must)."""
        for v in vs:
            w = when(v)
            if must:
                if w is None:
                    if v is carry or v.op == "const" or v in init:
                        return False, "the instant is not recorded"
                    return None, f"records {show(v)}"
                ps = [R.crit.read(c)[1] for c in R.crit.seen]
                if not any(w is x for x in ps):
                    if w == "start" or isinstance(w, N) and (w.op == "const" or any(same_kind(w, x) for x in ps)):
                        return False, f"the time of another instant is recorded: {show(v)}"
                    return None, f"records {show(v)}"
            elif w is not None:
                return False, "a time is recorded although the temperature is below the limit"
        return True, ""

    def step(p, must, later):
        """Check values recorded in an iteration; later: ignition happened before."""
        for m in mine:
            if m.op != "first":
                continue
            os = p.outs(m.a[2])
            if os == {False}:
                continue
            vs = p.leaves(m.a[3])
            if later:
                if any(when(v) is not None for v in vs):
                    return False, "a later time replaces the first"
                if any(v is not carry for v in vs):
                    return None, f"returns {show(vs[0])}"
                continue
            s, w = good(p, vs, must)
            if s is not True:
                return s, w
        os = p.outs(goes)
        if os != {False}:
            nx = L["next"].get(carry.a[1]) if carry is not None else None
            vs = p.leaves(nx) if nx is not None else [carry] if carry is not None else []
            if later:
                if any(when(v) is not None for v in vs):
                    return False, "a later time replaces the first"
                if any(v is not carry for v in vs):
                    return None, f"keeps {show(vs[0])}"
            elif not vs:
                if must and True in os:
                    if None in os:
                        return None, ""
                    return False, "the loop goes on without recording the instant"
            else:
                s, w = good(p, vs, must)
                if s is False and must and None in os:
                    return None, w
                if s is not True:
                    return s, w
        return True, ""
    # before ignition
    p = R.phase(hot=True, env=init)
    s, w = step(p, True, False)
    if s is not True:
        return s, w
    if not R.crit.seen and not R.crit.bad:
        return None, "no comparison of the temperature was recognised"
    if not R.crit.seen:
        return None, "the comparison is not the documented one"
    p = R.phase(hot=False, env=init)
    s, w = step(p, False, False)
    if s is not True:
        return s, w
    # flags stay as they are while not ignited
    for m in init:
        if m is carry:
            continue
        nx = L["next"].get(m.a[1])
        if nx is None or p.outs(goes) == {False}:
            continue
        if not used_flag(R, L, m, mine, carry):
            continue
        for v in p.leaves(nx):
            if v is m or v.op == "const" and v is init[m] or v.op != "const" and p.truth(v) == bool(cval(init[m])):
                continue
            return None, f"a flag changes before ignition: {show(v)}"
    # after ignition
    ph = R.phase(hot=True, env=init)
    if ph.outs(goes) == {False}:
        return True, ""
    env = {}
    for m in init:
        nx = L["next"].get(m.a[1])
        vs = ph.leaves(nx) if nx is not None else [m]
        vs = [init[m] if v is m else settle(ph, v) for v in vs]
        if len(set(vs)) == 1:
            env[m] = vs[0]
    for hot in (True, False):
        p = R.phase(hot=hot, env=env)
        s, w = step(p, False, True)
        if s is not True:
            return s, w
        for m in env:
            nx = L["next"].get(m.a[1])
            if nx is None or m is carry or not used_flag(R, L, m, mine, carry):
                continue
            for v in p.leaves(nx):
                if v is not m and v is not env[m]:
                    t = p.truth(v)
                    if t is not None and init[m].op == "const" and env[m].op == "const" and t == bool(cval(env[m])):
                        continue
                    if t is not None and init[m].op == "const" and t == bool(cval(init[m])):
                        return False, "a later time replaces the first: the flag is cleared again"
                    return None, "a flag changes again after ignition"
    return True, ""


def settle(p, v):
    """A condition as the constant it is in state p."""
    if v.op in ("not", "and", "or", "lt", "le", "eq", "is", "truth"):
        t = p.truth(v)
        if t is not None:
            return const(t)
    return v


def used_flag(R, L, m, mine, carry):
    """The carried value m decides what is recorded."""
    for x in mine:
        for y in (x.a[2], x.a[3]) if x.op == "first" else ():
            if m in deps(y):
                return True
    nx = L["next"].get(carry.a[1]) if carry is not None else None
    return nx is not None and m in deps(nx)


def direct(n):
    """Values n may be, through joins."""
    if n.op == "phi":
        return direct(n.a[1]) | direct(n.a[2])
    return {n}


def same_kind(a, b):
    rows = ("idx", "later")
    return a.op == b.op or a.op in rows and b.op in rows


def starting_run(C, rep):
    """The starting run is not stopped by the ignition, records its states, and accepts steady state on the last step."""
    if method(C, CID, "run_case") is None:
        return
    R = Run(C, "run_case", False)
    steps = [(l, L) for l, L in R.r.loops.items() if L["it"].op == "call" and L["it"].a[0] == "builtins.range"
             and SELF(CID, "max_steps") in {strip_versions(m) for m in deps(L["it"])}]
    what = "a starting run without an end time goes on until steady state"
    if len(steps) != 1:
        rep.und("run_case.goes-on", what, R.at, f"{len(steps)} step loops")
        return
    lid, L = steps[0]
    n0 = len(L["entry"].pc)
    brk = [AND(*q.pcguards(b.pc[n0:])) for b in L["breaks"]]
    init = {mk("mu", lid, k): v for k, v in L["init"].items() if isinstance(v, N) and v.op == "const"}
    st, why = True, ""
    if not brk:
        st, why = None, "the step loop has no exit"
    for b in brk:
        oh = R.phase(hot=True, env=init).outs(b)
        oc = R.phase(hot=False, env=init).outs(b)
        if oh == {True} and False in oc:
            st, why = False, "the run stops at ignition"
        elif oh != oc and st is True:
            st, why = (False, "the ignition decides whether the run goes on") if None not in oh | oc else (None, "")
        elif oc == {False} and oh == {False} and st is True:
            st, why = None, ""
    rep.put(verdict(False, R.r, *brk) if st is False else st, "run_case.goes-on", what, L["loc"], why)
    # steady state is judged by the change over one step
    sts, w2 = None, "the residual was not recognised"
    for b in brk:
        gets = [m for m in deps(b) if m.op == "meth" and m.a[1] == "get_state"]
        ev = {e.node: e for e in R.r.events if e.kind == "meth" and e.name in ("get_state", "step")}
        stp = [e for e in ev.values() if e.name == "step" and any(p[0] == "loop" and p[1] is lid for p in e.pc)]
        inloop = [ev[m] for m in gets if m in ev and any(p[0] == "loop" and p[1] is lid for p in ev[m].pc)]
        carried = [m for m in deps(b) if m.op == "mu" and m.a[0] is lid]
        if len(stp) == 1 and inloop:
            pre = [e for e in inloop if e.seq < stp[0].seq]
            post = [e for e in inloop if e.seq > stp[0].seq]
            diffs = [m for m in deps(b) if m.op == "bin" and m.a[0] == "-" and {m.a[1], m.a[2]} <= set(gets) | set(carried)]
            for d in diffs:
                s2 = {("pre" if any(e.node is x for e in pre) else "post" if any(e.node is x for e in post) else "carried") for x in d.a[1:]}
                if s2 in ({"pre", "post"}, {"carried", "post"}):
                    sts, w2 = True, "difference of the states before and after the step"
                elif sts is None:
                    sts, w2 = False, "the states compared are not those before and after the step"
    rep.put(verdict(False, R.r, *brk) if sts is False else sts, "run_case.residual",
            "steady state is judged by the change of the state over one step", L["loc"], w2)
    steady(R, rep, lid, L, brk)
    # steady state on the last allowed step is convergence
    what = "a run that reaches steady state on its last allowed step counts as converged"
    env = {}
    for m, v in init.items():
        vs = R.phase(hot=True, env=init).leaves(L["next"][m.a[1]]) if L["next"].get(m.a[1]) is not None else [m]
        vs = [v if x is m else settle(R.phase(hot=True, env=init), x) for x in vs]
        if len(set(vs)) == 1:
            env[m] = vs[0]
    conds = {m for s, node, typ in R.r.raises for g in q.pcguards(s.pc) for m in deps(g) if m.op == "exists" and m.a[0] is L["it"]}
    left = {c: True for c in conds}
    p = Left(R.r, R.crit, False, hot=True, env=env, left=left, lid=lid)
    st, why, at = True, f"{len(R.r.raises)} errors", L["loc"]
    for s, node, typ in R.r.raises:
        if typ not in ("RuntimeError", "Exception", "ValueError"):
            continue
        if any(x[0] == "loop" for x in s.pc):
            inner = [x for x in s.pc if x[0] == "loop" and x[1] is lid]
            if inner:
                # raised inside the step loop: must not be reached in an iteration that meets the exit condition
                k = s.pc.index(inner[0])
                g = AND(*q.pcguards(s.pc[k:]))
                if any(AND(g, b) is FALSE for b in brk):
                    continue
                st, why = (None, "an error inside the step loop") if st is True else (st, why)
            continue
        os = p.outs(AND(*q.pcguards(s.pc)))
        if True in os and None not in os:
            st, why, at = False, f"raises {typ} although the exit condition was met", getattr(s, "loc", None) or L["loc"]
        elif None in os and st is True:
            st, why = None, "an error under a condition that was not decided"
    rep.put(verdict(False, R.r, R.r.retf) if st is False else st, "run_case.last-step", what, at, why)


def steady(R, rep, lid, L, brk):
    """The residual is relative to the largest values seen and is compared with ten times the relative tolerance."""
    rtol, atol = (mk("attr", SELF(CID, "sim"), x, None) for x in ("rtol", "atol"))
    simple = ("const", "attr", "bin", "inst", "call", "ext", "un", "v0", "upd", "meth")

    def states(n):
        return any(m.op == "meth" and m.a[1] == "get_state" for m in deps(strip_versions(n)))
    st, why, sc, whysc = None, "", None, ""
    for b in brk:
        for c in {m for m in deps(b) if m.op in ("lt", "le")}:
            x, y = c.a
            if states(x) == states(y):
                continue
            if states(y):
                st, why = False, f"the run ends while the change is large: {show(c)}"
                continue
            lim = linear(y)
            lim = None if lim is None else {strip_versions(k) if isinstance(k, N) else k: v for k, v in lim.items()}
            if lim == {rtol: 10}:
                st = True if st is None else st
            elif all(m.op in simple for m in deps(strip_versions(y))):
                st, why = False, f"compared with {show(y)}"
            for d in {m for m in deps(x) if m.op == "bin" and m.a[0] == "/" and states(m.a[1]) and m.a[2] is not None}:
                num = d.a[1]
                while num.op == "call" and num.a[0] in ("numpy.abs", "numpy.absolute", "builtins.abs", "numpy.fabs"):
                    num = num.a[1][0]
                if num.op != "bin" or num.a[0] != "-":
                    continue
                den = d.a[2]
                mus = [m for m in deps(den) if m.op == "mu" and m.a[0] is lid]
                mx = [m for m in deps(den) if m.op == "call" and m.a[0] in ("numpy.maximum", "numpy.fmax")]
                grows = [m for m in mus if any(z.op == "call" and z.a[0] in ("numpy.maximum", "numpy.fmax") and m in z.a[1] for z in mx)]
                if grows and atol in {strip_versions(m) for m in deps(den)}:
                    sc = True if sc is None else sc
                elif states(den) and not mus or not grows and not mx and not any(m.op in ("unk", "rcall", "phi", "maybe") for m in deps(den)):
                    sc, whysc = False, f"relative to {show(den)}"
    rep.put(verdict(False, R.r, *brk) if st is False else st, "run_case.threshold",
            "steady state is a change below ten times the relative tolerance", L["loc"], why)
    rep.put(verdict(False, R.r, *brk) if sc is False else sc, "run_case.scale",
            "the change is judged relative to the largest values seen so far", L["loc"], whysc)
    bad = None
    for b in brk:
        idx = [m for m in deps(b) if m.op == "idx" and m.a[0] is L["it"] or m.op == "elem" and m.a[0] is L["it"]]
        for c in {m for m in deps(b) if m.op in ("lt", "le", "eq") and any(i in deps(m) for i in idx)}:
            if not states(c) and states(b):
                t0, t1 = subst_cond(b, c, TRUE), subst_cond(b, c, FALSE)
                if t0 is FALSE or t1 is FALSE:
                    bad = c
    rep.put(verdict(False, R.r, *brk) if bad is not None else True, "run_case.any-step",
            "steady state ends the run at whatever step it is reached", L["loc"], show(bad) if bad is not None else "")


def subst_cond(b, c, v):
    """Condition b with its part c decided."""
    if b is c:
        return v
    if b.op == "and":
        return AND(*[subst_cond(x, c, v) for x in b.a])
    if b.op == "or":
        return OR(*[subst_cond(x, c, v) for x in b.a])
    if b.op == "not":
        return NOT(subst_cond(b.a[0], c, v))
    return b


class Left(Phase):
    """After the step loop was left by its own exit with the ignition recorded."""

    def __init__(self, *a, lid=None, **k):
        super().__init__(*a, **k)
        self.lid = lid

    def val(self, n):
        v = super().val(n)
        for _ in range(6):
            if v is None:
                return None
            if v.op == "first" and v.a[4] is self.lid:
                v = super().val(v.a[3])
            elif v.op == "out" and v.a[0] is self.lid:
                v = super().val(mk("mu", v.a[0], v.a[1]))
            else:
                break
        return v


def agree(C, rep):
    """Limits of the starting run and of candidate runs."""
    if method(C, CID, "run_case") is None or method(C, CID, "calculate") is None:
        return
    rs = {n: Run(C, n, None) for n in ("run_case", "calculate")}
    kinds = {}
    for n, R in rs.items():
        w, s = [], []
        for l, L in R.r.loops.items():
            if not any(e.kind == "meth" and e.name == "step" and any(p[0] == "loop" and p[1] is l for p in e.pc) for e in R.r.events):
                continue
            if L["it"].op == "while":
                if isinstance(L["cond"], N) and not any(m.op == "attr" and m.a[1] == "time" for m in deps(L["cond"])):
                    continue
                w.append((strip_versions(L["cond"]) if isinstance(L["cond"], N) else L["cond"], L))
            else:
                s.append((strip_versions(L["it"]), L))
        kinds[n] = (w, s)
        for c, L in w:
            ok = c.op == "lt" and c.a[0] is mk("attr", SELF(CID, "sim"), "time", None) and c.a[1] is SELF(CID, "time_end")
            known = all(m.op in ("attr", "inst", "lt", "le", "const", "bin", "not") for m in deps(c))
            rep.put(True if ok else verdict(False, R.r, c) if known and c is not TRUE else None, f"{n}.end-time",
                    "a run with an end time goes on until that time", L["loc"], show(c) if isinstance(c, N) else "")
        for it, L in s:
            b = bound(it)
            rep.put(True if b is SELF(CID, "max_steps") else None if b is None else verdict(False, R.r, it), f"{n}.step-limit",
                    "a run without an end time may take the allowed number of steps", L["loc"], show(it))
        if not w:
            rep.und(f"{n}.end-time", "a run with an end time goes on until that time", R.at)
        if not s:
            rep.und(f"{n}.step-limit", "a run without an end time may take the allowed number of steps", R.at)
    # the limits themselves
    f = method(C, CID, "setup_case")
    r = C.run(f, "full", self_cls=CID)
    fn = C.prog.funcs[f]
    for fld, src, dflt in (("max_steps", "max_steps", 10000), ("time_end", "end_time", 0)):
        P = prop(CID, src)
        es = [e for e in r.events if e.kind == "setfield" and e.name == fld]
        what = f"the {'step limit' if fld == 'max_steps' else 'end time'} is the user's if given"
        if not es:
            rep.und(f"limit.{fld}", what, (fn.mod.path, fn.node.lineno))
            continue
        st, why = True, ""
        for given in (True, False):
            def cls(c):
                if c.op == "truth" and c.a[0] is P:
                    return given
                if c.op in ("is", "eq") and P in c.a and NONE in c.a:
                    return not given
                if c.op == "lt" and c.a[1] is P and is_const(c.a[0]) and cval(c.a[0]) == 0:
                    return given
                return None

            def free(c):
                return all(m.op in ("attr", "inst", "const", "eq", "lt", "le", "truth", "is", "in", "coll", "tuple") for m in deps(c))
            vals = [None]
            for e in es:
                ts = tri_free(AND(*q.pcguards(e.pc)), cls, free)
                if None in ts:
                    vals = vals + [None]
                    continue
                new = values_in(e.args[0], cls, free) if True in ts else []
                vals = (vals if False in ts else []) + new
            for v in vals:
                if v is None:
                    st = None if st is True else st
                    continue
                while v.op == "call" and v.a[0] in ("builtins.int", "builtins.float") and len(v.a[1]) == 1:
                    v = v.a[1][0]
                ok = v is P if given else v is P or v.op == "const" and cval(v) == dflt
                if not ok:
                    simple = all(m.op in ("const", "attr", "bin", "inst", "call", "ext", "un") for m in deps(v))
                    if simple:
                        st, why = False, f"{'given' if given else 'default'}: {show(v)}"
                    elif st is True:
                        st, why = None, show(v)
        rep.put(verdict(False, r, r.retf) if st is False else st, f"limit.{fld}", what, es[-1].loc, why)


def values_in(v, cls, free):
    """Values v can have; None for those not determined."""
    if v.op != "phi":
        return [v]
    ts = tri_free(v.a[0], cls, free)
    out = [None] if None in ts else []
    if True in ts:
        out += values_in(v.a[1], cls, free)
    if False in ts:
        out += values_in(v.a[2], cls, free)
    return out


def bound(it):
    """Number of iterations of a range."""
    if it.op != "call" or it.a[0] != "builtins.range":
        return None
    a = it.a[1]
    if len(a) == 1:
        n = linear(a[0])
    elif len(a) == 2:
        x, y = linear(a[0]), linear(a[1])
        if x is None or y is None:
            return None
        n = dict(y)
        for k, v in x.items():
            n[k] = n.get(k, 0) - v
        n = {k: v for k, v in n.items() if v}
    else:
        return None
    if n is None:
        return None
    if len(n) == 1 and list(n.values()) == [1] and list(n)[0] != 1:
        return list(n)[0]
    return it


def stored(C, rep):
    """Stored times and temperatures belong together, and the record starts with the initial state."""
    if method(C, CID, "run_case") is None:
        return
    R = Run(C, "run_case", None)
    data, where = datasets(R.r)
    what = "the stored times and temperatures belong together and start with the initial state"
    if not {"time", "temperature"} <= set(data):
        rep.und("stored", what, R.at)
        return
    leaves = []
    try:
        aligned(R.r, (data["time"], data["temperature"]), leaves, set())
    except Und as x:
        rep.und("stored", what, where, str(x))
        return
    st, why, begins = True, f"{len(leaves)} records", False
    for t, T in leaves:
        a, b = when(unwrapped(t)), stamp(unwrapped(T))
        if a is None or b is None:
            st, why = (None, f"{show(t)}, {show(T)}") if st is True else (st, why)
        elif a is not b and not (a == "start" and b == "start"):
            st, why = False, "a time is stored with the temperature of another instant"
        elif a == "start":
            begins = True
    if st is True and not begins:
        st, why = False, "the initial state is not stored"
    if st is True:
        inside = {}
        for t, _ in leaves:
            for m in deps(t):
                if m.op == "mu":
                    inside.setdefault(m.a[0], set()).add("early" if when(unwrapped(t)) == "start" else "late")
        after = {m.a[0] for t, _ in leaves for m in deps(t) if m.op == "out"}
        joined = any(m.op in ("maybe", "phi") for t, _ in leaves for m in deps(t))
        if any(k == {"early"} and l not in after for l, k in inside.items()) and not joined:
            st, why = False, "states are stored before the step is taken, so that the last one is not"
    rep.put(verdict(False, R.r, R.r.retf) if st is False else st, "stored", what, where, why)


def unwrapped(v):
    while v.op == "meth" and v.a[1] in ("copy", "tolist") or v.op == "call" and v.a[0] in ("numpy.array", "builtins.float"):
        v = v.a[0] if v.op == "meth" else v.a[1][0]
    return v


def callers21(C, rep):
    """Nobody asks for a starting run that stops at ignition."""
    n = 0
    for fid in (SAMPLE, METRICS):
        r = C.run(fid, "sim")
        for e in r.events:
            if e.kind != "rcall" or short(str(e.name)) != "run_case":
                continue
            a = argmap(e) if e.name in C.prog.funcs else {}
            v = a.get("stop_at_ignition")
            n += 1
            if v is None or v is FALSE:
                continue
            t = tri(truth(v), lambda c: None)
            rep.put(None if t is None else verdict(False, r, v) if t else True, f"{short(fid)}.whole",
                    "starting runs are not stopped at ignition", e.loc, f"stop_at_ignition={show(v)}")
    rep.put(True if n else None, "callers", "starting runs are not stopped at ignition", None, f"{n} calls")


def check(C, rep):
    rep.section("first", first_only)
    rep.section("starting", starting_run)
    rep.section("agree", agree)
    rep.section("stored", stored)
    rep.section("callers", callers21)
