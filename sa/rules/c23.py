"""The loop of the sensitivity analysis is read as a recurrence over loop-carried values. Expressions are compared after
substituting the initial values (first iteration) and the values at the end of an accepted iteration (all later ones),
so that "the last accepted model", "its error", "the remaining candidates" and "their evaluated errors" are recognised by
what they are, not by the variables that hold them. Every removal must start from the file of the last accepted model
and exclude exactly the chosen candidate; the candidate must be the one with the evaluated error nearest to the error of
the last accepted model; entry k of the evaluated errors must be the error of the model without candidate k and nothing
else; the errors must be evaluated anew on every accepted model for the greedy algorithm and kept, less the entry of the
removed candidate, for the other; and the loop may only end when no candidate is left, when one was rejected, or when
all of them would be."""
from .stage import *

ASSUMES = ["reduce_model.trim returns the given model without exactly the listed species (C02)",
           "numpy.argmin returns the position of the smallest entry"]
ABS = ("numpy.abs", "numpy.absolute", "numpy.fabs", "builtins.abs")
ARR = ("numpy.array", "numpy.asarray", "builtins.list", "builtins.tuple", "numpy.fromiter")


def algorithm(name):
    """The facts that hold when the algorithm of that name is asked for."""
    out = set()
    for a in ("greedy", "initial"):
        for x in (mk("eq", P("algorithm_type"), const(a)), mk("eq", const(a), P("algorithm_type"))):
            out.add(x if a == name else NOT(x))
    return out


def fold(n):
    """Fields of records that are known."""
    for _ in range(4):
        mp = {}
        for m in deps(n):
            if m.op == "attr" and m.a[0].op in ("nt", "replaced", "phi"):
                f = field(m.a[0], m.a[1])
                if f.op != "attr":
                    mp[m] = f
        if not mp:
            break
        n = subst(n, mp)
    return n


class Loop:
    def __init__(self, C):
        self.r = r = C.run(RUN_SA, "leaf")
        self.info = None
        self.removal = []       # trims of the loop itself
        for e in calls(r, TRIM):
            ls = [p for p in e.pc if p[0] == "loop"]
            x = single(argmap(e).get("exclusion_list"))
            if not ls or ls[-1][2].op != "while" and x is not None and x.op in ("elem", "item") and any(
                    m is ls[-1][2] or m.op in ("elem", "idx") and m.a[0] is ls[-1][2] for m in deps(x)):
                continue        # evaluates one candidate
            self.removal.append(e)
            if self.info is None:
                self.info = r.loops.get(ls[-1][1])
        if self.info is None:
            return
        i = self.info
        self.mu = {k: mk("mu", i["lid"], k) for k in i["init"]}
        self.mp0 = {m: i["init"][k] for k, m in self.mu.items() if i["init"][k] is not None}
        self.mp1 = {m: i["next"][k] for k, m in self.mu.items() if i["next"].get(k) is not None}
        self.guards = [strip_versions(g) for g in q.next_guards(i)]
        # only turns in which a candidate is tried
        pc = self.removal[0].pc
        at = max(j for j, p in enumerate(pc) if p[0] == "loop")
        self.reached = [strip_versions(p[1]) for p in pc[at + 1:] if p[0] == "g"]

    def first(self, n):
        return fold(strip_versions(subst(n, self.mp0)))

    def later(self, n, facts=()):
        """Value in an iteration that follows an accepted one."""
        n = fold(strip_versions(subst(n, self.mp1)))
        facts = frozenset(q.flat(self.guards + self.reached)) | frozenset(facts)
        for _ in range(4):
            mp = {}
            for m in deps(n):
                if m.op == "phi":
                    v = assume(m, facts)
                    if v is not m:
                        mp[m] = v
            if not mp:
                break
            n = subst(n, mp)
        return resolve(n, facts)


def single(n):
    """The one element of a list with exactly one, or None."""
    if n is None:
        return None
    if n.op in ("coll", "tuple"):
        ms = list(q.members(n))
        if len(ms) == 1 and ms[0][0] == "item" and not ms[0][2] and not ms[0][3]:
            return ms[0][1]
        if len(ms) == 1 and ms[0][0] == "splice" and ms[0][1] is not n:
            return single(ms[0][1])
    if n.op == "item" and n.a[1].op == "slice":
        lo, hi = n.a[1].a[:2]
        d = linear(mk("bin", "-", hi, lo)) if hi is not NONE and lo is not NONE else None
        if d == {1: 1}:
            return mk("item", n.a[0], lo)
    return None


def several(n):
    """A list that is known not to have exactly one element, whatever the run."""
    if n is None or n.op not in ("coll", "tuple", "item", "mu", "removed"):
        return False
    if n.op in ("coll", "tuple"):
        ms = list(q.members(n))
        return len(ms) != 1 or ms[0][0] == "item" and bool(ms[0][3]) or ms[0][0] == "splice" and ms[0][1] is not n and \
            several(ms[0][1])
    if n.op == "item":
        return n.a[1].op == "slice" and single(n) is None
    return True


def unversioned(n):
    return strip_versions(n) if n is not None else None


def file_of(r, n):
    """Of a file name: the trim its model comes from."""
    if n is not None and n.op == "rcall" and n.a[0] == WRITE:
        t = q.nodearg(n, "solution")
        if t is not None and t.op == "rcall" and t.a[0] == TRIM:
            return t
    return None


def candidates(L):
    """(candidate taken by the removal, list it is taken from, position)."""
    for e in L.removal:
        x = single(argmap(e).get("exclusion_list"))
        if x is None:
            continue
        if x.op == "item" and len(x.a) >= 2 and x.a[0].op == "mu" and x.a[0].a[0] is L.info["lid"]:
            yield e, x, x.a[0], x.a[1]
        else:
            yield e, x, None, None


def removals(C, rep):
    L = Loop(C)
    r = L.r
    for e in calls(r, TRIM):
        what = "one candidate is taken out at a time"
        ex = argmap(e).get("exclusion_list")
        if single(ex) is not None:
            rep.ok("one", what, e.loc)
        else:
            rep.put(verdict(False, r, ex) if several(ex) else None, "one", what, e.loc, str(ex)[:200])
    if L.info is None or not L.removal:
        rep.und("base", "the loop of removals was not recognised")
        return
    for e in L.removal:
        am = argmap(e)
        base = unversioned(am.get("initial_model_file"))
        what = "each removal starts from the last accepted model"
        if base is None:
            rep.und("base", what, e.loc)
        else:
            b0 = L.first(base)
            rep.put(verdict(b0 is P("model_file"), r, b0), "base", what + ": at first the given one", e.loc,
                    str(b0)[:160])
            for fs, b1 in cases(L.later(base)):
                t = file_of(r, b1)
                ok = t is not None and strip_versions(t) is strip_versions(e.node)
                rep.put(verdict(ok, r, b1), "base", what + ": then the one just accepted", e.loc,
                        "" if ok else f"the next removal starts from {str(b1)[:200]}")


def deviation(n):
    """n is |E - c| (entry by entry): its two sides."""
    if n.op == "call" and n.a[0] in ABS and n.a[1]:
        b = n.a[1][0]
        if b.op == "bin" and b.a[0] == "-":
            return b.a[1], b.a[2]
        return None
    if n.op == "bin" and n.a[0] in ("**", "*") and n.a[1].op == "bin" and n.a[1].a[0] == "-" and (
            is_const(n.a[2]) and cval(n.a[2]) == 2 if n.a[0] == "**" else n.a[2] is n.a[1]):
        return n.a[1].a[1], n.a[1].a[2]
    return None


def choice(C, rep):
    L = Loop(C)
    r = L.r
    if L.info is None:
        rep.und("choice", "the loop of removals was not recognised")
        return
    what = "the candidate with the evaluated error nearest to that of the last accepted model is tried"
    for e, x, lst, pos in candidates(L):
        if pos is None:
            # a fixed member of the list, or another way to choose
            rep.und("choice", what, e.loc, str(x)[:160])
            continue
        pos = strip_versions(pos)
        while pos.op == "call" and pos.a[0] in ("builtins.int", "operator.index") and pos.a[1]:
            pos = pos.a[1][0]
        if is_const(pos):
            rep.put(verdict(False, r, lst), "choice", what, e.loc, f"always the candidate at {cval(pos)}")
            continue
        if pos.op != "call" or pos.a[0] not in ("numpy.argmin", "numpy.argmax", "numpy.nanargmin", "numpy.nanargmax"):
            rep.und("choice", what, e.loc, str(pos)[:160])
            continue
        if pos.a[0].endswith("max"):
            rep.put(verdict(False, r, pos), "choice", what, e.loc, "the farthest one is tried")
            continue
        d = deviation(pos.a[1][0])
        E = err = None
        if d is not None:
            for a, b in (d, d[::-1]):
                if evaluated(L, a):
                    E, err = a, b
        if E is None:
            rep.put(verdict(False, r, pos), "choice", what, e.loc, f"smallest of {str(pos.a[1][0])[:200]}")
            continue
        e0 = L.first(err)
        rep.put(verdict(linear(e0) == {P("starting_error"): 1}, r, e0), "choice.error", "the error compared is at first that of the "
                "given model", e.loc, str(e0)[:160])
        for fs, e1 in cases(L.later(err)):
            ok = e1.op == "rcall" and e1.a[0] == ERROR and of_model(e1) is not None and \
                strip_versions(of_model(e1)) is strip_versions(e.node)
            rep.put(verdict(ok, r, e1), "choice.error", "the error compared is that of the model just accepted", e.loc,
                    "" if ok else str(e1)[:200])


def of_model(n):
    """The trim whose result's error an error value is."""
    m = q.nodearg(n, "metrics_test")
    if m is None or m.op != "rcall" or m.a[0] != METRICS:
        return None
    f = q.nodearg(m, "model")
    return file_of(None, f)


def evaluated(L, n):
    """n holds the evaluated errors: loop-carried, initially one error for each candidate."""
    return n.op == "mu" and n.a[0] is L.info["lid"] and any(
        x.op == "rcall" and x.a[0] == ERROR for x in deep_deps(L.r, L.first(n)))


def vector(L, n):
    """Of a vector of errors: (candidates, [(element of the candidates, value, conditions)]) or None."""
    while n.op == "call" and n.a[0] in ARR and n.a[1]:
        n = n.a[1][0]
    if n.op == "storefor":
        init, it, k, ents = n.a[:4]
        return it, [(i, v, c) for i, v, c in ents], init
    if n.op == "coll":
        ms = list(q.members(n))
        if ms and all(m[0] == "item" and len(m[3]) == 1 for m in ms):
            return ms[0][3][0][0], [(None, m[1], AND(*m[2])) for m in ms], None
    return None


def check_vector(L, rep, n, lst, base_ok, loc, which):
    """n[k] is the error of the model (base) without candidate k of lst."""
    r = L.r
    what = f"the evaluated errors ({which}) are those of the model without each one candidate"
    v = vector(L, n)
    if v is None:
        rep.und("evaluated", what, loc, str(n)[:160])
        return
    it, ents, init = v
    elems = {}
    for m in q.members(lst):
        if m[0] == "item":
            elems[strip_versions(m[1])] = set(q.flat([strip_versions(g) for g in m[2]]))
    if len(ents) != 1:
        rep.und("evaluated", what, loc, f"{len(ents)} values per candidate")
        return
    ix, val, c = ents[0]
    its = strip_versions(it)
    if its.op == "call" and its.a[0] in ("builtins.sorted", "builtins.reversed", "builtins.set", "builtins.frozenset") and \
            its.a[1] and strip_versions(its.a[1][0]) is strip_versions(lst):
        rep.put(verdict(False, r, its), "evaluated.entry", f"entry k of the errors ({which}) belongs to candidate k", loc,
                "the candidates are evaluated in another order")
        return
    for fs, val in cases(strip_versions(val)):
        t = of_model(val) if val.op == "rcall" and val.a[0] == ERROR else None
        if t is None:
            rep.put(verdict(False, r, val) if val.op in ("rcall", "const", "param", "attr") else None, "evaluated", what, loc,
                    f"entry: {str(val)[:200]}")
            return
    x = single(q.nodearg(t, "exclusion_list"))
    if x is None:
        ex = q.nodearg(t, "exclusion_list")
        rep.put(verdict(False, r, ex) if several(ex) else None, "evaluated", what, loc, f"removes {str(ex)[:160]}")
        return
    x = strip_versions(x)
    own = x in elems or x.op == "elem" and strip_versions(x.a[0]) is strip_versions(lst) or \
        x.op == "elem" and strip_versions(x.a[0]) is strip_versions(it) and strip_versions(it) is strip_versions(lst)
    if not own:
        inner = x.op == "item" and strip_versions(x.a[0]) is strip_versions(lst)
        if inner and ix is not None and strip_versions(x.a[1]) is strip_versions(ix):
            own = True
        else:
            rep.put(verdict(False, r, x) if inner else None, "evaluated", what, loc, f"removes {str(x)[:160]}")
            return
    good = True
    if ix is not None:
        ixs = strip_versions(ix)
        good = ixs.op == "idx" and strip_versions(ixs.a[0]) in (strip_versions(lst), strip_versions(it)) or \
            x.op == "item" and ixs is strip_versions(x.a[1])
        if x in elems and ixs.op == "idx" and strip_versions(ixs.a[0]) is not strip_versions(lst) and elems[x]:
            good = False
        rep.put(verdict(good, r, ixs) if ixs.op in ("idx", "bin", "const") else (True if good else None), "evaluated.entry",
                f"entry k of the errors ({which}) belongs to candidate k", loc, "" if good else f"stored at {str(ixs)[:120]}")
    extra = [g for g in q.flat([strip_versions(c)] if isinstance(c, N) else []) if g is not TRUE and
             not any(g in s for s in elems.values())]
    rep.put(verdict(not extra, r, *extra), "evaluated", what, loc, f"only when {str(extra[0])[:160]}" if extra else "")
    b = strip_versions(q.nodearg(t, "initial_model_file"))
    rep.put(verdict(base_ok(b), r, b), "evaluated.base", f"the errors ({which}) are evaluated on "
            + ("the given model" if which == "at first" else "the model just accepted"), loc,
            "" if base_ok(b) else f"on {str(b)[:200]}")


def list_of(L):
    for e, x, lst, pos in candidates(L):
        if lst is not None:
            return e, lst, strip_versions(pos)
    return None, None, None


def errors(C, rep):
    L = Loop(C)
    r = L.r
    if L.info is None:
        rep.und("evaluated", "the loop of removals was not recognised")
        return
    e, lst, pos = list_of(L)
    if lst is None:
        rep.und("evaluated", "the list of candidates was not recognised")
        return
    Es = [m for m in L.mu.values() if m in deps(pos) and evaluated(L, m)]
    if len(Es) != 1:
        rep.und("evaluated", "the vector of evaluated errors was not recognised")
        return
    E = Es[0]
    loc = L.info["loc"]
    for fs, v in cases(L.first(E)):
        check_vector(L, rep, v, L.first(lst), lambda b: b is P("model_file"), loc, "at first")
    cand = strip_versions(e.node)
    nlst = L.later(lst)

    def accepted(b):
        t = file_of(r, b)
        return t is not None and strip_versions(t) is cand
    what = {True: "the greedy algorithm evaluates the remaining candidates on every accepted model",
            False: "the initial algorithm keeps the first evaluation, less the removed candidate"}
    for greedy in (True, False):
        facts = algorithm("greedy" if greedy else "initial")
        for fs, v in cases(L.later(E, facts), facts):
            if any(NOT(f) in fs for f in facts):
                continue
            left = dropped(L, v, E, pos)
            fresh = vector(L, v) is not None
            if greedy:
                if fresh:
                    rep.ok("greedy", what[True], loc)
                    check_vector(L, rep, v, nlst, accepted, loc, "after a removal")
                else:
                    rep.put(verdict(False, r, v) if left is not None else None, "greedy", what[True], loc, str(v)[:160])
            elif left:
                rep.ok("initial", what[False], loc)
            else:
                rep.put(verdict(False, r, v) if fresh or left is False else None, "initial", what[False], loc, str(v)[:160])
    # the candidate leaves the list
    for fs, v in cases(nlst):
        ok = v.op == "removed" and v.a[0] is lst and (v.a[1] in ("pop", "del") and strip_versions(v.a[2]) is pos or
                                                      v.a[1] == "remove")
        bad = v is lst or v.op == "removed" and v.a[0] is lst and v.a[1] in ("pop", "del")
        rep.put(True if ok else (verdict(False, r, v) if bad else None), "once", "the candidate tried leaves the list", loc,
                "" if ok else str(v)[:160])


def dropped(L, v, E, pos):
    """v is E without the entry at pos: True; another part of E or E itself: False; else None."""
    if v is E:
        return False
    if v.op == "call" and v.a[0] == "numpy.delete" and len(v.a[1]) >= 2 and v.a[1][0] is E:
        return strip_versions(v.a[1][1]) is pos
    if v.op == "removed" and v.a[0] is E and v.a[1] in ("pop", "del"):
        return strip_versions(v.a[2]) is pos
    return None


def ends(C, rep):
    """The loop goes on unless nothing is left, the candidate was rejected or all others would be."""
    L = Loop(C)
    r = L.r
    if L.info is None:
        rep.und("ends", "the loop of removals was not recognised")
        return
    e, lst, pos = list_of(L)
    if lst is None:
        rep.und("ends", "the list of candidates was not recognised")
        return
    nl = L.later(lst)
    it = L.info["it"]
    if it.op != "while" and not unbounded(it):
        it = strip_versions(it)
        n = it.a[1][0] if it.op == "call" and it.a[0] == "builtins.range" and len(it.a[1]) == 1 else None
        if n is None and any(m[3] and m[3][0][0] is it for m in q.members(L.first(lst)) if m[0] == "item"):
            n = mk("len", L.first(lst))      # one turn for each entry the list was made from
        full = n is not None and (n.op == "len" and n.a[0] is L.first(lst) or n.op == "call" and n.a[0] == "builtins.len" and
                                  n.a[1][0] is L.first(lst))
        rep.put(full or (None if n is None else verdict(False, r, n)), "ends", "there are as many turns as candidates",
                L.info["loc"], "" if full else str(it)[:160])
    what = "the analysis goes on while a candidate may still be removed"
    for greedy in (True, False):
        facts = algorithm("greedy" if greedy else "initial")
        conds = [strip_versions(x) for x in q.flat([L.info["cond"]])]
        for g in [g for g in L.guards if g not in conds and g not in L.reached] + conds:
            lists = (nl, lst) if g in conds else (lst, nl)
            g = resolve(g, frozenset(facts))
            v, und = True, ""
            for sit in SITUATIONS:
                # at the head of an iteration the list still holds the candidate to try
                t = tri(g, lambda x: compare(L, x, e, lists, sit))
                if t is False:
                    v = False
                    break
                if t is None:
                    v = None
            rep.put(v if v is not False else verdict(False, r, g), "ends", what, L.info["loc"],
                    "" if v else f"{'ends although' if v is False else 'also needs'} {str(NOT(g) if v is False else g)[:200]}")


# a candidate has just been accepted and one that could be removed is left: limit, error of the model, smallest and largest
# evaluated error of those left, number left
SITUATIONS = [(10.0, e, lo, hi, n) for e in (0.0, 4.0, 10.0) for lo in (0.0, 7.0, 10.0) for hi in (lo, 60.0) for n in (1, 4)
              if n > 1 or hi == lo]


def quantity(L, n, e, lists, sit):
    lim, err, lo, hi, left = sit
    if n.op == "const":
        v = cval(n)
        return v if isinstance(v, (int, float)) else None
    if n is P("error_limit"):
        return lim
    if n.op == "len" and n.a[0] in lists or n.op == "call" and n.a[0] == "builtins.len" and n.a[1] and n.a[1][0] in lists:
        return left + (1 if (n.a[0] if n.op == "len" else n.a[1][0]) is lists[0] else 0)
    if n.op == "rcall" and n.a[0] == ERROR:
        t = of_model(n)
        return err if t is not None and strip_versions(t) is strip_versions(e.node) else None
    if n.op == "call" and n.a[1] and n.a[0].rsplit(".", 1)[-1] in ("min", "amin", "nanmin", "max", "amax", "nanmax") and \
            len(n.a[1]) == 1 and any(x.op == "rcall" and x.a[0] == ERROR for x in deep_deps(L.r, n.a[1][0])) and \
            vector(L, n.a[1][0]) is not None:
        return lo if "min" in n.a[0].rsplit(".", 1)[-1] else hi
    if n.op == "bin" and n.a[0] in ("+", "-", "*", "/"):
        a, b = quantity(L, n.a[1], e, lists, sit), quantity(L, n.a[2], e, lists, sit)
        if a is None or b is None or n.a[0] == "/" and not b:
            return None
        return {"+": a + b, "-": a - b, "*": a * b, "/": a / (b or 1)}[n.a[0]]
    return None


def each(L, n, e, lists, sit):
    """Smallest and largest entry of the evaluated errors of those left, or a number."""
    if vector(L, n) is not None and any(x.op == "rcall" and x.a[0] == ERROR for x in deep_deps(L.r, n)):
        return sit[2], sit[3]
    v = quantity(L, n, e, lists, sit)
    return None if v is None else (v,)


def compare(L, x, e, lists, sit):
    if x.op == "truth" and x.a[0].op == "call":
        x = x.a[0]
    if x.op == "call" and x.a[0] in ("numpy.all", "numpy.any", "builtins.all", "builtins.any") and len(x.a[1]) == 1 and \
            x.a[1][0].op in ("lt", "le"):
        # of every or of some evaluated error
        c, every = x.a[1][0], x.a[0].endswith("all")
        got = [each(L, y, e, lists, sit) for y in c.a]
        if None in got or all(len(g) == 1 for g in got):
            return None
        rs = [a < b if c.op == "lt" else a <= b for a in got[0] for b in got[1]]
        return all(rs) if every else any(rs)
    if x.op == "truth":
        if x.a[0] in lists:
            return True
        v = quantity(L, x.a[0], e, lists, sit)
        return None if v is None else bool(v)
    if x.op in ("lt", "le", "eq"):
        a, b = (quantity(L, y, e, lists, sit) for y in x.a)
        if a is None or b is None:
            return None
        return a < b if x.op == "lt" else a <= b if x.op == "le" else a == b
    return None


def check(C, rep):
    rep.section("base", removals)
    rep.section("choice", choice)
    rep.section("evaluated", errors)
    rep.section("ends", ends)
