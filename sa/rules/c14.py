"""Pruning keeps what the graphs say is important. For every call of trim in a graph stage the analysis computes a
formula for 'species x is in the exclusion list' from the value graph and reads it, atom by atom, in every world of the
atoms it may depend on (reached from a target in each sampled state / importance below, at or above the threshold /
retained / target): x must be excluded exactly when no state reaches it (or its importance is below the threshold) and
it is not protected. The search functions are decided from their own value graphs: which graph is built from the
matrix, which edges survive the threshold, from which nodes and in which direction it is searched, and - for DRGEP - the
recurrences of the two maxima and the update and push conditions of the label-correcting path search."""
import itertools

from .common import *

ASSUMES = ["networkx.DiGraph(matrix) has an edge i->j with weight matrix[i, j] for every non-zero entry",
           "relabel_nodes(copy=False) renames the nodes of the graph in place",
           "dfs_preorder_nodes yields the source and everything reachable from it",
           "raising the threshold never makes another species reachable or important (so equal counts are equal sets)"]
DIJK = q.DRGEP + "ss_dijkstra_path_length_modified"
GSEARCH = q.DRGEP + "graph_search_drgep"
GIC = SEARCH["DRGEP"]
NS = 2            # sampled states distinguished in a world


class Wrong(Exception):
    """The value is understood and is not what the property asks for."""


class Und(Exception):
    pass


# ------------------------------------------------------------ which sampled state a matrix belongs to
def is_sol(r, n):
    n = strip_versions(n)
    ss = [strip_versions(s) for s in sources(r, n)]
    if ss and all(s.op == "call" and s.a[0] == "cantera.Solution" for s in ss):
        for s in ss:
            f = s.a[1][0] if s.a[1] else dict(s.a[2]).get("infile")
            if f is not P("model_file"):
                raise Wrong(f"a model loaded from {str(f)[:80]}")
        return True
    if any(s.op == "attr" and s.a[1] == "model" for s in ss):
        raise Wrong(f"species of a reduced model: {str(n)[:100]}")
    return False


def is_names(r, n):
    n = q.unwrap_list(strip_versions(n))
    if n.op == "call" and n.a[0] in ("builtins.sorted", "builtins.reversed", "builtins.set") or \
            n.op == "item" and n.a[1].op == "slice" and n.a[1].a != (NONE, NONE, NONE):
        raise Wrong(f"{str(n)[:100]}")
    if n.op == "meth" and n.a[1] == "species_names" and not n.a[2]:
        n = mk("attr", n.a[0], "species_names", None)
    return n.op == "attr" and n.a[1] == "species_names" and is_sol(r, n.a[0])


def is_data(n):
    """The sampled states: second result of sample."""
    n = q.unwrap_list(n)
    return n.op == "item" and is_const(n.a[1], 1) and n.a[0].op == "rcall" and n.a[0].a[0] == SAMPLE


def value_deps(n, out=None):
    """Nodes a value is made of, the conditions that select it left out."""
    out = set() if out is None else out
    if n in out:
        return out
    out.add(n)
    if n.op == "phi":
        cs = n.a[1:]
    elif n.op == "first":
        cs = (n.a[3],)
    elif is_bool(n):
        cs = ()
    else:
        cs = ir_children(n)
    for c in cs:
        value_deps(c, out)
    return out


class Worlds:
    """Reads formulas about one species in a world. at(k): state index of loop variable k."""

    def __init__(self, r, name, role):
        self.r, self.name, self.role = r, name, role
        self.free = {}
        self.used = set()

    # --- states
    def whole(self, it):
        """it enumerates all states in order: returns True, or the offset for a tail, or raises."""
        it = q.unwrap_list(strip_versions(it))
        if it.op == "call" and it.a[0] in ("builtins.reversed", "builtins.iter") and it.a[1]:
            return self.whole(it.a[1][0])
        if is_data(it) or it is P("matrices"):
            return list(range(NS))
        if it.op == "item" and it.a[1].op == "slice":
            base = self.whole(it.a[0])
            lo, hi, st = [None if z is NONE else cval(z) if z.op == "const" else UNDEF for z in it.a[1].a]
            if UNDEF in (lo, hi, st):
                raise Und(str(it)[:100])
            return base[slice(lo, hi, st)]
        if it.op == "coll":
            es = list(members(it))
            if len(es) == 1 and es[0][0] == "item" and len(es[0][3]) == 1:
                kind, v, gs, bs = es[0]
                got = self.whole(bs[0][0])
                if gs:
                    raise Und("filtered states")
                return got
            if len(es) == 1 and es[0][0] == "splice" and not es[0][2]:
                return self.whole(es[0][1])
        if it.op == "call" and it.a[0] in ("builtins.range", "builtins.enumerate", "builtins.zip"):
            if it.a[0] == "builtins.range" and len(it.a[1]) == 1:
                x = it.a[1][0]
                if x.op == "call" and x.a[0] == "builtins.len":
                    return self.whole(x.a[1][0])
            if it.a[0] == "builtins.enumerate":
                return self.whole(it.a[1][0])
        raise Und(f"states {str(it)[:100]}")

    def row(self, n, env):
        """State index that row value n denotes."""
        n = strip_versions(n)
        if n.op == "elem":
            key = n
            if key in env:
                return env[key]
            return self.whole(n.a[0])[-1]       # the value the last round left
        if n.op == "item" and n.a[1].op in ("const", "un"):
            ws = self.whole(n.a[0])
            i = cval(n.a[1]) if n.a[1].op == "const" else None
            if isinstance(i, int) and not isinstance(i, bool) and ws:
                return ws[0] if i == 0 else ws[-1] if i == -1 else ws[min(i, len(ws) - 1)] if i > 0 else ws[0]
        if n.op == "item" and n.a[1].op in ("idx", "elem"):
            j = n.a[1]
            self.whole(n.a[0])
            for key, w in env.items():
                if key.op == "elem" and (j.op == "idx" and j.a == key.a or j is key):
                    return w
        raise Und(f"state {str(n)[:100]}")

    def state(self, m, env):
        """State index a matrix was computed from."""
        m = strip_versions(m)
        if m.op in ("elem", "item"):
            it = m.a[0]
            while it.op == "item" and it.a[1].op == "slice" and m.op == "elem":
                it = q.unwrap_list(it.a[0])     # env counts states, not positions
            if it is P("matrices"):
                return self.row(m, env)
            if it.op == "coll":
                es = list(members(it))
                if len(es) == 1 and es[0][0] == "item" and len(es[0][3]) == 1 and m.op == "elem":
                    v, (b,) = es[0][1], es[0][3]
                    e2 = dict(env)
                    e2[mk("elem", b[0], b[1])] = env.get(m)
                    if env.get(m) is not None:
                        return self.state(v, e2)
            raise Und(f"matrix {str(m)[:100]}")
        if m.op == "last" or m.op == "out":
            raise Und("matrix of a loop")
        if not (m.op == "rcall" and m.a[0] == MATRIX[self.name]):
            if m.op == "rcall" and m.a[0] in MATRIX.values():
                raise Wrong(f"matrix of {short(m.a[0])}")
            raise Und(f"matrix {str(m)[:100]}")
        st, sol = q.nodearg(m, "state"), q.nodearg(m, "solution")
        if not is_sol(self.r, sol):
            raise Und(f"solution {str(sol)[:80]}")
        return self.state_row(st, env)

    def state_row(self, st, env):
        st = strip_versions(st)
        if st.op == "call" and st.a[0] in ("builtins.tuple", "builtins.list") and st.a[1]:
            st = st.a[1][0]
        parts = list(st.a) if st.op == "tuple" else [e[1] if e[0] == "item" else None for e in st.a[1]] if st.op == "coll" else None
        if parts is None or len(parts) != 3 or any(p is None for p in parts):
            raise Und(f"state {str(st)[:100]}")
        rows, idx = [], []
        for p in parts:
            if p.op == "meth" and p.a[1] == "copy":
                p = p.a[0]
            if p.op == "call" and p.a[0] in ("builtins.float", "numpy.array", "numpy.asarray", "builtins.list", "builtins.tuple") and len(p.a[1]) == 1:
                p = p.a[1][0]
            if p.op != "item":
                raise Und(f"state {str(st)[:100]}")
            rows.append(p.a[0])
            j = p.a[1]
            idx.append(tuple(None if z is NONE else cval(z) if z.op == "const" else UNDEF for z in j.a) if j.op == "slice"
                       else cval(j) if j.op == "const" else UNDEF)
        if len(set(rows)) != 1:
            raise Und(f"state {str(st)[:100]}")
        i = self.row(rows[0], env)
        want = [0, 1, (2, None, None)]
        if idx != want:
            if any(z is UNDEF or isinstance(z, tuple) and UNDEF in z for z in idx):
                raise Und(f"state {str(st)[:100]}")
            raise Wrong(f"state is made of columns {idx}")
        return i

    # --- formulas
    def search(self, n, w, env):
        """Value of 'x in search(...)' in world w."""
        if not any(p.op == "rcall" for p in (n,)) or n.a[0] != SEARCH[self.name]:
            raise Und(str(n)[:100])
        if not is_names_ok(self.r, q.nodearg(n, "species_names")):
            raise Und("species names")
        t = q.nodearg(n, "species_targets")
        if t is None or not same_param(self.r, t, "species_targets"):
            s = [strip_versions(z) for z in sources(self.r, t)] if t is not None else []
            if s and all(z.op in ("param", "item", "const", "coll", "tuple") for z in s) and not has_unk_deep(self.r, *s):
                raise Wrong(f"searched from {str(t)[:80]}")
            raise Und(f"targets {str(t)[:80]}")
        th = q.nodearg(n, "threshold")
        lev = self.level(th)
        i = self.state(q.nodearg(n, "matrix"), env)
        self.used.add(lev)
        return w[lev][i]

    def level(self, th):
        up, lo = P("threshold_upper"), P("threshold")
        ss = [strip_versions(x) for x in sources(self.r, th)]
        if all(x is up for x in ss):
            return "upper"
        if any(x is up for x in ss):
            raise Wrong(f"threshold {str(th)[:100]}")
        if any(up in value_deps(x) for x in ss):
            raise Und(f"threshold {str(th)[:80]}")
        if all(x.op == "const" for x in ss) and len(ss) == 1:
            raise Wrong(f"threshold {th}")
        if th is lo or strip_versions(th).op in ("mu", "bin", "out", "phi", "last", "const", "first"):
            return "lower"
        raise Und(f"threshold {str(th)[:80]}")

    def ev(self, c, w, env=None):
        env = env or {}
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        op = c.op
        if op == "not":
            return not self.ev(c.a[0], w, env)
        if op in ("and", "or"):
            und, stop = None, op == "or"
            for x in c.a:
                try:
                    v = self.ev(x, w, env)
                except (Und, Wrong) as ex:
                    und = ex if und is None or isinstance(ex, Wrong) else und
                    continue
                if v is stop:
                    return stop
            if und is not None:
                raise und
            return not stop
        if op == "phi":
            try:
                g = self.ev(c.a[0], w, env)
            except Und:
                a, b = self.ev(c.a[1], w, env), self.ev(c.a[2], w, env)
                if a is b:
                    return a
                raise
            return self.ev(c.a[1] if g else c.a[2], w, env)
        if op == "exists":
            it, k, b = c.a
            out = False
            el = mk("elem", it, k)
            if not (deps(b) & {X}):
                raise Und(f"{str(c)[:100]}")
            if same_param(self.r, it, "species_targets") or same_param(self.r, it, "species_safe"):
                # one of the names may be x itself, another may contain the name of x or be contained in it ('H' and 'H2')
                listed = w["T" if same_param(self.r, it, "species_targets") else "S"]
                vs = [tri(b, lambda z, same=same: same if z.op == "eq" and set(z.a) == {X, el} else
                          True if z.op == "in" and set(z.a) == {X, el} else None)
                      for same in ((True, False) if listed else (False,))]
                if True in vs:
                    return True
                if None in vs:
                    raise Und(f"{str(c)[:100]}")
                return False
            for i in self.whole(it):
                out = self.ev(b, w, {**env, el: i, mk("idx", it, k): i}) or out
            return out
        if op == "truth":
            return self.truth(c.a[0], w, env)
        if op == "in":
            return self.isin(c.a[0], c.a[1], w, env)
        if op in ("lt", "le", "eq"):
            return self.compare(op, c.a[0], c.a[1], w, env)
        if op == "is" and NONE in c.a:
            o = c.a[0] if c.a[1] is NONE else c.a[1]
            if o is P("threshold_upper"):
                return not w["up"]
        return self.unknown(c, w)

    def unknown(self, c, w):
        raise Und(f"{str(c)[:160]}")

    def truth(self, n, w, env):
        s = strip_versions(n)
        if s is P("species_targets"):
            return True
        if s is P("threshold_upper"):
            return w["up"]
        if s is P("species_safe"):
            return w["S"] or w.get("safe", False)
        if is_data(s) or s is P("matrices"):
            return True
        if s.op in ("and", "or", "not", "phi", "eq", "in", "is", "lt", "le", "exists", "truth"):
            return self.ev(s, w, env)
        if s.op == "const":
            return bool(cval(s))
        return self.unknown(truth(n), w)

    def isin(self, x, n, w, env):
        n = strip_versions(n)
        if x is not X:
            raise Und(f"{str(x)[:80]} in {str(n)[:80]}")
        if n is P("species_safe"):
            return w["S"]
        if n is P("species_targets"):
            return w["T"]
        if n.op == "rcall" and n.a[0] in SEARCH.values():
            return self.search(n, w, env)
        if n.op == "attr" and n.a[1] == "species_names":
            ms = sources(self.r, n.a[0])
            if any(z.op == "rcall" and z.a[0] == TRIM or z.op == "attr" and z.a[1] == "model" for z in ms):
                return w.get("kept", True)
            if is_names(self.r, n):
                return True
        if n.op == "last":
            it, k, val, init = n.a
            ws = self.whole(it)
            return self.ev(self.r.interp.isin(X, val), w, {**env, mk("elem", it, k): ws[-1]})
        if n.op == "mu":
            if n in env:
                return env[n]
            L = self.r.loops[n.a[0]]
            ini, nx = (self.r.st.heap.get(z, z) for z in (L["init"].get(n.a[1]), L["next"].get(n.a[1])))
            if L["it"].op == "while" or L["breaks"] or not isinstance(ini, N) or not isinstance(nx, N):
                raise Und(str(n)[:100])
            v = self.ev(self.r.interp.isin(X, ini), w, env)
            f = self.r.interp.isin(X, nx)
            for i in self.whole(L["it"])[:-1]:
                v = self.ev(f, w, {**env, mk("elem", L["it"], L["k"]): i, n: v})
            return v
        f = self.r.interp.isin(X, n)
        if f.op == "in" and f.a[1] is n:
            return self.unknown(f, w)
        return self.ev(f, w, env)

    def compare(self, op, a, b, w, env):
        if op == "eq" and (a is X or b is X):
            raise Und(f"{str(a)[:80]} == {str(b)[:80]}")
        va, vb = self.rank(a, w), self.rank(b, w)
        if va is None or vb is None:
            return self.unknown(mk(op, a, b), w)
        return va < vb if op == "lt" else va <= vb if op == "le" else va == vb

    def rank(self, n, w):
        """Position of a number on the scale importance / thresholds."""
        n = strip_versions(n)
        v = None
        if n.op == "item" and n.a[1] is X:
            v = n.a[0]
        elif n.op == "meth" and n.a[1] == "get" and n.a[2] and n.a[2][0] is X:
            v = n.a[0]
        if v is not None:
            self.importance(v)
            return w["imp"]
        if n.op == "const":
            return None
        try:
            lev = self.level(n)
        except Und:
            return None
        return 2 if lev == "lower" else w["upval"]

    def importance(self, v):
        if v is P("importance_coeffs"):
            return
        if not (v.op == "rcall" and v.a[0] == GIC):
            raise Und(f"importance {str(v)[:80]}")
        if not is_names_ok(self.r, q.nodearg(v, "species_names")):
            raise Und("species names")
        t = q.nodearg(v, "target_species")
        if t is None or not same_param(self.r, t, "species_targets"):
            if t is not None and not has_unk_deep(self.r, t) and t.op in ("param", "item", "const"):
                raise Wrong(f"importance for {str(t)[:80]}")
            raise Und(f"targets {str(t)[:80]}")
        ms = q.nodearg(v, "matrices")
        if list(self.whole(ms)) != list(range(NS)):
            raise Wrong(f"only some states: {str(ms)[:100]}")
        es = list(members(q.unwrap_list(ms))) if q.unwrap_list(ms).op == "coll" else []
        for kind, x, gs, bs in es:
            if kind == "item" and len(bs) == 1:
                self.state(x, {mk("elem", bs[0][0], bs[0][1]): 0})


def is_names_ok(r, n):
    return n is not None and is_names(r, n)


def safe_ev(W, f, w):
    """(value, None) or (None, (status, text))."""
    try:
        return W.ev(f, w), None
    except Wrong as ex:
        return None, (False, str(ex))
    except Und as ex:
        return None, (None, str(ex))


def graph_worlds(upper=False):
    """Reach flags in each state at both thresholds, protected, target."""
    for lo in itertools.product((False, True), repeat=NS):
        for hi in itertools.product(*[((False, True) if x else (False,)) for x in lo]):
            for S_, T in itertools.product((False, True), repeat=2):
                if T and not all(hi):
                    continue
                yield {"lower": lo, "upper": hi, "S": S_, "T": T, "up": True}


def imp_worlds():
    for imp, upv, S_, T, kept in itertools.product((1, 2, 3, 4, 5), (2, 4), (False, True), (False, True), (False, True)):
        if T and imp < 5:
            continue
        yield {"imp": imp, "upval": upv, "S": S_, "T": T, "up": True, "kept": kept}


def exclusion(C, rep, name):
    fid = STAGES[name]
    r = C.run(fid, "leaf")
    ts = calls(r, TRIM)
    key = f"{name}.exclusion"
    if not ts:
        rep.und(key, "no call of trim found in the stage")
    for e in ts:
        ex = argmap(e).get("exclusion_list")
        what = ("trim removes exactly the species no state reaches from a target, unless retained" if name != "DRGEP" else
                "trim removes exactly the species whose importance is below the threshold, unless retained or a target")
        if ex is None:
            rep.und(key, what, e.loc)
            continue
        f = r.interp.isin(X, ex)
        W = Worlds(r, name, "run")
        st, why = True, ""
        for w in (graph_worlds() if name != "DRGEP" else imp_worlds()):
            v, bad = safe_ev(W, f, w)
            if bad is not None:
                if bad[0] is False or st is True:
                    st, why = bad if bad[0] is not False or not has_unk_deep(r, f) else (None, bad[1])
                if st is False:
                    break
                continue
            want = (w["imp"] < 2 and not w["S"] and not w["T"]) if name == "DRGEP" else (
                not any(w["lower"]) and not w["S"])
            if v != want:
                st = None if has_unk_deep(r, f) else False
                why = f"{'removed' if v else 'kept'} although {describe(w, name)}: {str(f)[:200]}"
                break
        rep.put(st, key, what, e.loc, why)


def describe(w, name):
    prot = ("retained" if w["S"] else "not retained") + (", target" if w["T"] else "")
    if name == "DRGEP":
        return f"importance {['', 'below', 'at', 'above', 'above', 'above'][w['imp']]} the threshold, {prot}"
    n = sum(w["lower"])
    return f"reached in {n} of {NS} states, {prot}"


# ------------------------------------------------------------ returning the previous model
def repeated(C, rep, name):
    r0 = C.run(STAGES[name], "leaf")
    fids = {e.func for e in calls(r0, TRIM)}
    for fid in sorted(fids):
        if fid == STAGES[name]:
            rep.und(f"{name}.repeat", "trim is called in the stage itself")
            continue
        r = C.run(fid, "leaf")
        for e in calls(r, TRIM):
            what = "a pruning step is skipped only when it would remove as many species as the previous one"
            st, why = True, ""
            W = Worlds(r, name, "reduce")
            for g in e.guards():
                s, d = skip(W, r, g, name)
                if s is not True and st is not False:
                    st, why = s, d
            rep.put(st, f"{name}.repeat", what, e.loc, why)


def skip(W, r, g, name):
    """g (the condition under which trim runs) must hold whenever the counts differ."""
    notes = []

    def cls(a):
        if a.op == "eq":
            v, why = count_atom(W, r, a, name)
            if why:
                notes.append((v, why))
            return False if v is True else None
        if a.op == "truth" and strip_versions(a.a[0]) is P("previous_model"):
            return None
        if a.op == "is" and NONE in a.a:
            return None
        return None
    ok = all(tri(g, lambda a, pv=pv: pv if prev_atom(a) is True else (not pv if prev_atom(a) is False else cls(a))) is True
             for pv in (True, False))
    if ok:
        return True, ""
    for v, why in notes:
        if v is False:
            return (None if has_unk_deep(r, g) else False), why
    return None, str(g)[:200]


def prev_atom(a):
    """True for 'there is a previous model', False for its negation."""
    if a.op == "truth" and a.a[0] is P("previous_model"):
        return True
    if a.op == "is" and set(a.a) == {NONE, P("previous_model")}:
        return False
    return None


def count_atom(W, r, a, name):
    """Is this equality 'as many species remain (or go) as in the previous model'?"""
    d = linear(mk("bin", "-", a.a[0], a.a[1]))
    if d is None:
        return None, ""
    prev = [k for k in d if isinstance(k, N) and k.op == "attr" and k.a[1] == "n_species" and k.a[0].op == "attr" and
            k.a[0].a[1] == "model" and k.a[0].a[0] is P("previous_model")]
    prevl = [k for k in d if isinstance(k, N) and k.op == "call" and k.a[0] == "builtins.len" and P("previous_model") in deps(k)]
    prev = prev or prevl
    if len(prev) != 1:
        return None, ""
    if prev[0].op == "call":
        m = prev[0].a[1][0]
        if not (m.op in ("attr", "meth") and m.a[1] in ("species", "species_names")):
            return None, ""
    p = d.pop(prev[0])
    d = {k: -v / p for k, v in d.items()}          # previous n_species = sum of d
    lens = [k for k in d if isinstance(k, N) and k.op == "call" and k.a[0] == "builtins.len" and not names_len(r, k)]
    full = [k for k in d if k not in lens and isinstance(k, N) and (k.op == "attr" and k.a[1] == "n_species" and is_sol_q(r, k.a[0])
                                                                     or names_len(r, k))]
    if len(lens) != 1 or len(lens) + len(full) != len(d):
        if len(lens) == 1 and set(d) - set(lens) - set(full) == {1}:
            return False, f"counts are compared with an offset: {str(a)[:160]}"
        return None, ""
    col = lens[0].a[1][0]
    if d[lens[0]] == 1 and not full:
        kind = "kept"
    elif d[lens[0]] == -1 and len(full) == 1 and d[full[0]] == 1:
        kind = "gone"
    else:
        return False, f"counts do not correspond: {str(a)[:160]}"
    dist = distinct(r, col)
    if dist is None:
        return None, ""
    if dist is False:
        return False, f"species are counted once per state: len({str(col)[:120]})"
    f = r.interp.isin(X, col)
    pats = set()
    ws = list(graph_worlds()) if name != "DRGEP" else list(imp_worlds())
    vals = []
    for w in ws:
        v, bad = safe_ev(W, f, w)
        if bad is not None:
            return (False, bad[1]) if bad[0] is False else (None, "")
        vals.append(v)

    def low(w):
        return w["imp"] < 2 if name == "DRGEP" else not any(w["lower"])
    fits = {
        "kept": [lambda w: not low(w), lambda w: not low(w) or w["S"]],
        "gone": [lambda w: low(w), lambda w: low(w) and not w["S"]]}[kind]
    for z in fits:
        if all(z(w) == v for w, v in zip(ws, vals)):
            return True, ""
    return False, f"what is counted is not what {'remains' if kind == 'kept' else 'goes'}: {str(f)[:160]}"


def names_len(r, k):
    try:
        return isinstance(k, N) and k.op == "call" and k.a[0] == "builtins.len" and is_names(r, k.a[1][0])
    except Wrong:
        return False


def is_sol_q(r, n):
    try:
        return is_sol(r, n)
    except Wrong:
        return False


def distinct(r, n):
    """Does collection n hold each species once?"""
    n = strip_versions(n)
    if n.op == "call" and n.a[0] in ("builtins.set", "builtins.frozenset", "builtins.dict.fromkeys", "numpy.unique"):
        return True
    if n.op == "call" and n.a[0] in ("builtins.list", "builtins.sorted", "builtins.tuple"):
        return distinct(r, n.a[1][0])
    if n.op == "meth" and n.a[1] in ("union", "intersection", "difference"):
        return True
    if n.op == "bin" and n.a[0] in ("|", "&", "-"):
        return True
    if n.op == "coll":
        if n.a[0] in ("set", "dict"):
            return True
        es = n.a[1]
        if len(es) == 1:
            e = es[0]
            if e[0] == "splice":
                return distinct(r, e[1])
            if e[0] == "for" and len(e[3]) == 1:
                try:
                    ok = is_names(r, e[1])
                except Wrong:
                    ok = False
                y = e[3][0]
                while y[0] == "if" and len(y[2]) == 1:
                    y = y[2][0]
                if ok:
                    return True if y[0] == "item" and y[1] is mk("elem", e[1], e[2]) else None
                if y[0] == "splice" and y[1].op == "rcall" and y[1].a[0] in SEARCH.values():
                    return False
        return None
    if n.op in ("out", "mu", "phi"):
        return None
    return None


# ------------------------------------------------------------ species for the sensitivity analysis
def limbo(C, rep, name):
    r0 = C.run(STAGES[name], "leaf")
    key, what = f"{name}.limbo", "limbo species are the kept ones that the upper threshold would remove and that are not protected"
    if name == "DRGEP":
        R = unloop(r0, r0.retf)
        v = field(R, "limbo_species")
        r, fid, ws = r0, STAGES[name], imp_worlds()
    else:
        fids = sorted({e.func for e in calls(r0, TRIM)} - {STAGES[name]})
        if len(fids) != 1:
            rep.und(key, what)
            return
        fid = fids[0]
        r = C.run(fid, "leaf")
        v, ws = field(r.retf, "limbo_species"), graph_worlds(True)
    W = Worlds(r, name, "limbo")
    st, why = True, ""
    up = truth(P("threshold_upper"))
    early = [g for e in calls(r, TRIM) for g in e.guards()] if name != "DRGEP" else []
    facts = frozenset([up] + early)
    v1 = assume(v, facts)
    f = r.interp.isin(X, v1)
    off = assume(v, frozenset([NOT(up)] + early))
    got = []
    for w in ws:
        if name == "DRGEP" and w["kept"] == (w["imp"] < 2 and not (w["S"] or w["T"])):
            continue              # the reduced model holds exactly what was not removed
        x, bad = safe_ev(W, f, w)
        if bad is not None:
            st, why = (bad if bad[0] is False and not has_unk_deep(r, f) else (None, bad[1]))
            break
        if name == "DRGEP":
            want = w["kept"] and w["imp"] < w["upval"] and not w["S"] and not w["T"]
        else:
            want = any(w["lower"]) and not any(w["upper"]) and not w["S"]
        got.append((w, x, want))
    if st is True:
        diff = [z for z in got if z[1] != z[2]]
        if diff:
            w, x, _ = diff[0]
            st = None if has_unk_deep(r, f) else False
            why = f"{'in' if x else 'not in'} limbo although " + (
                f"importance {w['imp']} of thresholds 2/{w['upval']}, {'retained' if w['S'] else 'not retained'}" if name == "DRGEP" else
                f"reached in {sum(w['lower'])} states at the threshold, {sum(w['upper'])} at the upper one, "
                f"{'retained' if w['S'] else 'not retained'}")
            if name != "DRGEP" and all(z[1] == any(z[0]["upper"]) for z in got):
                key += ".reached-at-upper"
                why = "limbo are the species reached at the upper threshold: " + why
    rep.put(st, key, what, fn_loc(C, fid), why)
    key = f"{name}.limbo.off"
    what = "no limbo species without an upper threshold"
    if off is UNDEF or off is NONE:
        rep.ok(key, what, fn_loc(C, fid))
        return
    ss = [r.st.heap.get(s, s) if s.op == "default" else s for s in sources(r, off)]
    ms = [s for s in ss if not (s.op == "coll" and not s.a[1] or s is NONE) and not (s.op == "attr" and s.a[1] == "limbo_species")]
    st = True if not ms else False if all(s.op == "coll" for s in ms) and not has_unk_deep(r, *ms) else None
    rep.put(st, key, what, fn_loc(C, fid), str(ms[0])[:200] if ms else "")


def fn_loc(C, fid):
    f = C.prog.funcs.get(fid)
    return (f.mod.path, f.node.lineno) if f is not None else None


# ------------------------------------------------------------ reachability search
def cell(n, m, th, w):
    """Value ('z' zero, 'm' the coefficient, 'o' another non-zero constant) of one matrix entry; w: -1/0/1 = coefficient
    below, at or above the threshold."""
    n = strip_versions(n)
    if n is m:
        return "m"
    if n.op == "const":
        v = cval(n)
        if isinstance(v, (int, float, bool)):
            return "z" if v == 0 else "o"
        raise Und(str(n))
    if n.op == "meth" and n.a[1] in ("copy",) and not n.a[2]:
        return cell(n.a[0], m, th, w)
    if n.op == "meth" and n.a[1] == "astype":
        x = cell(n.a[0], m, th, w)
        if x == "m" and n.a[2] and "int" in str(n.a[2][0]):
            raise Wrong("coefficients cut to integers")
        return x
    if n.op == "call" and n.a[0] in ("numpy.array", "numpy.asarray", "numpy.copy", "numpy.nan_to_num") and n.a[1]:
        return cell(n.a[1][0], m, th, w)
    if n.op == "call" and n.a[0] in ("numpy.zeros_like", "numpy.zeros"):
        return "z"
    if n.op == "call" and n.a[0] == "numpy.where" and len(n.a[1]) == 3:
        return cell(n.a[1][1] if test(n.a[1][0], m, th, w) else n.a[1][2], m, th, w)
    if n.op == "bin" and n.a[0] == "*":
        a, b = cell(n.a[1], m, th, w), cell(n.a[2], m, th, w)
        return "z" if "z" in (a, b) else "m" if "m" in (a, b) else "o"
    if n.op in ("lt", "le", "not", "and", "or"):
        return "o" if test(n, m, th, w) else "z"
    if n.op == "attr" and n.a[1] == "T" or n.op == "call" and n.a[0] == "numpy.transpose" or n.op == "meth" and n.a[1] == "transpose":
        raise Wrong("the matrix is transposed: edges run against the dependence")
    raise Und(f"matrix {str(n)[:120]}")


def test(c, m, th, w):
    c = strip_versions(c)
    if c.op in ("lt", "le"):
        pos = []
        for x in c.a:
            if x is m:
                pos.append(w)
            elif x is th:
                pos.append(0)
            elif x.op == "const" and cval(x) == 0:
                pos.append(-2)
            else:
                if th in deps(x) and x.op == "bin" and m not in deps(x):
                    raise Wrong(f"coefficients are compared with {str(x)[:80]}")
                raise Und(str(c)[:100])
        return pos[0] < pos[1] if c.op == "lt" else pos[0] <= pos[1]
    if c.op == "not":
        return not test(c.a[0], m, th, w)
    if c.op in ("and", "or"):
        vs = [test(x, m, th, w) for x in c.a]
        return all(vs) if c.op == "and" else any(vs)
    if c.op == "call" and c.a[0] in ("numpy.greater_equal", "numpy.greater", "numpy.less", "numpy.less_equal"):
        a, b = c.a[1][:2]
        k = {"numpy.greater_equal": ("le", b, a), "numpy.greater": ("lt", b, a), "numpy.less": ("lt", a, b), "numpy.less_equal": ("le", a, b)}[c.a[0]]
        return test(mk(*k), m, th, w)
    raise Und(str(c)[:100])


FULL = {"networkx.dfs_preorder_nodes", "networkx.dfs_postorder_nodes", "networkx.dfs_tree", "networkx.bfs_tree",
        "networkx.single_source_shortest_path", "networkx.single_source_shortest_path_length", "networkx.shortest_path",
        "networkx.single_source_dijkstra_path_length"}
REST = {"networkx.descendants"}
BACK = {"networkx.ancestors"}


def searching(C, rep, name):
    fid = SEARCH[name]
    r = C.run(fid, "full")
    M, TH, T, NM = P("matrix"), P("threshold"), P("species_targets"), P("species_names")
    locn = fn_loc(C, fid)
    key = f"{name}.search"
    f = r.interp.isin(X, r.retf)
    graphs = set()
    st, why = True, ""
    # world: how x relates to each of two targets
    for rel in itertools.product(("self", "reach", "none"), repeat=NS):
        if rel.count("self") > 1:
            continue
        try:
            v = reach(r, f, rel, {}, T, graphs)
        except Wrong as ex:
            st, why = (None if has_unk_deep(r, f) else False), str(ex)
            break
        except Und as ex:
            st, why = None, str(ex)
            break
        want = any(z != "none" for z in rel)
        if v != want:
            st = None if has_unk_deep(r, f) else False
            why = f"species that is {rel} for the targets is {'' if v else 'not '}returned: {str(f)[:160]}"
            break
    rep.put(st, f"{key}.reached", "the search returns every target and everything reachable from any target", locn, why)
    what = "an edge leads from A to B exactly when the coefficient of A on B reaches the threshold"
    if not graphs:
        rep.und(f"{key}.edges", what, locn)
    for g in sorted(graphs, key=str):
        st, why, g0 = edges(r, g, M, TH)
        rep.put(st, f"{key}.edges", what, locn, why)
        s2, w2 = labelled(r, g, g0, NM, calls(r, *FULL, *REST, *BACK), ordered=NM)
        rep.put(s2, f"{key}.labels", "the nodes carry the species names in the order of the matrix", locn, w2)


def graph_base(g):
    g = strip_versions(g)
    if g.op == "call" and g.a[0] == "networkx.relabel_nodes":
        return g.a[1][0]
    return g


def edges(r, g, M, TH):
    g0 = graph_base(g)
    try:
        mat = graph_matrix(g0)
        for w in (-1, 0, 1):
            v = cell(mat, M, TH, w)
            if (v != "z") != (w >= 0):
                return (False if not has_unk_deep(r, g0) else None), (
                    f"a coefficient {['at', 'above', 'below'][w]} the threshold gives {'no' if v == 'z' else 'an'} edge"), g0
        return True, "", g0
    except Wrong as ex:
        return (None if has_unk_deep(r, g0) else False), str(ex), g0
    except Und as ex:
        return None, str(ex), g0


def graph_matrix(g):
    if g.op == "call" and g.a[0] in ("networkx.DiGraph", "networkx.MultiDiGraph", "networkx.from_numpy_array",
                                     "networkx.from_numpy_matrix", "networkx.Graph", "networkx.to_networkx_graph"):
        kw = dict(g.a[2])
        cu = kw.get("create_using") or (g.a[1][-1] if g.a[0] != "networkx.DiGraph" and len(g.a[1]) > 1 else None)
        kind = g.a[0] if cu is None else str(cu)
        if "Graph" in kind and "DiGraph" not in kind or cu is None and g.a[0].startswith("networkx.from"):
            raise Wrong("the graph is undirected")
        return g.a[1][0]
    if g.op == "meth" and g.a[1] == "reverse":
        raise Wrong("the graph is reversed: edges run against the dependence")
    if g.op == "meth" and g.a[1] == "to_undirected":
        raise Wrong("the graph is undirected")
    if g.op == "meth" and g.a[1] == "copy":
        return graph_matrix(g.a[0])
    raise Und(f"graph {str(g)[:100]}")


def labelled(r, g, g0, names, uses, ordered):
    """Relabelling with the species names, before the graph is searched."""
    evs = [e for e in calls(r, "networkx.relabel_nodes") if e.args and graph_base(e.args[0]) is g0]
    if not evs:
        return (None if has_unk_deep(r, g0) or g0.op != "call" else False), "node numbers are not replaced by names"
    e = evs[0]
    kw = dict(e.kw or ())
    inplace = kw.get("copy") is FALSE or len(e.args) > 2 and e.args[2] is FALSE
    if isinstance(kw.get("copy"), N) and is_const(kw["copy"], False):
        inplace = True
    if not inplace and strip_versions(g) is g0:
        return False, "the renamed copy of the graph is not used"
    us = [u for u in uses if u.args and graph_base(u.args[0]) is g0]
    if inplace and us and min(u.seq for u in us) < e.seq:
        return False, "the graph is searched before its nodes are renamed"
    mp = kw.get("mapping") or (e.args[1] if len(e.args) > 1 else None)
    if mp is None:
        return None, ""
    return mapping(r, mp, names)


def mapping(r, mp, names):
    mp = strip_versions(mp)
    if mp.op == "call" and mp.a[0] == "builtins.dict" and len(mp.a[1]) == 1:
        x = mp.a[1][0]
        if x.op == "call" and x.a[0] == "builtins.enumerate" and len(x.a[1]) == 1 and not x.a[2]:
            return (True, "") if x.a[1][0] is names else (None, str(mp)[:100])
        return None, str(mp)[:100]
    if mp.op == "coll" and mp.a[0] == "dict" and len(mp.a[1]) == 1:
        e = mp.a[1][0]
        if e[0] == "splice":
            x = e[1]
            if x.op == "call" and x.a[0] == "builtins.enumerate" and len(x.a[1]) == 1 and x.a[1][0] is names:
                return True, ""
            return None, str(mp)[:100]
        if e[0] == "for" and len(e[3]) == 1 and e[3][0][0] == "kv":
            it, k, (_, a, b) = e[1], e[2], e[3][0][:3]
            if q.unwrap_list(it) is names and a is mk("idx", it, k) and b is mk("elem", it, k):
                return True, ""
            if it.op == "call" and it.a[0] == "builtins.range" and a is mk("elem", it, k) and b.op == "item" and b.a[0] is names and b.a[1] is a:
                return True, ""
            if it.op == "call" and it.a[0] in ("builtins.sorted", "builtins.reversed", "builtins.set") and names in deps(it):
                return False, f"names in the order {str(it)[:80]}"
            la = linear(a) if isinstance(a, N) else None
            if q.unwrap_list(it) is names and la is not None and la.get(mk("idx", it, k)) == 1 and la.get(1):
                return False, f"node {str(a)[:60]} is given the name of node {str(mk('idx', it, k))[:40]}"
    return None, str(mp)[:100]


def reach(r, c, rel, env, T, graphs):
    def rec(x, e=env):
        return reach(r, x, rel, e, T, graphs)
    if c is TRUE or c is FALSE:
        return c is TRUE
    if c.op == "not":
        return not rec(c.a[0])
    if c.op in ("and", "or"):
        vs = [rec(x) for x in c.a]
        return all(vs) if c.op == "and" else any(vs)
    if c.op == "phi":
        return rec(c.a[1] if rec(c.a[0]) else c.a[2])
    if c.op == "exists":
        it, k, b = c.a
        out = False
        for i in target_seq(r, it, T):
            out = rec(b, {**env, mk("elem", it, k): i}) or out
        return out
    if c.op == "eq" and X in c.a:
        o = c.a[0] if c.a[1] is X else c.a[1]
        return rel[target_at(r, o, env, T)] == "self"
    if c.op == "truth":
        if c.a[0] is T:
            return True
        raise Und(str(c)[:100])
    if c.op == "in" and c.a[0] is X:
        n = strip_versions(c.a[1])
        if n is T:
            return "self" in rel
        if n.op == "last":
            it, k, val, init = n.a
            return rec(r.interp.isin(X, val), {**env, mk("elem", it, k): target_seq(r, it, T)[-1]})
        if n.op == "item" and n.a[1].op == "slice" and n.a[0] is T or n.op == "coll":
            f = r.interp.isin(X, n)
            if f is not c:
                return rec(f)
        if n.op == "call" and n.a[0] in FULL | REST | BACK:
            kw = dict(n.a[2])
            if n.a[0] in BACK:
                raise Wrong("the graph is searched against its edges")
            for z in ("depth_limit", "cutoff"):
                if z in kw and kw[z] is not NONE:
                    raise Wrong(f"the search stops at {z}={kw[z]}")
            if len(n.a[1]) > 2 and n.a[1][2] is not NONE:
                raise Wrong(f"the search is limited by {str(n.a[1][2])[:60]}")
            g = kw.get("G") or n.a[1][0]
            t = kw.get("source") or (n.a[1][1] if len(n.a[1]) > 1 else None)
            if t is None:
                raise Wrong("the search does not start from a target")
            graphs.add(g)
            i = target_at(r, t, env, T)
            return rel[i] == "reach" or rel[i] == "self" and n.a[0] in FULL
        if n.op == "call" and n.a[0] in ("networkx.node_connected_component",):
            raise Wrong("the search ignores the direction of the edges")
    raise Und(str(c)[:140])


def target_seq(r, it, T):
    it = q.unwrap_list(strip_versions(it))
    if it is T:
        return list(range(NS))
    if it.op == "call" and it.a[0] in ("builtins.sorted", "builtins.set", "builtins.reversed", "builtins.frozenset") and it.a[1]:
        return target_seq(r, it.a[1][0], T)
    if it.op == "coll" and len(it.a[1]) == 1 and it.a[1][0][0] == "splice":
        return target_seq(r, it.a[1][0][1], T)
    if it.op == "item" and it.a[1].op == "slice":
        z = [None if y is NONE else cval(y) if y.op == "const" else UNDEF for y in it.a[1].a]
        if UNDEF not in z:
            return target_seq(r, it.a[0], T)[slice(*z)]
    raise Und(f"targets {str(it)[:80]}")


def target_at(r, n, env, T):
    n = strip_versions(n)
    if n in env:
        return env[n]
    if n.op == "elem":
        return target_seq(r, n.a[0], T)[-1]       # the value the last round left
    if n.op == "item" and n.a[0] is T and n.a[1].op == "const" and isinstance(cval(n.a[1]), int):
        i = cval(n.a[1])
        return 0 if i == 0 else NS - 1
    raise Und(f"target {str(n)[:80]}")


# ------------------------------------------------------------ DRGEP: overall importance
def number(n, w):
    """Value of a numeric expression given values for its atoms (w maps atoms to numbers or conditions to booleans)."""
    n = strip_versions(n)
    if n in w:
        return w[n]
    if n.op == "const" and isinstance(cval(n), (int, float)) and not isinstance(cval(n), bool):
        return cval(n)
    if n.op == "call" and n.a[0] in ("builtins.max", "numpy.maximum", "builtins.min", "numpy.minimum", "numpy.fmax") and len(n.a[1]) == 2:
        vs = [number(x, w) for x in n.a[1]]
        return max(vs) if "max" in n.a[0] else min(vs)
    if n.op == "call" and n.a[0] in ("builtins.max", "builtins.min") and len(n.a[1]) == 1 and n.a[1][0].op in ("tuple", "coll"):
        ns = n.a[1][0].a if n.a[1][0].op == "tuple" else [e[1] for e in n.a[1][0].a[1] if e[0] == "item"]
        vs = [number(x, w) for x in ns]
        return max(vs) if "max" in n.a[0] else min(vs)
    if n.op == "call" and n.a[0] in ("builtins.float", "builtins.abs") and len(n.a[1]) == 1:
        return number(n.a[1][0], w)
    if n.op == "bin" and n.a[0] in "+-*":
        a, b = number(n.a[1], w), number(n.a[2], w)
        return a + b if n.a[0] == "+" else a - b if n.a[0] == "-" else a * b
    if n.op == "phi":
        return number(n.a[1] if holds(n.a[0], w) else n.a[2], w)
    if n.op == "meth" and n.a[1] == "get" and len(n.a[2]) >= 1:
        i = mk("item", n.a[0], n.a[2][0])
        present = w.get(mk("in", n.a[2][0], n.a[0]))
        if i in w and present is not None:
            if present:
                return w[i]
            if len(n.a[2]) > 1:
                return number(n.a[2][1], w)
            raise Wrong("a missing coefficient becomes None")
    if n.op == "item" and n.a[0].op == "store":
        b, i, v = n.a[0].a
        return number(v if n.a[1] is i or holds(mk("eq", i, n.a[1]), w) else mk("item", b, n.a[1]), w)
    if n.op == "item":
        present = w.get(mk("in", n.a[1], n.a[0]))
        if present is False:
            raise Wrong("a missing coefficient is read")
    raise Und(f"{str(n)[:140]}")


def holds(c, w):
    c0 = strip_versions(c)
    if c0 in w:
        return w[c0]
    if c0 in (TRUE, FALSE):
        return c0 is TRUE
    if c0.op == "not":
        return not holds(c0.a[0], w)
    if c0.op in ("and", "or"):
        vs = []
        for x in c0.a:
            v = holds(x, w)
            if v is (c0.op == "or"):
                return v
            vs.append(v)
        return c0.op == "and"
    if c0.op in ("lt", "le", "eq"):
        a, b = number(c0.a[0], w), number(c0.a[1], w)
        return a < b if c0.op == "lt" else a <= b if c0.op == "le" else a == b
    if c0.op == "truth":
        return bool(number(c0.a[0], w))
    if c0.op == "is" and NONE in c0.a:
        return False
    raise Und(f"{str(c0)[:140]}")


def at_key(r, n, x, keys, upd):
    """Value stored under key x in dictionary value n. keys(it): the iterable enumerates the keys x ranges over."""
    n = strip_versions(n)
    if n.op == "phi":
        return PHI(n.a[0], at_key(r, n.a[1], x, keys, upd), at_key(r, n.a[2], x, keys, upd))
    if n.op == "store":
        return PHI(mk("eq", *sorted((x, n.a[1]), key=id)) if x is not n.a[1] else TRUE, n.a[2], at_key(r, n.a[0], x, keys, upd))
    if n.op == "coll" and n.a[0] == "dict":
        out = None
        for e in n.a[1]:
            g = TRUE
            while e[0] == "if" and len(e[2]) == 1:
                g, e = AND(g, e[1]), e[2][0]
            if e[0] == "splice":
                out = at_key(r, e[1], x, keys, upd)
                continue
            if e[0] == "for" and len(e[3]) == 1:
                it, k, y = e[1], e[2], e[3][0]
                el = mk("elem", it, k)
                while y[0] == "if" and len(y[2]) == 1:
                    g, y = AND(g, y[1]), y[2][0]
                if y[0] == "kv" and y[1] is el:
                    if not keys(it):
                        raise Und(f"keys {str(it)[:80]}")
                    val = subst(y[2], {el: x})
                    out = val if g is TRUE else PHI(subst(g, {el: x}), val, out if out is not None else mk("item", upd, x))
                    continue
            if e[0] == "kv" and e[1] is x:
                out = e[2] if g is TRUE else PHI(g, e[2], out if out is not None else mk("item", upd, x))
                continue
            raise Und(f"{str(n)[:120]}")
        if out is None:
            raise Und(f"{str(n)[:120]}")
        return out
    return mk("item", n, x)


def importance(C, rep):
    if GSEARCH not in C.prog.funcs:
        rep.und("DRGEP.importance", "the search of one graph is not a function of its own")
        return
    r = C.run(GIC, frozenset({GSEARCH}))
    NM, T, MS = P("species_names"), P("target_species"), P("matrices")
    locn = fn_loc(C, GIC)
    evs = calls(r, GSEARCH)
    what = "the importance of a species is its largest importance over all sampled states"
    if not evs:
        rep.und("DRGEP.importance", what, locn)
        return
    e = evs[0]
    try:
        st, why = recurrence(r, r.retf, e.node, MS, lambda it: names_or_mu(r, it, NM), init=0)
    except Wrong as ex:
        st, why = (None if has_unk_deep(r, r.retf) else False), str(ex)
    except Und as ex:
        st, why = None, str(ex)
    rep.put(st, "DRGEP.importance", what, locn, why)
    am = argmap(e)
    g = am.get("graph")
    st, why = None, ""
    if g is not None:
        try:
            mat = strip_versions(graph_matrix(graph_base(g)))
            if mat.op == "elem" and q.unwrap_list(mat.a[0]) is MS:
                st = True
            else:
                m0 = [d for d in deps(mat) if d.op == "elem" and q.unwrap_list(d.a[0]) is MS]
                if len(m0) == 1:
                    for w in (-1, 1):
                        if cell(mat, m0[0], UNDEF, w) != "m":
                            raise Und(str(mat)[:100])
                    st = True
        except Wrong as ex:
            st, why = (None if has_unk_deep(r, g) else False), str(ex)
        except Und as ex:
            st, why = None, str(ex)
        rep.put(st, "DRGEP.graph", "the graph searched has the coefficients as edge weights, along the dependence", e.loc, why)
        s2, w2 = labelled(r, g, graph_base(g), NM, evs, NM)
        rep.put(s2, "DRGEP.labels", "the nodes carry the species names in the order of the matrix", e.loc, w2)
    t = am.get("target_species")
    rep.put(verdict(t is not None and same_param(r, t, "target_species"), r, t) if t is not None else None, "DRGEP.targets",
            "every target is searched from", e.loc, str(t)[:100])
    # over the targets of one state
    r = C.run(GSEARCH, frozenset({DIJK}))
    locn = fn_loc(C, GSEARCH)
    evs = calls(r, DIJK)
    what = "the importance in one state is the largest over all targets"
    if not evs:
        rep.und("DRGEP.overall", what, locn)
        return
    e = evs[0]
    src = argmap(e).get("source")
    try:
        st, why = recurrence(r, r.retf, e.node, P("target_species"), lambda it: call_keys(it, e.node), target=src, init=None)
    except Wrong as ex:
        st, why = (None if has_unk_deep(r, r.retf) else False), str(ex)
    except Und as ex:
        st, why = None, str(ex)
    rep.put(st, "DRGEP.overall", what, locn, why)
    am = argmap(e)
    ok = src is not None and src.op == "elem" and am.get("G") is P("graph")
    rep.put(verdict(ok, r, src), "DRGEP.sources", "each target is the source of one path search in the given graph", e.loc,
            "" if ok else f"G={am.get('G')} source={src}")
    co = am.get("cutoff", NONE)
    wt = am.get("weight")
    rep.put(True if co is NONE and (wt is None or is_const(wt, "weight")) else None if has_unk_deep(r, co) else False,
            "DRGEP.options", "the path search is not cut off and multiplies the edge weights", e.loc, f"cutoff={co} weight={wt}")


def names_or_mu(r, it, NM):
    it = q.unwrap_list(strip_versions(it))
    if it.op == "meth" and it.a[1] == "keys":
        it = it.a[0]
    if it is NM:
        return True
    if it.op == "mu" or it.op == "ref":
        return True
    if it.op == "coll" and it.a[0] == "dict":
        return all(e[0] == "for" and names_or_mu(r, e[1], NM) for e in it.a[1])
    return False


def call_keys(it, call):
    it = q.unwrap_list(strip_versions(it))
    while it.op in ("meth", "store"):
        if it.op == "meth" and it.a[1] not in ("keys", "copy"):
            return False
        it = it.a[0]
    return it is call


def recurrence(r, ret, call, over, keys, target=None, init=None):
    """ret maps every key x to the maximum over `over` of call[x] (a missing one counts as 0)."""
    Y = mk("sym", "key")
    n = strip_versions(ret)
    while n.op == "phi" and n.a[0].op == "truth" and n.a[0].a[0] is over:
        n = n.a[1]
    lids = {b.a[0] for b in deps(n) if b.op == "mu"} | {b.a[0] for b in deps(n) if b.op == "out"}
    mus = {b for b in deps(n) if b.op == "mu"}
    outer = [l for l in lids if q.unwrap_list(strip_versions(r.loops[l]["it"])) is over]
    if len(outer) != 1:
        its = [r.loops[l]["it"] for l in lids]
        if any(it.op == "item" and it.a[1].op == "slice" and it.a[0] is over for it in its):
            raise Wrong(f"only {str(its[0])[:80]} is used")
        if call in deps(n) and not lids:
            raise Wrong(f"only one search counts: {str(n)[:120]}")
        raise Und(f"loops {[str(i)[:60] for i in its]}")
    L = r.loops[outer[0]]
    if L["breaks"]:
        raise Und("the loop may stop early")
    # value under key Y after one more round, given the value before it
    nx = n
    ini = None
    if n.op == "out" and n.a[0] == outer[0]:
        ini, nx = n.a[2], n.a[3]
    prev = None
    if nx.op == "out":             # an inner loop over the keys updates the dictionary in place
        inner = r.loops[nx.a[0]]
        if inner["breaks"]:
            raise Und("the loop may stop early")
        some = call_keys(inner["it"], call) and target is None
        if not keys(inner["it"]) and not some:
            raise Und(f"keys {str(inner['it'])[:80]}")
        m2 = mk("mu", nx.a[0], nx.a[1])
        el = mk("elem", inner["it"], inner["k"])
        prev = strip_versions(nx.a[2])
        v = subst(at_key(r, nx.a[3], el, keys, m2), {m2: prev})
        v = subst(v, {el: Y})
        if some:
            v = PHI(mk("in", Y, call), v, mk("item", prev, Y))
        for d in deps(v):
            if d.op == "elem" and d.a[1] == inner["k"] and d.a[0] is inner["it"]:
                raise Und("key variable")
    else:
        cands = [m for m in mus if m.a[0] == outer[0] and m.a[1][0] in ("v", "h") and m.a[1] != ("h", "fs")]
        if len(cands) != 1:
            if not cands:
                raise Wrong(f"earlier rounds are forgotten: {str(n)[:140]}")
            raise Und("several accumulators")
        prev = cands[0]
        v = at_key(r, nx, Y, keys, prev)
    v = strip_versions(v)
    prev = strip_versions(prev)
    if prev not in deps(v):
        raise Wrong(f"earlier rounds are forgotten: {str(v)[:140]}")
    if ini is None:
        for b in deps(prev):
            if b.op == "mu":
                ini = L["init"].get(b.a[1])
    # worlds: previous value and new coefficient, each possibly missing
    pin, cin = mk("in", Y, prev), mk("in", Y, call)
    pit, cit = mk("item", prev, Y), mk("item", call, Y)
    cases_ = []
    for pv in ((0, .2, .5) if init is not None else (None, .2, .5)):
        for cv in (None, .1, .2, .3, .7):
            cases_.append((pv, cv))
    for pv, cv in cases_:
        if target is not None and cv is None:
            continue                # the inner loop runs over the keys of the search result
        for same in ((False, True) if target is not None else (False,)):
            c2 = 1.0 if same else cv
            w = {pin: pv is not None, cin: c2 is not None}
            if pv is not None:
                w[pit] = pv
            else:
                w[pit] = 0
            w[cit] = c2 if c2 is not None else 0
            if target is not None:
                for a, b in ((Y, target), (target, Y)):
                    w[mk("eq", a, b)] = same
            got = number(v, w)
            want = max(pv or 0, c2 or 0)
            if abs(got - want) > 1e-12:
                raise Wrong(f"with {pv} before and {c2} now the result is {got}, not {want}: {str(v)[:120]}")
    if init is not None:
        z = at_key(r, strip_versions(ini), Y, keys, UNDEF) if isinstance(ini, N) and ini.op == "coll" else None
        if z is None:
            z = initial_value(r, ret, over, Y, keys)
        if z is not None and z.op == "const" and cval(z) != init:
            raise Wrong(f"importance starts at {z}")
    return True, ""


def initial_value(r, ret, over, Y, keys):
    n = strip_versions(ret)
    if n.op == "phi" and n.a[0].op == "truth" and n.a[0].a[0] is over:
        try:
            return at_key(r, n.a[2], Y, keys, UNDEF)
        except Und:
            return None
    return None


# ------------------------------------------------------------ DRGEP: best path product
def paths(C, rep):
    fid = DIJK
    locn = fn_loc(C, fid)
    if fid not in C.prog.funcs:
        rep.und("DRGEP.paths", "the path search is not a function of its own")
        return
    r = C.run(fid, "full", args={"cutoff": NONE, "weight": const("weight")})
    try:
        check_paths(r, rep, locn)
    except Und as ex:
        rep.und("DRGEP.paths", "the path search is a label-correcting search for the largest product", locn, str(ex))


def simple(n):
    """Facts about the graph the stages build: directed, at most one edge between two nodes."""
    G = P("G")
    fs = set()
    for d in deps(n):
        if d.op == "truth" and d.a[0].op == "meth" and d.a[0].a[0].op == "param":
            if d.a[0].a[1] == "is_multigraph":
                fs.add(NOT(d))
            if d.a[0].a[1] == "is_directed":
                fs.add(d)
        if d.op == "is" and NONE in d.a:
            o = d.a[0] if d.a[1] is NONE else d.a[1]
            if o.op in ("meth", "item", "call"):
                fs.add(NOT(d))
        if d.op == "eq" and NONE in d.a:
            fs.add(NOT(d))
    return strip_versions(resolve_all(n, frozenset(fs))) if fs else n


def resolve_all(n, fs):
    mp = {}
    for d in deps(n):
        if is_bool(d):
            if d in fs:
                mp[d] = TRUE
            elif NOT(d) in fs:
                mp[d] = FALSE
    out = subst(n, mp) if mp else n
    return out


def check_paths(r, rep, locn):
    G, SRC = P("G"), P("source")
    tops = [i for i in r.loops.values() if i["it"].op == "while"]
    tops = [i for i in tops if any(m.op == "heapmin" and m.a[0].op == "mu" and m.a[0].a[0] == i["lid"] for v in i["next"].values()
                                   if isinstance(v, N) for m in deps(v))]
    if len(tops) != 1:
        raise Und("no single search loop over a priority queue")
    L = tops[0]
    hm = {m for v in L["next"].values() if isinstance(v, N) for m in deps(v) if m.op == "heapmin" and m.a[0].op == "mu" and m.a[0].a[0] == L["lid"]}
    if len(hm) != 1:
        raise Und("several queues")
    h = hm.pop()
    kq = h.a[0].a[1]
    q0 = strip_versions(L["init"][kq])
    if not (q0.op == "coll" and len(q0.a[1]) == 1 and q0.a[1][0][0] == "item" and q0.a[1][0][1].op == "tuple"):
        raise Und(f"queue starts as {str(q0)[:100]}")
    t0 = q0.a[1][0][1].a
    pos = [i for i, x in enumerate(t0) if x is SRC]
    if len(pos) != 1:
        if SRC not in deps(q0):
            rep.put(verdict(False, r, q0), "DRGEP.paths.start", "the search starts at the source", locn, str(q0)[:120])
            return
        raise Und(f"queue starts as {str(q0)[:100]}")
    iv = pos[0]
    v, d = mk("item", h, const(iv)), mk("item", h, const(0))
    if not (t0[0].op == "const"):
        raise Und("initial distance")
    start = cval(t0[0])
    # --- the loop runs until the queue is empty
    c = simple(L["cond"]) if isinstance(L["cond"], N) else TRUE
    mq = h.a[0]
    cond_ok = c is truth(mq) or c.op in ("lt", "le") and mq in deps(c)
    what = "the search ends only when no better path is left"
    brk = []
    for b in L["breaks"]:
        gs = simple(AND(*q.pcguards(b.pc[len(L["entry"].pc):])))
        if gs is not FALSE:
            brk.append(gs)
    s = True if cond_ok and not brk else None
    if brk and cond_ok and not any(has_unk_deep(r, g) for g in brk):
        if all(not (g.op == "not" and g.a[0] is truth(mq)) for g in brk):
            s = False
    rep.put(s, "DRGEP.paths.end", what, locn, str(brk[0] if brk else c)[:160] if s is not True else "")
    # --- final values
    upd = {}
    for k, n in L["next"].items():
        if k == kq or not isinstance(n, N) or k[0] != "h" or k == ("h", "fs"):
            continue
        n = simple(n)
        upd[k] = n
    dist = None
    for k, n in upd.items():
        es = [e for e in walk(n) if e[0] == "kv" and e[1] is v]
        if es:
            dist = k
    if dist is None:
        raise Und("no table of final values indexed by the popped node")
    mu = mk("mu", L["lid"], dist)
    val, cond = None, None
    n = upd[dist]
    got = last_entry(n, mu)
    if got is None:
        raise Und(f"final values {str(n)[:120]}")
    cond, key, val = got
    if key is not v:
        raise Und("key of final values")
    what = "the value of a node is replaced exactly by larger products"
    st, why = True, ""
    for inn, rel in ((False, 0), (True, -1), (True, 0), (True, 1)):
        w = {mk("in", v, mu): inn, mk("item", mu, v): 0.5, d: 0.5 + 0.1 * rel, mk("eq", *order(SRC, v)): False,
             mk("eq", SRC, v): False, mk("eq", v, SRC): False, truth(mq): True}
        try:
            x = holds(cond, w)
        except Und as ex:
            st, why = None, str(ex)
            break
        if not inn and not x or inn and rel > 0 and not x:
            st, why = False, f"a {'first' if not inn else 'larger'} value is not recorded"
            break
        if inn and rel < 0 and x:
            st, why = False, "a smaller value replaces a larger one"
            break
    if st is False and has_unk_deep(r, cond):
        st = None
    rep.put(st, "DRGEP.paths.keep", what, locn, why)
    what = "the source has value 1, every other node the product of the path it was reached by"
    st, why = True, ""
    for src in (True, False):
        for dv in ((start,) if src else (.3, .8)):
            w = {d: dv, mk("eq", SRC, v): src, mk("eq", v, SRC): src}
            try:
                x = number(val, w)
            except (Und, Wrong) as ex:
                st, why = None, str(ex)
                break
            want = 1 if src else dv
            if x != want:
                st, why = False, f"value {x} instead of {want} for {'the source' if src else 'a node reached with ' + str(dv)}"
                break
        if st is not True:
            break
    if st is False and has_unk_deep(r, val):
        st = None
    rep.put(st, "DRGEP.paths.value", what, locn, why)
    # --- successors
    inner = [i for i in r.loops.values() if i["it"].op != "while" and h in deps(i["it"]) and i["it"] is not None and
             any(isinstance(z, N) and kk == kq for kk, z in i["next"].items())]
    if len(inner) != 1:
        raise Und("no single loop over the successors")
    I = inner[0]
    it = simple(strip_versions(I["it"]))
    what = "every edge leaving the node is followed"
    ok = None
    base = it
    while base.op == "meth" and base.a[1] in ("items", "keys"):
        base = base.a[0]
    if base.op == "item" and base.a[1] is v and base.a[0].op == "attr" and base.a[0].a[0] is G:
        ok = base.a[0].a[1] in ("succ", "adj", "_succ", "_adj")
    elif base.op == "item" and base.a == (G, v):
        ok = True
    elif base.op == "meth" and base.a[0] is G and base.a[1] in ("successors", "neighbors", "predecessors") and base.a[2] == (v,):
        ok = base.a[1] != "predecessors"
    if I["breaks"] and ok:
        ok = None
    rep.put(ok, "DRGEP.paths.edges", what, locn, str(it)[:120] if ok is not True else "")
    u = mk("elem", I["it"], I["k"])
    I_next = {k: simple(strip_versions(z)) for k, z in I["next"].items() if isinstance(z, N)}
    u = strip_versions(simple(u))
    push = last_entry(I_next[kq], mk("mu", I["lid"], kq), kinds=("item",))
    if push is None or push[1].op != "tuple" or len(push[1].a) != len(t0):
        raise Und("what is pushed")
    pc_, tup, _ = push
    if tup.a[iv] is not u:
        raise Und("pushed node")
    prod = tup.a[0]
    seen = None
    for k, z in I_next.items():
        if k == kq or k[0] != "h" or k == ("h", "fs"):
            continue
        g = last_entry(z, mk("mu", I["lid"], k))
        if g is not None and g[1] is u:
            seen = (k, g)
    what = "the product of a path is that of the node times the weight of the edge"
    ws = [x for x in deps(prod) if edge_weight(x, base, u, G, v)]
    st, why = None, str(prod)[:140]
    if len(ws) >= 1:
        st, why = True, ""
        for src in (True, False):
            for dv, ww in ((.5, .5), (.8, .25), (.5, 1.0)):
                dv = start if src else dv
                w = {d: dv, mk("eq", SRC, v): src, mk("eq", v, SRC): src, **{x: ww for x in ws}}
                mu_d = mk("item", mu, v)
                try:
                    x = number(prod, w)
                except (Und, Wrong) as ex:
                    st, why = None, str(ex)
                    break
                want = (1 if src else dv) * ww
                if abs(x - want) > 1e-12:
                    st, why = False, f"{x} instead of {want}: {str(prod)[:120]}"
                    break
            if st is not True:
                break
    elif not has_unk_deep(r, prod) and not any(x.op in ("meth", "item") and u in deps(x) for x in deps(prod)):
        st, why = False, f"the weight of the edge is not used: {str(prod)[:120]}"
    rep.put(st, "DRGEP.paths.product", what, locn, why)
    if seen is None:
        rep.und("DRGEP.paths.push", "a path is followed on whenever it is the first or the best to its node", locn)
        return
    k, (c2, _, sv) = seen
    ms = mk("mu", I["lid"], k)
    st, why = True, ""
    for cnd in (pc_, c2):
        for (inn, rel), (sc, ww) in itertools.product(((False, 0), (True, 1)), ((.5, .8), (1e-5, 1e-4), (1e-11, 1e-9))):
            # a node whose importance is final is never reached by a better path: the product only falls along a path
            w = {mk("in", u, ms): inn, mk("item", ms, u): sc, prod: sc * (1 + .2 * rel), truth(mq): True, mk("in", v, mu): False,
                 mk("in", u, mu): False, **{x: ww for x in ws}}
            try:
                x = holds(cnd, w)
            except Und as ex:
                st, why = None, str(ex)
                break
            if not x:
                st, why = False, f"a {'first' if not inn else 'better'} path to a node is dropped"
                break
        if st is not True:
            break
    if st is True and sv is not prod:
        st, why = None, f"remembered value {str(sv)[:80]}"
    if st is True:
        w = {mk("in", u, ms): True, mk("item", ms, u): .5, prod: .4, truth(mq): True, mk("in", v, mu): False}
        try:
            if holds(pc_, w):
                st, why = None, "worse paths are followed too"
        except Und as ex:
            st, why = None, str(ex)
    if st is False and has_unk_deep(r, pc_):
        st = None
    rep.put(st, "DRGEP.paths.push", "a path is followed on whenever it is the first or the best to its node", locn, why)


def order(a, b):
    return (a, b)


def walk(n):
    for d in deps(n):
        if d.op == "coll":
            for e in d.a[1]:
                yield from walk_e(e)


def walk_e(e):
    if e[0] == "for":
        for y in e[3]:
            yield from walk_e(y)
    elif e[0] == "if":
        for y in e[2]:
            yield from walk_e(y)
    else:
        yield e


def last_entry(n, mu, kinds=("kv",)):
    """(condition, key or item, value) of the single entry an iteration adds to collection mu."""
    n = strip_versions(n)
    if n.op == "phi":
        a, b = last_entry(n.a[1], mu, kinds), last_entry(n.a[2], mu, kinds)
        if a is not None and (n.a[2] is mu or b is None and mu in deps(n.a[2])):
            return AND(n.a[0], a[0]), a[1], a[2]
        if b is not None and n.a[1] is mu:
            return AND(NOT(n.a[0]), b[0]), b[1], b[2]
        return None
    if n.op == "store" and n.a[0] is mu:
        return TRUE, n.a[1], n.a[2]
    if n.op != "coll":
        return None
    es = [e for e in n.a[1]]
    if not es or not (es[0][0] == "splice" and (es[0][1] is mu)):
        return None
    if len(es) != 2:
        return None
    e, g = es[1], TRUE
    while e[0] == "if" and len(e[2]) == 1:
        g, e = AND(g, e[1]), e[2][0]
    if e[0] not in kinds:
        return None
    return g, e[1], (e[2] if e[0] == "kv" else None)


def edge_weight(x, base, u, G, v):
    data = {mk("item", base, u)}
    for b in (mk("item", G, v), mk("item", mk("attr", G, "succ", None), v), mk("item", mk("attr", G, "adj", None), v)):
        data.add(mk("item", b, u))
    if x.op == "meth" and x.a[1] == "get" and x.a[0] in data and x.a[2] and is_const(x.a[2][0], "weight"):
        return True
    return x.op == "item" and x.a[0] in data and is_const(x.a[1], "weight")


def check(C, rep):
    for name in ("DRG", "DRGEP", "PFA"):
        rep.section(f"{name}.exclusion", exclusion, name)
        rep.section(f"{name}.repeat", repeated, name)
        rep.section(f"{name}.limbo", limbo, name)
    for name in ("DRG", "PFA"):
        rep.section(f"{name}.search", searching, name)
    rep.section("DRGEP.importance", importance)
    rep.section("DRGEP.paths", paths)
