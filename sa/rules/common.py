"""Shared reasoning for the rules: membership formulas, must-hold guards, stage facts."""
from ..ir import (AND, EXISTS, FALSE, N, NONE, NOT, OR, PHI, TRUE, UNDEF, assume, const, cval, deps, is_bool,
                  is_const, mk, subst, truth)
from ..loader import AnalysisError
from .. import q
from ..q import (DRG, DRGEP, MAIN, PFA, S, SA, SIM, argmap, calls, deep_deps, has_unk_deep, members, sources)

TRIM = "pymars.reduce_model.trim"
WRITE = "pymars.soln2yaml.write"
SAMPLE = S + "sample"
METRICS = S + "sample_metrics"
ERROR = S + "calculate_error"
STAGES = {"DRG": DRG + "run_drg", "DRGEP": DRGEP + "run_drgep", "PFA": PFA + "run_pfa"}
SEARCH = {"DRG": DRG + "trim_drg", "PFA": PFA + "trim_pfa", "DRGEP": DRGEP + "get_importance_coeffs"}
MATRIX = {"DRG": DRG + "create_drg_matrix", "DRGEP": DRGEP + "create_drgep_matrix", "PFA": PFA + "create_pfa_matrix"}
RUN_SA = SA + "run_sa"
X = mk("sym", "x")


def P(name):
    return mk("param", name)


def short(fid):
    return fid.rsplit(".", 1)[1]


# ------------------------------------------------------------ membership
class May:
    """Over-approximating formula for `x may be a member of n` / `x may equal v`."""

    def __init__(self, r, guards=()):
        self.r = r
        self.guards = tuple(guards)   # path conditions at the point of use
        self.opaque = []

    def isin(self, x, n, busy=frozenset()):
        if n in busy:
            return FALSE
        b2 = busy | {n}
        op = n.op
        if op == "phi":
            return OR(AND(n.a[0], self.isin(x, n.a[1], b2)), AND(NOT(n.a[0]), self.isin(x, n.a[2], b2)))
        if op == "out":
            d = self.r.interp.without_loop(n)
            if d is not None:
                init, it, v, g = d
                return AND(self.isin(x, init, b2), NOT(AND(self.must(x, it), subst(g, {v: x}))))
        if op in ("mu", "out", "last", "first", "maybe") or (op == "attr" and q.descend(n.a[0])):
            src = sources(self.r, n)
            if src == [n]:
                self.opaque.append(n)
                return mk("in", x, n)
            return OR(*[self.isin(x, s, b2) for s in src if s not in b2])
        if op == "coll":
            return OR(*[self.entry(x, e, b2) for e in n.a[1]])
        if op == "tuple":
            return OR(*[self.eq(x, y, b2) for y in n.a])
        if op == "bin" and n.a[0] in ("+", "|"):
            return OR(self.isin(x, n.a[1], b2), self.isin(x, n.a[2], b2))
        if op == "bin" and n.a[0] == "-":
            return AND(self.isin(x, n.a[1], b2), NOT(self.must(x, n.a[2])))
        if op == "bin" and n.a[0] == "&":
            return AND(self.isin(x, n.a[1], b2), self.isin(x, n.a[2], b2))
        if op == "meth" and n.a[1] == "union" and not n.a[3]:
            return OR(*[self.isin(x, y, b2) for y in (n.a[0],) + tuple(n.a[2])])
        if op == "meth" and n.a[1] == "difference" and not n.a[3]:
            return AND(self.isin(x, n.a[0], b2), *[NOT(self.must(x, y)) for y in n.a[2]])
        if op == "meth" and n.a[1] == "intersection" and not n.a[3]:
            return AND(*[self.isin(x, y, b2) for y in (n.a[0],) + tuple(n.a[2])])
        if op == "meth" and n.a[1] in ("copy", "keys") and not n.a[2]:
            return self.isin(x, n.a[0], b2)
        if op == "call" and n.a[0] in ("builtins.set", "builtins.list", "builtins.tuple", "builtins.sorted", "builtins.iter",
                                       "builtins.frozenset", "numpy.array", "builtins.reversed", "builtins.dict.fromkeys"):
            return self.isin(x, n.a[1][0], b2) if n.a[1] else FALSE
        if op == "removed":
            if n.a[1] in ("remove", "discard"):
                self.opaque.append(n)
            return self.isin(x, n.a[0], b2)
        if op == "item" and n.a[1].op == "slice":
            return self.isin(x, n.a[0], b2)
        if op in ("param", "rcall") or (op == "attr" and n.a[1] in ("species_names",)) or op == "item" or op == "attr":
            if op == "attr" and n.a[2] is not None:
                n = mk("attr", n.a[0], n.a[1], None)
            return mk("in", x, n)
        if op == "const":
            return FALSE if n is NONE else mk("in", x, n)
        self.opaque.append(n)
        return mk("in", x, n)

    def must(self, x, n):
        """Exact membership where it is syntactically clear (used under a negation)."""
        return self.r.interp.isin(x, n)

    def entry(self, x, e, busy):
        if e[0] in ("item", "kv"):
            return self.eq(x, e[1], busy)
        if e[0] == "splice":
            return self.isin(x, e[1], busy)
        if e[0] == "for":
            return OR(*[self.entry(x, y, busy) for y in e[3]])
        if e[0] == "if":
            out = []
            for y in e[2]:
                f = self.entry(x, y, busy)
                g = e[1]
                if y[0] in ("item", "kv"):
                    g = subst(g, {y[1]: x})
                elif y[0] == "splice":
                    pass
                out.append(AND(g, f))
            return OR(*out)
        self.opaque.append(mk("entry", str(e)))
        return mk("in", x, mk("entry", str(e)))

    def eq(self, x, v, busy):
        if v in busy:
            return FALSE
        b2 = busy | {v}
        gs = TRUE
        if v.op in ("elem", "item", "attr", "spobj", "meth"):
            gs = AND(*[subst(g, {v: x}) for g in self.guards if v in deps(g)])
        return AND(gs, self.eq0(x, v, b2))

    def eq0(self, x, v, b2):
        if v is x:
            return TRUE
        if v.op == "phi":
            return OR(AND(v.a[0], self.eq(x, v.a[1], b2)), AND(NOT(v.a[0]), self.eq(x, v.a[2], b2)))
        if v.op == "elem":
            return self.isin(x, v.a[0], b2 - {v.a[0]})
        if v.op == "meth" and v.a[1] in ("pop", "popleft"):
            return self.isin(x, v.a[0], b2 - {v.a[0]})
        if v.op == "item":
            src = sources(self.r, v)
            if src != [v]:
                return OR(*[self.eq(x, s, b2) for s in src if s not in b2])
            return self.isin(x, v.a[0], b2)
        if v.op in ("mu", "out", "last", "first", "maybe"):
            src = sources(self.r, v)
            if src == [v]:
                self.opaque.append(v)
                return mk("eq", x, v)
            return OR(*[self.eq(x, s, b2) for s in src if s not in b2])
        if v.op == "const":
            return mk("eq", x, v)
        if v.op == "param":
            return mk("eq", x, v)
        if v.op == "attr":
            src = sources(self.r, v)
            if src != [v]:
                return OR(*[self.eq(x, s, b2) for s in src if s not in b2])
        if v.op == "call" and v.a[0] in ("builtins.str", "builtins.next", "builtins.min", "builtins.max") and len(v.a[1]) == 1:
            return self.eq(x, v.a[1][0], b2) if v.a[0] == "builtins.str" else self.isin(x, v.a[1][0], b2)
        self.opaque.append(v)
        return mk("eq", x, v)


def known_atoms(f):
    """All membership atoms of a formula are over values the analysis understands."""
    for m in deps(f):
        if m.op == "unk":
            return False
    return True


def conj(gs):
    return AND(*gs)


def implies_false(f, facts):
    """f is unsatisfiable under the facts (propositionally)."""
    return assume(f, frozenset(facts)) is FALSE


def flow_members(r, n, guards=(), binders=(), busy=frozenset()):
    """Entries that may end up in collection n, through joins, loops and accumulation."""
    if n in busy:
        return
    busy = busy | {n}
    for kind, v, gs, bs in members(n, guards, binders):
        if kind != "splice":
            yield kind, v, gs, bs
            continue
        src = sources(r, v)
        if src == [v]:
            yield kind, v, gs, bs
            continue
        for s in src:
            if s in busy or s.op == "mu":
                continue
            yield from flow_members(r, s, gs, bs, busy)


# ------------------------------------------------------------ value helpers
def only(src, *want):
    return len(src) > 0 and all(s in want for s in src)


def same_param(r, n, name):
    """n is exactly the parameter `name` (through joins)."""
    src = sources(r, q.unwrap_list(n)) if n is not None else []
    return only(src, P(name))


def strip_versions(n):
    """Drop object versions on attribute nodes throughout a value."""
    mp = {}
    for m in deps(n):
        if m.op == "attr" and m.a[2] is not None:
            mp[m] = mk("attr", m.a[0], m.a[1], None)
    if not mp:
        return n
    r = subst(n, mp)
    return strip_versions(r) if any(m.op == "attr" and m.a[2] is not None for m in deps(r)) and r is not n else r


def alike(a, b):
    """a and b are the same value up to the numbering of bound variables."""
    memo = {}

    def key(n):
        if n not in memo:
            xs = [part(x, n.op in ("elem", "idx", "exists", "first", "last", "storefor")) for x in n.a]
            memo[n] = hash((n.op, *(sorted(xs) if n.op in ("and", "or") else xs)))
        return memo[n]

    def part(x, bound=False):
        if isinstance(x, N):
            return key(x)
        if isinstance(x, tuple):
            return hash(tuple(part(y, bool(x) and x[0] == "for" and i == 2) for i, y in enumerate(x)))
        return 0 if bound and isinstance(x, int) else hash((type(x).__name__, repr(x)))
    return a is b or key(a) == key(b)


def verdict(cond, r, *nodes):
    """True if cond; else False when everything involved was interpreted, None otherwise."""
    if cond:
        return True
    return None if has_unk_deep(r, *[n for n in nodes if n is not None]) else False


def loc(e):
    return e.loc


def pcl(e):
    return [p for p in e.pc if p[0] == "loop"]


# ------------------------------------------------------------ case analysis over gates
def gates(n):
    """Conditions of joins anywhere in n (outermost first)."""
    out = []
    seen = set()

    def go(m):
        if m in seen:
            return
        seen.add(m)
        if m.op == "phi":
            go(m.a[0])           # joins inside a condition are decided before the condition
            for y in (m.a[0].a if m.a[0].op in ("and", "or") else (m.a[0],)):
                y = y.a[0] if y.op == "not" else y
                if y not in out:
                    out.append(y)
        if m.op in ("phi", "tuple", "bin", "and", "or", "not", "le", "lt", "eq", "nt", "attr", "item", "un", "is"):
            for c in ir_children(m):
                go(c)
    go(n)
    return out


def ir_children(m):
    from ..ir import children
    return list(children(m))


def resolve(n, facts):
    """Substitute decided gates throughout a value."""
    memo = {}

    def go(m):
        if m in memo:
            return memo[m]
        r = m
        if is_bool(m) or m.op == "phi":
            r = assume(m, facts)
            if r is not m:
                r = go(r)
                memo[m] = r
                return r
        if m.op in ("phi", "tuple", "bin", "and", "or", "not", "le", "lt", "eq", "nt", "attr", "item", "un", "is"):
            from ..ir import rebuild

            def f(x):
                if isinstance(x, N):
                    return go(x)
                if isinstance(x, tuple):
                    return tuple(f(y) for y in x)
                return x
            a2 = tuple(f(x) for x in m.a)
            if a2 != m.a:
                r = rebuild(m.op, a2)
                r = go(r) if r is not m and (r.op == "phi" or is_bool(r)) else r
        memo[m] = r
        return r
    return go(n)


def cases(n, facts=(), limit=256):
    """All ways the gates inside n can be decided: [(facts, resolved value)]."""
    out = []

    def go(n, fs, d):
        if len(out) > limit:
            return
        n = resolve(n, frozenset(fs))
        gs = [g for g in gates(n) if g not in fs and NOT(g) not in fs]
        if not gs or d > 12:
            out.append((frozenset(fs), n))
            return
        g = gs[0]
        for lit in (g, NOT(g)):
            go(n, fs | {lit} | set(lit.a if lit.op == "and" else ()), d + 1)
    go(n, set(facts), 0)
    return out


# ------------------------------------------------------------ linear forms
def linear(n):
    """{atom: coefficient} (1 for the constant), or None."""
    from fractions import Fraction as Fr
    if n.op == "const" and isinstance(cval(n), (int, float)) and not isinstance(cval(n), bool):
        return {1: Fr(repr(cval(n)) if isinstance(cval(n), float) else cval(n))}
    if n.op == "bin" and n.a[0] in ("+", "-"):
        a, b = linear(n.a[1]), linear(n.a[2])
        if a is None or b is None:
            return None
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + (v if n.a[0] == "+" else -v)
        return {k: v for k, v in r.items() if v}
    if n.op == "bin" and n.a[0] in ("*", "/"):
        a, b = linear(n.a[1]), linear(n.a[2])
        if a is not None and b is not None:
            if set(b) <= {1} and b.get(1):
                c = b[1]
                return {k: (v * c if n.a[0] == "*" else v / c) for k, v in a.items()}
            if n.a[0] == "*" and set(a) <= {1}:
                return {k: v * a.get(1, 0) for k, v in b.items() if a.get(1, 0)}
    if n.op == "un" and n.a[0] == "-":
        a = linear(n.a[1])
        return None if a is None else {k: -v for k, v in a.items()}
    return {n: Fr(1)}


def lin_eq(a, b):
    return a is not None and b is not None and a == b


# ------------------------------------------------------------ structural matching
def unify(p, n, var):
    """Binding of var that turns pattern p into n, or None; UNDEF when var does not occur."""
    got = [None]

    def go(p, n):
        if p is var:
            if got[0] is None:
                got[0] = n
                return True
            return got[0] is n
        if p is n:
            return True
        if p.op != n.op or var not in deps(p):
            if p.op == "rcall" and n.op == "rcall" and p.a[0] == n.a[0]:
                return goa(p.a[1], n.a[1])
            return p.op == n.op and goa(p.a, n.a) if p.op == n.op else False
        if p.op in ("and", "or"):
            return setmatch(list(p.a), list(n.a))
        if p.op == "rcall":
            return p.a[0] == n.a[0] and goa(p.a[1], n.a[1])
        return goa(p.a, n.a)

    def setmatch(ps, ns):
        if len(ps) != len(ns):
            return False
        if not ps:
            return True
        for i, m in enumerate(ns):
            save = got[0]
            if go(ps[0], m) and setmatch(ps[1:], ns[:i] + ns[i + 1:]):
                return True
            got[0] = save
        return False

    def goa(a, b):
        if isinstance(a, N) and isinstance(b, N):
            return go(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(goa(x, y) for x, y in zip(a, b))
        return a == b
    ok = go(p, n)
    return (got[0] if got[0] is not None else UNDEF) if ok else None


# ------------------------------------------------------------ values after a loop, in terms of its last iteration
def unloop(r, n, zero=False, memo=None):
    """n with the results of finished while-loops replaced by their end-of-last-iteration expressions (or, with
    zero=True, by their values when the loop did not run at all)."""
    from ..ir import rebuild
    memo = {} if memo is None else memo
    its = {i["it"]: i for i in r.loops.values() if i["it"].op == "while" or i["it"].op == "call" and i["it"].a[0] in (
        "itertools.count", "itertools.cycle", "itertools.repeat")}

    def go(m):
        if m in memo:
            return memo[m]
        memo[m] = m
        op = m.op
        if op == "out" and m.a[0] in r.loops and r.loops[m.a[0]]["it"] in its:
            v = m.a[2] if zero else m.a[3]
            out = go(v) if v is not None else m
        elif op == "first" and m.a[0] in its:
            out = UNDEF if zero else go(m.a[3])
        elif op == "exists" and m.a[0] in its:
            out = FALSE if zero else go(m.a[2])
        elif op == "last" and m.a[0] in its:
            out = go(m.a[3]) if zero else go(m.a[2])
        elif op == "mu" or not m.a:
            out = m
        else:
            def f(x):
                if isinstance(x, N):
                    return go(x)
                if isinstance(x, tuple):
                    return tuple(f(y) for y in x)
                return x
            a2 = tuple(f(x) for x in m.a)
            out = m if a2 == m.a else rebuild(op, a2)
            if out.op == "attr":
                out = field(out.a[0], out.a[1], out.a[2])
        memo[m] = out
        return out
    return go(n)


def field(b, name, ver=None):
    """Field of a record through joins."""
    if b.op == "phi":
        return PHI(b.a[0], field(b.a[1], name, ver), field(b.a[2], name, ver))
    if b.op in ("nt", "replaced"):
        f = dict(b.a[1])
        if name in f:
            return f[name]
        if b.op == "replaced":
            return field(b.a[0], name, ver)
    return mk("attr", b, name, ver)


def last_iteration(r, lid):
    """Condition under which the iteration just completed is the last one of a while loop."""
    i = r.loops[lid]
    mp = {mk("mu", lid, k): v for k, v in i["next"].items() if v is not None}
    c = subst(i["cond"], mp) if isinstance(i["cond"], N) and mp else i["cond"]
    done = AND(*next_guards_after_(i), NOT(c) if isinstance(c, N) else TRUE)
    brk = []
    n = len(i["entry"].pc)
    for b in i["breaks"]:
        brk.append(AND(*q.pcguards(b.pc[n:])))
    return OR(done, *brk)


def next_guards_after_(info):
    gs = q.next_guards(info)
    c = info["cond"]
    drop = set(c.a) if isinstance(c, N) and c.op == "and" else {c}
    return [g for g in q.flat(gs) if g not in drop]


def while_lids(r, n):
    return {m.a[0] for m in deps(n) if m.op == "mu" and m.a[0] in r.loops and r.loops[m.a[0]]["it"].op == "while"}


def same_value(r, a, b, facts=()):
    """True / False / None: two values agree in every case."""
    a, b = strip_versions(a), strip_versions(b)
    if a is b:
        return True, ""
    st, why = True, ""
    for z in (False, True):
        t = mk("tuple", strip_versions(unloop(r, a, z)), strip_versions(unloop(r, b, z)))
        lids = while_lids(r, t)
        fs0 = [strip_versions(unloop(r, f, z)) for f in facts]
        if any(f is FALSE for f in fs0):
            continue
        for fs, v in cases(t, q.flat(fs0)):
            x, y = v.a
            if x is y or x is UNDEF or y is UNDEF:
                continue
            if not z and any(resolve(strip_versions(last_iteration(r, l)), fs) is FALSE for l in lids):
                continue
            one = None
            if x.op == y.op == "attr" and x.a[1] == y.a[1] or x.op in ("rcall", "call", "const", "attr", "param") and \
                    y.op in ("rcall", "call", "const", "attr", "param"):
                one = False
            if has_unk_deep(r, x, y):
                one = None
            why = f"{str(x)[:150]} against {str(y)[:150]}"
            if one is False:
                return False, why
            st = None
    return st, why


# ------------------------------------------------------------ simulation classes
def sim_classes(C):
    base = SIM + "BaseSimulation"
    return sorted(cid for cid in C.prog.classes if cid.startswith(SIM) and cid != base and method(C, cid, "setup_case")
                  and not is_base(C, cid))


def is_base(C, cid):
    """Some other simulation class derives from it."""
    return any(c2.cid != cid and any(b.cid == cid for b in C.prog.mro(c2)) for c2 in C.prog.classes.values()
               if c2.cid.startswith(SIM))


def method(C, cid, name):
    """Function id of the method a class inherits or defines."""
    c = C.prog.classes.get(cid)
    f = C.prog.find_method(c, name) if c is not None else None
    return f.fid if f is not None else None


def INST(cid):
    return mk("inst", cid, "self")


def SELF(cid, name):
    return mk("attr", INST(cid), name, None)


# ------------------------------------------------------------ must-membership
def collects(r, n, R, fld, safe, facts=frozenset(), busy=frozenset()):
    """Does every member of `case.fld` for every case of R surely end in collection n?  True / False / None.

    safe: containers a member of which need not be added again."""
    if n in busy:
        return False
    busy = busy | {n}

    def rec(m, fs=facts):
        return collects(r, m, R, fld, safe, fs, busy)

    def is_field(v):
        v = q.unwrap_list(v)
        if v.op == "meth" and v.a[1] == "keys":
            v = v.a[0]
        if v.op == "call" and v.a[0] in ("builtins.sorted", "builtins.set", "builtins.dict.fromkeys", "builtins.frozenset") and v.a[1]:
            return is_field(v.a[1][0])
        v = strip_versions(v)
        return v.op == "attr" and v.a[1] == fld and v.a[0].op == "elem" and whole(v.a[0].a[0])

    def whole(it):
        it = q.unwrap_list(it)
        if it is R:
            return True
        if it.op == "phi":
            return (whole(it.a[1]) or empty(it.a[0])) and (whole(it.a[2]) or empty(NOT(it.a[0])))
        if it.op == "coll":
            return any(e[0] == "splice" and whole(e[1]) for e in it.a[1])
        if it.op == "bin" and it.a[0] == "+":
            return whole(it.a[1]) or whole(it.a[2])
        if it.op == "call" and it.a[0] in ("builtins.sorted", "builtins.reversed") and it.a[1]:
            return whole(it.a[1][0])
        return False

    def empty(g):
        """Under g the cases, hence the members, are none."""
        return assume(truth(R), frozenset({g}) | set(g.a if g.op == "and" else ())) is FALSE or any(
            x.op == "not" and x.a[0] is truth(R) for x in (g.a if g.op == "and" else (g,)))

    def skip_ok(g, x):
        """When g fails the member is in n already."""
        for c in (g.a if g.op == "and" else (g,)):
            if c.op == "truth":
                continue
            if c.op == "not" and c.a[0].op == "in" and (x is None or c.a[0].a[0] is x) and protected(c.a[0].a[1]):
                continue
            if c.op == "not" and c.a[0].op == "or" and all(d.op == "in" and protected(d.a[1]) for d in c.a[0].a):
                continue
            return False
        return True

    def skips(g):
        """g can fail for a member that is in no other container: a condition on other inputs, or on the amount of the
        member (the amounts of an accepted case are positive, so comparing with zero lets all pass)."""
        for c in (g.a if g.op == "and" else (g,)):
            ds = deps(c)
            if has_unk_deep(r, c) or any(m.op in ("mu", "out", "last", "first", "maybe") for m in ds):
                continue
            if c.op in ("truth", "not") and R not in ds and not any(m.op == "in" for m in ds) and any(
                    m.op == "param" for m in ds):
                return True
            if not any(m.op == "in" for m in ds) and any(m.op in ("lt", "le") and any(
                    is_const(x) and isinstance(cval(x), (int, float)) and cval(x) > 0 for x in m.a) and any(
                    R in deps(x) and not is_const(x) for x in m.a) for m in ds):
                return True
        return False

    def protected(c):
        for s in sources(r, c):
            s = q.unwrap_list(s)
            if s.op == "call" and s.a[0] in ("builtins.set", "builtins.frozenset", "builtins.list", "builtins.tuple") and s.a[1]:
                if not protected(s.a[1][0]):
                    return False
                continue
            if s.op == "coll":
                ms = list(members(s))
                if not all(k == "splice" and (v in safe or v.op == "mu" or v.op == "out" or protected_leaf(v)) or k == "item" for k, v, g, b in ms):
                    return False
                continue
            if s in safe or protected_leaf(s) or s.op in ("mu", "out", "first"):
                continue
            if s.op == "bin" and s.a[0] == "+":
                if not (protected(s.a[1]) and protected(s.a[2])):
                    return False
                continue
            return False
        return True

    def protected_leaf(v):
        return v in safe

    def entry(e):
        if e[0] == "splice":
            return True if is_field(e[1]) else rec(e[1])
        if e[0] == "item":
            v = e[1]
            return v.op == "elem" and is_field(v.a[0])
        if e[0] == "if":
            got = False
            for y in e[2]:
                g = entry(y)
                if g and skip_ok(e[1], y[1] if y[0] == "item" else None):
                    return True
                if g is True and skips(e[1]):
                    continue
                got = got or (None if g else False)
            return got
        if e[0] == "for":
            return any(entry(y) for y in e[3])
        return False
    op = n.op
    if op == "phi":
        c = n.a[0]
        out = True
        for g, arm in ((c, n.a[1]), (NOT(c), n.a[2])):
            if empty(g):
                continue
            v = rec(arm)
            if v is not True:
                other = NOT(g)
                if skip_ok(other, None) and other.op in ("not", "and") and any(x.op == "not" for x in (other, *other.a) if isinstance(x, N)):
                    continue
                out = v if out is True else (out if out is False else v)
        return out
    if op == "coll":
        res = False
        for e in n.a[1]:
            v = entry(e)
            if v is True:
                return True
            if v is None:
                res = None
        return res
    if op == "bin" and n.a[0] in ("+", "|"):
        a, b = rec(n.a[1]), rec(n.a[2])
        return True if True in (a, b) else (None if None in (a, b) else False)
    if op == "out":
        info = r.loops.get(n.a[0])
        a = rec(n.a[2]) if n.a[2] is not None else False
        b = rec(n.a[3]) if n.a[3] is not None else False
        if b is True and info is not None and info.get("breaks"):
            b = None
        return True if True in (a, b) else (None if None in (a, b) else False)
    if op == "mu":
        info = r.loops.get(n.a[0])
        v = info["init"].get(n.a[1]) if info else None
        return rec(v) if v is not None else False
    if op == "call" and n.a[0] in ("builtins.list", "builtins.set", "builtins.sorted", "builtins.tuple", "builtins.frozenset",
                                   "builtins.dict.fromkeys") and n.a[1]:
        return rec(n.a[1][0])
    if op == "meth" and n.a[1] == "union":
        vs = [rec(n.a[0])] + [True if is_field(x) else rec(x) for x in n.a[2]]
        return True if True in vs else (None if None in vs else False)
    if op == "meth" and n.a[1] in ("copy", "keys"):
        return rec(n.a[0])
    if op == "attr" and q.descend(n.a[0]):
        vs = [rec(s) for s in sources(r, n)]
        return True if all(v is True for v in vs) and vs else (None if None in vs or len(vs) > 1 else False)
    if op in ("meth", "const", "param", "item"):
        return False
    return None if op in ("unk", "last", "first", "maybe", "removed", "call", "rcall") else False


# ------------------------------------------------------------ three-valued reading of a condition
def tri(c, cls):
    """Truth of condition c when cls(atom) gives True, False or None (not determined) for its atoms."""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    v = cls(c)
    if v is not None:
        return v
    if c.op == "not":
        v = tri(c.a[0], cls)
        return None if v is None else not v
    if c.op in ("and", "or"):
        vs = [tri(x, cls) for x in c.a]
        stop = c.op == "or"
        if stop in vs:
            return stop
        return None if None in vs else not stop
    if c.op == "phi":
        g = tri(c.a[0], cls)
        a, b = tri(c.a[1], cls), tri(c.a[2], cls)
        return a if g is True else b if g is False else a if a == b else None
    if c.op == "truth":
        m = c.a[0]
        if m.op == "const":
            return bool(cval(m))
        if m.op in ("and", "or", "not", "phi", "eq", "in", "is", "lt", "le", "exists"):
            return tri(m, cls)
    return None


def undetermined(c, cls, out):
    """Atoms of c whose truth cls does not determine."""
    if c in (TRUE, FALSE) or cls(c) is not None:
        return out
    if c.op in ("not", "and", "or", "phi"):
        for x in c.a:
            undetermined(x, cls, out)
    elif c not in out:
        out.append(c)
    return out


def tri_free(c, cls, free):
    """Like tri; atoms that free(atom) declares independent of the case take both values. Gives the set of outcomes
    (with None when another atom is not determined)."""
    import itertools
    spent = [m for m in deps(c) if m.op == "truth" and m.a[0].op == "param" and m.a[0].a[0].startswith("first use of ")]
    if spent:
        return tri_free(subst(c, {spent[0]: TRUE}), cls, free) | tri_free(subst(c, {spent[0]: FALSE}), cls, free)
    us = [x for x in undetermined(c, cls, []) if free(x)][:8]
    if not us:
        return {tri(c, cls)}
    out = set()
    for vs in itertools.product((True, False), repeat=len(us)):
        m = dict(zip(us, vs))
        out.add(tri(c, lambda x: m.get(x) if x in m else cls(x)))
    return out


def judge(outs, want):
    """Verdict of a set of outcomes: every outcome must be `want`."""
    return False if (not want) in outs else None if None in outs else True
