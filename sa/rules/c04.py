"""The expression computed by calculate_error is reduced to a normal form (factor, reduction, absolute linear numerator,
denominator) in each of the two cases "some candidate metric is zero" and "none is" and compared with the definition.
The vectors returned by the sampling functions are flattened into ordered segments, for serial and for parallel
execution and for every subset of kinds of cases that is present, and compared with: ignition, stirred-reactor, flame,
each one result per case in case order."""
from .runs import *

ASSUMES = ["numpy and built-in arithmetic, max, abs, fmax, any as documented", "metrics of the starting model are positive (C05)"]
O, T = P("metrics_original"), P("metrics_test")
ABS = ("numpy.abs", "numpy.absolute", "numpy.fabs", "builtins.abs")
MAX = ("numpy.max", "numpy.amax", "builtins.max")
KNOWN = set(ABS + MAX) | {"numpy." + x for x in ("min", "amin", "mean", "average", "sum", "median", "nanmax", "nanmean", "nanmin", "fmax", "fmin",
                                                  "maximum", "minimum", "sqrt", "square", "percentile", "quantile", "where", "any", "all",
                                                  "isclose", "std", "log", "log10", "exp", "atleast_1d", "asarray", "array", "sign",
                                                  "nan_to_num", "clip")} | {
    "builtins." + x for x in ("min", "sum", "float", "any", "all", "len")}


def strip(n):
    while n.op == "call" and n.a[0] in ("numpy.asarray", "numpy.array", "numpy.atleast_1d", "builtins.float", "numpy.float64",
                                        "numpy.ravel", "numpy.squeeze") and len(n.a[1]) == 1:
        n = n.a[1][0]
    return n


def elementwise(n):
    """(linear numerator {'O','T'}, denominator power of O, absolute?) of an elementwise expression, or None."""
    n = strip(n)
    if n is O:
        return {"O": 1.0}, 0, False
    if n is T:
        return {"T": 1.0}, 0, False
    if n.op == "const" and isinstance(cval(n), (int, float)):
        return {"O": float(cval(n))}, 1, False      # c = c*O/O
    if n.op == "call" and n.a[0] in ABS:
        x = elementwise(n.a[1][0])
        return x and (x[0], x[1], True)
    if n.op == "un" and n.a[0] == "-":
        x = elementwise(n.a[1])
        return x and ({k: -v for k, v in x[0].items()}, x[1], False) if x and not x[2] else None
    if n.op == "bin":
        op, u, w = n.a
        if op in "+-" and len(op) == 1:
            x, y = elementwise(u), elementwise(w)
            if x and y and not x[2] and not y[2] and x[1] == y[1]:
                s = 1 if op == "+" else -1
                return {k: x[0].get(k, 0) + s * y[0].get(k, 0) for k in ("O", "T")}, x[1], False
            return None
        if op == "*":
            for p, z in ((u, w), (w, u)):
                if p.op == "const" and isinstance(cval(p), (int, float)):
                    x = elementwise(z)
                    c = float(cval(p))
                    if x and (not x[2] or c >= 0):
                        return {k: v * c for k, v in x[0].items()}, x[1], x[2]
            return None
        if op == "/":
            x = elementwise(u)
            d = strip(w)
            if d.op == "call" and d.a[0] in ABS:
                d = strip(d.a[1][0])
            if x and d is O:
                return x[0], x[1] + 1, x[2]
            if x and d.op == "const" and cval(d):
                return {k: v / float(cval(d)) for k, v in x[0].items()}, x[1], x[2]
    return None


def percent(n):
    """Whether n is 100 * max(|O-T|/O)."""
    n = strip(n)
    f = 1.0
    while True:
        if n.op == "bin" and n.a[0] == "*" and any(x.op == "const" for x in n.a[1:]):
            c, n = (n.a[1], n.a[2]) if n.a[1].op == "const" else (n.a[2], n.a[1])
            f *= float(cval(c))
        elif n.op == "call" and n.a[0] in ("builtins.float", "numpy.float64", "builtins.round"):
            if n.a[0] == "builtins.round":
                return False
            n = n.a[1][0]
        else:
            break
    arg = None
    if n.op == "call" and n.a[0] in MAX and len(n.a[1]) == 1 and not n.a[2]:
        arg = n.a[1][0]
    elif n.op == "meth" and n.a[1] == "max" and not n.a[2]:
        arg = n.a[0]
    elif n.op == "maxfor":
        return None
    if arg is None:
        return False if vocabulary(n) else None
    x = elementwise(arg)
    if x is None:
        return False if vocabulary(arg) else None
    num, den, ab = x
    g = num.get("O", 0) * f
    return den == 1 and ab and abs(abs(g) - 100) < 1e-9 and abs(num.get("O", 0) + num.get("T", 0)) < 1e-12


def vocabulary(n):
    return all(m.op in ("param", "const", "bin", "un", "phi", "and", "or", "not", "eq", "lt", "le", "truth", "attr", "item", "tuple")
               or m.op == "call" and m.a[0] in KNOWN or m.op == "meth" for m in deps(n)) and not any(m.op == "unk" for m in deps(n))


def zero_atoms(zero, T=T):
    def elem_is_T(m):
        m = strip(m)
        return m is T or m.op == "elem" and strip(m.a[0]) is T

    def of_elements(x):
        """Truth for a zero element / for a non-zero element of the candidate metrics."""
        if x.op in ("eq", "lt", "le"):
            for u, w, flip in ((x.a[0], x.a[1], 0), (x.a[1], x.a[0], 1)):
                if elem_is_T(u) and w.op == "const" and isinstance(cval(w), (int, float)):
                    c = cval(w)
                    if x.op == "eq":
                        return (True, False) if c == 0 else (False, None) if c > 0 else (False, False)
                    p = (0 < c if x.op == "lt" else 0 <= c) if not flip else (c < 0 if x.op == "lt" else c <= 0)
                    if not flip:      # T < c
                        return p, (None if c > 0 else False)
                    return p, (True if c <= 0 else None)
        if x.op == "call" and x.a[0] == "numpy.isclose" and elem_is_T(x.a[1][0]) and is_const(x.a[1][1], 0):
            return True, None
        if x.op == "truth" and elem_is_T(x.a[0]) or elem_is_T(x):
            return False, True
        if x.op == "not":
            y = of_elements(x.a[0])
            return y and tuple(None if v is None else not v for v in y)
        return None

    def some(y):
        z, nz = y
        if zero and z:
            return True
        if nz is None or nz and not zero:
            return nz
        return None if nz else False

    def every(y):
        r = some(tuple(None if v is None else not v for v in y))
        return None if r is None else not r

    def cls(c):
        x = c.a[0] if c.op == "truth" else c
        if x.op == "exists" and strip(x.a[0]) is T:
            y = of_elements(x.a[2])
            return some(y) if y else None
        if x.op == "call" and x.a[0] in ("numpy.any", "builtins.any", "numpy.all", "builtins.all") and len(x.a[1]) == 1:
            y = of_elements(strip(x.a[1][0]))
            return None if not y else some(y) if x.a[0].endswith("any") else every(y)
        if x.op == "meth" and x.a[1] in ("any", "all"):
            y = of_elements(x.a[0])
            return None if not y else some(y) if x.a[1] == "any" else every(y)
        if x.op == "in" and strip(x.a[1]) is T and is_const(x.a[0]) and cval(x.a[0]) == 0:
            return zero
        if x.op in ("eq", "le") and any(m.op == "call" and m.a[0] in ("numpy.min", "numpy.amin", "builtins.min") and strip(m.a[1][0]) is T
                                        for m in x.a) and any(is_const(m) and cval(m) == 0 for m in x.a):
            return zero if x.op == "eq" or is_const(x.a[1]) else None
        return None
    return cls


def reduce_cond(c, cls):
    """c without the conjuncts and disjuncts that are settled."""
    if c.op in ("and", "or"):
        ps = [x for x in c.a if tri(x, cls) is not (c.op == "and")]
        return ps[0] if len(ps) == 1 else c
    return c


def leaves(n, cls, out, free=True):
    if n.op == "phi":
        c = reduce_cond(n.a[0], cls)
        neg = c.op == "not"
        c = c.a[0] if neg else c
        if c.op in ("lt", "le") and {*n.a[1:]} == {*c.a} and len(set(c.a)) == 2 and any(x.op == "const" for x in c.a):
            # a if a < b else b
            small = (n.a[1] is c.a[0]) != neg
            return leaves(mk("call", "builtins." + ("min" if small else "max"), tuple(sorted(c.a, key=lambda m: m.id)), (), None), cls, out)
        ts = tri_free(n.a[0], cls, lambda c: vocabulary(c))
        if None in ts:
            out.append(None)
        if True in ts:
            leaves(n.a[1], cls, out)
        if False in ts:
            leaves(n.a[2], cls, out)
        return out
    out.append(n)
    return out


FMAX = ("numpy.fmax", "numpy.maximum", "builtins.max", "numpy.max")


def error(C, rep):
    r = C.run(ERROR, "full")
    f = C.prog.funcs[ERROR]
    at = (f.mod.path, f.node.lineno)
    for zero in (False, True):
        key = "error.zero" if zero else "error.definition"
        what = ("with a zero candidate metric the error is the largest relative deviation, at least 100" if zero else
                "the error is 100 times the largest relative deviation of any metric")
        for n in leaves(r.retf, zero_atoms(zero), []):
            if n is None:
                rep.und(key, what, at, f"condition not understood in {str(r.retf)[:200]}")
                continue
            base, floor = n, None
            if n.op == "call" and n.a[0] in FMAX:
                args = n.a[1] if len(n.a[1]) == 2 else n.a[1][0].a if n.a[1][0].op == "tuple" else [
                    x[1] for x in members(n.a[1][0]) if x[0] == "item"] if n.a[1][0].op == "coll" else ()
                if len(args) == 2 and any(x.op == "const" for x in args):
                    base, floor = (args[1], args[0]) if args[0].op == "const" else (args[0], args[1])
                    if floor.op != "const" or base.op == "const":
                        base, floor = n, None
            p = percent(base)
            if zero:
                ok = p if floor is None else (p and cval(floor) == 100 if p is not None else None)
            else:
                ok = p if floor is None else (p and cval(floor) <= 0 if p is not None else None)
            rep.put(ok, key, what, at, "" if ok else str(n)[:250])


def expected(r, seg, kind, want):
    """Whether seg is one result per case of the kind; want(leaf) judges the leaf."""
    if seg[0] != "each" or seg[1] is not conds(kind):
        return False, f"{seg[1]}"[:150]
    if len(seg[3]) != 1 or seg[3][0][0] != "leaf":
        return False, "not one result per case"
    return want(seg[3][0][1], kind, seg)


def leaf_inst(leaf):
    n = leaf
    if n.op == "item" and n.a[0].op == "rcall":
        n = n.a[0]
    if n.op == "rcall" and n.a[1]:
        return q.nodearg(n, "self"), n, (leaf.a[1] if leaf is not n else None)
    return None, None, None


def judge_leaf(r, part):
    def want(leaf, kind, seg):
        inst, call, ix = leaf_inst(leaf)
        if inst is None:
            return verdict(False, r, leaf), f"{str(leaf)[:150]} is not the result of a simulation"
        k = kind_of_inst(r, inst)
        if k is None:
            return None, str(leaf)[:150]
        if k != kind:
            return False, f"{k} result among the {kind} cases"
        nm = short(call.a[0])
        if part == "metric":
            ok = nm == "calculate" and ix is None or nm == "process_results" and (ix is not None and is_const(ix, 0) or (
                ix is None and q.nodearg(call, "skip_data") is TRUE))
        else:
            ok = nm == "process_results" and ix is not None and is_const(ix, 1)
        if not ok:
            return verdict(False, r, leaf), f"takes {nm}{'' if ix is None else '[' + str(ix) + ']'} as the {part}"
        e = news(r, CLS[kind])[inst]
        pr = (e.extra or {}).get("properties")
        if pr is None:
            return None, "case of the simulation not found"
        if pr is not mk("elem", seg[1], seg[2]):
            return verdict(False, r, pr), f"simulates {str(pr)[:100]} for {str(mk('elem', seg[1], seg[2]))[:60]}"
        return True, ""
    return want


def nofile(base):
    """No saved file exists."""
    def cls(c):
        v = base(c)
        if v is not None:
            return v
        x = c.a[0] if c.op == "truth" else c
        if x.op == "call" and x.a[0] in ("os.path.isfile", "os.path.exists"):
            return False
        return None
    return cls


def vector(C, rep, fname, part, args, tag, proj, at):
    r = C.run(fname, "sim", args=args)
    name = short(fname)
    for which in subsets():
        key = f"{name}.{part}s[{'+'.join(which)}]" + tag
        what = f"the {part}s list one result per case of each kind, in order"
        V = Vec(nofile(present(which)))
        n = None
        try:
            n = proj(V, r.retf)
            segs = V.flat(n)
        except Unordered as ex:
            rep.bad(key, what, at, str(ex)[:300])
            continue
        except Und as ex:
            u = unordered_use(r, r.retf if n is None else n)
            if u is not None:
                rep.bad(key, what, at, "results used by position although delivered in completion order: " + str(u)[:150])
            else:
                rep.und(key, what, at, str(ex)[:300])
            continue
        want = [k for k in KINDS if k in which]
        st, why = True, ""
        for i, k in enumerate(want):
            if i >= len(segs):
                st, why = False, f"nothing for the {k} cases"
                break
            st, why = expected(r, segs[i], k, judge_leaf(r, part))
            if st is not True:
                break
        if st is True and len(segs) > len(want):
            st, why = verdict(False, r, *[x[1] for x in segs[len(want):]]), f"extra {str(segs[len(want)])[:150]}"
        if st is False and any(x[0] == "leaf" and vague(x[1]) for x in segs):
            st = None
        rep.put(st, key, what, at, why)


def vague(n):
    """A whole vector built in a way the flattening does not know."""
    return n.op not in ("rcall", "item", "const", "param") or n.op == "item" and n.a[0].op not in ("rcall",)


def vectors(C, rep):
    for nt, tag in ((1, ""), (3, "/parallel")):
        f = C.prog.funcs.get(METRICS)
        if f is None:
            raise AnalysisError("sample_metrics not found")
        vector(C, rep, METRICS, "metric", {"num_threads": const(nt), "reuse_saved": FALSE}, tag, lambda V, x: x,
               (f.mod.path, f.node.lineno))
        f = C.prog.funcs[SAMPLE]
        at = (f.mod.path, f.node.lineno)

        def first(i):
            def go(V, x):
                x = V.pick(x)
                if x.op != "tuple" or len(x.a) != 2:
                    raise Und("the result is not a pair")
                return x.a[i]
            return go
        vector(C, rep, SAMPLE, "metric", {"num_threads": const(nt)}, tag, first(0), at)
        vector(C, rep, SAMPLE, "sample", {"num_threads": const(nt)}, tag, first(1), at)


def check(C, rep):
    rep.section("error", error)
    rep.section("vectors", vectors)
