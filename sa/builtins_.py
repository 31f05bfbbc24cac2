"""Models of builtins, numpy, Cantera, multiprocessing and container methods."""
import ast
import string

from . import ir
from .interp import (DICT_PURE, FS, FS_READ, FS_WRITE, IMPURE, LIST_MUT, ND_METHODS, NP_ALIAS,
                     PURE_PREFIX, STATIC_METHS, STR_METHODS, Flow, arrayish, cat, ent_nodes,
                     filter_coll, fmt, is_tracked, norm_ext, strip_occ, subst_entries)
from .ir import (AND, EXISTS, FALSE, N, NONE, NOT, OR, PHI, TRUE, UNDEF, coll, const, cval,
                 deps, is_bool, is_const, mk, truth, unk)

BINUF = {"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "true_divide": "/",
         "power": "**", "matmul": "@", "floor_divide": "//", "mod": "%"}
CMPUF = {"greater": ("lt", 1), "less": ("lt", 0), "greater_equal": ("le", 1),
         "less_equal": ("le", 0), "equal": ("eq", 0)}
REDUCE = {"sum", "max", "min", "mean", "prod", "any", "all", "argmin", "argmax", "cumsum"}
PAR_ORDERED = {"map", "imap", "starmap"}
PAR_UNORDERED = {"imap_unordered"}
POOLS = ("multiprocessing.Pool", "multiprocessing.dummy.Pool", "multiprocessing.ThreadPool",
         "concurrent.futures.ProcessPoolExecutor", "concurrent.futures.ThreadPoolExecutor",
         "multiprocessing.pool.ThreadPool", "multiprocessing.context.Pool")


def fz(I, xs, st):
    return tuple(I.freeze(x, st) for x in xs)


def fkw(I, kws, st, drop=()):
    return tuple(sorted((k, I.freeze(v, st)) for k, v in kws.items() if k not in drop))


def newlist(I, kind, ents, st, e, tag=""):
    return I.newref(kind, coll(kind, ents), st, e)


def bump(I, args, node, st):
    for d in args:
        ds = (d,) if not (d.op == "coll") else tuple(x for x in deps(d) if is_tracked(x))
        for x in ds:
            if ("ver", x) in st.heap or is_tracked(x):
                st.heap[("ver", x)] = mk("upd", st.heap.get(("ver", x), mk("v0")), "$call", node)


def map_over(I, f, iters, st, e, kind="list", star=False, filt=False):
    acc = I.newref(kind, coll(kind, ()), st, e)
    it = iters[0] if len(iters) == 1 else mk("call", "builtins.zip", fz(I, iters, st), (), None)
    multi = len(iters) > 1 or star
    fr = I.ctx(e, "mapframe")
    st.frames[fr] = {"$parent": NONE}

    def bind(v, y):
        y.frames[fr]["$x"] = v

    def body(y):
        v = y.frames[fr]["$x"]
        args = [v]
        if multi:
            c = I.content(v, y)
            if c.op == "tuple":
                args = list(c.a)
            elif c.op == "coll" and all(x[0] == "item" for x in c.a[1]):
                args = [x[1] for x in c.a[1]]
            elif len(iters) > 1:
                args = [I.item(v, const(i), y) for i in range(len(iters))]
            else:
                args = [mk("starred", I.freeze(v, y))]
        I._argnames = ([], {})
        if f is None:
            r = v
        else:
            r = I.call(f, args, {}, y, e)
        if y.dead:
            return Flow()
        c = y.heap[acc]
        if c.op != "coll":
            c = coll(kind, (("splice", c),))
        ent = ("item", v if filt else r)
        if filt:
            ent = ("if", I.truth(r, y), (ent,))
        y.heap[acc] = coll(kind, c.a[1] + (ent,))
        return Flow(y)
    fl = I.iterate(it, st.copy(), e, bind, body)
    if fl.normal is None:
        st.dead = True
        return acc
    I.become(st, fl.normal)
    st.frames.pop(fr, None)
    return acc


def any_of(I, c, st):
    """OR over the truth of the elements of a frozen collection, or None."""
    while c.op == "call" and c.a[0] in ("builtins.list", "builtins.tuple") and c.a[1]:
        c = c.a[1][0]
    if c.op == "tuple":
        return OR(*[I.truth(x, st) for x in c.a])
    if c.op == "phi":
        a, b = any_of(I, c.a[1], st), any_of(I, c.a[2], st)
        return None if a is None or b is None else PHI(c.a[0], a, b)
    if c.op != "coll":
        return None

    def ent(e):
        if e[0] == "item":
            return truth(e[1])
        if e[0] == "kv":
            return truth(e[1])
        if e[0] == "if":
            return AND(e[1], OR(*[ent(x) for x in e[2]]))
        if e[0] == "for":
            return EXISTS(e[1], e[2], OR(*[ent(x) for x in e[3]]))
        if e[0] == "splice":
            it = e[1]
            r = any_of(I, it, st)
            return r if r is not None else EXISTS(it, 0, truth(mk("elem", it, 0)))
        return truth(mk("entry", str(e)))
    return OR(*[ent(e) for e in c.a[1]])


def neg_ents(c):
    def go(e):
        if e[0] == "item":
            return ("item", NOT(truth(e[1])))
        if e[0] == "kv":
            return ("item", NOT(truth(e[1])))
        if e[0] == "if":
            return ("if", e[1], tuple(go(x) for x in e[2]))
        if e[0] == "for":
            return ("for", e[1], e[2], tuple(go(x) for x in e[3]))
        if e[0] == "splice":
            it = e[1]
            return ("for", it, 0, (("item", NOT(truth(mk("elem", it, 0)))),))
        return e
    return coll("list", tuple(go(e) for e in c.a[1]))


def all_of(I, c, st):
    while c.op == "call" and c.a[0] in ("builtins.list", "builtins.tuple") and c.a[1]:
        c = c.a[1][0]
    if c.op == "tuple":
        return AND(*[I.truth(x, st) for x in c.a])
    if c.op != "coll":
        return None
    r = any_of(I, neg_ents(c), st)
    return None if r is None else NOT(r)


def length(I, c):
    while c.op == "call" and c.a[0] in ("builtins.list", "builtins.tuple", "builtins.sorted",
                                        "builtins.reversed") and c.a[1]:
        c = c.a[1][0]
    if c.op == "meth" and c.a[1] in ("keys", "items", "values", "copy") and not c.a[2]:
        return length(I, c.a[0])
    if c.op == "coll":
        if c.a[0] == "dict":
            c = mk("coll", "dict", ir.keyed(c.a[1]))
        if all(x[0] in ("item", "kv") for x in c.a[1]) and c.a[0] != "set":
            return const(len(c.a[1]))
        if len(c.a[1]) == 1 and c.a[1][0][0] == "splice" and c.a[0] != "set":
            return length(I, c.a[1][0][1])
        # a list with one entry per element of a domain has that domain's length
        if len(c.a[1]) == 1 and c.a[1][0][0] == "for" and len(c.a[1][0][3]) == 1:
            x, it, k = c.a[1][0][3][0], c.a[1][0][1], c.a[1][0][2]
            if x[0] == "item" and (c.a[0] == "list" or x[1] is mk("idx", it, k)) or x[0] == "kv" and x[1] is mk("idx", it, k):
                return length(I, it)
    if c.op == "tuple" or c.op == "nt":
        return const(len(c.a if c.op == "tuple" else c.a[1]))
    if c.op == "const" and isinstance(cval(c), str):
        return const(len(cval(c)))
    if c.op == "meth" and c.a[1] == "species" and not c.a[2]:
        return mk("attr", c.a[0], "n_species", None)
    if c.op == "meth" and c.a[1] == "reactions" and not c.a[2]:
        return mk("attr", c.a[0], "n_reactions", None)
    if c.op == "attr" and c.a[1] == "species_names":
        return mk("attr", c.a[0], "n_species", None)
    if c.op == "phi":
        return PHI(c.a[0], length(I, c.a[1]), length(I, c.a[2]))
    return mk("call", "builtins.len", (c,), (), None)


def numbered(I, f):
    """Entries of a collection of positions, or of tuples that start with them, in sorted order."""
    if f.op == "meth" and f.a[1] == "items" and not f.a[2] and f.a[0].op == "coll" and f.a[0].a[0] == "dict":
        ents = tuple(I.kv2tuple(x) for x in ir.keyed(f.a[0].a[1]))
    elif f.op == "coll":
        ents = tuple(keys_only(x) for x in ir.keyed(f.a[1])) if f.a[0] == "dict" else f.a[1]
    else:
        return None
    if len(ents) == 1 and ents[0][0] == "splice" and ents[0][1].op == "coll" and ents[0][1].a[0] == "set":
        ents = ents[0][1].a[1]
    if len(ents) != 1 or ents[0][0] != "for" or len(ents[0][3]) != 1 or ents[0][3][0][0] != "item":
        return None
    i, v = mk("idx", ents[0][1], ents[0][2]), ents[0][3][0][1]
    return ents if v is i or v.op == "tuple" and v.a and v.a[0] is i else None


def to_dict_entries(I, c):
    """Entries of dict(c) for a frozen iterable of pairs / mapping."""
    if c.op == "coll" and c.a[0] == "dict":
        return c.a[1]
    if c.op == "call" and c.a[0] == "builtins.enumerate" and len(c.a[1]) == 1:
        it = c.a[1][0]
        return (("for", it, 0, (("kv", mk("idx", it, 0), mk("elem", it, 0)),)),)
    if c.op == "call" and c.a[0] == "builtins.zip" and len(c.a[1]) == 2:
        a, b = c.a[1]
        a0 = a
        if a0.op == "call" and a0.a[0] == "builtins.range" and len(a0.a[1]) == 1:
            # dict(zip(range(len(x)), x))
            n = a0.a[1][0]
            if length(I, b) is n:
                return (("for", b, 0, (("kv", mk("idx", b, 0), mk("elem", b, 0)),)),)
        if b.op == "call" and b.a[0] == "builtins.range":
            n = b.a[1][0]
            if length(I, a) is n:
                return (("for", a, 0, (("kv", mk("elem", a, 0), mk("idx", a, 0)),)),)
        return (("for", c, 0, (("kv", I.item_f(a, mk("idx", c, 0)), I.item_f(b, mk("idx", c, 0))),)),)
    if c.op == "meth" and c.a[1] in ("items", "copy"):
        return to_dict_entries(I, c.a[0])
    if c.op == "coll":
        ok = True

        def go(e):
            nonlocal ok
            if e[0] == "item" and e[1].op == "tuple" and len(e[1].a) == 2:
                return ("kv", e[1].a[0], e[1].a[1])
            if e[0] == "if":
                return ("if", e[1], tuple(go(x) for x in e[2]))
            if e[0] == "for":
                return ("for", e[1], e[2], tuple(go(x) for x in e[3]))
            ok = False
            return e
        ents = tuple(go(e) for e in c.a[1])
        if ok:
            return ents
    return (("splice", c),)


# --------------------------------------------------------------------- external functions
def call_ext(I, name, pos, kws, st, e):
    name = norm_ext(name)
    names = I._argnames
    if name.startswith("builtins."):
        r = call_builtin(I, name[9:], pos, kws, st, e)
        if r is not None:
            return r
    elif name.startswith("numpy."):
        r = call_numpy(I, name, pos, kws, st, e, names)
        if r is not None:
            return r
    elif name == "functools.partial":
        return mk("partial", pos[0], tuple(pos[1:]), tuple(sorted(kws.items())))
    elif name == "functools.reduce":
        return reduce_(I, pos, st, e)
    elif name == "itertools.chain":
        return newlist(I, "list", tuple(("splice", x) for x in unstar(I, fz(I, pos, st), st, e)), st, e)
    elif name == "itertools.chain.from_iterable":
        return chain_iter(I, pos[0], st, e)
    elif name in ("itertools.starmap",):
        return map_over(I, pos[0], [pos[1]], st, e, star=True)
    elif name in ("itertools.islice",) and len(pos) == 2:
        return I.item(pos[0], mk("slice", NONE, I.freeze(pos[1], st), NONE), st)
    elif name in ("copy.copy", "copy.deepcopy"):
        c = I.content(pos[0], st)
        I.emit("copy", name[5:], I.freeze(pos[0], st), (), (), st, e)
        if c.op == "coll" or pos[0] in st.heap and c.op in ("mu", "phi", "removed"):
            k = c.a[0] if c.op == "coll" else "copy"
            return newlist(I, k, (("splice", I.freeze(pos[0], st)),) if c.op != "coll" else
                           I.freeze(c, st).a[1], st, e)
        if c.op in ("param", "elem", "item", "attr", "global", "default"):
            return newlist(I, "copy", (("splice", I.freeze(c, st)),), st, e)
        return c
    elif name.startswith("operator."):
        r = call_operator(I, name[9:], pos, kws, st, e)
        if r is not None:
            return r
    elif name == "sys.exit":
        a = fz(I, pos, st)
        node = mk("call", "sys.exit", a, (), None)
        I.emit("call", name, node, a, (), st, e)
        I.do_raise(st, node, "SystemExit", e)
        return unk("exit")
    elif name == "cantera.Solution":
        return ct_solution(I, pos, kws, st, e)
    elif name in ("concurrent.futures.as_completed",):
        c = I.freeze(pos[0], st)
        return newlist(I, "set", (("splice", c),), st, e)
    elif name.startswith("logging."):
        a, k = fz(I, pos, st), fkw(I, kws, st)
        node = mk("call", name, a, k, None)
        I.emit("call", name, node, a, k, st, e)
        return node if name.split(".")[-1][0].isupper() or "get" in name else NONE
    elif name == "heapq.heappush":
        return mutate(I, pos[0], "append", [pos[1]], {}, st, e)
    elif name == "heapq.heappop":
        c = I.freeze(pos[0], st)
        occ = I.occurrence(("heappop",), e)
        I.mut_event(pos[0], "pop", (), st, e)
        if pos[0] in st.heap or pos[0].op == "ref":
            I.setcontent(pos[0], mk("removed", c, "heappop", const(occ)), st)
        return mk("heapmin", c, const(occ))
    a, k = fz(I, pos, st), fkw(I, kws, st)
    if name in FS_READ:
        node = mk("call", name, a, k, st.heap.get(FS))
        I.emit("call", name, node, a, k, st, e)
        return node
    if name in FS_WRITE:
        occ = I.occurrence(("call", name, a, k), e)
        node = mk("call", name, a, k, occ)
        I.emit("call", name, node, a, k, st, e)
        st.heap[FS] = mk("fsupd", st.heap.get(FS, mk("fs0")), node)
        return NONE if name.startswith("os.") else node
    if name.startswith(PURE_PREFIX) and name not in IMPURE or name == "argparse.ArgumentParser":
        node = mk("call", name, a, k, None)
        I.emit("call", name, node, a, k, st, e)
        return node
    occ = I.occurrence(("call", name, a, k), e)
    node = mk("call", name, a, k, occ)
    I.emit("call", name, node, a, k, st, e)
    bump(I, a + tuple(v for _, v in k), node, st)
    return node


def ct_solution(I, pos, kws, st, e):
    k = dict(kws)
    for nm, v in zip(("infile", "name", "adjacent"), pos):
        k[nm] = v
    kk = []
    for nm, v in k.items():
        f = I.freeze(v, st)
        if nm == "name" and (is_const(f, "") or f is NONE):
            continue
        kk.append((nm, f))
    kk = tuple(sorted(kk))
    key = ("call", "cantera.Solution", kk)
    occ = I.occurrence(key, e)
    node = mk("call", "cantera.Solution", (), kk, occ)
    I.emit("call", "cantera.Solution", node, (), kk, st, e)
    return node


def reduce_(I, pos, st, e):
    fr = I.ctx(e, "redframe")
    st.frames[fr] = {"$parent": NONE}
    it = pos[1]
    if len(pos) > 2:
        st.frames[fr]["acc"] = pos[2]
    else:
        return unk("reduce", I.freeze(it, st))

    def bind(v, y):
        y.frames[fr]["$x"] = v

    def body(y):
        I._argnames = ([], {})
        r = I.call(pos[0], [y.frames[fr]["acc"], y.frames[fr]["$x"]], {}, y, e)
        y.frames[fr]["acc"] = r
        return Flow(y) if not y.dead else Flow()
    fl = I.iterate(it, st.copy(), e, bind, body)
    if fl.normal is None:
        st.dead = True
        return unk("dead")
    I.become(st, fl.normal)
    v = st.frames[fr]["acc"]
    st.frames.pop(fr, None)
    return v


def chain_iter(I, it, st, e):
    acc = I.newref("list", coll("list", ()), st, e)
    fr = I.ctx(e, "chainframe")
    st.frames[fr] = {"$parent": NONE}

    def bind(v, y):
        y.frames[fr]["$x"] = v

    def body(y):
        c = y.heap[acc]
        if c.op != "coll":
            c = coll("list", (("splice", c),))
        y.heap[acc] = coll("list", c.a[1] + (("splice", I.freeze(y.frames[fr]["$x"], y)),))
        return Flow(y)
    fl = I.iterate(it, st.copy(), e, bind, body)
    I.become(st, fl.normal)
    st.frames.pop(fr, None)
    return acc


def unstar(I, a, st, e):
    """Arguments, with ``*its`` as everything its members hold."""
    return tuple(I.freeze(chain_iter(I, x.a[0], st, e), st) if x.op == "starred" else x for x in a)


def call_operator(I, nm, pos, kws, st, e):
    a = fz(I, pos, st)
    if nm in ("add", "sub", "mul", "truediv", "matmul", "pow", "and_", "or_") and len(a) == 2:
        op = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "matmul": "@", "pow": "**", "and_": "&", "or_": "|"}[nm]
        return I.binop_ref(op, pos[0], pos[1], st, e)
    if nm in ("lt", "le", "eq") and len(a) == 2:
        return I.cmp(nm, a[0], a[1])
    if nm == "gt":
        return I.cmp("lt", a[1], a[0])
    if nm == "ge":
        return I.cmp("le", a[1], a[0])
    if nm == "ne":
        return NOT(I.cmp("eq", a[0], a[1]))
    if nm == "not_":
        return NOT(I.truth(pos[0], st))
    if nm == "contains":
        return I.isin(a[1], a[0])
    if nm == "getitem":
        return I.item(pos[0], pos[1], st)
    return None


def call_builtin(I, nm, pos, kws, st, e):
    if nm == "len":
        return length(I, I.freeze(pos[0], st))
    if nm in ("range", "enumerate", "zip"):
        a, k = fz(I, pos, st), fkw(I, kws, st, ("strict",))
        if nm == "range" and len(a) == 2 and is_const(a[0], 0):
            a = a[1:]
        if nm == "range" and len(a) == 3 and is_const(a[0], 0) and is_const(a[2], 1):
            a = a[1:2]
        if nm == "enumerate" and k and not (len(a) > 1):
            a = a + (k[0][1],)
            k = ()
        if nm == "enumerate" and len(a) == 2 and is_const(a[1], 0):
            a = a[:1]
        return mk("call", "builtins." + nm, a, k, None)
    if nm in ("list", "tuple", "set", "frozenset"):
        kind = {"list": "list", "tuple": "list", "set": "set", "frozenset": "set"}[nm]
        if not pos:
            return newlist(I, kind, (), st, e)
        f = I.freeze(pos[0], st)
        if nm == "tuple" and f.op == "tuple":
            return pos[0]
        if f.op == "coll" and f.a[0] == "dict":
            f = coll("list", tuple(keys_only(x) for x in f.a[1]))
        if f.op == "meth" and f.a[1] == "keys" and not f.a[2]:
            f = f.a[0]
            if f.op == "coll":
                f = coll("list", tuple(keys_only(x) for x in f.a[1]))
        if f.op == "call" and f.a[0] in ("builtins.zip", "builtins.enumerate", "builtins.map", "builtins.filter") or (
                f.op == "meth" and f.a[1] in ("items", "values")):
            return map_over(I, None, [f], st, e, kind=kind)
        return newlist(I, kind, (("splice", f),), st, e)
    if nm in ("sorted", "reversed"):
        f = I.freeze(pos[0], st)
        k = fkw(I, kws, st)
        k = tuple((x, v) for x, v in k if not (x == "key" and v is NONE) and not (x == "reverse" and v is FALSE))
        k = tuple((x, norm_key(I, v)) for x, v in k)
        n = mk("call", "builtins." + nm, (f,), k, None)
        if nm == "sorted" and not k:
            o = numbered(I, f)
            if o is not None:
                return newlist(I, "list", o, st, e)
        return newlist(I, "list", (("splice", n),), st, e)
    if nm == "dict":
        ents = ()
        if pos:
            ents = to_dict_entries(I, I.freeze(pos[0], st))
        ents += tuple(("kv", const(k), v) for k, v in kws.items() if k != "**")
        if "**" in kws:
            ents += (("splice", kws["**"]),)
        return newlist(I, "dict", ents, st, e)
    if nm in ("max", "min"):
        a, k = fz(I, pos, st), fkw(I, kws, st)
        k = tuple((x, norm_key(I, v)) for x, v in k)
        if len(a) == 1 and a[0].op == "tuple":
            a = a[0].a
        if len(a) == 1 and a[0].op == "coll" and a[0].a[1] and all(x[0] == "item" for x in a[0].a[1]):
            a = tuple(x[1] for x in a[0].a[1])
        if len(a) > 1:
            a = tuple(sorted(a, key=lambda n: n.id))
            if all(x.op == "const" and isinstance(cval(x), (int, float)) for x in a):
                return const((max if nm == "max" else min)(cval(x) for x in a))
        n = mk("call", "builtins." + nm, a, k, None)
        if len(a) == 1:
            I.emit("reduce", "builtins." + nm, n, a, k, st, e)
        return n
    if nm == "sum":
        a = fz(I, pos, st)
        if len(a) == 2 and is_const(a[1], 0):
            a = a[:1]
        if len(a) == 2 and (a[1].op == "coll" or a[1].op == "tuple"):
            # sum(lists, []) concatenates
            return chain_iter(I, pos[0], st, e)
        return mk("call", "builtins.sum", a, (), None)
    if nm in ("any", "all"):
        f = I.freeze(pos[0], st)
        r = any_of(I, f, st) if nm == "any" else all_of(I, f, st)
        if r is not None:
            return r
        return mk("truth", mk("call", "numpy." + nm, (f,), (), None))
    if nm == "isinstance":
        a = fz(I, pos, st)
        return isinst(a[0], a[1])
    if nm == "hasattr":
        a = fz(I, pos, st)
        return mk("hasattr", a[0], a[1])
    if nm == "getattr":
        n = I.freeze(pos[1], st)
        if n.op == "const":
            v = I.getattr(pos[0], cval(n), st, e)
            if len(pos) > 2 and v.op in ("attr",):
                return PHI(mk("hasattr", I.freeze(pos[0], st), n), v, I.freeze(pos[2], st))
            return v
        a = fz(I, pos, st)
        return mk("dynattr", *a)
    if nm == "setattr":
        n = I.freeze(pos[1], st)
        if n.op == "const":
            I.setattr(pos[0], cval(n), pos[2], st, e)
        else:
            a = fz(I, pos, st)
            I.emit("setattr", "?", a[0], (a[2],), (), st, e)
        return NONE
    if nm == "str":
        if not pos:
            return const("")
        f = I.freeze(pos[0], st)
        return f if f.op == "const" and isinstance(cval(f), str) else cat([f]) if f.op in ("cat",) else fmt(f, "", "")
    if nm == "repr":
        return fmt(I.freeze(pos[0], st), "", "r")
    if nm == "format":
        f = I.freeze(pos[0], st)
        sp = I.freeze(pos[1], st) if len(pos) > 1 else const("")
        return fmt(f, cval(sp) if sp.op == "const" else sp, "")
    if nm == "bool":
        return I.truth(pos[0], st) if pos else FALSE
    if nm == "abs":
        return mk("call", "numpy.abs", fz(I, pos, st), (), None)
    if nm in ("int", "float", "round", "complex"):
        a = fz(I, pos, st)
        if a and a[0].op == "const" and len(a) == 1 and nm in ("int", "float"):
            try:
                return const({"int": int, "float": float}[nm](cval(a[0])))
            except Exception:
                pass
        return mk("call", "builtins." + nm, a, fkw(I, kws, st), None)
    if nm == "map":
        return map_over(I, pos[0], pos[1:], st, e)
    if nm == "filter":
        f = pos[0] if I.freeze(pos[0], st) is not NONE else None
        return map_over(I, f, [pos[1]], st, e, filt=True)
    if nm == "iter":
        f = I.freeze(pos[0], st)
        return newlist(I, "list", (("splice", f),), st, e)
    if nm == "next":
        c = I.content(pos[0], st)
        f = I.freeze(pos[0], st)
        if c.op == "coll":
            v = next_of(I, f, I.freeze(pos[1], st) if len(pos) > 1 else None)
            if v is not None:
                return v
        occ = I.occurrence(("next", f), e)
        return mk("call", "builtins.next", (f,) + fz(I, pos[1:], st), (), occ)
    if nm == "super":
        fid = None
        for s in reversed(I.stack):
            f = I.prog.funcs.get(s[0])
            if f is not None and f.cls is not None:
                fid = f
                break
        if len(pos) == 2:
            clsid, selfn = (pos[0].a[0] if pos[0].op == "cls" else "?"), pos[1]
        elif fid is not None:
            clsid = fid.cls.cid
            first = fid.node.args.args[0].arg if fid.node.args.args else None
            selfn = I.lookup(first, st) if first else unk("super")
        else:
            return unk("super")
        ic = selfn.a[0] if selfn.op in ("inst", "cls") else selfn.a[0][5:] if selfn.op == "ref" else clsid
        return mk("super", clsid, selfn, ic)
    if nm == "open":
        a, k = fz(I, pos, st), fkw(I, kws, st)
        mode = a[1] if len(a) > 1 else dict(k).get("mode", const("r"))
        occ = I.occurrence(("open", a, k), e)
        write = not (mode.op == "const" and "r" in cval(mode) and "+" not in cval(mode))
        node = mk("call", "builtins.open", a[:1] + (mode,), (), occ)
        I.emit("call", "builtins.open", node, a, k, st, e, extra="w" if write else "r")
        if write:
            st.heap[FS] = mk("fsupd", st.heap.get(FS, mk("fs0")), node)
        return node
    if nm == "print":
        a = fz(I, pos, st)
        I.emit("call", "builtins.print", NONE, a, fkw(I, kws, st), st, e)
        return NONE
    if nm == "slice":
        a = fz(I, pos, st)
        if len(a) == 1:
            return mk("slice", NONE, a[0], NONE)
        return mk("slice", a[0], a[1], a[2] if len(a) > 2 else NONE)
    if nm == "type" and len(pos) == 1:
        f = I.freeze(pos[0], st)
        if pos[0].op == "nt":
            return mk("cls", pos[0].a[0])
        if pos[0].op == "inst":
            return mk("cls", pos[0].a[0])
        if pos[0].op == "ref" and pos[0].a[0].startswith("inst:"):
            return mk("cls", pos[0].a[0][5:])
        return mk("call", "builtins.type", (f,), (), None)
    if nm in ("locals", "globals", "vars", "eval", "exec", "__import__", "compile"):
        return unk(nm)
    if nm == "staticmethod" or nm == "classmethod":
        return pos[0]
    return None


def keys_only(x):
    if x[0] == "kv":
        return ("item", x[1])
    if x[0] == "if":
        return ("if", x[1], tuple(keys_only(y) for y in x[2]))
    if x[0] == "for":
        return ("for", x[1], x[2], tuple(keys_only(y) for y in x[3]))
    return x


def next_of(I, f, default):
    """First element of a frozen collection."""
    ents = f.a[1]
    res = default
    for x in reversed(ents):
        if x[0] in ("item", "kv"):
            res = x[1]
        elif x[0] == "splice" and len(ents) == 1:
            it = x[1]
            if it.op == "meth" and it.a[1] in ("values", "items", "keys"):
                v = mk("item", it, const(0))
            else:
                v = I.item_f(it, const(0))
            res = v if default is None else PHI(truth(it), v, default)
        elif x[0] == "for" and len(x[3]) == 1:
            g, y = TRUE, x[3][0]
            if y[0] == "if" and len(y[2]) == 1:
                g, y = y[1], y[2][0]
            if y[0] not in ("item", "kv"):
                return None
            v = mk("first", x[1], x[2], g, y[1], None)
            res = v if res is None else PHI(EXISTS(x[1], x[2], g), v, res)
        else:
            return None
    return res


def norm_key(I, v):
    """Canonical sort key functions: lambda x: x.name == attrgetter('name'), lambda x: x[0] == itemgetter(0)."""
    if v.op == "closure":
        f = I.closures.get(v)
        if f and isinstance(f[0].node, ast.Lambda) and len(f[0].node.args.args) == 1:
            b, p = f[0].node.body, f[0].node.args.args[0].arg
            if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == p:
                return mk("call", "operator.attrgetter", (const(b.attr),), (), None)
            if isinstance(b, ast.Subscript) and isinstance(b.value, ast.Name) and b.value.id == p and isinstance(
                    b.slice, ast.Constant):
                return mk("call", "operator.itemgetter", (const(b.slice.value),), (), None)
            return mk("lambda", ast.dump(f[0].node))
    return v


def isinst(x, t):
    if t.op == "tuple":
        return OR(*[isinst(x, y) for y in t.a])
    if x.op == "nt" and t.op == "cls":
        return const(x.a[0] == t.a[0])
    return mk("isinst", x, t)


# --------------------------------------------------------------------- numpy
def store_named(I, nm, newval, st, e):
    fr = I.find_frame(nm, st)
    if fr is None:
        return False
    raw = st.frames[fr][nm]
    if raw.op == "view":
        I.store_view(raw, newval, st, e)
    else:
        if raw.op == "ref" or raw in st.heap:
            I.setcontent(raw, newval, st)
        else:
            st.frames[fr][nm] = newval
            if raw.op == "param":
                I.emit("setitem", "param", raw, (newval,), (), st, e)
    return True


def call_numpy(I, name, pos, kws, st, e, names):
    nm = name[6:]
    if "out" in kws:
        o = kws.pop("out")
        onm = names[1].get("out")
        r = call_numpy(I, name, pos, kws, st, e, ([], {}))
        if r is None:
            r = mk("call", name, fz(I, pos, st), fkw(I, kws, st), None)
        if "where" in kws or any(k == "where" for k, _ in (r.a[2] if r.op == "call" and len(r.a) > 2 else ())):
            w = I.freeze(kws["where"], st) if "where" in kws else None
            kw2 = {k: v for k, v in kws.items() if k != "where"}
            rr = call_numpy(I, name, pos, kw2, st, e, ([], {}))
            if rr is not None and w is not None:
                r = mk("call", "numpy.where", (w, I.freeze(rr, st), I.freeze(o, st)), (), None)
        if onm:
            store_named(I, onm, I.freeze(r, st), st, e)
        return r
    if nm in BINUF and len(pos) == 2 and not kws:
        return I.binop(BINUF[nm], *fz(I, pos, st))
    if nm in CMPUF and len(pos) == 2:
        op, sw = CMPUF[nm]
        a, b = fz(I, pos, st)
        return I.cmp(op, b, a) if sw else I.cmp(op, a, b)
    if nm == "not_equal":
        return NOT(I.cmp("eq", *fz(I, pos, st)))
    if nm == "negative":
        return mk("un", "-", I.freeze(pos[0], st))
    if nm == "logical_or":
        return OR(*[I.truth1(x) if hasattr(I, "truth1") else bz(I.freeze(x, st)) for x in pos])
    if nm == "logical_and":
        return AND(*[bz(I.freeze(x, st)) for x in pos])
    if nm == "logical_not":
        return NOT(bz(I.freeze(pos[0], st)))
    if nm == "fill_diagonal":
        v = I.freeze(pos[1], st)
        cur = I.freeze(pos[0], st)
        nv = mk("store", cur, mk("diag"), v)
        n0 = names[0][0] if names[0] else None
        I.emit("call", name, nv, fz(I, pos, st), (), st, e)
        if n0 is None or not store_named(I, n0, nv, st, e):
            I.emit("setitem", "ext", cur, (mk("diag"), v), (), st, e)
            st.heap[cur] = nv
        return NONE
    if nm == "array" and pos:
        f = I.freeze(pos[0], st)
        how = getattr(getattr(e, "func", None), "attr", None) or getattr(getattr(e, "func", None), "id", "array")
        if how in ("array", "copy", "copyto") and kws.get("copy", TRUE) is TRUE:
            I.emit("copy", how, f, (), (), st, e)
        if arrayish(f) and not (set(kws) - {"copy", "dtype"}):
            return f
        if not (set(kws) - {"copy", "dtype"}):
            return mk("call", "numpy.array", (f,), (), None)
    if nm in ("outer.__call__",):
        return None
    if nm.startswith("add.outer"):
        return unk("numpy." + nm, *fz(I, pos, st))
    if nm in ("multiply.outer",):
        return mk("call", "numpy.outer", fz(I, pos, st), (), None)
    if nm.endswith(".at") or nm.endswith(".reduce") or nm.endswith(".accumulate"):
        if nm in ("add.reduce", "maximum.reduce", "minimum.reduce"):
            base = {"add": "sum", "maximum": "max", "minimum": "min"}[nm.split(".")[0]]
            a = fz(I, pos, st)
            k = dict(fkw(I, kws, st))
            if len(a) == 1 and "axis" not in k:
                k["axis"] = const(0)
            return reduce_np(I, base, a, k, st, e)
        return unk(name, *fz(I, pos, st))
    a, k = fz(I, pos, st), dict(fkw(I, kws, st))
    if nm in REDUCE:
        if "a" in k and not a:
            a = (k.pop("a"),)
        return reduce_np(I, nm, a, k, st, e)
    if nm in ("maximum", "minimum", "fmax", "fmin") and len(a) == 2:
        a = tuple(sorted(a, key=lambda n: n.id))
        return mk("call", name, a, tuple(sorted(k.items())), None)
    if nm in ("where", "zeros", "ones", "full", "empty", "transpose", "diag", "isclose", "allclose", "delete",
              "einsum", "outer", "dot"):
        k.pop("dtype", None)
        if "shape" in k and not a:
            a = (k.pop("shape"),)
        if nm == "transpose" and len(a) == 1 and a[0].op == "call" and a[0].a[0] == "numpy.transpose" and len(a[0].a[1]) == 1:
            return a[0].a[1][0]
        node = mk("call", name, a, tuple(sorted(k.items())), None)
        if nm in ("isclose", "allclose", "delete"):
            I.emit("call", name, node, a, tuple(sorted(k.items())), st, e)
        return node
    if nm == "zeros_like" and len(a) == 1:
        return mk("call", "numpy.zeros_like", a, (), None)
    if nm == "square":
        return I.binop("**", a[0], const(2))
    if nm in ("nonzero", "flatnonzero") and len(a) == 1:
        n = mk("call", "numpy.where", a, (), None)
        return n if nm == "nonzero" else mk("item", n, const(0))
    if nm == "count_nonzero" and len(a) == 1:
        return mk("call", "numpy.sum", (NOT(I.cmp("eq", a[0], const(0))) if not is_bool(a[0]) else a[0],), tuple(sorted(k.items())), None)
    if nm == "expand_dims":
        ax = a[1] if len(a) > 1 else k.get("axis")
        if ax is not None and ax.op == "const" and cval(ax) in (1, -1):
            return mk("item", a[0], mk("tuple", mk("slice", NONE, NONE, NONE), NONE))
        if ax is not None and is_const(ax, 0):
            return mk("item", a[0], mk("tuple", NONE, mk("slice", NONE, NONE, NONE)))
    if nm == "reshape" and len(a) >= 2:
        if len(a) == 3:
            a = (a[0], mk("tuple", a[1], a[2]))
        sh = a[1]
        if sh.op == "tuple" and len(sh.a) == 2 and is_const(sh.a[1], 1):
            return mk("item", a[0], mk("tuple", mk("slice", NONE, NONE, NONE), NONE))
        return mk("call", "numpy.reshape", a, (), None)
    if nm == "newaxis":
        return NONE
    if nm in ("concatenate", "hstack", "vstack", "column_stack", "stack") and a:
        a = (seqnorm(a[0]),) + a[1:]
    node = mk("call", name, a, tuple(sorted(k.items())), None)
    if name in FS_READ or name in FS_WRITE:
        return None
    I.emit("call", name, node, a, tuple(sorted(k.items())), st, e)
    return node


def seqnorm(x):
    if x.op == "tuple":
        return coll("list", tuple(("item", y) for y in x.a))
    return x


def as_type(I, fb, pos, kws, st):
    t = I.freeze(pos[0], st) if pos else I.freeze(kws["dtype"], st) if "dtype" in kws else None
    nm = str(cval(t)) if t is not None and t.op == "const" else str(t.a[0]) if t is not None and t.a else "float"
    nm = nm.split(".")[-1].rstrip("_'")
    if "bool" in nm:
        return fb if is_bool(fb) else NOT(I.cmp("eq", fb, const(0)))
    if nm.startswith(("int", "uint", "i", "u")) and not is_bool(fb) and not (
            fb.op == "call" and fb.a[0] == "numpy.where" and len(fb.a[1]) == 3 and
            all(x.op == "const" and isinstance(cval(x), (int, bool)) for x in fb.a[1][1:])):
        return mk("call", "numpy.astype", (fb, const("int")), (), None)
    return fb


def bz(x):
    return x if is_bool(x) else mk("truth", x) if x.op != "const" else truth(x)


def reduce_np(I, nm, a, k, st, e):
    kk = {x: v for x, v in k.items() if not (x == "keepdims" and v is FALSE) and x != "dtype" and not (x == "axis" and v is NONE)}
    if len(a) > 1:
        if a[1] is not NONE:
            kk["axis"] = a[1]
        a = a[:1]
    if "axis" in kk and is_const(kk["axis"], -1):
        kk["axis"] = const(1) if not dim1(a[0]) else const(0)
    keep = kk.pop("keepdims", None)
    if nm == "max" and kk.get("axis") is None and a[0].op == "coll":
        pass
    n = mk("call", "numpy." + nm, a, tuple(sorted(kk.items())), None)
    if nm in ("max", "min", "argmax", "argmin"):
        I.emit("reduce", "numpy." + nm, n, a, (), st, e)
    if nm in ("any", "all") and "axis" not in kk:
        r = None
        if a[0].op == "coll":
            r = any_of(I, a[0], st) if nm == "any" else all_of(I, a[0], st)
        if r is not None:
            return r
        return mk("truth", n)
    if keep is not None and keep is TRUE and is_const(kk.get("axis", NONE), 1):
        return mk("item", n, mk("tuple", mk("slice", NONE, NONE, NONE), NONE))
    if keep is not None and keep is TRUE and is_const(kk.get("axis", NONE), 0):
        return mk("item", n, mk("tuple", NONE, mk("slice", NONE, NONE, NONE)))
    return n


def dim1(n):
    return n.op == "call" and isinstance(n.a[0], str) and n.a[0] in ("numpy.sum", "numpy.max") and bool(n.a[2])


# --------------------------------------------------------------------- methods
def is_container(I, base, c, st):
    return base.op == "ref" and not base.a[0].startswith("inst:") or base in st.heap and c.op in (
        "coll", "mu", "removed", "phi") or c.op == "coll"


def mutate(I, base, name, pos, kws, st, e):
    """Container mutation through a (possibly external) list / dict / set object."""
    c = I.content(base, st)
    a = fz(I, pos, st)
    I.mut_event(base, name, a, st, e)
    kind = c.a[0] if c.op == "coll" else (base.a[0] if base.op == "ref" else "list")

    def ents():
        return c.a[1] if c.op == "coll" else (("splice", c),)

    if name in ("append", "add"):
        I.setcontent(base, coll(kind, ents() + (("item", pos[0]),)), st)
        return NONE
    if name == "extend":
        x = a[0]
        if x.op == "call" and x.a[0] in ("builtins.zip", "builtins.enumerate", "builtins.map"):
            x = I.freeze(map_over(I, None, [x], st, e), st)
        I.setcontent(base, coll(kind, ents() + (("splice", x),)), st)
        return NONE
    if name == "update":
        new = ents()
        a = unstar(I, a, st, e)
        isdict = kind in ("dict", "copy") or kws
        for x in a:
            if isdict or x.op == "coll" and x.a[0] == "dict":
                d = to_dict_entries(I, x)
                for y in d:
                    if y[0] == "kv" and y[1].op == "const":
                        new = tuple(z for z in new if not (z[0] == "kv" and z[1] is y[1]))
                new += d
                kind = "dict"
            else:
                new += (("splice", x),)
        new += tuple(("kv", const(k), v) for k, v in kws.items() if k != "**")
        if kws:
            kind = "dict"
        I.setcontent(base, coll(kind, new), st)
        return NONE
    if name == "insert":
        if is_const(a[0], 0):
            I.setcontent(base, coll(kind, (("item", pos[1]),) + ents()), st)
        else:
            I.setcontent(base, mk("removed", I.freeze(c, st), "insert", mk("tuple", *a)), st)
        return NONE
    if name == "clear":
        I.setcontent(base, coll(kind, ()), st)
        return NONE
    if name == "sort":
        k = tuple((x, norm_key(I, v)) for x, v in fkw(I, kws, st))
        I.setcontent(base, coll("list", (("splice", mk("call", "builtins.sorted", (I.freeze(c, st),), k, None)),)), st)
        return NONE
    if name == "reverse":
        I.setcontent(base, coll("list", (("splice", mk("call", "builtins.reversed", (I.freeze(c, st),), (), None)),)), st)
        return NONE
    if name in ("pop", "popitem"):
        fc = I.freeze(c, st)
        if kind == "dict" and a:
            v = I.dict_get(ents(), a[0], a[1] if len(a) > 1 else None) if c.op == "coll" else None
            if v is None:
                v = mk("item", fc, a[0]) if len(a) == 1 else mk("meth", fc, "get", a, (), None)
            if c.op == "coll" and all(z[0] == "kv" and z[1].op == "const" for z in ents()) and a[0].op == "const":
                I.setcontent(base, coll(kind, tuple(z for z in ents() if z[1] is not a[0])), st)
            else:
                I.setcontent(base, mk("removed", fc, "pop", a[0]), st)
            return v
        i = a[0] if a else const(-1)
        v = I.item(base, i, st)
        if c.op == "coll" and c.a[1] and all(z[0] == "item" for z in c.a[1]) and i.op == "const":
            l = list(c.a[1])
            try:
                l.pop(cval(i))
                I.setcontent(base, coll(kind, tuple(l)), st)
                return v
            except Exception:
                pass
        I.setcontent(base, mk("removed", fc, "pop", i), st)
        return v
    if name in ("remove", "discard"):
        I.setcontent(base, mk("removed", I.freeze(c, st), "remove", a[0]), st)
        return NONE
    if name == "setdefault":
        v = I.dict_get(ents(), a[0], None) if c.op == "coll" and c.a[1] else None
        d = pos[1] if len(pos) > 1 else NONE
        if v is None or v is UNDEF:
            if c.op == "coll" and not c.a[1]:
                I.setcontent(base, coll("dict", (("kv", a[0], d),)), st)
                return d
            v = mk("meth", I.freeze(c, st), "get", (a[0], a[1] if len(a) > 1 else NONE), (), None)
        I.setcontent(base, coll("dict", ents() + (("if", NOT(I.isin(a[0], I.freeze(c, st))), (("kv", a[0], d),)),)), st)
        return v
    if name in ("difference_update", "intersection_update"):
        fc = I.freeze(c, st)
        if fc.op == "coll":
            I.setcontent(base, filter_coll(fc, lambda x: NOT(I.isin(x, a[0])) if name[0] == "d" else I.isin(x, a[0])), st)
        else:
            I.setcontent(base, mk("removed", fc, name, a[0]), st)
        return NONE
    I.setcontent(base, mk("removed", I.freeze(c, st), name, mk("tuple", *a)), st)
    return NONE


LISTISH_EXT = ("param", "attr", "item", "elem", "global", "default", "phi", "first", "last", "maybe", "mu", "out",
               "removed")


# functions which give a new tree of lists and dicts
LOADED = ("yaml.safe_load", "yaml.load", "json.load", "json.loads", "copy.copy", "copy.deepcopy")


def call_method(I, base, name, pos, kws, st, e):
    names = I._argnames
    c = I.content(base, st)
    if base.op == "nt" or c.op == "nt":
        n = base if base.op == "nt" else c
        if name == "_replace":
            vals = dict(n.a[1])
            for k, v in kws.items():
                vals[k] = v
            node = mk("nt", n.a[0], tuple((k, vals[k]) for k, _ in n.a[1]))
            I.emit("new", n.a[0], node, (), tuple((k, I.freeze(v, st)) for k, v in vals.items()), st, e, extra="_replace")
            return node
        if name == "_asdict":
            return newlist(I, "dict", tuple(("kv", const(k), v) for k, v in n.a[1]), st, e)
    if base.op == "super":
        return NONE
    if name == "_replace" and base.op not in ("ref", "inst"):
        f = I.freeze(base, st)
        if f.op == "phi":
            a = call_method(I, f.a[1], name, pos, dict(kws), st, e)
            b = call_method(I, f.a[2], name, pos, dict(kws), st, e)
            return PHI(f.a[0], a, b)
        # a value of unknown provenance with some fields replaced
        node = mk("replaced", f, fkw(I, kws, st))
        I.emit("new", "_replace", node, (f,), fkw(I, kws, st), st, e, extra="_replace")
        return node
    if base.op == "bmeth" and False:
        pass
    if base.op == "asyncres" and name in ("get", "result"):
        return base.a[0]
    fb0 = base
    # pools
    p = pool_of(I, base, st)
    if p is not None:
        r = pool_method(I, p, name, pos, kws, st, e)
        if r is not None:
            return r
    if is_container(I, base, c, st):
        return container_method(I, base, c, name, pos, kws, st, e)
    fb = I.freeze(base, st)
    a, k = fz(I, pos, st), fkw(I, kws, st)
    # strings
    if name == "format" and (fb.op == "const" and isinstance(cval(fb), str)):
        return str_format(I, cval(fb), a, dict(k))
    if name in STR_METHODS and (fb.op in ("cat", "fmt", "pct") or fb.op == "const" and isinstance(cval(fb), str)):
        if fb.op == "const" and all(x.op == "const" for x in a) and not k:
            try:
                v = getattr(cval(fb), name)(*[cval(x) for x in a])
                if isinstance(v, (str, bool, int)):
                    return const(v)
            except Exception:
                pass
        if name == "join" and a and a[0].op == "coll" and all(x[0] == "item" for x in a[0].a[1]) and fb.op == "const":
            parts = []
            for i, x in enumerate(a[0].a[1]):
                if i:
                    parts.append(fb)
                parts.append(x[1])
            return cat(parts)
        if name == "join" and a and a[0].op == "tuple" and fb.op == "const":
            parts = []
            for i, x in enumerate(a[0].a):
                if i:
                    parts.append(fb)
                parts.append(x)
            return cat(parts)
        return mk("meth", fb, name, a, k, None)
    if name in LIST_MUT and (base.op in LISTISH_EXT or base.op == "call" and base.a[0] in LOADED) and not (is_tracked(fb)) and not pure_str(fb):
        if not (name in ("update", "add", "remove", "pop", "insert", "sort", "clear", "append", "extend") and base.op == "attr" and cantera_obj(fb)):
            return mutate(I, base, name, pos, kws, st, e)
    if name in ND_METHODS and (fb.op != "param" or name in ("sum", "max", "min", "any", "all", "argmin", "argmax")) and not module_like(fb):
        if name == "tolist":
            return newlist(I, "list", (("splice", fb),), st, e)
        if name == "astype":
            return as_type(I, fb, pos, kws, st)
        if name == "transpose" and not pos:
            return mk("call", "numpy.transpose", (fb,), (), None)
        if name in ("ravel", "flatten") and not pos:
            return mk("call", "numpy.ravel", (fb,), (), None)
        I._argnames = ([None] + list(names[0]), names[1])
        return call_ext(I, "numpy." + name, [fb] + list(pos), dict(kws), st, e)
    if name == "copy" and not pos and not kws:
        if fb.op in ("param", "elem", "global", "default") or (fb.op == "item" and not arrayish(fb)):
            return newlist(I, "copy", (("splice", fb),), st, e)
        I.emit("copy", "copy", fb, (), (), st, e)
        return fb
    if name == "get" and len(a) == 1 and not k:
        a = a + (NONE,)
    if name in DICT_PURE:
        if fb.op == "phi":
            vals = []
            for x in fb.a[1:]:
                if x.op == "coll" and name == "get":
                    v = I.dict_get(x.a[1], a[0], a[1])
                    vals.append(v if v is not None else mk("meth", x, name, a, k, None))
                else:
                    vals.append(mk("meth", x, name, a, k, None))
            return PHI(fb.a[0], *vals)
        return mk("meth", fb, name, a, k, None)
    if name in STATIC_METHS:
        if name == "species" and not a:
            return mk("meth", strip_occ(fb), "species", (), (), None)
        so = strip_occ(fb)
        if len(a) == 1 and not k and name != "species_index":
            i = a[0]
            names = mk("attr", so, "species_names", None)
            if name == "reaction":
                return I.item_f(mk("meth", so, "reactions", (), (), None), i)
            if i.op == "idx" and i.a[0] is names:
                i = mk("elem", names, i.a[1])
            if i.op == "elem" and i.a[0] is names:
                return mk("spobj", so, i) if name == "species" else i
        node = mk("meth", so, name, a, k, None)
        return node
    if name in STR_METHODS or name in ("count", "index"):
        return mk("meth", fb, name, a, k, None)
    if fb.op == "call" and fb.a[0] == "argparse.ArgumentParser":
        if name in ("error", "exit"):
            node = mk("meth", fb, name, a, k, None)
            I.emit("meth", name, node, (fb,) + a, k, st, e)
            I.do_raise(st, node, "SystemExit", e)
            return unk("exit")
        if name == "parse_args":
            node = mk("meth", fb, name, a, k, None)
            I.emit("meth", name, node, (fb,) + a, k, st, e)
            return node
    occ = I.occurrence(("meth", fb, name, a, k), e)
    node = mk("meth", fb, name, a, k, occ)
    I.emit("meth", name, node, (fb,) + a, k, st, e, extra=st.heap.get(("ver", fb)))
    if name not in ("write", "read", "readlines"):
        if ("ver", fb) in st.heap or fb.op in ("call", "attr", "param", "item", "elem", "meth", "enter"):
            st.heap[("ver", fb)] = mk("upd", st.heap.get(("ver", fb), mk("v0")), "$call", node)
        bump(I, a + tuple(v for _, v in k), node, st)
        if name in ADVANCING and fb.op == "attr" and fb.a[0].op == "inst":
            # the reactor and the mixture of a network move along with it
            for y in I.stored_names(fb.a[0]):
                o = mk("attr", fb.a[0], y, None)
                if o is not fb:
                    st.heap[("ver", o)] = mk("upd", st.heap.get(("ver", o), mk("v0")), "$call", node)
    if name in ("write_yaml", "write_chemkin", "write"):
        st.heap[FS] = mk("fsupd", st.heap.get(FS, mk("fs0")), node)
    if name in ("unlink", "rename", "write_text", "write_bytes", "touch"):
        st.heap[FS] = mk("fsupd", st.heap.get(FS, mk("fs0")), node)
    return node


ADVANCING = {"step", "advance", "advance_to_steady_state", "solve"}


def cantera_obj(n):
    return any(is_tracked(x) for x in deps(n))


def module_like(n):
    return n.op in ("ext", "mod", "cls", "fn")


def pure_str(n):
    return n.op in ("cat", "fmt", "pct") or n.op == "const"


def pool_of(I, base, st):
    n = I.freeze(base, st)
    while n.op == "enter":
        n = n.a[0]
    if n.op == "call" and isinstance(n.a[0], str):
        nm = n.a[0]
        if nm in POOLS or nm.endswith(".Pool") or nm.endswith("PoolExecutor") or nm.endswith(".ThreadPool"):
            return n
    if n.op == "meth" and n.a[1] in ("Pool",):
        return n
    return None


def pool_method(I, p, name, pos, kws, st, e):
    pos = list(pos)
    if name in PAR_ORDERED | PAR_UNORDERED | {"map_async", "starmap_async"}:
        f = pos[0] if pos else kws.get("func") or kws.get("fn")
        its = pos[1:]
        if "iterable" in kws:
            its = [kws["iterable"]] + its
        ex = "Executor" in str(p.a[0])
        if not ex:
            its = its[:1]
        I.emit("parallel-map", name, p, (I.freeze(its[0], st),), fkw(I, {k: v for k, v in kws.items() if isinstance(v, N)}, st), st, e,
               extra=(name not in PAR_UNORDERED, f))
        r = map_over(I, f, its, st, e, star=name.startswith("starmap"))
        if name in PAR_UNORDERED:
            c = I.freeze(r, st)
            r = I.newref("set", coll("set", c.a[1] if c.op == "coll" else (("splice", c),)), st, e)
        if name.endswith("_async"):
            return mk("asyncres", r)
        return r
    if name in ("apply", "apply_async", "submit"):
        f = pos[0]
        if name == "submit":
            args = pos[1:]
        else:
            c = I.content(pos[1], st) if len(pos) > 1 else I.content(kws.get("args", mk("tuple")), st)
            args = list(c.a) if c.op == "tuple" else [x[1] for x in c.a[1]] if c.op == "coll" else [mk("starred", c)]
        I.emit("parallel-map", name, p, (), (), st, e, extra=(True, f))
        I._argnames = ([], {})
        v = I.call(f, list(args), {}, st, e)
        return v if name == "apply" else mk("asyncres", v)
    if name in ("close", "join", "terminate", "shutdown"):
        node = mk("meth", p, name, (), (), 0)
        I.emit("meth", name, node, (p,), (), st, e)
        return NONE
    return None


def str_format(I, s, a, k):
    parts = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                parts.append(const(lit))
            if field is None:
                continue
            if field == "":
                v = a[auto]
                auto += 1
            elif field.isdigit():
                v = a[int(field)]
            elif field in k:
                v = k[field]
            else:
                return unk("format", *a)
            parts.append(fmt(v, spec or "", conv or ""))
    except Exception:
        return unk("format", *a)
    return cat(parts)


def container_method(I, base, c, name, pos, kws, st, e):
    a, k = fz(I, pos, st), fkw(I, kws, st)
    fb = I.freeze(base, st)
    if name in LIST_MUT:
        return mutate(I, base, name, pos, kws, st, e)
    ents = c.a[1] if c.op == "coll" else (("splice", c),)
    kind = c.a[0] if c.op == "coll" else (base.a[0] if base.op == "ref" else "list")
    if name == "get":
        d = pos[1] if len(pos) > 1 else NONE
        if c.op == "coll":
            v = I.dict_get(ents, a[0], d)
            if v is not None:
                return v
        return mk("meth", fb, "get", (a[0], I.freeze(d, st)), (), None)
    if name in ("items", "keys", "values"):
        return mk("meth", fb, name, (), (), None)
    if name == "copy":
        return newlist(I, kind, fb.a[1] if fb.op == "coll" else (("splice", fb),), st, e)
    if name in ("union",):
        a = unstar(I, a, st, e)
        return newlist(I, "set", (("splice", fb),) + tuple(("splice", x) for x in a), st, e)
    if name in ("difference", "intersection") and fb.op == "coll":
        r = fb
        for x in a:
            r = filter_coll(r, lambda y: NOT(I.isin(y, x)) if name[0] == "d" else I.isin(y, x))
        return newlist(I, "set", r.a[1], st, e)
    if name in ("issubset", "issuperset", "isdisjoint") and a:
        x, y = (fb, a[0]) if name != "issuperset" else (a[0], fb)
        return subset(I, x, y, name == "isdisjoint", st)
    if name in ("index", "count"):
        return mk("meth", fb, name, a, k, None)
    if name in ("difference", "intersection", "symmetric_difference"):
        return mk("meth", fb, name, a, k, None)
    if name in ND_METHODS and fb.op not in ("coll",):
        return call_ext(I, "numpy." + name, [fb] + list(pos), dict(kws), st, e)
    if name == "tolist":
        return newlist(I, "list", (("splice", fb),), st, e)
    occ = I.occurrence(("meth", fb, name, a, k), e)
    node = mk("meth", fb, name, a, k, occ)
    I.emit("meth", name, node, (fb,) + a, k, st, e)
    return node


def subset(I, x, y, neg, st):
    """Every member of x is (neg: is not) a member of y."""
    src = x if x.op == "coll" else coll("list", (("splice", x),))
    dy = deps(y)

    def go(en):
        if en[0] in ("item", "kv"):
            b = I.isin(en[1], y)
            return ("item", b if neg else NOT(b))
        if en[0] == "splice":
            k = 9 if mk("elem", en[1], 0) in dy else 0
            b = I.isin(mk("elem", en[1], k), y)
            return ("for", en[1], k, (("item", b if neg else NOT(b)),))
        if en[0] == "for":
            return ("for", en[1], en[2], tuple(go(z) for z in en[3]))
        if en[0] == "if":
            return ("if", en[1], tuple(go(z) for z in en[2]))
        return en
    r = any_of(I, coll("list", tuple(go(en) for en in src.a[1])), st)
    return NOT(r) if r is not None else unk("subset")
