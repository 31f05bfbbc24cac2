"""Hash-consed value graph: nodes, boolean algebra and small canonicalisations."""


class N:
    __slots__ = ("op", "a", "id", "loc", "_deps")

    def __init__(self, op, a, i):
        self.op, self.a, self.id = op, a, i
        self.loc = None
        self._deps = None

    def __repr__(self):
        return show(self)


_tab = {}
CUR_LOC = [None]


def mk(op, *a):
    key = (op, a)
    n = _tab.get(key)
    if n is None:
        n = N(op, a, len(_tab))
        n.loc = CUR_LOC[0]
        _tab[key] = n
    return n


def const(v):
    return mk("const", type(v).__name__, v if not isinstance(v, float) else repr(v))


def cval(n):
    """Python value of a const node (n must be const)."""
    if n.a[0] == "float":
        return float(n.a[1])
    return n.a[1]


def is_const(n, v=None):
    if n.op != "const":
        return False
    return True if v is None else (cval(n) == v and type(cval(n)) is type(v))


TRUE, FALSE, NONE = const(True), const(False), const(None)
ELLIPSIS = mk("ellipsis")
UNDEF = mk("undef")
_unk = [0]


def unk(reason, *deps):
    _unk[0] += 1
    return mk("unk", reason, _unk[0], deps)


BOOL_OPS = {"lt", "le", "eq", "in", "is", "not", "and", "or", "exists", "truth",
            "isinst", "hasattr", "exc"}


_mb, _mn, _ma, _mo, _mp = {}, {}, {}, {}, {}


def is_bool(n):
    r = _mb.get(n)
    if r is None:
        r = _mb[n] = _is_bool(n)
    return r


def _is_bool(n):
    if n.op in BOOL_OPS or (n.op == "const" and n.a[0] == "bool"):
        return True
    if n.op == "phi":
        return is_bool(n.a[1]) and is_bool(n.a[2])
    if n.op == "call" and n.a[0] in ("os.path.isfile", "os.path.exists", "builtins.bool"):
        return True
    return False


def NOT(n):
    r = _mn.get(n)
    if r is None:
        r = _mn[n] = _NOT(n)
        if r not in _mn:
            _mn[r] = n
    return r


def _NOT(n):
    if n is TRUE:
        return FALSE
    if n is FALSE:
        return TRUE
    if n.op == "not":
        return n.a[0]
    if n.op == "and":
        return OR(*[NOT(x) for x in n.a])
    if n.op == "or":
        return AND(*[NOT(x) for x in n.a])
    if n.op == "phi" and is_bool(n):
        return PHI(n.a[0], NOT(n.a[1]), NOT(n.a[2]))
    return mk("not", n)


def _flat(op, xs):
    out = []
    for x in xs:
        if x.op == op:
            out += list(x.a)
        else:
            out.append(x)
    return out


def AND(*xs):
    r = _ma.get(xs)
    if r is None:
        r = _ma[xs] = _AND(*xs)
    return r


def _AND(*xs):
    s = []
    seen = set()
    for x in _flat("and", xs):
        if x is TRUE or x in seen:
            continue
        if x is FALSE or NOT(x) in seen:
            return FALSE
        seen.add(x)
        s.append(x)
    if not s:
        return TRUE
    # absorption: a and (a or b) -> a ; a and (not a or b) -> a and b
    red = []
    changed = False
    for x in s:
        if x.op == "or":
            if any(y in seen for y in x.a):
                changed = True
                continue
            keep = [y for y in x.a if NOT(y) not in seen]
            if len(keep) != len(x.a):
                changed = True
                red.append(OR(*keep))
                continue
        red.append(x)
    if changed:
        return AND(*red)
    if len(s) == 1:
        return s[0]
    return mk("and", *sorted(s, key=lambda n: n.id))


def OR(*xs):
    r = _mo.get(xs)
    if r is None:
        r = _mo[xs] = _OR(*xs)
    return r


def _OR(*xs):
    s = []
    seen = set()
    for x in _flat("or", xs):
        if x is FALSE or x in seen:
            continue
        if x is TRUE or NOT(x) in seen:
            return TRUE
        seen.add(x)
        s.append(x)
    if not s:
        return FALSE
    red = []
    changed = False
    for x in s:
        if x.op == "and":
            if any(y in seen for y in x.a):
                changed = True
                continue
            keep = [y for y in x.a if NOT(y) not in seen]
            if len(keep) != len(x.a):
                changed = True
                red.append(AND(*keep))
                continue
        red.append(x)
    if changed:
        return OR(*red)
    if len(s) == 1:
        return s[0]
    # (a and b) or (not a and b) -> b
    for i, x in enumerate(s):
        for y in s[i + 1:]:
            cx = set(x.a) if x.op == "and" else {x}
            cy = set(y.a) if y.op == "and" else {y}
            dx, dy = cx - cy, cy - cx
            if len(dx) == 1 and len(dy) == 1 and NOT(next(iter(dx))) is next(iter(dy)):
                rest = [z for z in s if z is not x and z is not y]
                return OR(AND(*(cx & cy)), *rest)
    return mk("or", *sorted(s, key=lambda n: n.id))


_mas = {}


def assume(n, facts, depth=0):
    """Simplify node n under a set of atoms known true."""
    if not isinstance(facts, frozenset):
        facts = frozenset(facts)
    if n in facts:
        return TRUE
    if n.op not in ("and", "or", "not", "phi", "tuple") and not is_bool(n):
        return n
    key = (n, facts)
    r = _mas.get(key)
    if r is None:
        r = _mas[key] = _assume(n, facts)
    return r


def _assume(n, facts):
    if is_bool(n) and NOT(n) in facts:
        return FALSE
    if n.op in ("and", "or", "phi", "tuple", "exists"):
        d = deps(n)
        if not any(f in d or NOT(f) in d for f in facts):
            return n
    if n.op == "and":
        return AND(*[assume(x, facts) for x in n.a])
    if n.op == "or":
        return OR(*[assume(x, facts) for x in n.a])
    if n.op == "not":
        return NOT(assume(n.a[0], facts))
    if n.op == "exists":
        el, ix = mk("elem", n.a[0], n.a[1]), mk("idx", n.a[0], n.a[1])
        fs = frozenset(f for f in facts if el not in deps(f) and ix not in deps(f))
        c = assume(n.a[2], fs)
        return EXISTS(n.a[0], n.a[1], c) if c is not n.a[2] else n
    if n.op == "phi":
        c = assume(n.a[0], facts)
        if c is TRUE:
            return assume(n.a[1], facts)
        if c is FALSE:
            return assume(n.a[2], facts)
        return PHI(c, assume(n.a[1], facts), assume(n.a[2], facts))
    if n.op == "tuple":
        return mk("tuple", *[assume(x, facts) for x in n.a])
    return n


def lits(c):
    return set(c.a) if c.op == "and" else {c}


def PHI(c, a, b):
    if a is b:
        return a
    k = (c, a, b)
    r = _mp.get(k)
    if r is None:
        r = _mp[k] = _PHI(c, a, b)
    return r


def _PHI(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return PHI(c.a[0], b, a)
    if c.op == "in" and a.op == "item" and a.a[0] is c.a[1] and a.a[1] is c.a[0] and c.a[0].op == "const" and c.a[1].op != "coll":
        return mk("meth", c.a[1], "get", (c.a[0], b), (), None)
    fa = lits(c)
    fb = lits(NOT(c))
    a2 = assume(a, fa) if a.op in ("phi", "and", "or", "not") or is_bool(a) else a
    b2 = assume(b, fb) if b.op in ("phi", "and", "or", "not") or is_bool(b) else b
    if a2 is not a or b2 is not b:
        return PHI(c, a2, b2)
    if is_bool(a) and is_bool(b):
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return NOT(c)
        if a is TRUE:
            return OR(c, b)
        if b is FALSE:
            return AND(c, a)
        if a is FALSE:
            return AND(NOT(c), b)
        if b is TRUE:
            return OR(NOT(c), a)
    if b.op == "phi" and b.a[1] is a:
        return PHI(OR(c, b.a[0]), a, b.a[2])
    if a.op == "phi" and a.a[2] is b:
        return PHI(AND(c, a.a[0]), a.a[1], b)
    if a.op == "phi" and a.a[1] is b:
        return PHI(AND(c, NOT(a.a[0])), a.a[2], b)
    if b.op == "phi" and b.a[2] is a:
        return PHI(AND(NOT(c), b.a[0]), b.a[1], a)
    return mk("phi", c, a, b)


def EXISTS(it, k, c):
    if c is FALSE:
        return FALSE
    if c is TRUE:
        return truth(it)
    if c.op == "or":
        return OR(*[EXISTS(it, k, x) for x in c.a])
    if c.op == "eq" or c.op == "is":
        # exists x in it: x == v  ->  v in it
        e = mk("elem", it, k)
        for x, y in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
            if x is e and e not in deps(y):
                return mk("in", y, it)
    return mk("exists", it, k, c)


def _nonempty(e):
    """Whether an entry contributes a member."""
    if e[0] == "if":
        return AND(e[1], OR(*[_nonempty(x) for x in e[2]]))
    if e[0] == "for":
        return EXISTS(e[1], e[2], OR(*[_nonempty(x) for x in e[3]]))
    if e[0] == "splice":
        return truth(e[1])
    return TRUE


def truth(n):
    if is_bool(n):
        return n
    if n.op == "const":
        return TRUE if cval(n) else FALSE
    if n.op in ("tuple",):
        return TRUE if n.a else FALSE
    if n.op == "coll":
        ents = n.a[1]
        if not ents:
            return FALSE
        if any(e[0] in ("item", "kv") for e in ents):
            return TRUE
        return OR(*[_nonempty(e) for e in ents])
    if n.op == "call" and n.a[0] == "builtins.len":
        return truth(n.a[1][0])
    if n.op == "call" and n.a[0] in ("builtins.bool", "builtins.sorted", "builtins.list", "builtins.tuple", "builtins.set") and n.a[1]:
        return truth(n.a[1][0])
    if n.op in ("fn", "closure", "nt", "bound", "ext"):
        return TRUE
    if n.op == "phi":
        return PHI(n.a[0], truth(n.a[1]), truth(n.a[2]))
    if n.op == "cat":
        if any(p.op == "const" and cval(p) for p in n.a):
            return TRUE
    if n.op in ("setof", "listof", "sortedof"):
        return truth(n.a[0])
    if n.op == "first":
        return mk("truth", n)
    return mk("truth", n)


def children(n):
    for x in n.a:
        yield from _ch(x)


def _ch(x):
    if isinstance(x, N):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from _ch(y)


def deps(n):
    """Set of all nodes reachable from n (inclusive), cached; not through loop tables."""
    if n._deps is not None:
        return n._deps
    stack = [n]
    while stack:
        m = stack[-1]
        if m._deps is not None:
            stack.pop()
            continue
        todo = [c for c in children(m) if c._deps is None]
        if todo:
            stack += todo
            continue
        s = {m}
        for c in children(m):
            s |= c._deps
        m._deps = frozenset(s)
        stack.pop()
    return n._deps


def contains(n, pred):
    return any(pred(m) for m in deps(n))


def subst(n, mp, _memo=None):
    """Substitute nodes (by identity) rebuilding through canonical constructors."""
    if _memo is None:
        _memo = {}
    if n in mp:
        return mp[n]
    if n in _memo:
        return _memo[n]
    if not any(k in deps(n) for k in mp):
        _memo[n] = n
        return n

    def go(x):
        if isinstance(x, N):
            return subst(x, mp, _memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    r = rebuild(n.op, tuple(go(x) for x in n.a))
    _memo[n] = r
    return r


def rebuild(op, a):
    if op == "not":
        return NOT(a[0])
    if op == "and":
        return AND(*a)
    if op == "or":
        return OR(*a)
    if op == "phi":
        return PHI(*a)
    if op == "exists":
        return EXISTS(*a)
    if op == "eq" and a[0] is a[1]:
        return TRUE
    if op == "eq" and a[0].op == a[1].op == "const":
        return const(cval(a[0]) == cval(a[1]))
    if op == "truth":
        return truth(a[0])
    if op == "coll":
        return coll(a[0], a[1])
    if op == "attr":
        return attr_hook[0](*a) if attr_hook[0] else mk("attr", *a)
    if op == "item":
        return item_hook[0](*a) if item_hook[0] else mk("item", *a)
    return mk(op, *a)


attr_hook = [None]
item_hook = [None]


def sub_entries(ents, mp):
    out = []
    for e in ents:
        if e[0] in ("item", "splice"):
            out.append((e[0], subst(e[1], mp)))
        elif e[0] == "kv":
            out.append(("kv", subst(e[1], mp), subst(e[2], mp)))
        elif e[0] == "for":
            out.append(("for", subst(e[1], mp), e[2], sub_entries(e[3], mp)))
        elif e[0] == "if":
            out.append(("if", subst(e[1], mp), sub_entries(e[2], mp)))
        else:
            return None
    return tuple(out)


def entry_nodes(ents):
    for e in ents:
        for x in e[1:]:
            if isinstance(x, N):
                yield from deps(x)
            elif isinstance(x, tuple):
                yield from entry_nodes(x)


def fuse(ents, it, k, sub):
    """Entries made for every member of a collection with known entries (the target keeps no order)."""
    used = set(entry_nodes(sub))
    if mk("idx", it, k) in used:
        return None
    out = []
    for e in ents:
        if e[0] in ("item", "kv"):
            r = sub_entries(sub, {mk("elem", it, k): e[1]})
            if r is None:
                return None
            out += r
        elif e[0] == "if":
            r = fuse(e[2], it, k, sub)
            if r is None:
                return None
            out.append(("if", e[1], tuple(r)))
        elif e[0] == "splice":
            j = 0
            while mk("elem", e[1], j) in used:
                j += 1
            r = sub_entries(sub, {mk("elem", it, k): mk("elem", e[1], j)})
            if r is None:
                return None
            out.append(("for", e[1], j, r))
        elif e[0] == "for":
            j = e[2]
            while mk("elem", e[1], j) in used or mk("idx", e[1], j) in used:
                j += 1
            inner = e[3] if j == e[2] else sub_entries(e[3], {mk("elem", e[1], e[2]): mk("elem", e[1], j), mk("idx", e[1], e[2]): mk("idx", e[1], j)})
            r = inner is not None and fuse(inner, it, k, sub)
            if not r:
                return None
            out.append(("for", e[1], j, tuple(r)))
        else:
            return None
    return out


def norm_entries(ents, into=None):
    out = []
    for e in ents:
        if e[0] == "if":
            sub = norm_entries(e[2], into)
            if e[1] is FALSE or not sub:
                continue
            if e[1] is TRUE:
                out += sub
                continue
            if len(sub) == 1 and sub[0][0] == "if":
                e2 = ("if", AND(e[1], sub[0][1]), sub[0][2])
                if e2[1] is FALSE:
                    continue
                out.append(e2)
            else:
                out.append(("if", e[1], tuple(sub)))
        elif e[0] == "for":
            if into in ("dict", "set") and e[1].op == "coll" and (into == "set" or e[1].a[0] != "set"):
                f = fuse(e[1].a[1], e[1], e[2], e[3])
                if f is not None:
                    out += norm_entries(f, into)
                    continue
            sub = norm_entries(e[3], into)
            if sub:
                out.append(("for", e[1], e[2], tuple(sub)))
        elif e[0] == "splice":
            c = e[1]
            while c.op == "listof":
                c = c.a[0]
            if c.op == "coll" and (c.a[0] != "set" or into == "set"):
                out += norm_entries(c.a[1], into)
            elif c.op == "tuple":
                out += [("item", x) for x in c.a]
            elif c.op == "phi" and all(x.op in ("coll", "tuple") for x in c.a[1:]):
                out += norm_entries((("if", c.a[0], (("splice", c.a[1]),)),
                                     ("if", NOT(c.a[0]), (("splice", c.a[2]),))), into)
            else:
                out.append(("splice", c))
        else:
            out.append(e)
    # identity map:  for x in X: item x  == splice X
    res = []
    for e in out:
        if e[0] == "for" and len(e[3]) == 1 and e[3][0] == ("item", mk("elem", e[1], e[2])):
            res.append(("splice", e[1]))
        else:
            res.append(e)
    # a loop of several appends is kept; adjacent complementary ifs stay
    return tuple(res)


def keyed(ents):
    """Entries of a dictionary, for uses in which their order does not matter."""
    if not any(e[0] == "for" and e[1].op == "coll" and e[1].a[0] == "set" for e in ents):
        return ents
    return norm_entries(ents, "set")


def coll(kind, ents):
    ents = norm_entries(ents, kind)
    return mk("coll", kind, ents)


def show(n, d=0):
    if not isinstance(n, N):
        if isinstance(n, tuple):
            return "(" + ", ".join(show(x, d) for x in n) + ")"
        return str(n)
    if d > 12:
        return "…"
    a = n.a
    s = lambda x: show(x, d + 1)
    if n.op == "const":
        return repr(cval(n))
    if n.op == "param":
        return "$" + a[0]
    if n.op == "ext":
        return a[0]
    if n.op == "attr":
        return f"{s(a[0])}.{a[1]}" + (f"@{a[2].id}" if a[2] is not None else "")
    if n.op == "item":
        return f"{s(a[0])}[{s(a[1])}]"
    if n.op == "bin":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if n.op == "un":
        return f"({a[0]}{s(a[1])})"
    if n.op in ("lt", "le", "eq", "in", "is"):
        sym = {"lt": "<", "le": "<=", "eq": "==", "in": "in", "is": "is"}[n.op]
        return f"({s(a[0])} {sym} {s(a[1])})"
    if n.op == "not":
        return f"not {s(a[0])}"
    if n.op in ("and", "or"):
        return "(" + f" {n.op} ".join(s(x) for x in a) + ")"
    if n.op == "phi":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if n.op == "elem":
        return f"<each of {s(a[0])}>" + ("'" * a[1])
    if n.op == "idx":
        return f"<index in {s(a[0])}>" + ("'" * a[1])
    if n.op == "call":
        args = [s(x) for x in a[1]] + [f"{k}={s(v)}" for k, v in a[2]]
        return f"{a[0] if isinstance(a[0], str) else s(a[0])}({', '.join(args)})" + (
            f"#{a[3]}" if a[3] else "")
    if n.op == "meth":
        args = [s(x) for x in a[2]] + [f"{k}={s(v)}" for k, v in a[3]]
        return f"{s(a[0])}.{a[1]}({', '.join(args)})" + (f"#{a[4]}" if a[4] else "")
    if n.op == "rcall":
        return f"{a[0]}({', '.join(k + '=' + s(v) for k, v in a[1])})#{a[2]}"
    if n.op == "nt":
        return f"{a[0]}({', '.join(k + '=' + s(v) for k, v in a[1])})"
    if n.op == "tuple":
        return "(" + ", ".join(s(x) for x in a) + ")"
    if n.op == "coll":
        return a[0] + "{" + ", ".join(showe(e, d + 1) for e in a[1]) + "}"
    if n.op == "exists":
        return f"exists({s(a[0])}: {s(a[2])})"
    if n.op == "truth":
        return f"bool({s(a[0])})"
    if n.op == "cat":
        return "str(" + " ~ ".join(s(x) for x in a) + ")"
    if n.op in ("mu", "out"):
        return f"{n.op}:{a[0]}:{a[1] if not isinstance(a[1], tuple) else show(a[1])}"
    if n.op == "unk":
        return f"?{a[0]}"
    return n.op + "(" + ", ".join(s(x) for x in a) + ")"


def showe(e, d):
    if e[0] == "item":
        return show(e[1], d)
    if e[0] == "kv":
        return f"{show(e[1], d)}: {show(e[2], d)}"
    if e[0] == "splice":
        return "*" + show(e[1], d)
    if e[0] == "for":
        return f"for {show(e[1], d)}: [" + "; ".join(showe(x, d + 1) for x in e[3]) + "]"
    if e[0] == "if":
        return f"if {show(e[1], d)}: [" + "; ".join(showe(x, d + 1) for x in e[2]) + "]"
    return str(e[0])
