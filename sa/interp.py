"""Flow-sensitive abstract interpretation of the package into a gated value graph.

Every function is evaluated once per calling context over abstract values; branches are
joined with gated (phi) values, loops are closed into comprehension-like summaries or
recurrence (mu) values.  No path is enumerated and nothing is executed.
"""
import ast

from . import ir, once
from .ir import (AND, EXISTS, FALSE, N, NONE, NOT, OR, PHI, TRUE, UNDEF, coll, const, cval,
                 deps, is_bool, is_const, mk, subst, truth, unk)
from .loader import AnalysisError, Class, Func, Module, doctext

MAXDEPTH = 40

STATIC_ATTRS = {
    "species_names", "n_species", "n_reactions", "element_names", "n_elements",
    "reactant_stoich_coeffs", "product_stoich_coeffs", "molecular_weights",
    "reactant_stoich_coeffs3", "product_stoich_coeffs3",
    "transport_model", "name", "n_total_species", "shape", "size", "ndim",
}
STATIC_METHS = {"species", "reactions", "reaction", "species_index", "species_name"}

NP_ALIAS = {
    "absolute": "abs", "fabs": "abs", "amax": "max", "amin": "min", "row_stack": "vstack",
    "asarray": "array", "asanyarray": "array", "ascontiguousarray": "array", "copy": "array",
    "round_": "round", "product": "prod", "alltrue": "all", "sometrue": "any",
}
ND_METHODS = {"sum", "max", "min", "any", "all", "argmin", "argmax", "mean", "prod", "cumsum",
              "reshape", "ravel", "flatten", "transpose", "nonzero", "clip", "dot", "astype",
              "squeeze", "argsort", "tolist", "round", "repeat", "take"}
STR_METHODS = {"join", "split", "strip", "lower", "upper", "startswith", "endswith", "replace",
               "rstrip", "lstrip", "splitlines", "ljust", "rjust", "center", "zfill", "title",
               "isdigit", "partition", "rpartition", "encode", "decode", "find", "rfind",
               "casefold", "removeprefix", "removesuffix", "expandtabs"}
FS_WRITE = {"os.remove", "os.unlink", "os.rename", "os.replace", "numpy.savetxt", "numpy.save",
            "shutil.move", "shutil.copy", "shutil.rmtree", "shutil.copyfile", "os.mkdir",
            "os.makedirs", "numpy.savez", "os.rmdir"}
FS_READ = {"os.path.isfile", "os.path.exists", "numpy.genfromtxt", "numpy.loadtxt",
           "os.path.getsize", "os.path.getmtime", "os.listdir", "glob.glob"}
PURE_PREFIX = ("numpy.", "math.", "os.path.", "networkx.", "textwrap.", "operator.",
               "builtins.", "scipy.linalg.", "copy.", "itertools.", "functools.", "collections.",
               "typing.", "heapq.", "re.")
IMPURE = {"builtins.open", "builtins.print", "builtins.input", "itertools.count", "builtins.iter",
          "heapq.heappush", "heapq.heappop", "networkx.relabel_nodes"}
LIST_MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "add",
            "update", "discard", "setdefault", "popitem", "difference_update",
            "intersection_update", "symmetric_difference_update"}
DICT_PURE = {"get", "items", "keys", "values", "copy"}
EXC_SUPER = {
    "CanteraError": ("RuntimeError",), "RuntimeError": ("Exception",),
    "ValueError": ("Exception",), "KeyError": ("LookupError",), "IndexError": ("LookupError",),
    "LookupError": ("Exception",), "OSError": ("Exception",), "FileNotFoundError": ("OSError",),
    "AssertionError": ("Exception",), "NotImplementedError": ("RuntimeError",),
    "TypeError": ("Exception",), "AttributeError": ("Exception",),
    "SystemError": ("Exception",), "SystemExit": ("BaseException",),
    "LinAlgError": ("ValueError",), "ZeroDivisionError": ("ArithmeticError",),
    "ArithmeticError": ("Exception",), "Exception": ("BaseException",),
    "StopIteration": ("Exception",), "IOError": ("Exception",),
    "FloatingPointError": ("ArithmeticError",), "ImportError": ("Exception",),
}


def exc_matches(raised, caught):
    """True / False / None (unknown) whether exception type name is caught."""
    if raised is None:
        return None
    r, seen = [raised], set()
    while r:
        x = r.pop()
        if x == caught:
            return True
        seen.add(x)
        r += [y for y in EXC_SUPER.get(x, ("Exception",) if x not in ("BaseException",) else ()) if y not in seen]
    return False


class State:
    __slots__ = ("frames", "heap", "pc", "dead")

    def __init__(self):
        self.frames, self.heap, self.pc, self.dead = {}, {}, (), False

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.dead = self.dead
        return s


class Event:
    __slots__ = ("kind", "name", "node", "args", "kw", "pc", "loc", "func", "stack", "extra", "seq")

    def __init__(self, kind, name, node, args, kw, pc, loc, func, stack, extra=None):
        self.kind, self.name, self.node, self.args, self.kw = kind, name, node, args, kw
        self.pc, self.loc, self.func, self.stack, self.extra = pc, loc, func, stack, extra
        self.seq = 0

    def guards(self):
        return [p[1] for p in self.pc if p[0] == "g"]

    def loops(self):
        return [p for p in self.pc if p[0] == "loop"]

    def __repr__(self):
        return f"<{self.kind} {self.name} {self.loc} args={self.args} kw={self.kw}>"


class Flow:
    __slots__ = ("normal", "breaks", "continues", "returns")

    def __init__(self, normal=None):
        self.normal, self.breaks, self.continues, self.returns = normal, [], [], []


FS = ("fs",)


def pcg(pc):
    return [p[1] for p in pc if p[0] == "g"]


class Interp:
    def __init__(self, prog, opaque=(), hooks=None):
        self.prog = prog
        ir.item_hook[0] = self.item_f
        self.opaque = set(opaque)
        self.hooks = hooks or {}
        self.events = []
        self.muted = 0
        self.stack = []          # call stack: (fid, lineno)
        self.fstack = []         # frame ids
        self.nstack = []         # (node, module) of the functions being run
        self._shots = {}
        self.collectors = [[]]   # raise collectors
        self.ctxids = {}
        self.occ = {}
        self.loops = {}
        self.globals_ = {}
        self.global_init = {}
        self.root_node = None
        self.closures = {}
        self.trys = {}
        self.notes = []
        self.analysed = set()
        self.curmod = None
        self._mu_alloc = 0

    # ------------------------------------------------------------ helpers
    def ctx(self, node, tag=""):
        key = (tuple(self.stack), self.curmod.name if self.curmod else "", getattr(node, "lineno", 0),
               getattr(node, "col_offset", 0), getattr(node, "end_col_offset", 0), tag, type(node).__name__)
        return self.ctxids.setdefault(key, len(self.ctxids))

    def loc(self, node):
        return (self.curmod.path if self.curmod else "?", getattr(node, "lineno", 0))

    def emit(self, kind, name, node, args, kw, st, astn, extra=None):
        if self.muted:
            return None
        ev = Event(kind, name, node, args, kw, st.pc, self.loc(astn),
                   self.stack[-1][0] if self.stack else "<module>", tuple(self.stack), extra)
        ev.seq = len(self.events)
        self.events.append(ev)
        return ev

    def occurrence(self, key, astn):
        d = self.occ.setdefault(key, {})
        c = self.ctx(astn)
        return d.setdefault(c, len(d))

    def newref(self, kind, content, st, astn):
        # allocation-site (context-sensitive) naming keeps loop passes stable
        r = mk("ref", kind, self.ctx(astn, "alloc" + kind))
        st.heap[r] = content
        return r

    def content(self, n, st):
        """Dereference containers (one level)."""
        while True:
            if n in st.heap:
                return st.heap[n]
            if n.op == "phi":
                a, b = self.content(n.a[1], st), self.content(n.a[2], st)
                if a is not n.a[1] or b is not n.a[2]:
                    return PHI(n.a[0], a, b)
            return n

    def freeze(self, n, st, _m=None):
        if _m is None:
            _m = {}
        if n in _m:
            return _m[n]
        if n.op in ("const", "ext", "fn", "closure", "mod", "cls"):
            return n
        if n in st.heap and isinstance(st.heap[n], N):
            c = st.heap[n]
            _m[n] = n
            r = self.freeze(c, st, _m) if c is not n else n
            if isinstance(r, N):
                _m[n] = r
            return r
        if n.op == "ref":
            return n
        hk = _m.get("$hk")
        if hk is None:
            hk = _m["$hk"] = {k for k in st.heap if isinstance(k, N)}
        dn = deps(n)
        if hk.isdisjoint(dn) or (n in hk and not any(h is not n and h in dn for h in hk)):
            return n

        def go(x):
            if isinstance(x, N):
                return self.freeze(x, st, _m)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        r = ir.rebuild(n.op, tuple(go(x) for x in n.a))
        _m[n] = r
        return r

    # ------------------------------------------------------------ merging
    @staticmethod
    def split_pc(p1, p2):
        i = 0
        while i < len(p1) and i < len(p2) and p1[i] == p2[i]:
            i += 1
        return p1[:i], p1[i:], p2[i:]

    def merge(self, s1, s2):
        if s1 is None or s1.dead:
            return s2
        if s2 is None or s2.dead:
            return s1
        pre, u1, u2 = self.split_pc(s1.pc, s2.pc)
        g1, g2 = pcg(u1), pcg(u2)
        c1, c2 = AND(*g1), AND(*g2)
        cond = None
        if g1 and g2 and g1[0] is NOT(g2[0]):
            cond = g1[0]
        elif c1 is TRUE or not g1:
            # s1 unconstrained: discriminate on s2
            cond = NOT(c2)
        else:
            cond = c1
        out = State()
        tot = OR(c1, c2)
        out.pc = pre + ((("g", tot),) if tot is not TRUE else ())
        for f in s1.frames:
            a = s1.frames[f]
            b = s2.frames.get(f)
            if b is None:
                out.frames[f] = dict(a)
                continue
            m = {}
            for v in list(a) + [x for x in b if x not in a]:
                x, y = a.get(v, UNDEF), b.get(v, UNDEF)
                m[v] = x if x is y else self.phi_val(cond, x, y)
            out.frames[f] = m
        for f in s2.frames:
            if f not in out.frames:
                out.frames[f] = dict(s2.frames[f])
        for k in list(s1.heap) + [x for x in s2.heap if x not in s1.heap]:
            x, y = s1.heap.get(k), s2.heap.get(k)
            if x is y:
                out.heap[k] = x
            elif x is None or y is None:
                if isinstance(k, N) and k.op == "ref":
                    out.heap[k] = x if x is not None else y
                elif isinstance(k, N):
                    d = self.global_init.get(k, k)
                    out.heap[k] = self.merge_content(cond, x if x is not None else d, y if y is not None else d)
                elif k[0] == "ver":
                    base = mk("v0")
                    out.heap[k] = PHI(cond, x or base, y or base)
                elif k == FS:
                    base = mk("fs0")
                    out.heap[k] = PHI(cond, x or base, y or base)
                else:
                    d = self.entry_field(k)
                    out.heap[k] = PHI(cond, x or d, y or d)
            elif isinstance(k, N):
                out.heap[k] = self.merge_content(cond, x, y)
            else:
                out.heap[k] = self.phi_val(cond, x, y)
        return out

    @staticmethod
    def entry_field(k):
        """Value of a field at entry: that of the object the caller passed in; none for objects made here."""
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], N) and k[0].op == "inst":
            return mk("attr", k[0], k[1], None)
        return UNDEF

    def phi_val(self, c, x, y):
        if x is UNDEF:
            return y if y.op != "undef" else x
        if y is UNDEF:
            return x
        return PHI(c, x, y)

    def merge_content(self, c, x, y):
        if x.op == "coll" and y.op == "coll" and x.a[0] == y.a[0]:
            a, b = x.a[1], y.a[1]
            i = 0
            while i < len(a) and i < len(b) and a[i] == b[i]:
                i += 1
            if i or not a or not b:
                ents = a[:i]
                if a[i:]:
                    ents += (("if", c, a[i:]),)
                if b[i:]:
                    ents += (("if", NOT(c), b[i:]),)
                return coll(x.a[0], ents)
        if x.op in ("mu",) and y.op == "coll" and y.a[1] and y.a[1][0] == ("splice", x):
            return coll(y.a[0], (("splice", x), ("if", NOT(c), y.a[1][1:])))
        if y.op in ("mu",) and x.op == "coll" and x.a[1] and x.a[1][0] == ("splice", y):
            return coll(x.a[0], (("splice", y), ("if", c, x.a[1][1:])))
        return PHI(c, x, y)

    def merge_all(self, states):
        r = None
        for s in states:
            r = self.merge(r, s)
        return r

    def push(self, st, g):
        """Copy of st under additional guard g (None if infeasible)."""
        facts = set()
        for p in pcg(st.pc):
            facts |= ir.lits(p)
        facts = frozenset(facts)
        g2 = ir.assume(g, facts) if g.op in ("and", "or", "phi", "not") or g in facts or NOT(g) in facts else g
        if g2 is FALSE:
            return None
        s = st.copy()
        if g2 is not TRUE:
            s.pc = s.pc + (("g", g2),)
        return s

    # ------------------------------------------------------------ running
    def run(self, fid, args=None, self_cls=None):
        f = self.prog.funcs.get(fid)
        if f is None:
            raise AnalysisError(f"function {fid} not found")
        st = State()
        binds = {}
        self.root_node = f.node
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for i, nm in enumerate(names):
            if f.cls is not None and i == 0 and not f.static:
                if f.classm:
                    binds[nm] = mk("cls", (self_cls or f.cls.cid))
                else:
                    binds[nm] = mk("inst", self_cls or f.cls.cid, "self")
            else:
                binds[nm] = mk("param", nm)
        if a.vararg:
            binds[a.vararg.arg] = mk("param", a.vararg.arg)
        if a.kwarg:
            binds[a.kwarg.arg] = mk("param", a.kwarg.arg)
        if args:
            binds.update(args)
        val = self.exec_function(f, binds, st, f.node, keep=True)
        res = Result()
        res.ret = val
        res.state = self.last_state
        res.retf = self.freeze(val, st) if val is not None and not st.dead else val
        res.st = st
        res.events = self.events
        res.raises = self.collectors[0]
        res.loops = self.loops
        res.interp = self
        res.returns = self.last_returns
        return res

    def exec_function(self, f, binds, st, astn, keep=False, parent=None):
        """Inline function f; mutates st; returns value node (st.dead if never returns)."""
        if len(self.stack) > MAXDEPTH:
            return unk("call depth")
        fr = self.ctx(astn, "frame:" + f.fid) if not keep else "entry"
        st.frames[fr] = dict(binds)
        st.frames[fr]["$parent"] = parent if parent is not None else NONE
        oldmod = self.curmod
        self.stack.append((f.fid, getattr(astn, "lineno", 0), getattr(astn, "col_offset", 0)))
        self.analysed.add(f.fid)
        self.curmod = f.mod
        self.fstack.append(fr)
        self.nstack.append((f.node, f.mod))
        n = f.node
        isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(n))
        if isgen:
            r = self.newref("list", coll("list", ()), st, n)
            st.frames[fr]["$yield"] = r
        try:
            if isinstance(n, ast.Lambda):
                v = self.ev(n.body, st)
                outs = [] if st.dead else [(st.copy(), v)]
            else:
                flow = self.block(n.body, st.copy())
                outs = list(flow.returns)
                if flow.normal is not None and not flow.normal.dead:
                    outs.append((flow.normal, NONE))
        finally:
            self.stack.pop()
            self.curmod = oldmod
            self.fstack.pop()
            self.nstack.pop()
        states = []
        for s, v in outs:
            if s.dead:
                continue
            if not keep and not self.captured(s, fr):
                old = s.frames.get(fr, {})
                s.frames[fr] = {k: old[k] for k in ("$parent", "$yield") if k in old}
            s.frames[fr]["$ret"] = v
            states.append(s)
        if keep:
            self.last_returns = [(s, v) for s, v in outs if not s.dead]
        if not states:
            st.dead = True
            self.last_state = None
            return unk("no return")
        m = self.merge_all(states)
        val = m.frames[fr]["$ret"]
        if isgen:
            val = m.frames[fr]["$yield"]
        self.last_state = m
        if not keep and not self.captured(m, fr):
            m.frames.pop(fr, None)
        st.frames, st.heap, st.pc = m.frames, m.heap, m.pc
        return val

    def captured(self, st, fr):
        return any(c[1] == fr for c in self.closures.values())

    # ------------------------------------------------------------ variables
    def lookup(self, name, st):
        fr = self.fstack[-1] if self.fstack else None
        while fr is not None and fr in st.frames:
            d = st.frames[fr]
            if name in d:
                v = d[name]
                return self.resolve_view(v, st)
            p = d.get("$parent", NONE)
            if p is NONE:
                break
            fr = cval(p) if p.op == "const" else p.a[0]
        return self.global_name(self.curmod, name, st)

    def resolve_view(self, v, st):
        if v.op == "view":
            base = st.frames.get(v.a[0], {}).get(v.a[1])
            if base is None:
                return unk("view base gone")
            b = self.resolve_view(base, st)
            return b if v.a[2] is None else self.item(b, v.a[2], st)
        return v

    def global_name(self, mod, name, st):
        s = self.prog.lookup(mod, name) if mod else None
        if s is None:
            if hasattr(__import__("builtins"), name):
                return mk("ext", "builtins." + name)
            return mk("ext", "builtins." + name) if name in ("__file__", "__name__") else unk(
                "name " + name)
        return self.symval(s, st, name)

    def symval(self, s, st, name=None):
        if s[0] == "func":
            return mk("fn", s[1].fid)
        if s[0] == "class":
            return mk("cls", s[1].cid)
        if s[0] == "ext":
            return EXT(s[1])
        if s[0] == "mod":
            return mk("mod", s[1])
        if s[0] == "expr":
            mod, nm = s[2], s[3]
            key = (mod.name, nm)
            g = mk("global", mod.name, nm)
            if self.rebound(mod, nm):
                # another call may have left any value
                return st.heap.get(g, g) if st is not None else g
            if key not in self.globals_:
                self.globals_[key] = None
                v = self.pure_eval(s[1], mod)
                self.globals_[key] = v
            v = self.globals_[key]
            if v is None:
                return unk("recursive global")
            if v.op == "coll":
                self.global_init[g] = v
                if g not in st.heap:
                    st.heap[g] = v
                return g
            return v
        return unk("symbol")

    def rebound(self, mod, nm):
        """Some function of the module assigns the global name."""
        names = getattr(mod, "rebound_names", None)
        if names is None:
            names = mod.rebound_names = {x for n in ast.walk(mod.tree) if isinstance(n, ast.Global) for x in n.names}
        return nm in names

    def pure_eval(self, expr, mod):
        old = (self.curmod, self.fstack, self.stack, self.muted)
        self.curmod, self.fstack, self.stack, self.muted = mod, [], [], 1
        try:
            s = State()
            v = self.freeze(self.ev(expr, s), s)
        finally:
            self.curmod, self.fstack, self.stack, self.muted = old
        return v

    def assign_name(self, name, v, st, node=None):
        fr = self.fstack[-1]
        d = st.frames[fr]
        nl = d.get("$nonlocal")
        if nl is not None and name in nl.a:
            f2 = d.get("$parent", NONE)
            while f2 is not NONE:
                k = cval(f2) if f2.op == "const" else f2.a[0]
                if name in st.frames.get(k, {}):
                    st.frames[k][name] = v
                    return
                f2 = st.frames.get(k, {}).get("$parent", NONE)
        gl = d.get("$global")
        if gl is not None and name in gl.a:
            self.emit("setglobal", name, v, (self.freeze(v, st),), (), st, node)
            st.heap[mk("global", self.curmod.name, name)] = v
            return
        # materialise views of the variable being rebound
        for f2, dd in st.frames.items():
            for k2, vv in list(dd.items()):
                if isinstance(vv, N) and vv.op == "view" and vv.a[0] == fr and vv.a[1] == name:
                    if not (f2 == fr and k2 == name):
                        dd[k2] = self.resolve_view(vv, st)
        d[name] = v

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        fl = Flow()
        cur = st
        for s in stmts:
            if cur is None or cur.dead:
                break
            f = self.stmt(s, cur)
            fl.breaks += f.breaks
            fl.continues += f.continues
            fl.returns += f.returns
            cur = f.normal
            if cur is not None and cur.dead:
                cur = None
        fl.normal = cur
        return fl

    def stmt(self, s, st):
        ir.CUR_LOC[0] = self.loc(s)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.notes.append(f"unsupported statement {type(s).__name__} at {self.loc(s)}")
            return Flow(st)
        r = m(s, st)
        if r is None:
            return Flow(st if not st.dead else None)
        return r

    def s_Pass(self, s, st):
        return None

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return None
        self.ev(s.value, st)

    def s_Import(self, s, st):
        for a in s.names:
            st.frames[self.fstack[-1]][a.asname or a.name.split(".")[0]] = mk(
                "ext", a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, s, st):
        syms = {}
        self.prog._importfrom(self.curmod, s, syms)
        for k, v in syms.items():
            if v[0] == "from":
                v = self.prog.lookup(self.prog.mods[v[1]], v[2]) or ("ext", v[1] + "." + v[2])
            st.frames[self.fstack[-1]][k] = self.symval(v, st)

    def s_FunctionDef(self, s, st):
        f = Func(self.stack[-1][0] + ".<locals>." + s.name, s, self.curmod)
        st.frames[self.fstack[-1]][s.name] = self.mkclosure(f, st)

    def mkclosure(self, f, st):
        key = self.ctx(f.node, "closure")
        node = mk("closure", f.fid, key)
        self.closures[node] = (f, self.fstack[-1], self.defaults(f, st))
        return node

    def defaults(self, f, st):
        a = f.node.args
        pos = a.posonlyargs + a.args
        d = {}
        for p, e in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            d[p.arg] = self.ev(e, st)
        for p, e in zip(a.kwonlyargs, a.kw_defaults):
            if e is not None:
                d[p.arg] = self.ev(e, st)
        return d

    def s_ClassDef(self, s, st):
        st.frames[self.fstack[-1]][s.name] = unk("local class")

    def s_Nonlocal(self, s, st):
        d = st.frames[self.fstack[-1]]
        old = d.get("$nonlocal")
        d["$nonlocal"] = mk("names", *((old.a if old else ()) + tuple(s.names)))

    def s_Global(self, s, st):
        d = st.frames[self.fstack[-1]]
        d["$global"] = mk("names", *s.names)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                i = self.ev_index(t.slice, st)
                c = self.content(b, st)
                self.mut_event(b, "del", (self.freeze(i, st),), st, s)
                self.setcontent(b, mk("removed", c, "del", self.freeze(i, st)), st)
            elif isinstance(t, ast.Name):
                st.frames[self.fstack[-1]].pop(t.id, None)

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        if st.dead:
            return None
        v = self.maybe_view(s, v, st)
        for t in s.targets:
            self.assign(t, v, st, s)

    def maybe_view(self, s, v, st):
        if (isinstance(s.value, ast.Subscript) and isinstance(s.value.value, ast.Name)
                and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)
                and has_slice(s.value.slice) and v.op == "item"):
            nm = s.value.value.id
            fr = self.fstack[-1]
            if nm in st.frames[fr] and nm != s.targets[0].id:
                return mk("view", fr, nm, v.a[1])
        return v

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)

    def s_AugAssign(self, s, st):
        op = BIN[type(s.op)]
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id, st)
            raw = st.frames[self.fstack[-1]].get(s.target.id)
            rhs = self.ev(s.value, st)
            c = self.content(cur, st)
            if cur.op == "ref" or (cur in st.heap):
                if op == "+" and c.op in ("coll", "mu", "phi", "removed") or cur.op == "ref":
                    self.mut_event(cur, "extend", (self.freeze(rhs, st),), st, s)
                    if op == "|" or op == "+":
                        kind = c.a[0] if c.op == "coll" else "list"
                        self.setcontent(cur, coll(kind, (("splice", c), ("splice", self.freeze1(rhs, st)))), st)
                    else:
                        self.setcontent(cur, self.binop(op, c, self.freeze(rhs, st)), st)
                    return None
            if cur.op == "param" and op == "+" and self.freeze(rhs, st).op == "coll":
                self.mut_event(cur, "extend", (self.freeze(rhs, st),), st, s)
                self.setcontent(cur, coll("list", (("splice", cur), ("splice", self.freeze(rhs, st)))), st)
                return None
            self.touch("aug" + op, self.freeze(cur, st), (self.freeze(rhs, st),), st, s)
            v = self.binop(op, self.freeze(cur, st), self.freeze(rhs, st))
            if raw is not None and raw.op == "view" and (raw.a[2] is not None or arrayish(self.resolve_view(raw, st))):
                self.store_view(raw, v, st, s)
                return None
            self.assign_name(s.target.id, v, st, s)
        elif isinstance(s.target, ast.Attribute):
            b = self.ev(s.target.value, st)
            cur = self.getattr(b, s.target.attr, st, s.target)
            rhs = self.ev(s.value, st)
            self.touch("aug" + op, self.freeze(cur, st), (self.freeze(rhs, st),), st, s)
            self.setattr(b, s.target.attr, self.binop(op, self.freeze(cur, st), self.freeze(rhs, st)), st, s)
        elif isinstance(s.target, ast.Subscript):
            b = self.ev(s.target.value, st)
            i = self.ev_index(s.target.slice, st)
            cur = self.item(b, i, st)
            rhs = self.ev(s.value, st)
            self.touch("aug" + op, self.freeze(cur, st), (self.freeze(rhs, st),), st, s)
            self.setitem(s.target, b, i, self.binop(op, self.freeze(cur, st), self.freeze(rhs, st)), st, s)

    def freeze1(self, n, st):
        return self.freeze(n, st)

    def assign(self, t, v, st, s):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, st, s)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i0 = star[0]
                after = len(t.elts) - i0 - 1
                for i, e in enumerate(t.elts[:i0]):
                    self.assign(e, self.item(v, const(i), st), st, s)
                c = self.content(v, st)
                if c.op == "tuple":
                    mid = c.a[i0: len(c.a) - after]
                    self.assign(t.elts[i0].value, self.newref("list", coll("list", tuple(("item", x) for x in mid)), st, t), st, s)
                    for j, e in enumerate(t.elts[i0 + 1:]):
                        self.assign(e, c.a[len(c.a) - after + j], st, s)
                else:
                    rest = mk("item", self.freeze(v, st), mk("slice", const(i0), const(-after) if after else NONE, NONE))
                    self.assign(t.elts[i0].value, rest, st, s)
                    for j, e in enumerate(t.elts[i0 + 1:]):
                        self.assign(e, self.item(v, const(j - after), st), st, s)
                return
            for i, e in enumerate(t.elts):
                self.assign(e, self.item(v, const(i), st), st, s)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            self.setattr(b, t.attr, v, st, s)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            i = self.ev_index(t.slice, st)
            self.setitem(t, b, i, v, st, s)

    def setattr(self, b, name, v, st, s):
        if b.op == "phi":
            # conditional target: record on both
            for br in b.a[1:]:
                if br.op in ("ref", "inst", "phi"):
                    self.setattr(br, name, PHI(b.a[0] if br is b.a[1] else NOT(b.a[0]), v,
                                               self.getattr(br, name, st, s)), st, s)
            return
        if b.op in ("ref", "inst"):
            st.heap[(b, name)] = v
            if b.op == "inst":
                self.emit("setfield", name, b, (self.freeze(v, st),), (), st, s)
            return
        b = self.freeze(b, st)
        fv = self.freeze(v, st)
        self.emit("setattr", name, b, (fv,), (), st, s, extra=st.heap.get(("ver", b)))
        st.heap[("ver", b)] = mk("upd", st.heap.get(("ver", b), mk("v0")), name, fv)

    def setitem(self, t, b, i, v, st, s):
        fi = self.freeze(i, st)
        c = self.content(b, st)
        if b.op == "ref" or (b in st.heap and c.op in ("coll", "mu", "removed", "phi")):
            if c.op == "coll" and c.a[0] == "dict" or (b.op == "ref" and b.a[0] == "dict"):
                self.mut_event(b, "setitem", (fi, self.freeze(v, st)), st, s)
                ents = c.a[1] if c.op == "coll" else (("splice", c),)
                if fi.op == "const":
                    ents = tuple(e for e in ents if not (e[0] == "kv" and e[1] is fi))
                self.setcontent(b, coll("dict", ents + (("kv", fi, v),)), st)
                return
            self.mut_event(b, "setitem", (fi, self.freeze(v, st)), st, s)
            self.setcontent(b, mk("store", c, fi, self.freeze(v, st)), st)
            return
        self.touch("setitem", self.freeze(b, st), (fi, self.freeze(v, st)), st, s)
        if isinstance(t.value, ast.Name):
            nm = t.value.id
            fr = self.find_frame(nm, st)
            if fr is not None:
                raw = st.frames[fr][nm]
                val = mk("store", self.freeze(self.resolve_view(raw, st), st), fi, self.freeze(v, st))
                if raw.op == "view":
                    self.store_view(raw, val, st, s)
                else:
                    st.frames[fr][nm] = val
                    if raw.op in ("param",):
                        self.emit("setitem", "param", raw, (fi, self.freeze(v, st)), (), st, s)
                return
        if isinstance(t.value, ast.Attribute):
            bb = self.ev(t.value.value, st)
            if bb.op in ("ref", "inst"):
                st.heap[(bb, t.value.attr)] = mk("store", self.freeze(b, st), fi, self.freeze(v, st))
                return
        fb = self.freeze(b, st)
        if isinstance(t.value, ast.Subscript) and isinstance(t.value.value, ast.Name) and fb.op == "item":
            # a part of a local value, like x[i][j] of an array
            fr = self.find_frame(t.value.value.id, st)
            raw = st.frames[fr][t.value.value.id] if fr is not None else NONE
            if raw.op in ("call", "meth", "store", "view", "mu", "phi", "out", "attr") and raw not in st.heap:
                self.setitem(t.value, raw, fb.a[1], mk("store", fb, fi, self.freeze(v, st)), st, s)
                return
        self.emit("setitem", "ext", fb, (fi, self.freeze(v, st)), (), st, s)
        st.heap[fb] = mk("store", st.heap.get(fb, fb), fi, self.freeze(v, st))

    def touch(self, how, b, args, st, s):
        """A write in place into a value that is not an object made by the code under analysis."""
        if b.op not in ("const", "coll", "cat", "fmt", "ref"):
            self.emit("touch", how, b, args, (), st, s)

    def store_view(self, raw, newval, st, s):
        """newval is the full new value of the viewed region."""
        fr, nm, idx = raw.a
        base = st.frames[fr][nm]
        if idx is None:
            if base.op == "view":
                self.store_view(base, newval, st, s)
            else:
                st.frames[fr][nm] = newval
            return
        cur = self.resolve_view(base, st)
        nv = mk("store", self.freeze(cur, st), idx, newval)
        if base.op == "view":
            self.store_view(base, nv, st, s)
        else:
            st.frames[fr][nm] = nv

    def find_frame(self, name, st):
        fr = self.fstack[-1]
        while fr is not None and fr in st.frames:
            if name in st.frames[fr]:
                return fr
            p = st.frames[fr].get("$parent", NONE)
            if p is NONE:
                return None
            fr = cval(p) if p.op == "const" else p.a[0]
        return None

    def setcontent(self, b, c, st):
        if b.op == "phi":
            for i, br in ((1, b.a[1]), (2, b.a[2])):
                g = b.a[0] if i == 1 else NOT(b.a[0])
                self.setcontent(br, PHI(g, c, self.content(br, st)), st)
            return
        st.heap[b] = c

    def mut_event(self, b, how, args, st, s):
        if b.op == "phi":
            self.mut_event(b.a[1], how, args, st, s)
            self.mut_event(b.a[2], how, args, st, s)
            return
        if b.op != "ref":
            self.emit("mutate", how, b, args, (), st, s)

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        fl = Flow()
        if not st.dead:
            self.emit("return", self.stack[-1][0], v, (self.freeze(v, st),), (), st, s)
            fl.returns.append((st, v))
        return fl

    def s_Break(self, s, st):
        fl = Flow()
        fl.breaks.append(st)
        return fl

    def s_Continue(self, s, st):
        fl = Flow()
        fl.continues.append(st)
        return fl

    def do_raise(self, st, node, tname, astn):
        self.emit("raise", tname, node, (self.freeze(node, st),) if node is not None else (), (), st, astn)
        self.collectors[-1].append((st.copy(), node, tname))
        st.dead = True

    def s_Raise(self, s, st):
        tname, v = None, None
        if s.exc is not None:
            v = self.ev(s.exc, st)
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            nm = v.a[0] if v.op in ("call",) and isinstance(v.a[0], str) else (
                v.a[0] if v.op == "ext" else None)
            if nm:
                tname = nm.split(".")[-1]
            elif isinstance(e, ast.Name):
                tname = e.id
            elif isinstance(e, ast.Attribute):
                tname = e.attr
            if v.op == "excobj":
                tname = v.a[1] if len(v.a) > 1 and isinstance(v.a[1], str) else tname
        else:
            tname = "<reraise>"
        if s.cause is not None:
            self.ev(s.cause, st)
        self.do_raise(st, v, tname, s)

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        if st.dead:
            return None
        bad = self.push(st, NOT(c))
        if bad is not None:
            msg = self.ev(s.msg, bad) if s.msg is not None else NONE
            self.do_raise(bad, mk("call", "builtins.AssertionError", (self.freeze(msg, bad),), (), None), "AssertionError", s)
        ok = self.push(st, c)
        return Flow(ok)

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        if st.dead:
            return None
        out = Flow()
        t = self.push(st, c)
        e = self.push(st, NOT(c))
        ft = self.block(s.body, t) if t is not None else Flow()
        fe = self.block(s.orelse, e) if e is not None else Flow()
        for f in (ft, fe):
            out.breaks += f.breaks
            out.continues += f.continues
            out.returns += f.returns
        out.normal = self.merge(ft.normal, fe.normal)
        return out

    def s_Match(self, s, st):
        subj = self.ev(s.subject, st)
        out = Flow()
        cur = st
        normals = []
        for case in s.cases:
            if cur is None:
                break
            c = self.pattern(case.pattern, subj, cur)
            if case.guard is not None:
                c = AND(c, self.cond(case.guard, cur))
            t = self.push(cur, c)
            if t is not None:
                f = self.block(case.body, t)
                out.breaks += f.breaks
                out.continues += f.continues
                out.returns += f.returns
                normals.append(f.normal)
            cur = self.push(cur, NOT(c))
        normals.append(cur)
        out.normal = self.merge_all([n for n in normals if n is not None])
        return out

    def pattern(self, p, subj, st):
        if isinstance(p, ast.MatchValue):
            return self.cmp("eq", self.freeze(subj, st), self.freeze(self.ev(p.value, st), st))
        if isinstance(p, ast.MatchSingleton):
            return self.cmp("is", self.freeze(subj, st), const(p.value))
        if isinstance(p, ast.MatchOr):
            return OR(*[self.pattern(x, subj, st) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            c = TRUE if p.pattern is None else self.pattern(p.pattern, subj, st)
            if p.name:
                self.assign_name(p.name, subj, st)
            return c
        return mk("truth", unk("match pattern"))

    # -- with / try
    def s_With(self, s, st):
        frames = []
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if st.dead:
                return None
            fz = self.freeze(v, st)
            fr = ("with", fz)
            self.emit("enter", "with", fz, (), (), st, s)
            st.pc = st.pc + (fr,)
            frames.append(fr)
            if it.optional_vars is not None:
                nm = fz.a[0] if fz.op == "call" and isinstance(fz.a[0], str) else ""
                if nm.split(".")[-1] in ("TemporaryDirectory", "redirect_stdout", "suppress"):
                    val = mk("enter", fz)
                else:
                    val = v
                self.assign(it.optional_vars, val, st, s)
        f = self.block(s.body, st)

        def strip(x):
            for fr in frames:
                x.pc = remove_last(x.pc, fr)
            return x
        if f.normal is not None:
            strip(f.normal)
            for fr in frames:
                self.emit("exit", "with", fr[1], (), (), f.normal, s)
        f.breaks = [strip(x) for x in f.breaks]
        f.continues = [strip(x) for x in f.continues]
        f.returns = [(strip(x), v) for x, v in f.returns]
        return f

    def handler_types(self, h, st):
        if h.type is None:
            return ("BaseException",)
        els = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for e in els:
            v = self.ev(e, st)
            if v.op == "ext":
                out.append(v.a[0].split(".")[-1])
            elif v.op == "cls":
                out.append(v.a[0].split(".")[-1])
            elif v.op == "coll" or v.op == "ref" or v.op == "global" or v.op == "tuple":
                c = self.freeze(v, st)
                xs = c.a if c.op == "tuple" else [x[1] for x in c.a[1] if x[0] == "item"]
                out += [x.a[0].split(".")[-1] for x in xs if x.op == "ext"]
            else:
                out.append("?")
        return tuple(out)

    def s_Try(self, s, st):
        tid = self.ctx(s, "try")
        htypes = [self.handler_types(h, st) for h in s.handlers]
        fr = ("try", tid, tuple(t for ts in htypes for t in ts), bool(s.finalbody))
        pre = st.copy()
        st.pc = st.pc + (fr,)
        self.collectors.append([])
        n0 = len(self.events)
        last, before = s.body[-1], None
        if isinstance(last, ast.Assign) and all(isinstance(t, ast.Name) for t in last.targets):
            # the names it assigns are still unchanged when the last statement fails
            f = self.block(s.body[:-1], st)
            if f.normal is not None:
                before = dict(f.normal.frames[self.fstack[-1]])
                f2 = self.block([last], f.normal)
                f2.breaks, f2.continues, f2.returns = f.breaks + f2.breaks, f.continues + f2.continues, f.returns + f2.returns
                f = f2
        else:
            f = self.block(s.body, st)
        raised = self.collectors.pop()

        def strip(x):
            x.pc = remove_last(x.pc, fr)
            return x
        out = Flow()
        out.breaks = [strip(x) for x in f.breaks]
        out.continues = [strip(x) for x in f.continues]
        out.returns = [(strip(x), v) for x, v in f.returns]
        normal = strip(f.normal) if f.normal is not None else None
        # a raise of unknown origin may happen anywhere in the body
        mid = normal
        if before is not None and mid is not None:
            mid = mid.copy()
            for t in last.targets:
                if t.id in before:
                    mid.frames[self.fstack[-1]][t.id] = before[t.id]
                else:
                    mid.frames[self.fstack[-1]].pop(t.id, None)
        for x in out.breaks + out.continues + [r[0] for r in out.returns] + [strip(r[0].copy()) for r in raised]:
            mid = x if mid is None else self.merge(mid, x)
        hstates = []
        passed = []
        explicit = [[] for _ in s.handlers]
        for rs, rn, rt in raised:
            rs = strip(rs)
            hit = None
            for i, ts in enumerate(htypes):
                m = any(exc_matches(rt, t) for t in ts) if rt not in (None, "<reraise>") else (
                    True if "BaseException" in ts or "Exception" in ts else None)
                if m:
                    hit = i
                    break
            if hit is None:
                passed.append((rs, rn, rt))
            else:
                explicit[hit].append((rs, rn, rt))
        afters = []
        for i, h in enumerate(s.handlers):
            exc = mk("exc", tid, i, htypes[i])
            hs = pre.copy()
            hs.pc = pre.pc + (("g", exc),)
            if mid is not None:
                self.havoc(hs, pre, mid, tid)
            for rs, rn, rt in explicit[i]:
                # make explicit raise alternatives visible through the same gate
                rs2 = rs.copy()
                rs2.pc = pre.pc + (("g", exc),) + tuple(("g", x) for x in pcg(rs.pc[len(pre.pc):]))
                hs = self.merge(rs2, hs)
            if explicit[i]:
                hs.pc = pre.pc + (("g", exc),)
            if h.name:
                st_name = mk("excobj", exc, htypes[i][0] if htypes[i] else "?")
                hs.frames[self.fstack[-1]][h.name] = st_name
            hfr = ("handler", tid, i, htypes[i])
            hs.pc = hs.pc + (hfr,)
            self.collectors.append([])
            hf = self.block(h.body, hs)
            hraised = self.collectors.pop()

            def strip2(x, hfr=hfr):
                x.pc = remove_last(x.pc, hfr)
                return x
            out.breaks += [strip2(x) for x in hf.breaks]
            out.continues += [strip2(x) for x in hf.continues]
            out.returns += [(strip2(x), v) for x, v in hf.returns]
            passed += [(strip2(x), a, htypes[i][0] if b == "<reraise>" and htypes[i] else b) for x, a, b in hraised]
            if hf.normal is not None:
                afters.append(strip2(hf.normal))
        if normal is not None:
            if s.handlers:
                # gate the normal continuation against each handler
                g = AND(*[NOT(mk("exc", tid, i, htypes[i])) for i in range(len(s.handlers))])
                n2 = normal.copy()
                suffix = n2.pc[len(pre.pc):]
                n2.pc = pre.pc + (("g", g),) + suffix
                normal = n2
            if s.orelse:
                f2 = self.block(s.orelse, normal)
                out.breaks += f2.breaks
                out.continues += f2.continues
                out.returns += f2.returns
                normal = f2.normal
        out.normal = normal
        for a in afters:
            if out.normal is None:
                out.normal = a
            else:
                m = self.merge(a, out.normal)
                # drop the residual gate: either way control continues
                out.normal = m
        if s.finalbody:
            ffr = ("finally", tid)
            n_ev = len(self.events)

            def fin(x):
                x.pc = x.pc + (ffr,)
                f3 = self.block(s.finalbody, x)
                out.returns.extend(f3.returns)
                if f3.normal is not None:
                    f3.normal.pc = remove_last(f3.normal.pc, ffr)
                return f3.normal
            if out.normal is not None:
                out.normal = fin(out.normal)
            rets = []
            for x, v in list(out.returns):
                y = fin(x)
                if y is not None:
                    rets.append((y, v))
            out.returns = rets
            out.breaks = [y for y in (fin(x) for x in out.breaks) if y is not None]
            out.continues = [y for y in (fin(x) for x in out.continues) if y is not None]
            np_ = []
            for x, a, b in passed:
                y = fin(x)
                if y is not None:
                    np_.append((y, a, b))
            passed = np_
            if mid is not None:
                # implicit exception path through finally
                hs = pre.copy()
                hs.pc = pre.pc + (("g", mk("exc", tid, -1, ("BaseException",))),)
                self.havoc(hs, pre, mid, tid)
                fin(hs)
        for x in passed:
            self.collectors[-1].append(x)
        return out

    s_TryStar = s_Try

    def havoc(self, hs, pre, mid, tid):
        for f in mid.frames:
            d0 = pre.frames.get(f, {})
            for v, x in mid.frames[f].items():
                y = d0.get(v)
                if y is not x and isinstance(x, N):
                    hs.frames.setdefault(f, {})[v] = mk("maybe", tid, y if y is not None else UNDEF, x)
        for k, x in mid.heap.items():
            y = pre.heap.get(k)
            if y is not x:
                if y is None and isinstance(k, N) and k.op == "ref":
                    hs.heap[k] = x
                elif y is None:
                    hs.heap[k] = mk("maybe", tid, self.entry_field(k), x)
                else:
                    hs.heap[k] = mk("maybe", tid, y, x)

    # ------------------------------------------------------------ loops
    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        if st.dead:
            return None

        def bind(v, x):
            self.assign(s.target, v, x, s)
        fl = self.iterate(it, st, s, bind, lambda x: self.block(s.body, x))
        return self.loop_else(s, fl)

    s_AsyncFor = s_For

    def loop_else(self, s, fl):
        """fl.normal: exhausted; fl.breaks: states after a break (already outside)."""
        out = Flow()
        out.returns = fl.returns
        n = fl.normal
        if s.orelse and n is not None:
            f2 = self.block(s.orelse, n)
            out.breaks += f2.breaks
            out.continues += f2.continues
            out.returns += f2.returns
            n = f2.normal
        for b in fl.breaks:
            n = self.merge(b, n) if n is not None else b
        out.normal = n
        return out

    def iterate(self, it, st, astn, bind, body):
        """Iterate abstractly; returns Flow(normal=exhausted, breaks, returns)."""
        dom = self.domain(it, st)
        return self.iter_dom(dom, st, astn, bind, body)

    def domain(self, it, st):
        """Normalise an iterable: ('items', [..]) concrete or ('ext', iternode, elemfn)."""
        n = self.freeze(it, st)
        return self.dom_frozen(n)

    def dom_frozen(self, n):
        if n.op == "call" and isinstance(n.a[0], str):
            nm, args, kw = n.a[0], n.a[1], n.a[2]
            if nm == "builtins.enumerate":
                start = args[1] if len(args) > 1 else dict(kw).get("start", const(0))
                inner = self.dom_frozen(args[0])
                return ("enum", inner, start)
            if nm == "builtins.range":
                if len(args) == 1:
                    a = args[0]
                    if a.op == "const" and isinstance(cval(a), int):
                        return ("seq", [("item", const(i)) for i in range(cval(a))]) if 0 <= cval(a) <= 8 else ("ext", n)
                    if a.op == "call" and a.a[0] == "builtins.len":
                        return ("idxof", self.dom_frozen(a.a[1][0]), a.a[1][0])
                    if a.op == "attr" and a.a[1] == "n_species":
                        return ("idxof", ("ext", mk("attr", a.a[0], "species_names", None)), mk("attr", a.a[0], "species_names", None))
                    if a.op == "attr" and a.a[1] == "n_reactions":
                        r = mk("meth", a.a[0], "reactions", (), (), None)
                        return ("idxof", ("ext", r), r)
                return ("ext", n)
            if nm == "builtins.zip":
                return ("zip", [self.dom_frozen(x) for x in args], n)
            if nm in ("builtins.list", "builtins.tuple", "builtins.iter"):
                return self.dom_frozen(args[0]) if args else ("seq", [])
            if nm == "builtins.reversed" or nm == "builtins.sorted":
                return ("ext", n)
        if n.op == "meth":
            b, m = n.a[0], n.a[1]
            if m == "items":
                return ("ditems", b)
            if m == "keys" and not n.a[2]:
                return self.dom_frozen(b)
            if m == "values" and not n.a[2]:
                return ("dvalues", b)
            if m == "species" and not n.a[2]:
                return ("spobj", b)
            if m == "copy":
                return self.dom_frozen(b)
        if n.op == "coll":
            if n.a[0] == "set" and n.a[1]:
                return ("ext", n)      # unordered: keep the set visible
            return ("seq", list(n.a[1]), n.a[0])
        if n.op == "tuple":
            return ("seq", [("item", x) for x in n.a])
        if n.op == "const" and isinstance(cval(n), str) and False:
            return ("ext", n)
        if n.op == "bin" and n.a[0] == "+":
            return ("cat", [self.dom_frozen(n.a[1]), self.dom_frozen(n.a[2])])
        if n.op == "phi":
            return ("alt", n.a[0], self.dom_frozen(n.a[1]), self.dom_frozen(n.a[2]))
        return ("ext", n)

    def own_position(self, dom):
        """Index into a sequence whose positions are not those of one underlying domain (filtered, joined, nested)."""
        if dom[0] == "cat":
            return mk("idx", coll("list", (("splice", const(None)),)), 0)
        if dom[0] != "seq" or len(dom) > 2 and dom[2] == "dict":
            return None
        ents = dom[1]
        if all(e[0] in ("item", "kv") for e in ents):
            return None
        if len(ents) == 1:
            e = ents[0]
            if e[0] == "splice":
                return self.own_position(self.dom_frozen(e[1]))
            if e[0] == "for" and len(e[3]) == 1 and e[3][0][0] in ("item", "kv"):
                return None
        return mk("idx", coll("list", tuple(ents)), 0)

    def level(self, st, it):
        return sum(1 for p in st.pc if p[0] == "loop" and p[2] is it)

    def iter_dom(self, dom, st, astn, bind, body, wrap=None, tag=""):
        wrap = wrap or (lambda v, i: v)
        kind = dom[0]
        if kind == "enum":
            inner, start = dom[1], dom[2]
            pos = self.own_position(inner)

            def w(v, i):
                i = pos or i
                j = i if is_const(start, 0) else self.binop("+", i, start)
                return wrap(mk("tuple", j, v), i)
            return self.iter_dom(inner, st, astn, bind, body, w, tag)
        if kind == "idxof":
            pos = self.own_position(dom[1])
            return self.iter_dom(dom[1], st, astn, bind, body, lambda v, i: wrap(pos or i, pos or i), tag)
        if kind == "cat":
            f1 = self.iter_dom(dom[1][0], st, astn, bind, body, wrap, tag + "a")
            out = Flow()
            out.breaks, out.returns = list(f1.breaks), list(f1.returns)
            if f1.normal is None:
                return out
            f2 = self.iter_dom(dom[1][1], f1.normal, astn, bind, body, wrap, tag + "b")
            out.breaks += f2.breaks
            out.returns += f2.returns
            out.normal = f2.normal
            return out
        if kind == "alt":
            out = Flow()
            ns = []
            for g, d, t in ((dom[1], dom[2], "t"), (NOT(dom[1]), dom[3], "f")):
                x = self.push(st, g)
                if x is None:
                    continue
                f = self.iter_dom(d, x, astn, bind, body, wrap, tag + t)
                out.breaks += f.breaks
                out.returns += f.returns
                if f.normal is not None:
                    ns.append(f.normal)
            out.normal = self.merge_all(ns) if ns else None
            return out
        if kind == "seq":
            return self.iter_entries(dom[1], st, astn, bind, body, wrap, tag, 0)
        if kind == "zip":
            subs = dom[1]
            if all(d[0] == "seq" and all(e[0] == "item" for e in d[1]) for d in subs):
                m = min(len(d[1]) for d in subs) if subs else 0
                ents = [("item", mk("tuple", *[d[1][i][1] for d in subs])) for i in range(m)]
                return self.iter_entries(ents, st, astn, bind, body, wrap, tag, 0)
            # lockstep over index of the zip
            zipn = dom[2]
            it = zipn

            def mkelem(k):
                i = mk("idx", it, k)
                return mk("tuple", *[self.item_f(x, i) for x in zipn.a[1]]), i
            return self.loop_ext(it, mkelem, st, astn, bind, body, wrap, tag)
        if kind == "ditems":
            b = dom[1]
            if b.op == "coll":
                def w2(v, i):
                    return wrap(v, i)
                ents = [self.kv2tuple(e) for e in b.a[1]]
                return self.iter_entries(ents, st, astn, bind, body, w2, tag, 0)
            return self.loop_ext(b, lambda k: (mk("tuple", mk("elem", b, k), self.item_f(b, mk("elem", b, k))), mk("idx", b, k)),
                                 st, astn, bind, body, wrap, tag)
        if kind == "dvalues":
            b = dom[1]
            if b.op == "coll":
                ents = [self.kv2val(e) for e in b.a[1]]
                return self.iter_entries(ents, st, astn, bind, body, wrap, tag, 0)
            return self.loop_ext(b, lambda k: (self.item_f(b, mk("elem", b, k)), mk("idx", b, k)),
                                 st, astn, bind, body, wrap, tag)
        if kind == "spobj":
            names = mk("attr", dom[1], "species_names", None)
            return self.loop_ext(names, lambda k: (mk("spobj", dom[1], mk("elem", names, k)), mk("idx", names, k)),
                                 st, astn, bind, body, wrap, tag)
        it = dom[1]
        return self.loop_ext(it, lambda k: (mk("elem", it, k), mk("idx", it, k)), st, astn, bind, body, wrap, tag)

    def kv2tuple(self, e):
        if e[0] == "kv":
            return ("item", mk("tuple", e[1], e[2]))
        if e[0] == "for":
            return ("for", e[1], e[2], tuple(self.kv2tuple(x) for x in e[3]))
        if e[0] == "if":
            return ("if", e[1], tuple(self.kv2tuple(x) for x in e[2]))
        if e[0] == "splice":
            b = e[1]
            return ("for", b, 0, (("item", mk("tuple", mk("elem", b, 0), self.item_f(b, mk("elem", b, 0)))),))
        return e

    def kv2val(self, e):
        t = self.kv2tuple(e)

        def go(x):
            if x[0] == "item":
                return ("item", x[1].a[1])
            if x[0] == "for":
                return ("for", x[1], x[2], tuple(go(y) for y in x[3]))
            if x[0] == "if":
                return ("if", x[1], tuple(go(y) for y in x[2]))
            return x
        return go(t)

    def iter_entries(self, ents, st, astn, bind, body, wrap, tag, pos):
        out = Flow()
        cur = st
        for i, e in enumerate(ents):
            if cur is None:
                break
            t = f"{tag}.{i}"
            if e[0] in ("item", "kv"):
                idxn = const(pos + i)
                x = cur
                self.stack.append((self.stack[-1][0] if self.stack else "<m>", getattr(astn, "lineno", 0), "unroll" + t))
                try:
                    bind(wrap(e[1], idxn), x)
                    f = body(x)
                finally:
                    self.stack.pop()
                out.breaks += f.breaks
                out.returns += f.returns
                ns = [y for y in [f.normal] + f.continues if y is not None]
                cur = self.merge_all(ns) if ns else None
            elif e[0] == "splice":
                f = self.iter_dom(self.dom_frozen(e[1]), cur, astn, bind, body, wrap, t)
                out.breaks += f.breaks
                out.returns += f.returns
                cur = f.normal
            elif e[0] == "for":
                it, k0, sub = e[1], e[2], e[3]

                def bd(v, x):
                    pass

                def inner(x, it=it, k0=k0, sub=sub, t=t):
                    k = self.level(x, it) - 1
                    sub2 = rename_entries(sub, it, k0, k)
                    i2 = mk("idx", it, k)
                    return self.iter_entries_in(sub2, x, astn, bind, body, wrap, t + "f", i2)
                f = self.loop_ext(it, lambda k, it=it: (mk("elem", it, k), mk("idx", it, k)), cur, astn, bd, inner,
                                  lambda v, i: v, t)
                out.breaks += f.breaks
                out.returns += f.returns
                cur = f.normal
            elif e[0] == "if":
                a = self.push(cur, e[1])
                b = self.push(cur, NOT(e[1]))
                if a is not None:
                    f = self.iter_entries(e[2], a, astn, bind, body, wrap, t + "i", 0)
                    out.breaks += f.breaks
                    out.returns += f.returns
                    a = f.normal
                cur = self.merge(a, b) if (a is not None and b is not None) else (a or b)
            else:
                it = mk("entry", str(e))
                f = self.loop_ext(it, lambda k, it=it: (mk("elem", it, k), mk("idx", it, k)), cur, astn, bind, body, wrap, t)
                out.breaks += f.breaks
                out.returns += f.returns
                cur = f.normal
        out.normal = cur
        return out

    def iter_entries_in(self, ents, st, astn, bind, body, wrap, tag, idxn):
        """Entries inside a 'for' entry: run the user body for each (single-item common)."""
        out = Flow()
        cur = st
        for j, e in enumerate(ents):
            if cur is None:
                break
            if e[0] == "item" or e[0] == "kv":
                bind(wrap(e[1], idxn), cur)
                f = body(cur)
                out.breaks += f.breaks
                out.returns += f.returns
                ns = [y for y in [f.normal] + f.continues if y is not None]
                cur = self.merge_all(ns) if ns else None
            elif e[0] == "if":
                a = self.push(cur, e[1])
                b = self.push(cur, NOT(e[1]))
                if a is not None:
                    f = self.iter_entries_in(e[2], a, astn, bind, body, wrap, tag + "i", idxn)
                    out.breaks += f.breaks
                    out.returns += f.returns
                    a = f.normal
                cur = self.merge(a, b) if (a is not None and b is not None) else (a or b)
            else:
                f = self.iter_entries([e], cur, astn, bind, body, wrap, tag + f"n{j}", 0)
                out.breaks += f.breaks
                out.returns += f.returns
                cur = f.normal
        out.normal = cur
        return out

    def assigned_names(self, astn):
        out = set()
        for b in ("body", "orelse"):
            for x in getattr(astn, b, []) or []:
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del)):
                        out.add(y.id)
        if hasattr(astn, "target"):
            for y in ast.walk(astn.target):
                if isinstance(y, ast.Name):
                    out.add(y.id)
        return out

    def loop_ext(self, it, mkelem, st, astn, bind, body, wrap, tag, cond=None, post=None):
        lid = mk("lid", self.ctx(astn, "loop" + tag))
        k = sum(1 for p in st.pc if p[0] == "loop" and p[2] is it)
        marker = ("loop", lid, it, k)
        fr = self.fstack[-1] if self.fstack else None
        mukeys = set()
        if fr is not None and isinstance(astn, (ast.For, ast.While)):
            d = st.frames[fr]
            for nm in self.assigned_names(astn):
                if nm in d:
                    mukeys.add(("v", fr, nm))
        ident = set()
        final = None
        for attempt in range(8):
            x = st.copy()
            x.pc = x.pc + (marker,)
            for key in mukeys:
                m = mk("mu", lid, mu_name(key))
                if key[0] == "v":
                    x.frames[key[1]][key[2]] = m
                else:
                    x.heap[key[1]] = m
            x0 = x.copy()
            last = final
            self.muted += 0 if last else 1
            self.collectors.append([])
            nocc = None
            entry_cond = TRUE
            broke0 = None
            try:
                if cond is not None:
                    c = cond(x)
                    entry_cond = c
                    x = self.push(x, c)
                if x is None:
                    f = Flow()
                else:
                    el, ix = mkelem(k)
                    if tag:
                        self.stack.append((self.stack[-1][0] if self.stack else "<m>", getattr(astn, "lineno", 0), "unroll" + tag))
                    try:
                        bind(wrap(el, ix), x)
                        f = body(x)
                    finally:
                        if tag:
                            self.stack.pop()
            finally:
                raised = self.collectors.pop()
                self.muted -= 0 if last else 1
            ns = [y for y in [f.normal] + f.continues if y is not None and not y.dead]
            nxt = self.merge_all(ns) if ns else None
            # keys changed by the body, on any exit
            changed = {}
            for y in ([nxt] if nxt else []) + f.breaks + [r[0] for r in f.returns]:
                for fn, dd in y.frames.items():
                    if fn not in x0.frames:
                        continue
                    for v, val in dd.items():
                        if v.startswith("$"):
                            continue
                        if v in x0.frames[fn] and x0.frames[fn][v] is not val:
                            changed[("v", fn, v)] = True
                for hk, val in y.heap.items():
                    if hk in x0.heap and x0.heap[hk] is not val:
                        changed[("h", hk)] = True
                    elif hk not in x0.heap and not (isinstance(hk, N) and hk.op == "ref") and not (
                            isinstance(hk, tuple) and isinstance(hk[0], N) and hk[0].op == "ref"):
                        # ext object touched for the first time inside the loop
                        if isinstance(hk, N) and hk.op == "global" and val is not self.global_init.get(hk):
                            changed[("h", hk)] = True
                        if isinstance(hk, tuple) and (hk[0] == "ver" or isinstance(hk[0], N) and hk[0].op == "inst"):
                            changed[("h", hk)] = True
                        elif hk == FS:
                            changed[("h", hk)] = True
            need = set(changed)
            if final:
                break
            if need == mukeys or attempt >= 5:
                final = True
            mukeys = (need | (mukeys if attempt >= 3 else set()))
            if final and need != mukeys:
                mukeys = need | mukeys
        info = {"lid": lid, "it": it, "k": k, "init": {}, "next": {}, "ast": astn, "cond": entry_cond,
                "breaks": f.breaks, "loc": self.loc(astn), "func": self.stack[-1][0] if self.stack else "",
                "nxt": nxt, "returns": f.returns, "entry": x0, "raised": raised}
        plen = len(st.pc) + 1
        # close values
        out = Flow()
        close = {}
        npc = pcg(nxt.pc[plen:]) if nxt is not None else [FALSE]
        if cond is not None and entry_cond is not TRUE:
            npc = [g for g in npc if g is not entry_cond]
        resid = AND(*npc)

        def val_of(y, key):
            if key[0] == "v":
                return y.frames.get(key[1], {}).get(key[2])
            return y.heap.get(key[1])

        for key in mukeys:
            m = mk("mu", lid, mu_name(key))
            init = val_of(st, key)
            if init is None and key[0] == "h" and isinstance(key[1], N) and key[1] in self.global_init:
                init = self.global_init[key[1]]
            if init is None:
                init = mk("v0") if key[0] == "h" and key[1] != FS else mk("fs0") if key[0] == "h" else UNDEF
                if key[0] == "h" and isinstance(key[1], tuple) and key[1] != FS and key[1][0] != "ver":
                    init = self.entry_field(key[1])
            nx = val_of(nxt, key) if nxt is not None else None
            info["init"][mu_name(key)] = init
            info["next"][mu_name(key)] = nx
            close[m] = self.close(m, lid, it, k, init, nx, key, cond is not None)
        if not self.muted or lid not in self.loops:
            self.loops[lid] = info
        # exhausted state
        mus = {m for m in close}

        def outward(nval, brk=False):
            """Rewrite mu / elem of this loop to their values after the loop."""
            if not isinstance(nval, N):
                return nval
            dd = deps(nval)
            mp = {m: close[m] for m in mus if m in dd}
            r = subst(nval, mp) if mp else nval
            return r

        exitcond = []
        brk_conds = []
        for b in f.breaks:
            brk_conds.append(AND(*pcg(b.pc[plen:])))
        ret_conds = [AND(*pcg(r[0].pc[plen:])) for r in f.returns]
        rvals = {self.freeze(v, y) if v is not None else NONE for y, v in f.returns}
        any_exit = OR(*brk_conds, *ret_conds)

        def leaves(c):
            """The loop is left through this exit (and through no other one before)."""
            ex = EXISTS(it, k, c) if cond is None else mk("exists", it, k, c)
            if cond is None and (len(rvals) > 1 or rvals and f.breaks) and ex is not FALSE:
                ex = AND(EXISTS(it, k, any_exit), truth(mk("first", it, k, any_exit, c, lid)))
            return ex
        base = st.copy()
        if not (f.breaks or f.returns or raised or nxt is None):
            resid = TRUE        # nothing leaves the body: every iteration completes
        if resid is not TRUE and not brk_conds and not ret_conds or resid is not TRUE:
            ex = EXISTS(it, k, NOT(resid)) if cond is None else mk("exists", it, k, NOT(resid))
            g = NOT(ex)
            g = outward(g)
            if g is not TRUE:
                base.pc = base.pc + (("g", g),)
        for key in mukeys:
            m = mk("mu", lid, mu_name(key))
            self.put(base, key, close[m])
        if cond is not None:
            # while loop: exit condition false
            ec = outward_cond(NOT(entry_cond), close)
            if ec is not TRUE:
                base.pc = base.pc + (("g", ec),) if ec is not FALSE else base.pc
            if ec is FALSE:
                base = None
        # new refs / fields created in body persist (summaries)
        if nxt is not None and base is not None:
            for hk, val in nxt.heap.items():
                if hk not in base.heap:
                    base.heap[hk] = val
            if fr is not None:
                for v, val in nxt.frames.get(fr, {}).items():
                    if v not in base.frames[fr] and not v.startswith("$"):
                        base.frames[fr][v] = mk("last", it, k, val, UNDEF) if self.loopy(val, it, k, mus) else val
        if nxt is None and cond is None and not f.breaks and not f.returns:
            # body never completes: loop must be empty to continue
            pass
        out.normal = base
        for b, bc in zip(f.breaks, brk_conds):
            y = st.copy()
            ex = outward(leaves(bc))
            if ex is FALSE:
                continue
            if ex is not TRUE:
                y.pc = st.pc + (("g", ex),)
            for fn, dd in b.frames.items():
                for v, val in dd.items():
                    o = st.frames.get(fn, {}).get(v)
                    if val is not o and isinstance(val, N):
                        if fn not in y.frames:
                            y.frames[fn] = {}
                        y.frames[fn][v] = self.brkval(val, it, k, bc, close, mus, lid)
            for hk, val in b.heap.items():
                if st.heap.get(hk) is not val:
                    if hk not in st.heap and isinstance(hk, N) and hk.op == "ref":
                        y.heap[hk] = val
                    else:
                        y.heap[hk] = self.brkval(val, it, k, bc, close, mus, lid)
            out.breaks.append(y)
        for (r, v), rc in zip(f.returns, ret_conds):
            y = r.copy()
            ex = outward(leaves(rc))
            if ex is FALSE:
                continue
            y.pc = st.pc + ((("g", ex),) if ex is not TRUE else ())
            fv = self.freeze(v, r)
            if self.loopy(fv, it, k, mus):
                fv2 = mk("first", it, k, rc, fv, lid)
                out.returns.append((y, fv2))
            else:
                out.returns.append((y, v))
        for rs, rn, rt in raised:
            y = rs.copy()
            self.collectors[-1].append((y, rn, rt))
            # keep pc with loop marker for reporting but strip for merging
            y.pc = st.pc + (("g", mk("exists", it, k, AND(*pcg(rs.pc[plen:])))),)
        return out

    def put(self, s, key, v):
        if key[0] == "v":
            s.frames[key[1]][key[2]] = v
        else:
            s.heap[key[1]] = v

    def loopy(self, n, it, k, mus):
        if not isinstance(n, N):
            return False
        dd = deps(n)
        return mk("elem", it, k) in dd or mk("idx", it, k) in dd or any(m in dd for m in mus)

    def brkval(self, val, it, k, bc, close, mus, lid):
        if not isinstance(val, N):
            return val
        if not self.loopy(val, it, k, mus):
            return val
        return mk("first", it, k, bc, val, lid)

    def close(self, m, lid, it, k, init, nx, key, is_while):
        """Value of a loop-carried key after the loop has run to completion."""
        if nx is None:
            return init
        if nx is m:
            return init
        el, ix = mk("elem", it, k), mk("idx", it, k)
        if not is_while:
            # list / dict accumulation
            if nx.op == "coll" and nx.a[1] and nx.a[1][0] == ("splice", m):
                rest = nx.a[1][1:]
                if not any(m in deps(x) for x in ent_nodes(rest)):
                    kind = init.a[0] if init.op == "coll" else nx.a[0]
                    return coll(kind, (("splice", init), ("for", it, k, rest)))
            c, v = TRUE, nx
            if nx.op == "phi":
                if nx.a[2] is m:
                    c, v = nx.a[0], nx.a[1]
                elif nx.a[1] is m:
                    c, v = NOT(nx.a[0]), nx.a[2]
            if m not in deps(c):
                if v is TRUE or v is FALSE:
                    if is_bool(init):
                        ex = EXISTS(it, k, c)
                        return OR(init, ex) if v is TRUE else AND(init, NOT(ex))
                if v.op == "bin" and v.a[0] == "+":
                    a, b = v.a[1], v.a[2]
                    if a is m and m not in deps(b) and (init.op == "coll" or (init.op == "ref" and init.a[0] == "list")):
                        return coll("list", (("splice", init), ("for", it, k, (("if", c, (("splice", b),)),))))
                    if a is m and m not in deps(b):
                        return mk("sumfor", init, it, k, b, c)
                    if b is m and m not in deps(a):
                        return mk("sumfor", init, it, k, a, c)
                setlike = init.op in ("coll", "ref") and init.a[0] == "set" or init.op == "call" and init.a[0] in (
                    "builtins.set", "builtins.frozenset")
                more = None
                if setlike and v.op == "bin" and v.a[0] == "|" and m in v.a[1:]:
                    more = [x for x in v.a[1:] if x is not m]
                elif setlike and v.op == "meth" and v.a[1] == "union" and not v.a[3] and v.a[0] is m:
                    more = list(v.a[2])
                if more and not any(m in deps(x) for x in more):
                    return coll("set", (("splice", init), ("for", it, k, (("if", c, tuple(("splice", x) for x in more)),))))
                if v.op == "call" and v.a[0] in ("builtins.max", "numpy.maximum", "builtins.min", "numpy.minimum") and len(v.a[1]) == 2:
                    a, b = v.a[1]
                    o = b if a is m else a if b is m else None
                    if o is not None and m not in deps(o):
                        return mk("maxfor" if "max" in v.a[0] else "minfor", init, it, k, o, c)
                if v.op == "store":
                    st_ = self.close_store(m, it, k, init, v, c)
                    if st_ is not None:
                        return st_
                if m not in deps(v):
                    if el not in deps(v) and ix not in deps(v) and el not in deps(c) and ix not in deps(c):
                        if any(x.op == "mu" and x.a[0] is lid for x in deps(v) | deps(c)):
                            return mk("out", lid, mu_name(key), init, nx)
                        return PHI(AND(truth(it), c), v, init)
                    return mk("last", it, k, PHI(c, v, UNDEF) if c is not TRUE else v, init)
            if nx.op in ("and", "or") and m in nx.a:
                rest = [x for x in nx.a if x is not m]
                if not any(m in deps(x) for x in rest):
                    if nx.op == "and":
                        return AND(init, NOT(EXISTS(it, k, NOT(AND(*rest)))))
                    return OR(init, EXISTS(it, k, OR(*rest)))
        return mk("out", lid, mu_name(key), init, nx)

    def close_store(self, m, it, k, init, v, c):
        # chain of stores on m
        ents = []
        cur = v
        while cur.op == "store":
            ents.append((cur.a[1], cur.a[2]))
            cur = cur.a[0]
        if cur is not m:
            return None
        ents.reverse()
        return mk("storefor", init, it, k, tuple((i, x, c) for i, x in ents), m)

    def s_While(self, s, st):
        it = mk("while", self.ctx(s, "while"))
        fl = self.loop_ext(it, lambda k: (mk("elem", it, k), mk("idx", it, k)), st, s,
                           lambda v, x: None, lambda x: self.block(s.body, x),
                           lambda v, i: v, "", cond=lambda x: self.cond(s.test, x))
        return self.loop_else(s, fl)

    # ------------------------------------------------------------ expressions
    def cond(self, e, st):
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            acc = []
            x = st
            for i, v in enumerate(e.values):
                c = self.guarded_cond(v, st, acc, isand)
                acc.append(c)
                if st.dead:
                    return FALSE
            return AND(*acc) if isand else OR(*acc)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return NOT(self.cond(e.operand, st))
        v = self.ev(e, st)
        return self.truth(v, st)

    def guarded_cond(self, v, st, acc, isand):
        if not acc or not has_call(v):
            return self.cond(v, st)
        g = AND(*acc) if isand else AND(*[NOT(a) for a in acc])
        if g is FALSE:
            return FALSE if isand else TRUE
        x = self.push(st, g)
        if x is None:
            return FALSE if isand else TRUE
        other = self.push(st, NOT(g))
        c = self.cond(v, x)
        if x.dead:
            st.dead = other is None
            if other is not None:
                self.become(st, other)
            return FALSE if isand else TRUE
        m = self.merge(x, other) if other is not None else x
        self.become(st, m)
        return c

    def become(self, st, m):
        st.frames, st.heap, st.pc, st.dead = m.frames, m.heap, m.pc, m.dead

    def truth(self, v, st):
        c = self.content(v, st)
        if c.op in ("coll", "phi", "mu", "removed", "store"):
            c = self.freeze(c, st)
        return truth(c)

    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.notes.append(f"unsupported expression {type(e).__name__} at {self.loc(e)}")
            return unk(type(e).__name__)
        ir.CUR_LOC[0] = self.loc(e)
        return m(e, st)

    def e_Constant(self, e, st):
        if e.value is Ellipsis:
            return ir.ELLIPSIS
        return const(e.value)

    def e_Name(self, e, st):
        v = self.lookup(e.id, st)
        if self.nstack and id(e) in once.spent(self.nstack[-1][0], self.shots(self.nstack[-1][1])):
            return self.maybe_spent(e.id, v, st)
        return v

    def shots(self, mod):
        """Functions visible in the module that return a one-shot iterator."""
        if mod is None:
            return frozenset()
        if mod.name not in self._shots:
            self._shots[mod.name] = frozenset(n for n in mod.syms if (self.prog.lookup(mod, n) or ("",))[0] == "func" and
                                              once.makes(self.prog.lookup(mod, n)[1].node))
        return self._shots[mod.name]

    def maybe_spent(self, name, v, st):
        """What an iterator that may have been used up yields: its items or nothing."""
        f = self.freeze(v, st)
        if f.op not in ("coll", "call", "phi", "out", "attr", "param", "meth", "rcall", "elem", "item", "bin"):
            return v
        return PHI(truth(mk("param", f"first use of the iterator {name}")), f, coll("list", ()))

    def once_args(self, f, b, st, e):
        """One-shot iterators handed to a function that goes through them more than once."""
        if not isinstance(e, ast.Call) or isinstance(f.node, ast.Lambda) or not self.nstack:
            return
        cur, mod = self.nstack[-1]
        shots = self.shots(mod)

        def resolve(n):
            s = self.prog.lookup(f.mod, n) if f.mod else None
            return s[1].node if s and s[0] == "func" else None
        for p in list(b):
            a = once.argument(f.node, e, p)
            if a is None or not (once.producer(a, shots) or isinstance(a, ast.Name) and not isinstance(cur, ast.Lambda) and
                                 once.local_shot(cur, a.id, shots)):
                continue
            if once.repeats(f.node, p, resolve):
                b[p] = self.maybe_spent(p, b[p], st)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.freeze(self.mklist("list", e, st), st)
        return mk("tuple", *[self.ev(x, st) for x in e.elts])

    def mklist(self, kind, e, st):
        ents = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                ents.append(("splice", self.freeze(self.ev(x.value, st), st)))
            else:
                ents.append(("item", self.ev(x, st)))
        return self.newref(kind, coll(kind, tuple(ents)), st, e)

    def e_List(self, e, st):
        return self.mklist("list", e, st)

    def e_Set(self, e, st):
        return self.mklist("set", e, st)

    def e_Dict(self, e, st):
        ents = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                ents.append(("splice", self.freeze(self.ev(v, st), st)))
            else:
                kk = self.freeze(self.ev(k, st), st)
                vv = self.ev(v, st)
                if kk.op == "const":
                    ents = [x for x in ents if not (x[0] == "kv" and x[1] is kk)]
                ents.append(("kv", kk, vv))
        return self.newref("dict", coll("dict", tuple(ents)), st, e)

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.freeze(self.ev(v.value, st), st)
                spec = ""
                if v.format_spec is not None:
                    sp = self.freeze(self.ev(v.format_spec, st), st)
                    spec = cval(sp) if sp.op == "const" else sp
                conv = chr(v.conversion) if v.conversion and v.conversion > 0 else ""
                parts.append(fmt(x, spec, conv))
        return cat(parts)

    def e_FormattedValue(self, e, st):
        return fmt(self.freeze(self.ev(e.value, st), st), "", "")

    def e_Lambda(self, e, st):
        f = Func((self.stack[-1][0] if self.stack else "") + ".<lambda>", e, self.curmod)
        f.name = "<lambda>"
        key = self.ctx(e, "closure")
        node = mk("closure", f.fid, key)
        self.closures[node] = (f, self.fstack[-1] if self.fstack else None, self.defaults(f, st))
        return node

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        if c is TRUE:
            return self.ev(e.body, st)
        if c is FALSE:
            return self.ev(e.orelse, st)
        a, b = self.push(st, c), self.push(st, NOT(c))
        if a is None:
            return self.ev(e.orelse, st)
        if b is None:
            return self.ev(e.body, st)
        va = self.ev(e.body, a)
        vb = self.ev(e.orelse, b)
        if a.dead:
            self.become(st, b)
            return vb
        if b.dead:
            self.become(st, a)
            return va
        self.become(st, self.merge(a, b))
        return PHI(c, va, vb)

    def e_BoolOp(self, e, st):
        vals = []
        isand = isinstance(e.op, ast.And)
        acc = None
        # boolean-valued operands -> logical; otherwise value semantics
        res = []
        guards = []
        for v in e.values:
            if guards and has_call(v):
                g = AND(*guards) if isand else AND(*[NOT(x) for x in guards])
                x = self.push(st, g)
                if x is None:
                    break
                other = self.push(st, NOT(g))
                n = self.ev(v, x)
                t = self.truth(n, x)
                self.become(st, self.merge(x, other) if other is not None and not x.dead else (other or x))
            else:
                n = self.ev(v, st)
                t = self.truth(n, st)
            res.append((n, t))
            guards.append(t)
        out = res[-1][0]
        for n, t in reversed(res[:-1]):
            out = PHI(t, out, n) if isand else PHI(t, n, out)
        return out

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return NOT(self.cond(e.operand, st))
        v = self.freeze(self.ev(e.operand, st), st)
        op = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)]
        if v.op == "const" and isinstance(cval(v), (int, float)) and not isinstance(cval(v), bool):
            return const(-cval(v)) if op == "-" else v
        if op == "~":
            if is_bool(v):
                return NOT(v)
            return mk("un", "~", v)
        if op == "+":
            return v
        return mk("un", "-", v)

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop_ref(BIN[type(e.op)], a, b, st, e)

    def binop_ref(self, op, a, b, st, e):
        fa, fb = self.freeze(a, st), self.freeze(b, st)
        r = self.binop(op, fa, fb)
        if r.op == "coll" and r.a[0] in ("list", "set", "dict"):
            return self.newref(r.a[0], r, st, e)
        return r

    def binop(self, op, a, b):
        if a.op == "const" and b.op == "const":
            x, y = cval(a), cval(b)
            try:
                if op == "+" and isinstance(x, (int, float, str)) and isinstance(y, (int, float, str)):
                    return const(x + y)
                if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                    if op == "-":
                        return const(x - y)
                    if op == "*":
                        return const(x * y)
                    if op == "/" and y != 0:
                        return const(x / y)
                    if op == "**" and abs(y) < 50:
                        return const(x ** y)
                    if op == "//" and y:
                        return const(x // y)
                    if op == "%" and y:
                        return const(x % y)
                if op == "*" and isinstance(x, int) and isinstance(y, str) and x < 200:
                    return const(x * y)
                if op == "*" and isinstance(y, int) and isinstance(x, str) and y < 200:
                    return const(x * y)
            except Exception:
                pass
        if op == "+":
            if a.op in ("cat", "fmt") or b.op in ("cat", "fmt") or (
                    a.op == "const" and isinstance(cval(a), str)) or (
                    b.op == "const" and isinstance(cval(b), str)):
                return cat([a, b])
            if (a.op == "coll" and a.a[0] == "list") or (b.op == "coll" and b.a[0] == "list"):
                return coll("list", (("splice", a), ("splice", b)))
            if a.op == "tuple" and b.op == "tuple":
                return mk("tuple", *(a.a + b.a))
        if op == "|":
            if (a.op == "coll" and a.a[0] in ("set", "dict")) or (b.op == "coll" and b.a[0] in ("set", "dict")):
                k = a.a[0] if a.op == "coll" else b.a[0]
                return coll(k, (("splice", a), ("splice", b)))
            if is_bool(a) and is_bool(b):
                return OR(a, b)
        if op == "&":
            if is_bool(a) and is_bool(b):
                return AND(a, b)
        if op in ("-", "&") and a.op == "coll" and a.a[0] == "set":
            def keep(x):
                c = self.isin(x, b)
                return NOT(c) if op == "-" else c
            return filter_coll(a, keep)
        if op == "%" and ((a.op == "const" and isinstance(cval(a), str)) or a.op == "cat"):
            return mk("pct", a, b)
        return mk("bin", op, a, b)

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            fl, fr_ = self.freeze(left, st), self.freeze(right, st)
            if isinstance(op, ast.Lt):
                c = self.cmp("lt", fl, fr_)
            elif isinstance(op, ast.Gt):
                c = self.cmp("lt", fr_, fl)
            elif isinstance(op, ast.LtE):
                c = self.cmp("le", fl, fr_)
            elif isinstance(op, ast.GtE):
                c = self.cmp("le", fr_, fl)
            elif isinstance(op, ast.Eq):
                c = self.cmp("eq", fl, fr_)
            elif isinstance(op, ast.NotEq):
                c = NOT(self.cmp("eq", fl, fr_))
            elif isinstance(op, ast.Is):
                c = self.cmp("is", self.keepref(left, fl), self.keepref(right, fr_))
            elif isinstance(op, ast.IsNot):
                c = NOT(self.cmp("is", self.keepref(left, fl), self.keepref(right, fr_)))
            elif isinstance(op, ast.In):
                c = self.isin(fl, fr_)
            elif isinstance(op, ast.NotIn):
                c = NOT(self.isin(fl, fr_))
            else:
                c = mk("truth", unk("cmp"))
            out.append(c)
            left = right
        return AND(*out)

    def keepref(self, n, f):
        return n if n.op == "ref" else f

    def cmp(self, op, a, b):
        if a.op == "const" and b.op == "const":
            x, y = cval(a), cval(b)
            try:
                if op == "eq":
                    return const(x == y)
                if op == "lt":
                    return const(x < y)
                if op == "le":
                    return const(x <= y)
                if op == "is":
                    return const(x is y if (x is None or y is None or isinstance(x, bool)) else x == y)
            except TypeError:
                pass
        if op in ("le", "lt") and (a.op == "coll" and a.a[0] == "set" or b.op == "coll" and b.a[0] == "set"):
            from .builtins_ import subset
            c = subset(self, a, b, False, None)
            return c if op == "le" else AND(c, NOT(subset(self, b, a, False, None)))
        if op in ("eq", "is"):
            if a is b and not (op == "eq" and maybe_nan(a)):
                return TRUE
            # canonical bool compare
            for x, y in ((a, b), (b, a)):
                if y is TRUE and is_bool(x):
                    return x
                if y is FALSE and is_bool(x):
                    return NOT(x)
                if y is NONE and definitely_not_none(x):
                    return FALSE
                if y.op == "const" and y.a[0] != "NoneType" and x is NONE:
                    return FALSE
            for x, y in ((a, b), (b, a)):
                if x.op == "phi" and (y.op == "const") and (x.a[1].op in ("const", "nt", "phi", "call", "coll") or x.a[2].op in ("const", "phi")):
                    return PHI(x.a[0], self.cmp(op, x.a[1], y), self.cmp(op, x.a[2], y))
            # len(x) == 0
            if op == "eq":
                for x, y in ((a, b), (b, a)):
                    if is_const(y, 0) and x.op == "call" and x.a[0] == "builtins.len":
                        return NOT(truth(x))
            if a.id > b.id:
                a, b = b, a
            return mk(op, a, b)
        if op == "lt" and is_const(a, 0) and b.op == "call" and b.a[0] == "builtins.len":
            return truth(b)
        if op == "le" and is_const(a, 1) and b.op == "call" and b.a[0] == "builtins.len":
            return truth(b)
        if op == "lt" and is_const(b, 1) and a.op == "call" and a.a[0] == "builtins.len":
            return NOT(truth(a))
        return mk(op, a, b)

    def isin(self, x, c, depth=0):
        if depth > 12:
            return mk("in", x, c)
        if c.op == "call" and c.a[0] in ("builtins.set", "builtins.list", "builtins.tuple", "builtins.sorted",
                                         "builtins.frozenset", "numpy.unique", "numpy.array", "builtins.reversed",
                                         "builtins.dict"):
            if c.a[1]:
                return self.isin(x, c.a[1][0], depth + 1)
        if c.op == "meth" and c.a[1] in ("keys", "copy") and not c.a[2]:
            return self.isin(x, c.a[0], depth + 1)
        if c.op == "tuple":
            return OR(*[self.cmp("eq", x, y) for y in c.a])
        if c.op == "coll":
            return OR(*[self.in_entry(x, e, depth) for e in c.a[1]])
        if c.op == "phi":
            return PHI(c.a[0], self.isin(x, c.a[1], depth + 1), self.isin(x, c.a[2], depth + 1))
        if c.op == "bin" and c.a[0] in ("+", "|"):
            return OR(self.isin(x, c.a[1], depth + 1), self.isin(x, c.a[2], depth + 1))
        if c.op == "bin" and c.a[0] in ("-", "&"):
            b = self.isin(x, c.a[2], depth + 1)
            return AND(self.isin(x, c.a[1], depth + 1), b if c.a[0] == "&" else NOT(b))
        if c.op == "meth" and c.a[1] in ("union", "intersection", "difference") and not c.a[3]:
            r = self.isin(x, c.a[0], depth + 1)
            for y in c.a[2]:
                b = self.isin(x, y, depth + 1)
                r = OR(r, b) if c.a[1] == "union" else AND(r, b if c.a[1] == "intersection" else NOT(b))
            return r
        if c.op == "call" and c.a[0] == "builtins.dict.fromkeys" and c.a[1]:
            return self.isin(x, c.a[1][0], depth + 1)
        if x.op == "elem" and x.a[0] is c:
            return TRUE
        if c.op == "out":
            u = self.union_loop(c)
            if u is not None:
                return self.isin(x, u, depth + 1)
            d = self.without_loop(c)
            if d is not None:
                init, it, v, g = d
                return AND(self.isin(x, init, depth + 1), NOT(AND(self.isin(x, it, depth + 1), subst(g, {v: x}))))
        if x.op == "const" and isinstance(cval(x), str) and c.op == "const" and isinstance(cval(c), str):
            return const(cval(x) in cval(c))
        return mk("in", x, c)

    def union_loop(self, c):
        """Members of a list to which a loop adds what it does not hold yet, as a set."""
        info = self.loops.get(c.a[0])
        if info is None or info["breaks"] or not isinstance(info["it"], N) or c.a[3] is None or c.a[3].op != "coll" or c.a[2] is None:
            return None
        m = mk("mu", c.a[0], c.a[1])
        if info["it"].op == "while" or str(info["it"]).startswith("while"):
            return None
        ents, first = [], True

        def strip(e):
            if e[0] == "if" and len(e[2]) == 1 and e[2][0][0] == "item":
                v = e[2][0][1]
                cs = list(e[1].a) if e[1].op == "and" else [e[1]]
                cs = [y for y in cs if y is not NOT(mk("in", v, m))]
                return ("if", AND(*cs), e[2]) if cs else e[2][0]
            return e
        for e in c.a[3].a[1]:
            if e == ("splice", m):
                if not first:
                    return None
                continue
            first = False
            ents.append(strip(e))
        body = coll("set", tuple(ents))
        if any(x.op in ("mu", "out") and x.a[0] is c.a[0] for x in deps(body)):
            return None
        return coll("set", (("splice", c.a[2]), ("for", info["it"], info["k"], tuple(ents))))

    def without_loop(self, c):
        """A list of distinct entries from which a loop removes the ones that meet a condition: (list, removed from, entry, condition)."""
        info = self.loops.get(c.a[0])
        n = c.a[3]
        if info is None or info["breaks"] or not isinstance(info["it"], N) or n is None or c.a[2] is None or str(info["it"]).startswith("while"):
            return None
        m = mk("mu", c.a[0], c.a[1])
        v = mk("elem", info["it"], info["k"])
        if n.op == "phi" and n.a[1] is m and n.a[2].op == "removed":
            g, rem = NOT(n.a[0]), n.a[2]
        elif n.op == "phi" and n.a[2] is m and n.a[1].op == "removed":
            g, rem = n.a[0], n.a[1]
        elif n.op == "removed":
            g, rem = TRUE, n
        else:
            return None
        if rem.a[0] is not m or rem.a[1] not in ("remove", "discard") or rem.a[2] is not v:
            return None
        cs = list(g.a) if g.op == "and" else [g]
        g = AND(*[y for y in cs if y is not mk("in", v, m)])
        if any(x.op in ("mu", "out") and x.a[0] is c.a[0] for x in deps(g)):
            return None
        return c.a[2], info["it"], v, g

    def in_entry(self, x, e, depth):
        if e[0] in ("item", "kv"):
            return self.cmp("eq", x, e[1])
        if e[0] == "splice":
            return self.isin(x, e[1], depth + 1)
        if e[0] == "if":
            return AND(e[1], OR(*[self.in_entry(x, y, depth) for y in e[2]]))
        if e[0] == "for":
            it, k = e[1], e[2]
            k2 = k
            dx = deps(x)
            while mk("elem", it, k2) in dx or mk("idx", it, k2) in dx:
                k2 += 1
            sub = rename_entries(e[3], it, k, k2)
            c = OR(*[self.in_entry(x, y, depth) for y in sub])
            return self.exists_onepoint(it, k2, c, depth)
        return mk("in", x, mk("entry", str(e)))

    def exists_onepoint(self, it, k, c, depth=0):
        el = mk("elem", it, k)
        if c.op == "or":
            return OR(*[self.exists_onepoint(it, k, y, depth) for y in c.a])
        cs = list(c.a) if c.op == "and" else [c]
        for i, y in enumerate(cs):
            if y.op == "eq":
                for a, b in ((y.a[0], y.a[1]), (y.a[1], y.a[0])):
                    if a is el and el not in deps(b) and mk("idx", it, k) not in deps(b):
                        rest = AND(*(cs[:i] + cs[i + 1:]))
                        if mk("idx", it, k) in deps(rest):
                            continue
                        return AND(self.isin(b, it, depth + 1), subst(rest, {el: b}))
        return EXISTS(it, k, c)

    def e_Attribute(self, e, st):
        b = self.ev(e.value, st)
        return self.getattr(b, e.attr, st, e)

    def getattr(self, b, name, st, e):
        if b.op == "ext":
            return EXT(b.a[0] + "." + name)
        if b.op == "mod":
            m = self.prog.mods[b.a[0]]
            s = self.prog.lookup(m, name)
            if s is None and f"{b.a[0]}.{name}" in self.prog.mods:
                return mk("mod", f"{b.a[0]}.{name}")
            return self.symval(s, st, name) if s else unk("modattr " + name)
        if b.op == "cls":
            c = self.prog.classes.get(b.a[0])
            if c:
                f = self.prog.find_method(c, name)
                if f:
                    if f.static:
                        return mk("fn", f.fid)
                    if f.classm:
                        return mk("bound", mk("fn", f.fid), b)
                    return mk("fn", f.fid)
                at = self.prog.find_attr(c, name)
                if at:
                    return self.class_attr(at, st)
                if name == "__name__":
                    return const(c.cid.split(".")[-1])
            return mk("attr", b, name, None)
        if b.op == "nt":
            for k, v in b.a[1]:
                if k == name:
                    return v
            c = self.prog.classes.get(b.a[0])
            if c:
                f = self.prog.find_method(c, name)
                if f:
                    return mk("bound", mk("fn", f.fid), b)
            return mk("bmeth", b, name)
        if b.op in ("inst", "ref") and (b.op == "inst" or b.a[0].startswith("inst:")):
            return self.inst_attr(b, name, st, e)
        if b.op == "super":
            c = self.prog.classes[b.a[0]]
            for k in self.prog.mro(self.prog.classes[b.a[2]] if b.a[2] in self.prog.classes else c)[0:]:
                pass
            mro = self.prog.mro(self.prog.classes.get(b.a[2], c))
            i = mro.index(c) if c in mro else -1
            for k in mro[i + 1:]:
                if name in k.methods:
                    return mk("bound", mk("fn", k.methods[name].fid), b.a[1])
            return mk("bmeth", b, name)
        if b.op == "phi" and any(x.op in ("nt", "ref", "inst", "phi", "cls", "mod", "fn", "super") for x in b.a[1:]):
            return PHI(b.a[0], self.getattr(b.a[1], name, st, e), self.getattr(b.a[2], name, st, e))
        if b.op == "spobj" and name == "name":
            return b.a[1]
        if b.op in ("first", "last", "maybe") and False:
            pass
        if b.op == "undef":
            return UNDEF
        fb = self.freeze(b, st)
        return self.ext_attr(fb, name, st)

    def ext_attr(self, fb, name, st):
        if fb.op == "phi" and any(x.op == "nt" for x in fb.a[1:]):
            return PHI(fb.a[0], self.getattr(fb.a[1], name, st, None), self.getattr(fb.a[2], name, st, None))
        if name == "T" and arrayish(fb):
            return mk("call", "numpy.transpose", (fb,), (), None)
        if name == "size" and fb.op in ("coll",):
            return mk("call", "builtins.len", (fb,), (), None)
        ver = st.heap.get(("ver", fb))
        if ver is not None:
            # strongly updated attribute
            v = ver
            while v.op == "upd":
                if v.a[1] == name and name not in ("TP", "TPX", "TPY", "TDY", "HP", "HPY", "HPX", "X", "Y", "UV", "SP"):
                    return v.a[2]
                if v.a[1] in ("$call",) or v.a[1] in ("TP", "TPX", "TPY", "HP", "HPX", "HPY"):
                    break
                v = v.a[0]
        if name in STATIC_ATTRS:
            return mk("attr", strip_occ(fb), name, None)
        return mk("attr", fb, name, ver)

    def class_attr(self, at, st):
        c, expr = at
        key = (c.cid, expr.lineno, expr.col_offset)
        g = self.globals_.get(key)
        if g is None:
            g = self.pure_eval(expr, c.mod)
            self.globals_[key] = g
        if g.op == "coll":
            n = mk("global", c.cid, f"{expr.lineno}")
            self.global_init[n] = g
            if n not in st.heap:
                st.heap[n] = g
            return n
        return g

    def inst_cls(self, b):
        return b.a[0] if b.op == "inst" else b.a[0][5:]

    def inst_attr(self, b, name, st, e):
        if (b, name) in st.heap:
            return st.heap[(b, name)]
        c = self.prog.classes.get(self.inst_cls(b))
        if c:
            f = self.prog.find_method(c, name)
            if f:
                if f.static:
                    return mk("fn", f.fid)
                if f.classm:
                    return mk("bound", mk("fn", f.fid), mk("cls", c.cid))
                if f.prop:
                    return self.call_fn(f, [b], [], {}, st, e)
                return mk("bound", mk("fn", f.fid), b)
            at = self.prog.find_attr(c, name)
            if at and not (b.op == "inst" and self.ever_set(c, name)):
                return self.class_attr(at, st)
            if name == "__class__":
                return mk("cls", c.cid)
        return self.ext_attr(b, name, st)

    def stored_names(self, b):
        """Fields of an instance that its class assigns."""
        c = self.prog.classes.get(self.inst_cls(b))
        if c is None:
            return []
        return sorted({y.attr for k in self.prog.mro(c) for f in k.methods.values() for y in ast.walk(f.node)
                       if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store)})

    def ever_set(self, c, name):
        for k in self.prog.mro(c):
            for f in k.methods.values():
                for y in ast.walk(f.node):
                    if isinstance(y, ast.Attribute) and y.attr == name and isinstance(y.ctx, ast.Store):
                        return True
        return False

    def ev_index(self, s, st):
        if isinstance(s, ast.Slice):
            return self.e_Slice(s, st)
        if isinstance(s, ast.Tuple):
            return mk("tuple", *[self.ev_index(x, st) for x in s.elts])
        return self.ev(s, st)

    def e_Slice(self, s, st):
        f = lambda x: self.freeze(self.ev(x, st), st) if x is not None else NONE
        return mk("slice", f(s.lower), f(s.upper), f(s.step))

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        i = self.ev_index(e.slice, st)
        if i.op == "slice" and i.a == (NONE, NONE, NONE) and isinstance(e.ctx, ast.Load):
            c = self.content(b, st)
            if c.op == "coll" and c.a[0] in ("list", "copy"):
                return self.newref("list", coll("list", c.a[1]), st, e)
            if b.op == "param" and self.list_param(b.a[0]) or b.op == "attr" and b.a[1] in ("species_names", "element_names"):
                return self.newref("list", coll("list", (("splice", self.freeze(c, st)),)), st, e)
        return self.item(b, i, st)

    def list_param(self, name):
        """A parameter of the analysed function documented as a list."""
        return self.root_node is not None and (doctext(self.root_node, name) or "").lower().startswith("list")

    def item(self, b, i, st):
        c = self.content(b, st)
        fi = self.freeze(i, st)
        if c.op == "nt":
            if fi.op == "const" and isinstance(cval(fi), int) and -len(c.a[1]) <= cval(fi) < len(c.a[1]):
                return c.a[1][cval(fi)][1]
        if c.op == "tuple" and fi.op == "const" and isinstance(cval(fi), int):
            if -len(c.a) <= cval(fi) < len(c.a):
                return c.a[cval(fi)]
        if c.op == "coll":
            r = self.coll_item(c, fi)
            if r is not None:
                return r
        return self.item_f(self.freeze(c, st) if c.op in ("coll", "phi", "tuple") else self.freeze(b, st), fi)

    def coll_item(self, c, i):
        ents = c.a[1]
        if c.a[0] == "dict":
            return self.dict_get(ents, i, None)
        if i.op == "const" and isinstance(cval(i), int):
            j = cval(i)
            if j >= 0:
                for n, e in enumerate(ents):
                    if e[0] != "item":
                        break
                    if n == j:
                        return e[1]
            else:
                for n, e in enumerate(reversed(ents)):
                    if e[0] != "item":
                        break
                    if n == -j - 1:
                        return e[1]
        if i.op == "slice":
            lo, hi, stp = i.a
            if stp is NONE and all(x is NONE or (x.op == "const" and isinstance(cval(x), int)) for x in (lo, hi)):
                if all(e[0] == "item" for e in ents):
                    l = list(ents)[slice(None if lo is NONE else cval(lo), None if hi is NONE else cval(hi))]
                    return coll(c.a[0], tuple(l))
                if lo is NONE and hi is NONE:
                    return c
        if i.op == "idx" and len(ents) == 1 and ents[0][0] == "for" and len(ents[0][3]) == 1 and ents[0][3][0][0] == "item":
            e = ents[0]
            if e[1] is i.a[0]:
                return rename_entries(e[3], e[1], e[2], i.a[1])[0][1]
            if i.a[0] is c:
                pass
        return None

    def dict_get(self, ents, key, default):
        """Value for key or None when undetermined."""
        ents = ir.keyed(ents)
        res = default
        for e in ents:
            if e[0] == "kv":
                eq = self.cmp("eq", key, e[1])
                if eq is TRUE:
                    res = e[2]
                elif eq is FALSE:
                    continue
                else:
                    res = PHI(eq, e[2], res if res is not None else UNDEF)
            elif e[0] == "if":
                sub = self.dict_get(e[2], key, None)
                if sub is not None:
                    res = PHI(e[1], sub, res if res is not None else UNDEF)
            elif e[0] == "for" and len(e[3]) == 1 and e[3][0][0] in ("kv", "if"):
                it, k = e[1], e[2]
                kv = e[3][0]
                g = TRUE
                if kv[0] == "if":
                    g = kv[1]
                    if len(kv[2]) != 1 or kv[2][0][0] != "kv":
                        return None
                    kv = kv[2][0]
                el, ix = mk("elem", it, k), mk("idx", it, k)
                if kv[1] is el and ix not in deps(kv[2]):
                    v = subst(kv[2], {el: key})
                    g = subst(g, {el: key})
                    inn = AND(self.isin(key, it), g)
                elif kv[1] is ix:
                    v = subst(kv[2], {ix: key, el: self.item_f(it, key)})
                    inn = AND(mk("in", key, mk("indices", it)) if not (key.op == "idx" and key.a[0] is it) else TRUE,
                              subst(g, {ix: key, el: self.item_f(it, key)}))
                else:
                    return None
                if default is None and res is None:
                    res = v
                else:
                    res = PHI(inn, v, res if res is not None else UNDEF)
            elif e[0] == "splice":
                b = e[1]
                if len(ents) == 1:
                    return self.item_f(b, key) if default is None else mk(
                        "meth", b, "get", (key, default), (), None)
                if default is None and res is None:
                    res = self.item_f(b, key)
                else:
                    res = PHI(mk("in", key, b), self.item_f(b, key), res)
            else:
                return None
        return res

    def item_f(self, b, i):
        """Item of a frozen value."""
        if b.op == "phi" and any(x.op in ("tuple", "nt", "coll", "phi") for x in b.a[1:]):
            return PHI(b.a[0], self.item_f(b.a[1], i), self.item_f(b.a[2], i))
        if b.op == "nt" and i.op == "const" and isinstance(cval(i), int) and -len(b.a[1]) <= cval(i) < len(b.a[1]):
            return b.a[1][cval(i)][1]
        if b.op == "tuple" and i.op == "const" and isinstance(cval(i), int) and -len(b.a) <= cval(i) < len(b.a):
            return b.a[cval(i)]
        if b.op == "coll":
            r = self.coll_item(b, i)
            if r is not None:
                return r
            if b.a[0] == "dict":
                k = ir.keyed(b.a[1])
                if k is not b.a[1]:
                    b = mk("coll", "dict", k)
        if i.op == "idx" and i.a[0] is b:
            return mk("elem", b, i.a[1])
        if b.op == "first":
            # project through tuple values
            v = self.item_f(b.a[3], i)
            return mk("first", b.a[0], b.a[1], b.a[2], v, b.a[4]) if v.op != "item" else mk("item", b, i)
        if b.op == "zipcol":
            pass
        return mk("item", b, i)

    # comprehension
    def e_ListComp(self, e, st):
        return self.comp(e, "list", st, lambda x: (("item", self.ev(e.elt, x)),))

    def e_SetComp(self, e, st):
        return self.comp(e, "set", st, lambda x: (("item", self.ev(e.elt, x)),))

    def e_GeneratorExp(self, e, st):
        return self.comp(e, "list", st, lambda x: (("item", self.ev(e.elt, x)),))

    def e_DictComp(self, e, st):
        return self.comp(e, "dict", st, lambda x: (("kv", self.freeze(self.ev(e.key, x), x), self.ev(e.value, x)),))

    def comp(self, e, kind, st, leaf):
        """Comprehensions are evaluated as the equivalent accumulation loop."""
        fr = self.ctx(e, "compframe")
        acc = self.newref(kind, coll(kind, ()), st, e)
        st.frames[fr] = {"$parent": mk("frameref", self.fstack[-1]) if self.fstack else NONE,
                         "$acc": acc}
        first_it = self.ev(e.generators[0].iter, st)
        self.fstack.append(fr)
        self.stack.append((self.stack[-1][0] if self.stack else "<m>", e.lineno, f"comp{e.col_offset}"))
        if True:
            self.comp_depth = getattr(self, "comp_depth", 0) + 1

        def gen(i, x):
            if i == len(e.generators):
                ents = leaf(x)
                if x.dead:
                    return Flow()
                c = x.heap[acc]
                if c.op != "coll":
                    c = coll(kind, (("splice", c),))
                x.heap[acc] = coll(kind, c.a[1] + tuple(ents))
                return Flow(x)
            g = e.generators[i]
            it = first_it if i == 0 else self.ev(g.iter, x)

            def bind(v, y):
                self.assign(g.target, v, y, e)

            def body(y):
                if not g.ifs:
                    return gen(i + 1, y)
                c = self.cond(ast.BoolOp(ast.And(), g.ifs) if len(g.ifs) > 1 else g.ifs[0], y)
                a, b = self.push(y, c), self.push(y, NOT(c))
                f = gen(i + 1, a) if a is not None else Flow()
                f.normal = self.merge(f.normal, b) if b is not None else f.normal
                return f
            return self.iterate(it, x, g_ast(e, i), bind, body)
        try:
            f = gen(0, st.copy())
        finally:
            self.fstack.pop()
            self.stack.pop()
        if f.normal is None:
            st.dead = True
            return acc
        self.become(st, f.normal)
        if not self.captured(st, fr):
            st.frames.pop(fr, None)
        return acc

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        y = self.lookup("$yield", st)
        if y.op == "ref":
            c = st.heap[y]
            st.heap[y] = coll("list", (("splice", c), ("item", v)))
        self.emit("yield", "", v, (), (), st, e)
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        y = self.lookup("$yield", st)
        if y.op == "ref":
            c = st.heap[y]
            st.heap[y] = coll("list", (("splice", c), ("splice", self.freeze(v, st))))
        return NONE

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        fn = self.ev(e.func, st) if not (isinstance(e.func, ast.Attribute)) else None
        base = None
        if fn is None:
            base = self.ev(e.func.value, st)
            if st.dead:
                return unk("dead")
            fn = self.getattr_callee(base, e.func.attr, st, e.func)
        pos, kws = [], {}
        posnames = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.freeze(self.ev(a.value, st), st)
                if v.op == "tuple":
                    pos += list(v.a)
                    posnames += [None] * len(v.a)
                elif v.op == "coll" and all(x[0] == "item" for x in v.a[1]):
                    pos += [x[1] for x in v.a[1]]
                    posnames += [None] * len(v.a[1])
                elif v.op == "nt":
                    pos += [x[1] for x in v.a[1]]
                    posnames += [None] * len(v.a[1])
                else:
                    pos.append(mk("starred", v))
                    posnames.append(None)
            else:
                pos.append(self.ev(a, st))
                posnames.append(a.id if isinstance(a, ast.Name) else None)
            if st.dead:
                return unk("dead")
        kwnames = {}
        star_kw = []
        for k in e.keywords:
            v = self.ev(k.value, st)
            if st.dead:
                return unk("dead")
            if k.arg is None:
                fv = self.freeze(v, st)
                ok = fv.op == "coll" and all(x[0] == "kv" and x[1].op == "const" for x in fv.a[1])
                if ok:
                    for x in fv.a[1]:
                        kws[cval(x[1])] = x[2]
                else:
                    star_kw.append(fv)
            else:
                kws[k.arg] = v
                kwnames[k.arg] = k.value.id if isinstance(k.value, ast.Name) else None
        if star_kw:
            kws["**"] = star_kw[0]
        self._argnames = (posnames, kwnames)
        return self.call(fn, pos, kws, st, e)

    def getattr_callee(self, base, name, st, e):
        c = base
        if base.op in ("ext", "mod", "cls", "nt", "inst", "super"):
            return self.getattr(base, name, st, e)
        if base.op == "ref" and base.a[0].startswith("inst:"):
            return self.getattr(base, name, st, e)
        if base.op == "phi" and any(x.op in ("nt", "inst", "cls", "mod", "phi", "ref") for x in base.a[1:]):
            if any(x.op == "ref" and not x.a[0].startswith("inst:") for x in flat_phi(base)):
                return mk("bmeth", base, name)
            return PHI(base.a[0], self.getattr_callee(base.a[1], name, st, e),
                       self.getattr_callee(base.a[2], name, st, e))
        return mk("bmeth", base, name)

    def call(self, fn, pos, kws, st, e):
        h = self.hooks.get("call")
        if h:
            r = h(self, fn, pos, kws, st, e)
            if r is not None:
                return r
        if fn.op == "phi":
            a, b = self.push(st, fn.a[0]), self.push(st, NOT(fn.a[0]))
            names = self._argnames
            va = self.call(fn.a[1], pos, dict(kws), a, e) if a is not None else None
            self._argnames = names
            vb = self.call(fn.a[2], pos, dict(kws), b, e) if b is not None else None
            if a is None or a.dead:
                if b is None:
                    st.dead = True
                    return unk("dead")
                self.become(st, b)
                return vb
            if b is None or b.dead:
                self.become(st, a)
                return va
            self.become(st, self.merge(a, b))
            return PHI(fn.a[0], va, vb)
        if fn.op == "fn":
            f = self.prog.funcs[fn.a[0]]
            return self.call_fn(f, pos, self._argnames, kws, st, e)
        if fn.op == "bound":
            f = self.prog.funcs[fn.a[0].a[0]]
            n = self._argnames
            return self.call_fn(f, [fn.a[1]] + pos, ([None] + list(n[0]), n[1]), kws, st, e)
        if fn.op == "closure":
            f, fr, dfl = self.closures[fn]
            return self.call_fn(f, pos, self._argnames, kws, st, e, parent=fr, dfl=dfl)
        if fn.op == "partial":
            k2 = dict(fn.a[2])
            k2.update(kws)
            n = self._argnames
            self._argnames = ([None] * len(fn.a[1]) + list(n[0]), n[1])
            return self.call(fn.a[0], list(fn.a[1]) + pos, k2, st, e)
        if fn.op == "cls":
            return self.construct(fn.a[0], pos, kws, st, e)
        if fn.op == "ext":
            from . import builtins_ as B
            return B.call_ext(self, fn.a[0], pos, kws, st, e)
        if fn.op == "bmeth":
            from . import builtins_ as B
            return B.call_method(self, fn.a[0], fn.a[1], pos, kws, st, e)
        if fn.op == "undef":
            return UNDEF
        # calling an unknown value
        fz = self.freeze(fn, st)
        if fz.op == "call" and fz.a[0] in ("operator.attrgetter", "operator.itemgetter") and len(fz.a[1]) == 1 \
                and len(pos) == 1 and not kws:
            if fz.a[0] == "operator.itemgetter":
                return self.item(pos[0], fz.a[1][0], st)
            if fz.a[1][0].op == "const":
                v = pos[0]
                for part in str(cval(fz.a[1][0])).split("."):
                    v = self.getattr(v, part, st, e)
                return v
        args = tuple(self.freeze(x, st) for x in pos)
        kw = tuple(sorted((k, self.freeze(v, st)) for k, v in kws.items()))
        if fz.op in ("call", "param", "attr", "item", "elem") :
            node = mk("call", fz, args, kw, None)
            self.emit("callval", fz, node, args, kw, st, e)
            return node
        self.emit("callval", fz, fz, args, kw, st, e)
        return unk("call of " + fz.op, fz, *args)

    def bind_args(self, f, pos, kws, dfl, st, names=None):
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        b = {}
        extra = []
        src = {}
        for i, v in enumerate(pos):
            if v.op == "starred":
                for p in params[i:]:
                    if p not in kws:
                        b[p] = mk("item", v.a[0], const(params.index(p) - i))
                extra = [v]
                break
            if i < len(params):
                b[params[i]] = v
                if names and i < len(names[0]):
                    src[params[i]] = names[0][i]
            else:
                extra.append(v)
        rest = {}
        for k, v in kws.items():
            if k == "**":
                continue
            if k in params or k in kwonly:
                b[k] = v
                if names:
                    src[k] = names[1].get(k)
            else:
                rest[k] = v
        missing = [p for p in params + kwonly if p not in b]
        for p in missing:
            if "**" in kws and p not in dfl:
                b[p] = mk("item", kws["**"], const(p))
            elif "**" in kws:
                b[p] = PHI(mk("in", const(p), kws["**"]), mk("item", kws["**"], const(p)), dfl[p])
            elif p in dfl:
                b[p] = dfl[p]
            else:
                b[p] = unk("missing argument " + p)
        if a.vararg:
            b[a.vararg.arg] = mk("tuple", *extra)
        if a.kwarg:
            b[a.kwarg.arg] = coll("dict", tuple(("kv", const(k), v) for k, v in rest.items()) + (
                (("splice", kws["**"]),) if "**" in kws else ()))
        return b, src

    def fn_defaults(self, f, st):
        a = f.node.args
        pos = a.posonlyargs + a.args
        d = {}
        prs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
            (p, x) for p, x in zip(a.kwonlyargs, a.kw_defaults) if x is not None]
        for p, x in prs:
            if isinstance(x, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp)):
                key = mk("default", f.fid, p.arg)
                v = self.pure_eval(x, f.mod)
                if v.op == "coll":
                    if key not in st.heap:
                        st.heap[key] = v
                    d[p.arg] = key
                    continue
                d[p.arg] = v
            else:
                d[p.arg] = self.pure_eval(x, f.mod)
        return d

    def call_fn(self, f, pos, names, kws, st, e, parent=None, dfl=None):
        if dfl is None:
            dfl = self.fn_defaults(f, st)
        if isinstance(names, list):
            names = ([], {})
        b, src = self.bind_args(f, pos, kws, dfl, st, names)
        self.once_args(f, b, st, e)
        if f.fid in self.opaque:
            node = self.opaque_call(f, b, st, e)
            return node
        rec = sum(1 for s in self.stack if s[0] == f.fid and not isinstance(s[2], str))
        if rec >= 2 or len(self.stack) > MAXDEPTH:
            return unk("recursion " + f.fid)
        # array aliasing: pass named mutable array values as views
        fr = self.fstack[-1] if self.fstack else None
        if fr is not None and not isinstance(f.node, ast.Lambda):
            for p, nm in src.items():
                if nm and nm in st.frames.get(fr, {}) and p in b:
                    raw = st.frames[fr][nm]
                    v = self.resolve_view(raw, st)
                    if v is b[p] and (arrayish(v) or v.op in ("store", "storefor", "mu") and stores_param(f, p)):
                        if stores_param(f, p):
                            b[p] = mk("view", fr, nm, None)
        return self.exec_function(f, b, st, e, parent=mk("frameref", parent) if parent is not None else None)

    def opaque_call(self, f, b, st, e):
        args = tuple((k, self.freeze(v, st)) for k, v in b.items())
        occ = self.occurrence(("rcall", f.fid, args), e)
        node = mk("rcall", f.fid, args, occ)
        self.emit("rcall", f.fid, node, tuple(v for _, v in args), args, st, e)
        st.heap[FS] = mk("fsupd", st.heap.get(FS, mk("fs0")), node)
        for _, v in args:
            for d in (v,):
                if ("ver", d) in st.heap or is_tracked(d):
                    st.heap[("ver", d)] = mk("upd", st.heap.get(("ver", d), mk("v0")), "$call", node)
        # class instances passed to opaque code may change
        return node

    def construct(self, cid, pos, kws, st, e):
        c = self.prog.classes[cid]
        if c.is_nt or any(k.is_nt for k in self.prog.mro(c)):
            fields = []
            for k in self.prog.mro(c):
                if k.fields:
                    fields = k.fields
                    break
            vals = {}
            for (nm, _), v in zip(fields, pos):
                if v.op == "starred":
                    for j, (nm2, _) in enumerate(fields):
                        vals.setdefault(nm2, mk("item", v.a[0], const(j)))
                    break
                vals[nm] = v
            for k2, v in kws.items():
                if k2 != "**":
                    vals[k2] = v
            for nm, d in fields:
                if nm not in vals:
                    if "**" in kws:
                        vals[nm] = mk("item", kws["**"], const(nm))
                    elif d is not None:
                        v = self.pure_eval(d, c.mod)
                        if v.op == "coll":
                            g = mk("default", cid, nm)
                            if g not in st.heap:
                                st.heap[g] = v
                            v = g
                        vals[nm] = v
                    else:
                        vals[nm] = unk("missing field " + nm)
            node = mk("nt", cid, tuple((nm, vals[nm]) for nm, _ in fields))
            self.emit("new", cid, node, (), tuple((nm, self.freeze(vals[nm], st)) for nm, _ in fields), st, e)
            return node
        r = mk("ref", "inst:" + cid, self.ctx(e, "inst"))
        st.heap[r] = r
        f = self.prog.find_method(c, "__init__")
        fields = {}
        self.emit("new", cid, r, tuple(self.freeze(x, st) for x in pos),
                  tuple(sorted((k, self.freeze(v, st)) for k, v in kws.items())), st, e, extra=fields)
        if f is not None:
            n = self._argnames
            self.call_fn(f, [r] + pos, ([None] + list(n[0]), n[1]), kws, st, e)
        elif self.dataclass(c):
            for i, (nm, d) in enumerate(c.fields):
                v = pos[i] if i < len(pos) else kws.get(nm)
                if v is None and d is not None:
                    v = self.pure_eval(d, c.mod)
                st.heap[(r, nm)] = v if v is not None else unk("field")
        for hk in list(st.heap):
            if isinstance(hk, tuple) and hk[0] is r:
                fields[hk[1]] = self.freeze(st.heap[hk], st)
        return r

    def dataclass(self, c):
        return any("dataclass" in ast.dump(d) for d in c.node.decorator_list)


class Result:
    pass


BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
       ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<",
       ast.RShift: ">>", ast.MatMult: "@"}


def mu_name(key):
    if key[0] == "v":
        return ("v", key[1], key[2]) if not isinstance(key[1], N) else ("v", key[2])
    k = key[1]
    if isinstance(k, N):
        return ("h", f"@{k.id}")          # opaque: heap keys are not sub-terms
    if k == FS:
        return ("h", "fs")
    return ("h", "/".join(f"@{x.id}" if isinstance(x, N) else str(x) for x in k))


def EXT(p):
    p = norm_ext(p)
    if p == "numpy.newaxis":
        return NONE
    if p in ("numpy.inf", "math.inf"):
        return const(float("inf"))
    return mk("ext", p)


def norm_ext(p):
    for a, b in (("np.", "numpy."), ("ct.", "cantera."), ("multiprocessing.pool.", "multiprocessing.")):
        if p.startswith(a):
            p = b + p[len(a):]
    if p.startswith("numpy."):
        t = p[6:]
        if t in NP_ALIAS:
            p = "numpy." + NP_ALIAS[t]
    if p.startswith("posixpath."):
        p = "os.path." + p[10:]
    return p


def strip_occ(n):
    if n.op == "call" and isinstance(n.a[0], str) and n.a[0].startswith("cantera.Solution") and n.a[3]:
        return mk("call", n.a[0], n.a[1], n.a[2], None)
    return n


def is_tracked(n):
    return (n.op == "call" and isinstance(n.a[0], str) and n.a[0].startswith("cantera.")) or (
        n.op == "attr" and n.a[1] in ("gas", "sim", "reac", "flame"))


def flat_phi(n):
    if n.op == "phi":
        return flat_phi(n.a[1]) + flat_phi(n.a[2])
    return [n]


def walk_own(fn):
    """Nodes of a function body excluding nested function bodies."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                stack.append(c)


def stores_param(f, p):
    if isinstance(f.node, ast.Lambda):
        return False
    for n in ast.walk(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == p:
            return True
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == p:
            return True
        if isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id == p for a in n.args) and isinstance(
                n.func, ast.Attribute) and n.func.attr in ("fill_diagonal", "put", "copyto"):
            return True
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Subscript) and isinstance(n.value.value, ast.Name) and n.value.value.id == p and has_slice(n.value.slice):
            return True
        if isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id == p for a in n.args) and isinstance(n.func, ast.Name):
            return True
    return False


def has_slice(s):
    if isinstance(s, ast.Slice):
        return True
    if isinstance(s, ast.Tuple):
        return any(has_slice(x) or (isinstance(x, ast.Constant) and x.value is Ellipsis) for x in s.elts)
    return False


def has_call(e):
    return any(isinstance(x, (ast.Call, ast.NamedExpr, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) for x in ast.walk(e))


def g_ast(e, i):
    g = e.generators[i]
    n = ast.For(target=g.target, iter=g.iter, body=[], orelse=[])
    n.lineno, n.col_offset = g.iter.lineno, g.iter.col_offset
    n.end_col_offset = getattr(g.iter, "end_col_offset", 0)
    return n


ARR_CALLS = {"numpy." + x for x in (
    "zeros ones empty full array outer where maximum minimum abs sum dot einsum zeros_like ones_like "
    "empty_like concatenate vstack hstack column_stack arange linspace eye diag transpose add subtract "
    "multiply divide matmul tensordot delete fill_diagonal clip nan_to_num cumsum expand_dims atleast_1d "
    "atleast_2d reshape logical_or logical_and logical_not tile repeat stack astype true_divide").split()}


def arrayish(n, d=0):
    if d > 6:
        return False
    if n.op == "call" and isinstance(n.a[0], str):
        if n.a[0] in ("numpy.sum", "numpy.max", "numpy.min"):
            return any(k == "axis" for k, _ in n.a[2]) or len(n.a[1]) > 1
        return n.a[0] in ARR_CALLS
    if n.op in ("store", "storefor"):
        return True
    if n.op == "bin":
        return arrayish(n.a[1], d + 1) or arrayish(n.a[2], d + 1)
    if n.op == "un":
        return arrayish(n.a[1], d + 1)
    if n.op == "phi":
        return arrayish(n.a[1], d + 1) or arrayish(n.a[2], d + 1)
    if n.op == "sumfor":
        return arrayish(n.a[0], d + 1)
    if n.op == "attr" and n.a[1] in ("reactant_stoich_coeffs", "product_stoich_coeffs", "net_rates_of_progress"):
        return True
    if n.op == "item" and any(x.op == "slice" for x in deps(n.a[1])):
        return True
    return False


def maybe_nan(n):
    return n.op in ("attr", "item", "bin", "call") and False


def definitely_not_none(n):
    if n.op == "const":
        return n is not NONE
    if n.op == "call" and isinstance(n.a[0], str) and (
            n.a[0] in ARR_CALLS or n.a[0].startswith("cantera.") or n.a[0] in (
                "builtins.len", "builtins.str", "builtins.list", "os.path.join", "builtins.open")):
        return True
    return n.op in ("coll", "tuple", "nt", "ref", "inst", "fn", "closure", "cls", "cat", "fmt", "lt", "le",
                    "in", "not", "and", "or", "exists", "store")


def remove_last(pc, fr):
    for i in range(len(pc) - 1, -1, -1):
        if pc[i] == fr:
            return pc[:i] + pc[i + 1:]
    return pc


def ent_nodes(ents):
    out = []
    for e in ents:
        if e[0] == "item":
            out.append(e[1])
        elif e[0] == "kv":
            out += [e[1], e[2]]
        elif e[0] == "splice":
            out.append(e[1])
        elif e[0] == "for":
            out.append(e[1])
            out += ent_nodes(e[3])
        elif e[0] == "if":
            out.append(e[1])
            out += ent_nodes(e[2])
    return out


def rename_entries(ents, it, k, k2):
    if k == k2:
        return ents
    mp = {mk("elem", it, k): mk("elem", it, k2), mk("idx", it, k): mk("idx", it, k2)}
    return subst_entries(ents, mp)


def subst_entries(ents, mp):
    out = []
    for e in ents:
        if e[0] == "item":
            out.append(("item", subst(e[1], mp)))
        elif e[0] == "kv":
            out.append(("kv", subst(e[1], mp), subst(e[2], mp)))
        elif e[0] == "splice":
            out.append(("splice", subst(e[1], mp)))
        elif e[0] == "for":
            out.append(("for", subst(e[1], mp), e[2], subst_entries(e[3], mp)))
        elif e[0] == "if":
            out.append(("if", subst(e[1], mp), subst_entries(e[2], mp)))
        else:
            out.append(e)
    return tuple(out)


def filter_coll(c, keep):
    def go(e):
        if e[0] in ("item",):
            return ("if", keep(e[1]), (e,))
        if e[0] == "splice":
            it = e[1]
            el = mk("elem", it, 0)
            return ("for", it, 0, (("if", keep(el), (("item", el),)),))
        if e[0] == "for":
            return ("for", e[1], e[2], tuple(go(x) for x in e[3]))
        if e[0] == "if":
            return ("if", e[1], tuple(go(x) for x in e[2]))
        return e
    return coll(c.a[0], tuple(go(e) for e in c.a[1]))


def outward_cond(c, close):
    mp = {m: v for m, v in close.items() if m in deps(c)}
    return subst(c, mp) if mp else c


def fmt(x, spec, conv):
    if not spec and not conv:
        if x.op == "const" and isinstance(cval(x), (str, int)) and not isinstance(cval(x), bool):
            return const(str(cval(x)))
        if x.op in ("cat", "fmt"):
            return x
        return mk("fmt", x, "", "")
    if x.op == "const" and isinstance(spec, str):
        try:
            return const(format(cval(x), spec))
        except Exception:
            pass
    return mk("fmt", x, spec, conv)


def cat(parts):
    out = []
    for p in parts:
        ps = list(p.a) if p.op == "cat" else [p]
        for q in ps:
            if q.op == "const" and isinstance(cval(q), str):
                if cval(q) == "":
                    continue
                if out and out[-1].op == "const":
                    out[-1] = const(cval(out[-1]) + cval(q))
                    continue
                out.append(q)
            elif q.op == "fmt":
                out.append(q)
            else:
                out.append(fmt(q, "", ""))
    if not out:
        return const("")
    if len(out) == 1 and out[0].op == "const":
        return out[0]
    return mk("cat", *out)
