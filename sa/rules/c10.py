"""Effects of a run on data it shares with other runs. Every place that changes a value in place (item, slice and attribute
assignment, augmented assignment, mutating methods and functions, rebinding of globals, process-wide settings) is enumerated in
every entry point of the package with its helpers inlined. The changed value is traced to the objects it may be: an object made
during the call is the run's own; a parameter or a part of one belongs to the caller; default arguments, module tables, class
attributes and process settings are shared between calls."""
import ast
import re

from .common import *
from ..loader import doctext

ASSUMES = ["documented parameter types (docstrings and annotations) are right about being a number, a list or an array",
           "setting the thermodynamic state of a Solution argument is not a modification of the model",
           "methods and functions of numpy, networkx and cantera outside the listed in-place ones leave their arguments alone"]

S0, TOOLS, CK, YML = "pymars.sampling.", "pymars.tools.", "pymars.soln2ck.", "pymars.soln2yaml."
ROOTS = sorted(q.LEAF | q.RUNS | q.PARSERS | {MAIN + "parse_inputs", MAIN + "main", MAIN + "pymars", "pymars.__main__.main",
               "pymars.psr_solver.trace_extinction_curve"})
PUBLIC = [DRG + "graph_search", DRG + "reduce_drg", PFA + "graph_search", PFA + "reduce_pfa", DRGEP + "graph_search_drgep",
          DRGEP + "reduce_drgep", SA + "evaluate_species_errors", S0 + "ignition_worker", S0 + "psr_worker", S0 + "flame_worker",
          S0 + "ignition_sample_worker", S0 + "psr_sample_worker", S0 + "flame_sample_worker", CK + "build_arrhenius",
          CK + "build_falloff", CK + "build_falloff_arrhenius", CK + "write_thermo_data", CK + "write_transport_data"]
METHODS = ("__init__", "setup_case", "run_case", "calculate", "process_results", "clean")

MUTATORS = {"append", "extend", "insert", "remove", "pop", "popitem", "clear", "sort", "reverse", "update", "setdefault", "add", "discard",
            "difference_update", "intersection_update", "symmetric_difference_update", "appendleft", "popleft", "extendleft", "rotate",
            "__setitem__", "__delitem__", "__iadd__", "__setattr__",
            "fill", "itemset", "put", "partition", "resize", "setfield", "setflags", "byteswap",
            "add_node", "add_nodes_from", "add_edge", "add_edges_from", "add_weighted_edges_from", "remove_node", "remove_nodes_from",
            "remove_edge", "remove_edges_from", "clear_edges",
            "add_species", "add_reaction", "add_species_alias", "modify_species", "modify_reaction", "set_multiplier", "add_phase"}
# argument changed in place, by position
FUNCS = {"random.shuffle": 0, "numpy.random.shuffle": 0, "numpy.copyto": 0, "numpy.put": 0, "numpy.place": 0, "numpy.putmask": 0,
         "numpy.fill_diagonal": 0, "heapq.heappush": 0, "heapq.heappop": 0, "heapq.heapify": 0, "heapq.heapreplace": 0,
         "heapq.heappushpop": 0, "bisect.insort": 0, "bisect.insort_left": 0, "bisect.insort_right": 0, "operator.setitem": 0,
         "operator.delitem": 0, "operator.iadd": 0, "operator.iconcat": 0, "operator.ior": 0, "numpy.put_along_axis": 0,
         "networkx.set_node_attributes": 0, "networkx.set_edge_attributes": 0}
SETTINGS = {"os.chdir", "os.putenv", "os.unsetenv", "os.umask", "numpy.seterr", "numpy.seterrcall", "numpy.set_printoptions",
            "locale.setlocale", "random.seed", "numpy.random.seed", "random.setstate", "cantera.add_directory",
            "cantera.make_deprecation_warnings_fatal", "cantera.use_legacy_rate_constants", "signal.signal", "decimal.setcontext",
            "multiprocessing.set_start_method", "socket.setdefaulttimeout", "numpy.setbufsize"}
VIEWF = {"numpy.array", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.ravel", "numpy.reshape", "numpy.transpose", "numpy.squeeze",
         "numpy.swapaxes", "numpy.moveaxis", "numpy.diagonal", "numpy.broadcast_to", "numpy.expand_dims", "numpy.real"}
VIEWM = {"reshape", "ravel", "squeeze", "transpose", "view", "swapaxes", "diagonal", "__iter__"}
PARTM = {"get", "setdefault", "values", "items", "keys", "copy", "reactions", "reaction", "species", "_asdict", "pop", "popitem",
         "__getitem__", "__next__", "nodes", "edges", "neighbors", "neighbours", "successors"}
ITER = {"builtins.zip", "builtins.enumerate", "builtins.map", "builtins.filter", "builtins.reversed", "builtins.sorted", "builtins.list",
        "builtins.tuple", "builtins.iter", "builtins.set", "builtins.frozenset", "builtins.dict", "builtins.next", "itertools.chain",
        "itertools.islice", "copy.copy", "builtins.vars", "builtins.getattr", "itertools.chain.from_iterable", "numpy.nditer"}
STATE = re.compile(r"^[TPUVHSDQXY]{1,3}$")
QUIET = ("logging", "warnings", "sys.stdout", "sys.stderr")
SCALAR = re.compile(r"^(str|float|int|bool|complex|number|tuple|callable|node label|\{'[^}]*\}|os\.PathLike|path)( or (str|float|int|bool|None))*(, optional)?$")
LISTS = re.compile(r"^(list|dict|dictionary|set|collections|iterable|sequence)\b", re.I)
ARRAY = re.compile(r"(ndarray|array)", re.I)


def doctype(fn, name):
    """The documented type of a parameter: scalar, list, array, model or None."""
    node = fn.node
    t = doctext(fn.node, name)
    if t is None:
        defs = dict(zip([a.arg for a in (node.args.posonlyargs + node.args.args)][::-1], node.args.defaults[::-1]))
        d = defs.get(name)
        if isinstance(d, (ast.List, ast.Dict, ast.Set)):
            return "list"
        if isinstance(d, ast.Constant) and isinstance(d.value, (str, int, float)):
            return "scalar"
        return None
    if SCALAR.match(t):
        return "scalar"
    if "Solution" in t:
        return "model"
    if LISTS.match(t):
        return "list"
    if ARRAY.search(t):
        return "array"
    return None


class Trace:
    """Objects a value may be. Results are pairs (how, text, node) with how in shared, own, maybe."""

    def __init__(self, C, r, fn, fields, summaries):
        self.C, self.r, self.fn, self.fields, self.summaries = C, r, fn, fields, summaries
        ev = [e for e in r.events if e.kind == "copy"]
        self.flat = {strip_versions(e.node) for e in ev}
        self.deep = set()
        for e in ev:
            if e.name == "deepcopy":
                self.deep.add(strip_versions(e.node))
                if e.node.op == "coll":
                    self.deep |= {strip_versions(x[1]) for x in e.node.a[1] if x[0] in ("item", "splice")}

    def type(self, n):
        if n.op == "param":
            return doctype(self.fn, n.a[0])
        return None

    def top(self, n):
        n = strip_versions(n)
        if n in self.flat or n in self.deep:
            return {("own", "a copy", n)}
        return self.obj(n, frozenset())

    def obj(self, n, busy):
        if (n, 0) in busy:
            return set()
        busy = busy | {(n, 0)}
        o = n.op
        if n in self.deep:
            return {("own", "a copy", n)}
        if o == "param":
            return {("shared", f"the caller's {n.a[0]}", n)}
        if o in ("global", "default", "cls", "fn", "mod", "closure"):
            w = {"global": "a module or class table", "default": "a default argument", "cls": "a class", "fn": "a function",
                 "mod": "a module", "closure": "a function"}[o]
            return {("own" if o == "closure" else "shared", w, n)}
        if o == "ext":
            return {("own" if str(n.a[0]).startswith(QUIET) else "shared", f"the process-wide {n.a[0]}", n)}
        if o in ("const", "bin", "un", "cat", "fmt", "pct", "coll", "nt", "inst", "ref", "lt", "le", "eq", "in", "and", "or", "not",
                 "idx", "isinst", "lambda", "sumfor", "maxfor", "minfor", "truth", "spobj"):
            if o == "inst" and n.a[1] == "self":
                return {("own", "the object itself", n)}
            return {("own", "an object made here", n)}
        if o == "tuple":
            return {("own", "an object made here", n)}
        if o in ("phi", "mu", "out", "last", "first", "maybe"):
            res = set()
            src = sources(self.r, n)
            if src == [n]:
                return {("maybe", "a value the analysis cannot follow", n)}
            for s in src:
                res |= self.obj(strip_versions(s), busy)
            return res
        if o in ("store", "removed", "storefor", "replaced"):
            return self.obj(n.a[0], busy) if isinstance(n.a[0], N) else {("maybe", "a value the analysis cannot follow", n)}
        if o in ("attr", "dynattr"):
            b = n.a[0]
            if o == "attr" and n.a[1] in ("T", "flat", "real"):
                return self.obj(b, busy)
            if b.op == "inst":
                if o == "attr":
                    return self.field(b, n.a[1], n, busy)
                return {("maybe", "an attribute of the object", n)}
            if b.op in ("cls", "mod"):
                return {("shared", "a module or class table", n)}
            return self.computed(self.part(b, busy), n)
        if o == "item":
            i = n.a[1]
            if n.a[0].op in ("coll", "tuple", "nt"):
                return self.part(n.a[0], busy)
            res = self.part(n.a[0], busy)
            if i.op == "slice":
                return {(h if t == "array" else "own" if t == "list" else "maybe" if h == "shared" else h, w, m)
                        for h, w, m in res for t in [self.type(m)]}
            if i.op == "tuple" and any(x.op == "slice" for x in i.a) or i.op in ("const", "idx", "elem", "tuple", "param", "bin"):
                return res
            if i.op in ("lt", "le", "eq", "not", "and", "or", "un", "coll") or i.op == "call" and str(i.a[0]).startswith("numpy.") and \
                    i.a[0] not in ("numpy.argmax", "numpy.argmin", "numpy.searchsorted"):
                return {("own", "a selection", n)}
            return {("maybe" if h == "shared" and self.type(m) == "array" else h, w, m) for h, w, m in res}
        if o == "elem":
            return self.part(n.a[0], busy)
        if o == "call":
            f = n.a[0]
            if f == "numpy.array" and n.a[1] and strip_versions(n.a[1][0]) in self.flat:
                return {("own", "a copy", n)}
            if isinstance(f, str) and f in VIEWF and n.a[1]:
                return self.obj(n.a[1][0], busy)
            if f in ("builtins.next", "builtins.getattr", "builtins.max", "builtins.min") and n.a[1]:
                return self.part(n.a[1][0], busy)
            if f in ("builtins.vars", "builtins.globals", "builtins.locals"):
                return {("maybe", "a name space", n)}
            return {("own", "an object made here", n)}
        if o == "meth":
            f = n.a[1]
            if f in VIEWM:
                return self.obj(n.a[0], busy)
            if f in ("get", "setdefault", "pop"):
                res = self.part(n.a[0], busy)
                for d in n.a[2][1:2]:
                    res |= self.obj(d, busy)
                return res
            if f in ("reaction", "species", "popitem", "__getitem__", "__next__"):
                return self.part(n.a[0], busy)
            return {("own", "an object made here", n)}
        if o == "rcall":
            res = {("own", "an object made here", n)}
            for p, v in self.summary(n.a[0]):
                if p == "":
                    res.add(("shared", f"a value shared by all calls of {n.a[0].rsplit('.', 1)[-1]}", n))
                for x in n.a[1]:
                    if isinstance(x, tuple) and x[0] == p:
                        res |= self.obj(x[1], busy)
            return res
        return {("maybe", "a value the analysis cannot follow", n)}

    def computed(self, res, n):
        """Attributes of cantera objects are values computed on access."""
        return {("maybe" if h == "shared" and (self.type(m) == "model" or m.op == "call") else h, w, m) for h, w, m in res}

    def part(self, n, busy):
        if (n, 1) in busy:
            return set()
        busy = busy | {(n, 1)}
        o = n.op
        if n in self.deep:
            return {("own", "a copy", n)}
        if o == "coll":
            res = {("own", "an object made here", n)}
            for x in n.a[1]:
                res |= self.entry(x, busy)
            return res
        if o == "tuple":
            res = set()
            for x in n.a:
                res |= self.obj(x, busy)
            return res
        if o == "nt":
            res = set()
            for _, x in n.a[1]:
                res |= self.obj(x, busy)
            return res
        if o in ("phi", "mu", "out", "last", "first", "maybe"):
            res = set()
            src = sources(self.r, n)
            if src == [n]:
                return {("maybe", "a value the analysis cannot follow", n)}
            for s in src:
                res |= self.part(strip_versions(s), busy)
            return res
        if o in ("store", "storefor"):
            res = self.part(n.a[0], busy)
            if o == "store":
                res |= self.obj(n.a[2], busy)
            return res
        if o == "removed":
            return self.part(n.a[0], busy)
        if o == "call" and (n.a[0] in ITER or n.a[0] in VIEWF):
            res = {("own", "an object made here", n)}
            for x in n.a[1]:
                res |= self.part(x, busy)
            return res
        if o == "meth" and n.a[1] in PARTM:
            return self.part(n.a[0], busy)
        if o == "bin":
            res = {("own", "an object made here", n)}
            for x in n.a[1:]:
                if isinstance(x, N):
                    res |= self.part(x, busy)
            return res
        return self.obj(n, busy - {(n, 0)})

    def entry(self, x, busy):
        if x[0] == "item":
            return self.obj(x[1], busy)
        if x[0] == "kv":
            return self.obj(x[2], busy)
        if x[0] == "splice":
            return self.part(x[1], busy)
        res = set()
        for y in (x[3] if x[0] == "for" else x[2]):
            res |= self.entry(y, busy)
        if x[0] == "if":
            for z in x[3:]:
                if isinstance(z, tuple):
                    for y in z:
                        if isinstance(y, tuple) and y and isinstance(y[0], str):
                            res |= self.entry(y, busy)
        return res

    def field(self, b, name, n, busy):
        if b.a[1] != "self":
            return {("own", "an object made here", n)}
        return set(self.fields(b.a[0], name))

    def summary(self, fid):
        return self.summaries(fid)


class Rule:
    def __init__(self, C, rep):
        self.C, self.rep = C, rep
        self.op = q.LEAF | q.RUNS | q.PARSERS | {MAIN + "parse_inputs", MAIN + "main", MAIN + "pymars"} | C.sim_methods()
        self._sum, self._fields = {}, {}
        self.sites = 0

    def run(self, fid, cid=None):
        return self.C.run(fid, frozenset(self.op), self_cls=cid)

    def trace(self, r, fid):
        return Trace(self.C, r, self.C.prog.funcs[fid], self.fields, self.summary)

    def summary(self, fid):
        """Parameters the result of an entry point may be; '' for a shared value."""
        if fid not in self._sum:
            self._sum[fid] = []
            if fid in self.C.prog.funcs:
                r = self.run(fid)
                t = self.trace(r, fid)
                out = []
                for h, w, m in t.obj(strip_versions(r.retf), frozenset()):
                    if h == "shared":
                        out.append((m.a[0] if m.op == "param" else "", m))
                self._sum[fid] = out
        return self._sum[fid]

    def fields(self, cid, name):
        """What an attribute of a simulation object may be."""
        key = (cid, name)
        if key in self._fields:
            return self._fields[key]
        self._fields[key] = set()
        res, found = set(), False
        c = self.C.prog.classes.get(cid)
        mro = self.C.prog.mro(c) if c is not None else []
        for m in METHODS:
            fid = method(self.C, cid, m)
            if fid is None:
                continue
            r = self.run(fid, cid)
            for e in r.events:
                if e.kind in ("setfield", "setattr") and e.name == name and e.node.op == "inst" and e.args:
                    found = True
                    t = self.trace(r, fid)
                    for h, w, n in t.top(e.args[0]):
                        res.add((h, w + f" (kept as {name})" if h == "shared" else w, n))
        if not found:
            for k in mro:
                v = k.attrs.get(name)
                if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Call)):
                    res.add(("shared", f"the class attribute {name}", mk("global", k.cid, name)))
                    break
            else:
                res.add(("maybe", "an attribute of the object", mk("attr", INST(cid), name, None)))
        self._fields[key] = res
        return res

    # ------------------------------------------------------------------------------------------ sites
    def check(self, fid, cid=None):
        C = self.C
        r = self.run(fid, cid)
        name = fid[7:] if cid is None else cid.rsplit(".", 1)[-1] + "." + fid.rsplit(".", 1)[-1]
        t = self.trace(r, fid)
        bad = {"caller": [], "shared": []}
        und = {"caller": [], "shared": []}

        def hit(e, base, what, aug=None):
            self.sites += 1
            facts = frozenset(q.flat([p[1] for p in e.pc if p[0] == "g"]))
            b = assume(strip_versions(base), facts) if facts else strip_versions(base)
            for h, w, m in t.top(b):
                if h == "own":
                    continue
                if aug is not None:
                    k = aug(t, b, m)
                    if k is False:
                        continue
                    if k is None:
                        h = "maybe"
                g = "caller" if m.op == "param" else "shared"
                (bad if h == "shared" else und)[g].append((e.loc, f"{what} changes {w}"))

        for e in r.events:
            k = e.kind
            if k == "touch":
                if str(e.name).startswith("aug"):
                    op = str(e.name)[3:]
                    rhs = e.args[0]
                    hit(e, e.node, f"'{op}='", lambda tr, b, m, op=op, rhs=rhs: self.inplace(tr, b, m, op, rhs))
                else:
                    hit(e, e.node, "an item assignment")
            elif k == "setitem":
                hit(e, e.node, "an item assignment")
            elif k == "mutate":
                if e.name == "setitem" and e.node.op == "global" and memo(e):
                    continue
                if e.node.op == "item" and e.node.a[1].op == "slice" and e.name in ("append", "extend", "insert", "remove", "pop", "clear"):
                    continue            # a slice with these methods is a new list
                hit(e, e.node, f".{e.name}()" if e.name not in ("del", "setitem") else "an item " + ("deletion" if e.name == "del" else "assignment"))
            elif k == "setattr":
                if e.node.op == "inst" or e.node.op == "ref":
                    continue
                if STATE.match(str(e.name)) and e.node.op not in ("cls", "mod", "ext", "fn"):
                    continue
                hit(e, e.node, f"assigning .{e.name}")
            elif k == "setglobal":
                self.sites += 1
                if lazy(e):
                    continue
                bad["shared"].append((e.loc, f"the global {e.name} is rebound"))
            elif k == "meth" and e.name in MUTATORS and e.args:
                if e.name in ("update", "add", "remove", "pop", "clear") and is_model(t, e.args[0]):
                    continue
                hit(e, e.args[0], f".{e.name}()")
            elif k == "callval" and isinstance(e.name, N) and e.name.op == "attr" and e.name.a[1] in MUTATORS:
                hit(e, e.name.a[0], f".{e.name.a[1]}()")
            elif k == "call" and isinstance(e.name, str):
                if e.name in FUNCS and len(e.args) > FUNCS[e.name]:
                    hit(e, e.args[FUNCS[e.name]], e.name)
                elif e.name == "networkx.relabel_nodes" and e.args and dict(e.kw).get("copy", TRUE) is not TRUE:
                    hit(e, e.args[0], e.name)
                elif re.match(r"builtins\.(list|dict|set)\.", e.name) and e.name.rsplit(".", 1)[1] in MUTATORS and e.args:
                    hit(e, e.args[0], e.name[9:])
                elif e.name in SETTINGS:
                    self.sites += 1
                    if e.name == "os.chdir" and any(x.kind == "call" and x.name == "os.chdir" and any(
                            m.op == "call" and m.a[0] == "os.getcwd" for a in x.args for m in deps(a)) for x in r.events):
                        und["shared"].append((e.loc, "the working directory is changed and set back"))
                        continue
                    if any(p[0] == "with" for p in e.pc) and e.name.startswith("numpy.set"):
                        continue
                    bad["shared"].append((e.loc, f"{e.name} changes a setting of the whole process"))
                elif e.name.startswith("warnings.") and e.args and cval(e.args[0]) == "error" and not any(
                        p[0] == "with" and "catch_warnings" in str(p[1])[:200] for p in e.pc):
                    bad["shared"].append((e.loc, "warnings are turned into errors for the whole process"))
        for g, what in (("caller", "data passed by the caller are not modified"),
                        ("shared", "nothing shared between calls is modified")):
            loc = (bad[g] or und[g] or [(None, "")])[0][0] or fn_where(C, fid)
            txt = "; ".join(sorted({w for _, w in (bad[g] or und[g])}))[:300]
            self.rep.put(False if bad[g] else None if und[g] else True, f"{name}.{g}", f"{name}: {what}", loc, txt)

    def inplace(self, t, b, m, op, rhs):
        """Whether `b op= rhs` changes an object instead of making a new one."""
        if op == "+" and rhs.op == "const" and isinstance(cval(rhs), str) or rhs.op in ("cat", "fmt"):
            return False
        if b.op == "param":
            ty = doctype(t.fn, b.a[0])
            if ty == "scalar":
                return False
            if ty in ("list", "array"):
                return True
        if m.op == "param" and doctype(t.fn, m.a[0]) == "scalar":
            return False
        if op == "+" and rhs.op == "coll" and rhs.a[0] in ("list", "copy"):
            return True
        if op in ("|", "&", "-", "^") and rhs.op == "coll" and rhs.a[0] in ("set", "dict"):
            return True
        if b.op == "item" and b.a[1].op == "tuple" and not any(x.op == "slice" for x in b.a[1].a) and rhs.op not in ("coll", "tuple"):
            return False            # a number of a matrix
        if b.op in ("elem", "item") and m.op == "param" and b.a[0] is m:
            raw = doctext(t.fn.node, m.a[0]) or ""
            if re.match(r"(list|tuple|sequence)( of|\[) *(numpy\.|np\.)?(ndarray|array|list|set|dict)", raw, re.I):
                return True
        return None

    def cached(self):
        """Results remembered between calls must be determined by the arguments."""
        for fid, f in sorted(self.C.prog.funcs.items()):
            for d in getattr(f.node, "decorator_list", []):
                x = d.func if isinstance(d, ast.Call) else d
                nm = x.attr if isinstance(x, ast.Attribute) else getattr(x, "id", "")
                if nm not in ("lru_cache", "cache", "memoize"):
                    continue
                self.sites += 1
                r = self.C.run(fid, "leaf")
                imp = impure(r.retf)
                if imp is None and any(e.kind in ("call", "meth") and IMPURE.search(str(e.name)) for e in r.events):
                    imp = "reads or writes files"
                if imp is None and r.retf.op == "coll" and r.retf.a[0] != "tuple":
                    imp = "is a container that all callers share"
                self.rep.put(False if imp else None, f"{short(fid)}.cached", f"the result of {short(fid)} may be remembered between calls",
                             (f.mod.path, f.node.lineno), f"it {imp}" if imp else "")


IMPURE = re.compile(r"^(open|builtins\.open|cantera\.Solution|os\.(path\.)?(exists|isfile|listdir|getcwd|getenv|stat)|time\.|random\.|"
                    r"numpy\.(load|genfromtxt|loadtxt|random)|yaml\.|tables\.|h5py\.)")


def impure(v):
    """Why a value is not determined by the values it was made from."""
    for m in deps(v):
        if m.op == "call" and isinstance(m.a[0], str):
            if m.a[0].startswith("cantera.Solution"):
                return "is a model read from a file"
            if IMPURE.match(m.a[0]):
                return f"depends on {m.a[0]}"
        if m.op == "rcall" and m.a[0] in q.LEAF | q.RUNS:
            return f"depends on {m.a[0].rsplit('.', 1)[-1]}, which reads or writes files"
    return None


def memo(e):
    """table[key] = value, with a value determined by the key."""
    if len(e.args) != 2:
        return False
    k, v = e.args
    if impure(v):
        return False
    if any(m.op in ("unk", "mu", "out") for m in deps(v)):
        return False
    ins = {m for m in deps(v) if m.op in ("param", "elem")}
    return ins <= {m for m in deps(k)} and v.op in ("const", "tuple", "call", "cat", "bin", "item")


def lazy(e):
    """A global filled with a constant on first use."""
    v = e.args[0]
    return impure(v) is None and all(m.op not in ("param", "elem", "mu", "out", "global", "unk", "inst", "phi", "rcall") for m in deps(v)) and \
        v.op in ("const", "call", "tuple") and any(p[0] == "g" for p in e.pc)


def is_model(t, b):
    b = strip_versions(b)
    return b.op == "param" and doctype(t.fn, b.a[0]) in ("model", "scalar") or b.op == "call" and str(b.a[0]).startswith("cantera.")


def fn_where(C, fid):
    f = C.prog.funcs[fid]
    return (f.mod.path, f.node.lineno)


def check(C, rep):
    R = Rule(C, rep)
    for fid in ROOTS:
        if fid not in C.prog.funcs:
            raise AnalysisError(f"anchor {fid} not found")
        rep.section(short(fid), lambda C, rep, fid=fid: R.check(fid))
    for fid in PUBLIC:
        if fid in C.prog.funcs:
            rep.section(short(fid), lambda C, rep, fid=fid: R.check(fid))
    for cid in sim_classes(C):
        for m in METHODS:
            fid = method(C, cid, m)
            if fid is not None:
                rep.section(f"{cid.rsplit('.', 1)[-1]}.{m}", lambda C, rep, fid=fid, cid=cid: R.check(fid, cid))
    rep.section("cached", lambda C, rep: R.cached())
    rep.note(f"{R.sites} places that change a value in place")
