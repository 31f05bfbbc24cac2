"""Sources of nondeterminism and the order of collections. Every entry point is analysed with its helpers inlined. (1) Values drawn
from random numbers, clocks, hashes, process ids, the environment or the machine are taint: they must not reach a result, an argument
of another stage, a file, an error or a condition that decides any of these (logging aside). (2) Collections carry where their order
comes from: the model, a set (hash order), a directory listing, the completion order of workers, or a list the user wrote. Walking
from the results, the arguments of stages and the written data, each use is order-relevant (list elements, positions, joined text,
accumulated arrays) or order-free (membership, length, sets, extrema, sorting); an order-relevant use of anything but a model or
program order is a violation. (3) The lists a stage leaves are required to follow the model."""
import re

from .common import *
from ..loader import doctext
from . import c10

ASSUMES = ["networkx, numpy and cantera results are determined by their arguments, in an order determined by them unless they are sets",
           "the date Cantera writes in the header of a YAML file is not part of the outcome",
           "dictionaries keep insertion order (Python 3.7+)"]

CLOCK = re.compile(r"^(time\.(time|monotonic|perf_counter|process_time|thread_time|localtime|gmtime|ctime|asctime|strftime|clock)(_ns)?$|"
                   r"datetime\.(datetime|date)\.(now|today|utcnow)|timeit\.)")
RANDOM = re.compile(r"^(random|numpy\.random|secrets|uuid|scipy\.stats)\.|^os\.urandom$")
HOST = re.compile(r"^(os\.(getpid|getppid|getenv|environb?|getlogin|uname|times|getloadavg|get_terminal_size)(\.|$)|socket\.|platform\.|"
                  r"getpass\.|psutil\.|threading\.(get_ident|get_native_id|current_thread|active_count)|"
                  r"multiprocessing\.(current_process|active_children)|resource\.|gc\.|shutil\.(disk_usage|get_terminal_size))")
HASH = {"builtins.id", "builtins.hash"}
SEEDED = {"random.Random", "numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "numpy.random.PCG64",
          "numpy.random.SeedSequence", "numpy.random.MT19937", "numpy.random.Philox"}
FILES = {"glob.glob", "glob.iglob", "os.listdir", "os.scandir", "os.walk"}
FILEM = {"glob", "rglob", "iterdir"}
SETF = {"networkx.descendants", "networkx.ancestors", "networkx.node_connected_component", "builtins.set", "builtins.frozenset",
        "networkx.strongly_connected_components", "networkx.connected_components", "networkx.weakly_connected_components",
        "networkx.algorithms.dag.descendants", "networkx.algorithms.dag.ancestors"}
SETM = {"union", "intersection", "difference", "symmetric_difference"}
SCHED = {"concurrent.futures.as_completed", "multiprocessing.connection.wait", "asyncio.as_completed", "concurrent.futures.wait"}
# functions for which the order of what they are given does not matter
FREE = {"builtins.len", "builtins.any", "builtins.all", "builtins.set", "builtins.frozenset", "builtins.bool", "collections.Counter",
        "numpy.max", "numpy.min", "numpy.amax", "numpy.amin", "numpy.any", "numpy.all", "numpy.unique", "numpy.sort", "math.fsum"}
EXTREME = {"builtins.min", "builtins.max"}
# functions that take the elements of their argument in order
INORDER = {"builtins.list", "builtins.tuple", "builtins.enumerate", "builtins.zip", "builtins.iter", "builtins.next", "builtins.reversed",
           "builtins.map", "builtins.filter", "builtins.str", "builtins.repr", "numpy.array", "numpy.asarray", "numpy.fromiter",
           "numpy.concatenate", "numpy.stack", "numpy.vstack", "numpy.hstack", "itertools.chain", "itertools.islice", "copy.copy",
           "itertools.chain.from_iterable", "functools.reduce", "itertools.zip_longest", "itertools.product", "itertools.combinations",
           "collections.deque", "collections.OrderedDict", "builtins.dict", "builtins.dict.fromkeys", "numpy.savetxt", "numpy.save",
           "builtins.print", "json.dump", "json.dumps", "yaml.dump", "yaml.safe_dump", "itertools.permutations", "itertools.accumulate"}
INORDERM = {"join", "writelines", "extend", "write", "map", "imap", "starmap", "create_dataset", "append", "add_nodes_from"}
LOG = ("logging", "warnings", "sys.stdout", "sys.stderr", "builtins.print")
GIVEN = {"species_targets", "species_safe", "target_species", "safe_species", "exclusion_list"}
LIMBO = {SA + "run_sa": {"species_limbo"}}
# the result of these lists species by contract in the order given
CONTRACT = {MAIN + "parse_inputs"}
INNER = {DRG + "trim_drg", PFA + "trim_pfa", DRG + "graph_search", PFA + "graph_search"}
PUBLIC = [f for f in c10.PUBLIC if f not in INNER]
TRIMMED = "the model and its order"


def quiet(e):
    return isinstance(e.name, str) and e.name.startswith(LOG) or e.kind == "meth" and e.args and (
        str(strip_versions(e.args[0]))[:60].startswith(LOG))


def label(m):
    """What makes a node depend on something other than the inputs, or None."""
    if m.op == "call" and isinstance(m.a[0], str):
        f = m.a[0]
        if f in SEEDED:
            return None if m.a[1] and all(x.op == "const" and x is not NONE or label_free(x) for x in m.a[1]) else f"{f} without a seed"
        if CLOCK.match(f):
            return f"{f} (the clock)"
        if RANDOM.match(f):
            return f"{f} (random)"
        if HOST.match(f):
            return f"{f} (the machine or its environment)"
        if f in HASH:
            return f"{f} (differs between runs)"
    if m.op == "ext" and HOST.match(m.a[0]) and "environ" in m.a[0]:
        return f"{m.a[0]} (the environment)"
    if m.op == "ext" and m.a[0] in HASH:
        return f"{m.a[0]} (differs between runs)"
    return None


def label_free(x):
    return not any(label(m) for m in deps(x)) and x is not NONE


# ------------------------------------------------------------------------------------------------------------- order provenance
class Order:
    def __init__(self, r, fn, given, bound=frozenset()):
        self.r, self.fn, self.given = r, fn, given
        self.bad, self.giv, self.und, self.ung = [], [], [], []
        self.seen = set()
        self.loops = set()

    # --- is iterating over n unordered?
    def unordered(self, n, busy=frozenset()):
        if n in busy:
            return None
        busy = busy | {n}
        o = n.op
        if o == "coll":
            return "the hash order of a set" if n.a[0] in ("set", "frozenset") and many(n) else None
        if o == "call" and isinstance(n.a[0], str):
            if n.a[0] in SETF:
                return f"the hash order of {n.a[0].rsplit('.', 1)[-1]}"
            if n.a[0] in FILES:
                return f"the order of a directory listing ({n.a[0]})"
            if n.a[0] in SCHED:
                return f"the completion order of workers ({n.a[0].rsplit('.', 1)[-1]})"
        if o == "meth":
            if n.a[1] == "imap_unordered":
                return "the completion order of workers (imap_unordered)"
            if n.a[1] in FILEM:
                return f"the order of a directory listing (.{n.a[1]})"
            if n.a[1] in SETM or n.a[1] == "copy":
                return self.unordered(n.a[0], busy)
        if o == "bin" and n.a[0] in ("|", "&", "-", "^"):
            for x in n.a[1:]:
                u = self.unordered(x, busy)
                if u and "set" in u:
                    return u
        if o == "removed":
            return self.unordered(n.a[0], busy)
        if o == "phi":
            return self.unordered(n.a[1], busy) or self.unordered(n.a[2], busy)
        if o == "param":
            t = doctext(self.fn.node, n.a[0]) or ""
            if re.match(r"(set|frozenset)\b", t, re.I):
                return f"the hash order of the set {n.a[0]}"
        return None

    def used(self, lid):
        """Names a loop carries from round to round (object versions aside)."""
        nx = self.r.loops[lid]["next"]
        return [k for k in nx if not (isinstance(k, tuple) and str(k[-1]).startswith("ver/")) and k != ("h", "fs")
                and nx[k] is not mk("mu", self.r.loops[lid]["lid"], k)]

    def hit(self, n, why):
        self.bad.append((n, why))

    # --- v: the value matters; o: the order of its elements matters; s: only which elements
    def v(self, n):
        self.go(n, "v")

    def o(self, n):
        self.go(n, "o")

    def s(self, n):
        self.go(n, "s")

    def go(self, n, m):
        stack = [(n, m)]
        while stack:
            x = stack.pop()
            if x in self.seen or not isinstance(x[0], N):
                continue
            self.seen.add(x)
            stack += self.step(*x)

    def step(self, n, m):
        o = n.op
        if m == "o":
            u = self.unordered(n)
            if u:
                self.hit(n, u)
                return [(n, "s")]
            if o == "param" and n.a[0] in self.given:
                self.giv.append((n, f"the order in which {n.a[0]} is listed"))
                return []
        if o == "coll":
            return self.coll(n, m)
        if o in ("const", "param", "ext", "global", "inst", "ref", "unk", "default"):
            return []
        if o == "tuple":
            return [(x, "v") for x in n.a]
        if o in ("phi",):
            return [(n.a[0], "v"), (n.a[1], m), (n.a[2], m)]
        if o in ("not", "and", "or"):
            return [(x, "v") for x in n.a]
        if o == "in":
            return [(n.a[0], "v"), (n.a[1], "s")]
        if o == "truth":
            return [(n.a[0], "s")]
        if o == "eq":
            k = "s" if any(self.unordered(x) for x in n.a) else "o"
            return [(x, k) for x in n.a]
        if o == "exists":
            return [(n.a[0], "s"), (n.a[2], "v")]
        if o in ("maxfor", "minfor"):
            return [(n.a[1], "s")] + [(x, "v") for i, x in enumerate(n.a) if i != 1 and isinstance(x, N)]
        if o == "sumfor":
            if self.unordered(n.a[1]) and not integer(n.a[3]):
                self.und.append((n, "a sum over a set is rounded in hash order"))
            return [(n.a[1], "s"), (n.a[0], "v"), (n.a[3], "v"), (n.a[4], "v")]
        if o == "elem":
            # an element inside its own loop; what an order-relevant loop makes of it is judged at the loop
            return [(n.a[0], "s")]
        if o == "idx":
            return [(n.a[0], "o")]
        if o == "item":
            b, i = n.a
            if self.unordered(b) and (i.op == "const" and isinstance(cval(i), int) or i.op == "slice"):
                self.hit(b, self.unordered(b))
                return [(b, "s")]
            if b.op == "coll" and b.a[0] == "dict":
                return [(b, "s"), (i, "v")]
            if b.op == "param":
                return [(i, "v")] if b.a[0] not in self.given else [(b, "o"), (i, "v")]
            return [(b, "o" if self.listy(b) else "v"), (i, "v")]
        if o == "attr":
            return [(n.a[0], "v")]
        if o in ("cat", "fmt"):
            return [(x, "o") for x in n.a if isinstance(x, N)]
        if o in ("first", "last"):
            vals = [x for x in n.a[1:] if isinstance(x, N)]
            el = mk("elem", n.a[0], n.a[1]) if isinstance(n.a[1], int) else None
            dep = el is None or any(el in deps(x) or any(y.op == "idx" and y.a[0] is n.a[0] for y in deps(x)) for x in
                                    ([n.a[3]] if o == "first" else [n.a[2]]))
            return [(n.a[0], "o" if dep else "s")] + [(x, "v") for x in vals]
        if o in ("out", "mu"):
            lid = n.a[0]
            info = self.r.loops.get(lid)
            out = []
            if info is not None and ("loop", lid) not in self.seen:
                self.seen.add(("loop", lid))
                if info.get("it") is not None:
                    it = info["it"]
                    u = self.unordered(it)
                    src = u or it.op == "param" and it.a[0] in self.given and f"the order in which {it.a[0]} is listed"
                    if not src:
                        out.append((it, "o"))
                    elif not all(commutes(self.r, x, lid) for x in self.used(lid)):
                        (self.und if u else self.ung).append((it, f"a loop in {src}"))
            if info is not None:
                nm = n.a[1]
                for src in (info["init"], info["next"]):
                    if isinstance(src, dict) and nm in src:
                        out.append((src[nm], m))
                if isinstance(info.get("cond"), N):
                    out.append((info["cond"], "v"))
            if o == "out":
                out += [(x, m) for x in n.a[2:] if isinstance(x, N)]
            return out
        if o in ("store", "storefor"):
            return [(n.a[0], m)] + [(x, "v") for x in n.a[1:] if isinstance(x, N)]
        if o == "removed":
            return [(n.a[0], m)] + [(x, "v") for x in n.a[1:] if isinstance(x, N)]
        if o == "rcall":
            out = []
            for p, x in n.a[1]:
                nm = p.a[0] if isinstance(p, N) else p
                if nm in GIVEN or n.a[0] == SA + "run_sa" and nm == "species_limbo":
                    out.append((x, "s"))
                else:
                    out.append((x, "o" if self.listy(x) else "v"))
            return out
        if o == "call":
            f = n.a[0]
            args = list(n.a[1]) + [x for _, x in n.a[2]]
            if not isinstance(f, str):
                return [(x, "v") for x in args] + ([(f, "v")] if isinstance(f, N) else [])
            kw = dict(n.a[2])
            if f == "builtins.sorted" and n.a[1]:
                key = kw.get("key")
                if key is None or total(key):
                    return [(n.a[1][0], "s")]
                u = self.unordered(unwrap(n.a[1][0]))
                if u:
                    self.und.append((n, f"ties of a sorting key are left in {u}"))
                    return [(n.a[1][0], "s"), (key, "v")]
                return [(n.a[1][0], "o"), (key, "v")]
            if f in EXTREME and len(n.a[1]) == 1:
                if "key" in kw and not total(kw["key"]):
                    u = self.unordered(unwrap(n.a[1][0]))
                    if u:
                        self.hit(n, f"ties are decided by {u}")
                return [(n.a[1][0], "s")] + [(x, "v") for x in kw.values()]
            if f in FREE:
                return [(x, "s") for x in args]
            if f in INORDER:
                return [(x, "o") for x in args]
            if f == "builtins.sum":
                u = args and self.unordered(unwrap(args[0]))
                if u:
                    self.und.append((n, f"a sum is rounded in {u}"))
                return [(x, "s") for x in args]
            if f in ("cantera.Solution",):
                return [(x, "o") for x in args]
            return [(x, "o" if self.listy(x) else "v") for x in args]
        if o == "meth":
            b, nm = n.a[0], n.a[1]
            args = list(n.a[2]) + [x for _, x in n.a[3]]
            if nm == "pop" and self.unordered(b):
                self.hit(b, self.unordered(b))
                return [(b, "s")]
            if nm in ("get", "keys", "values", "items", "copy", "issubset", "issuperset", "isdisjoint", "intersection", "union",
                      "difference", "count"):
                return [(b, m if nm in ("copy", "keys", "values", "items") else "s")] + [(x, "s" if nm not in ("get",) else "v") for x in args]
            if nm in INORDERM:
                return [(b, "v")] + [(x, "o") for x in args]
            return [(b, "o" if self.listy(b) else "v")] + [(x, "o" if self.listy(x) else "v") for x in args]
        if o == "nt":
            return [(x, "o" if self.listy(x) else "v") for _, x in n.a[1]]
        return [(x, "v") for x in ir_children(n) if isinstance(x, N)]

    def listy(self, n):
        """A list (whose order is part of the value), as opposed to a set passed as a set."""
        if n.op == "coll":
            return n.a[0] in ("list", "tuple", "copy")
        if n.op == "call":
            return n.a[0] in ("builtins.list", "builtins.tuple", "builtins.sorted", "numpy.array")
        if n.op == "phi":
            return self.listy(n.a[1]) or self.listy(n.a[2])
        if n.op in ("removed", "store", "storefor"):
            return self.listy(n.a[0])
        return False

    def overwrite(self, e):
        """Entries of a dictionary written for the same key in several rounds: the last one stays."""
        why = self.unordered(e[1]) or e[1].op == "param" and e[1].a[0] in self.given and f"the order in which {e[1].a[0]} is listed"
        if not why:
            return
        el = mk("elem", e[1], e[2])

        def kvs(x):
            if x[0] == "kv":
                yield x
            for y in (x[3] if x[0] == "for" else x[2] if x[0] == "if" else ()):
                yield from kvs(y)
        for x in kvs(e):
            if el not in deps(x[2]) or x[1] is el:
                continue
            if el not in deps(x[1]):
                (self.bad if not why.startswith("the order in which") else self.giv).append((e[1], why))
            elif any(m.op == "elem" and m is not el and el in deps(m) for m in deps(x[1])):
                (self.und if not why.startswith("the order in which") else self.ung).append((e[1], f"entries overwritten in {why}"))

    def coll(self, n, m):
        ordered = n.a[0] not in ("set", "frozenset", "dict") if m == "v" else m == "o"
        return [y for e in n.a[1] for y in self.entry(e, ordered)]

    def entry(self, e, ordered):
        k = "o" if ordered else "s"
        if e[0] == "item":
            return [(e[1], "o" if self.listy(e[1]) else "v")]
        if e[0] == "kv":
            return [(e[1], "v"), (e[2], "o" if self.listy(e[2]) else "v")]
        if e[0] == "splice":
            return [(e[1], k)]
        if e[0] == "for":
            self.overwrite(e)
            return [(e[1], k)] + [y for x in e[3] for y in self.entry(x, ordered)]
        if e[0] == "if":
            return [(e[1], "v")] + [y for x in e[2] for y in self.entry(x, ordered)]
        return []


def unwrap(n):
    """The collection behind list(x), for order questions of a whole."""
    while n.op == "coll" and n.a[0] == "list" and len(n.a[1]) == 1 and n.a[1][0][0] == "splice":
        n = n.a[1][0][1]
    return n


def many(n):
    """A set that can hold two elements."""
    ents = n.a[1]
    return not (not ents or len(ents) == 1 and ents[0][0] == "item")


def integer(v):
    return v.op == "const" and isinstance(cval(v), int) or v.op in ("truth", "eq", "lt", "le", "in") or v.op == "call" and v.a[0] == "builtins.len"


def total(key):
    """A sorting key that tells any two names apart."""
    return str(key) in ("builtins.str", "builtins.repr") or key.op == "attr" and key.a[1] in ("index", "species_index")


class Rule:
    def __init__(self, C, rep):
        self.C, self.rep = C, rep
        self.op = frozenset((q.LEAF | q.RUNS | q.PARSERS | {MAIN + "parse_inputs", MAIN + "main", MAIN + "pymars"} | C.sim_methods()) - INNER)
        self.fields = {}
        self.sites = self.sinks = 0

    def run(self, fid, cid=None):
        return self.C.run(fid, self.op, self_cls=cid)

    def tainted_fields(self, cid):
        if cid not in self.fields:
            out = {}
            for m in c10.METHODS:
                fid = method(self.C, cid, m)
                if fid is None:
                    continue
                for e in self.run(fid, cid).events:
                    if e.kind in ("setfield", "setattr") and e.node.op == "inst" and e.args:
                        for x in deps(e.args[0]):
                            if label(x):
                                out[e.name] = label(x)
            self.fields[cid] = out
        return self.fields[cid]

    def check(self, fid, cid=None):
        C, rep = self.C, self.rep
        r = self.run(fid, cid)
        fn = C.prog.funcs[fid]
        name = fid[7:] if cid is None else cid.rsplit(".", 1)[-1] + "." + fid.rsplit(".", 1)[-1]
        where = c10.fn_where(C, fid)
        tf = self.tainted_fields(cid) if cid else {}

        def lab(m):
            w = label(m)
            if w is None and m.op == "attr" and m.a[0].op == "inst" and m.a[1] in tf:
                w = f"{tf[m.a[1]]} kept as {m.a[1]}"
            return w
        sinks = []          # (what, node, loc, mode)
        if r.retf is not NONE:
            sinks.append(("the result", r.retf, where))
        for e in r.events:
            if quiet(e):
                continue
            guards = [p[1] for p in e.pc if p[0] == "g"]
            if e.kind == "rcall":
                if isinstance(e.name, str) and e.name not in self.op:
                    continue
                sinks.append((f"the call of {short(e.name)}" if isinstance(e.name, str) else "a call", e.node, loc(e)))
            elif e.kind in ("call", "meth", "parallel-map", "callval"):
                if e.node is not None and e.kind in ("call", "meth") and e.node.op in ("call", "meth") and not occurs(e.node):
                    continue                    # a pure computation
                if e.kind == "call" and isinstance(e.name, str) and (label(e.node) if e.node is not None else None):
                    continue                    # the source itself
                if e.kind == "call" and isinstance(e.name, str) and e.name.startswith(("tempfile.", "time.sleep", "os.path")):
                    continue
                for x in list(e.args) + [v for _, v in (e.kw or ()) if isinstance(v, N)]:
                    sinks.append((f"an argument of {name_of(e)}", x, loc(e)))
            elif e.kind in ("setfield", "setattr", "setglobal", "raise", "mutate", "setitem"):
                if e.kind in ("setfield", "setattr") and e.node.op == "inst" and e.name in tf:
                    continue                    # judged where the field is read
                for x in e.args:
                    sinks.append((f"{e.kind} {e.name}", x, loc(e)))
            else:
                continue
            for g in guards:
                sinks.append((f"a condition of {name_of(e)}", g, loc(e)))
        for lid, info in r.loops.items():
            if isinstance(info.get("cond"), N) and any(("loop" == p[0] and p[1] == lid) for e in r.events if not quiet(e) for p in e.pc):
                sinks.append(("a loop condition", info["cond"], info.get("loc") or where))
        # (1) sources
        bad = []
        for what, n, l in sinks:
            self.sinks += 1
            for m in deps(n):
                w = lab(m)
                if w:
                    bad.append((l, f"{w} reaches {what}", n))
        for e in r.events:
            self.sites += 1
            nm = str(e.name)
            if e.kind == "call" and nm in ("random.shuffle", "numpy.random.shuffle", "numpy.random.permutation") or \
                    e.kind == "meth" and nm == "shuffle" and e.args and any(label(m) for m in deps(e.args[0])):
                bad.append((loc(e), f"{nm} shuffles a value at random", e.node or TRUE))
        seeded = any(e.kind == "call" and e.name in ("random.seed", "numpy.random.seed") and e.args and e.args[0].op == "const" for e in r.events)
        l, why, n = bad[0] if bad else (where, "", None)
        rep.put(True if not bad else None if seeded else verdict(False, r, n), f"{name}.source",
                f"{name}: nothing but its inputs decides the outcome", l, "; ".join(sorted({b[1] for b in bad}))[:300])
        # (2) order
        given = (GIVEN | LIMBO.get(fid, set())) if fid not in CONTRACT else set()
        W = Order(r, fn, given)
        hits, gv, un, gu = [], [], [], []
        for what, n, l in sinks:
            free = what.startswith(("raise", "an argument of builtins.print"))
            n = strip_versions(n)
            b0, g0, u0, v0 = len(W.bad), len(W.giv), len(W.und), len(W.ung)
            if what.startswith("a condition") or what == "a loop condition":
                W.v(n)
            elif n.op == "rcall":
                W.go(n, "v")
            else:
                W.go(n, "o" if W.listy(n) else "v")
            hits += [(l, f"{w} reaches {what}", x) for x, w in W.bad[b0:]]
            if not free:
                gv += [(l, f"{w} reaches {what}", x) for x, w in W.giv[g0:]]
                gu += [(l, f"{w}, for {what}", x) for x, w in W.ung[v0:]]
            un += [(l, f"{w}, for {what}", x) for x, w in W.und[u0:]]
        for e in r.events:
            if quiet(e) or e.kind not in ("call", "meth", "rcall", "parallel-map"):
                continue
            for p in e.pc:
                if p[0] == "loop":
                    u = W.unordered(strip_versions(p[2]))
                    if not u:
                        continue
                    if e.kind == "rcall" and e.name in self.op:
                        un.append((loc(e), f"{short(e.name)} is called in {u}", p[2]))
                    elif e.kind == "meth" and e.name in ("write", "writelines") and any(m.op == "elem" for x in e.args[1:] for m in deps(x)):
                        hits.append((loc(e), f"{u} reaches a file", p[2]))
        self.put(r, hits, un, f"{name}.order", f"{name}: no result depends on hash, listing or scheduling order", where)
        if given & {a.arg for a in fn.node.args.args}:
            self.put(r, gv, gu, f"{name}.given", f"{name}: no result depends on the order in which species are listed", where)

    def put(self, r, bad, und, key, what, where):
        if bad:
            l, why, n = bad[0]
            self.rep.put(verdict(False, r, n), key, what, l, "; ".join(sorted({b[1] for b in bad}))[:300])
        elif und:
            self.rep.put(None, key, what, und[0][0], "; ".join(sorted({b[1] for b in und}))[:300])
        else:
            self.rep.put(True, key, what, where, "")


def commutes(r, name, lid):
    """Whether the rounds of a loop may be run in any order, as far as one carried value goes: maxima and minima per key, members of a
    set, whole-number counts, flags."""
    info = r.loops.get(lid)
    if info is None or name not in info["next"]:
        return False
    return updated(r, info["next"][name], mk("mu", info["lid"], name))


def updated(r, v, mu, busy=frozenset()):
    """v is mu, changed only in ways that commute."""
    if v is mu:
        return True
    if v in busy:
        return False
    busy = busy | {v}

    def free(x):
        return mu not in deps(x)
    if v.op == "phi":
        return free(v.a[0]) and updated(r, v.a[1], mu, busy) and updated(r, v.a[2], mu, busy)
    if v.op == "out":
        info = r.loops.get(v.a[0])
        nm = v.a[1]
        return info is not None and updated(r, v.a[2], mu, busy) and nm in info["next"] and \
            updated(r, info["next"][nm], mk("mu", info["lid"], nm), busy)
    if v.op in ("or", "and"):
        return mu in v.a and all(x is mu or free(x) for x in v.a)
    if v.op == "bin" and v.a[0] == "+":
        return v.a[1] is mu and integer(v.a[2]) or v.a[2] is mu and integer(v.a[1])
    if v.op == "call" and v.a[0] in EXTREME and not v.a[2]:
        return mu in v.a[1] and all(x is mu or free(x) for x in v.a[1])
    if v.op == "coll" and v.a[0] in ("dict", "set") and v.a[1] and v.a[1][0][0] == "splice" and updated(r, v.a[1][0][1], mu, busy):
        base = v.a[1][0][1]

        def ok(e):
            if e[0] == "if":
                return free(e[1]) and all(ok(x) for x in e[2])
            if e[0] == "for":
                return free(e[1]) and all(ok(x) for x in e[3])
            if v.a[0] == "set":
                return free(e[1])
            if e[0] != "kv" or not free(e[1]):
                return False
            k, x = e[1], e[2]
            if free(x):
                return x.op == "const"
            own = [y for y in x.a[1] if not free(y)] if x.op == "call" and x.a[0] in EXTREME and not x.a[2] else []
            return len(own) == 1 and (own[0].op == "meth" and own[0].a[0] is base and own[0].a[1] == "get" and own[0].a[2][:1] == (k,) or
                                      own[0].op == "item" and own[0].a == (base, k))
        return all(ok(e) for e in v.a[1][1:])
    return False


def occurs(n):
    """A call with an effect or a result of its own, as opposed to a pure computation."""
    return n.a[-1] is not None


def name_of(e):
    return e.name if isinstance(e.name, str) else "a function value"


# --------------------------------------------------------------------------------------------------------------- model order
def model_order(r, n, busy=frozenset()):
    """Whether the list follows the order of a model's species: True, False or None."""
    n = strip_versions(n)
    if n in busy:
        return True
    busy = busy | {n}
    if n.op == "phi":
        return tri_all([model_order(r, n.a[1], busy), model_order(r, n.a[2], busy)])
    if n.op in ("mu", "out", "removed"):
        src = sources(r, n)
        if n.op == "removed":
            return model_order(r, n.a[0], busy)
        if src == [n] or n in src:
            return None
        return tri_all([model_order(r, x, busy) for x in src])
    if n.op == "attr" and n.a[1] == "species_names":
        return True
    if n.op == "attr" and n.a[1] == "limbo_species":
        return True             # left by a stage, judged there
    if n is NONE or n.op == "const":
        return True
    if n.op == "coll":
        if n.a[0] in ("set", "frozenset"):
            return False if many(n) else True
        if not n.a[1]:
            return True
        if len(n.a[1]) > 1:
            if all(e[0] == "item" for e in n.a[1]):
                return None
            return None
        e = n.a[1][0]
        conds = True
        while e[0] == "if" and len(e[2]) == 1:
            e = e[2][0]
        if e[0] == "item":
            return conds
        if e[0] == "splice":
            return model_order(r, e[1], busy)
        if e[0] == "for":
            base = model_order(r, e[1], busy)
            el = mk("elem", e[1], e[2])
            x = e[3]
            while len(x) == 1 and x[0][0] == "if":
                x = x[0][2]
            if len(x) == 1 and x[0] == ("item", el):
                return base
            if len(x) == 1 and x[0][0] == "for":
                return False if model_order(r, x[0][1], busy) is not None else None
        return None
    if n.op == "call" and n.a[0] == "builtins.sorted":
        key = dict(n.a[2]).get("key")
        if key is not None and key.op == "attr" and (key.a[1] == "species_index" or key.a[1] == "index" and model_order(r, key.a[0])):
            return True if "reverse" not in dict(n.a[2]) else None
        return False if key is None else None
    if n.op == "call" and n.a[0] in SETF:
        return False
    if n.op == "param" and n.a[0] in GIVEN | {"species_limbo"}:
        return False
    return None


def tri_all(xs):
    return False if False in xs else None if None in xs else True


def model_orders(C, rep):
    layer = frozenset(q.LEAF - INNER)
    for name, fid in (("DRG", DRG + "run_drg"), ("PFA", PFA + "run_pfa"), ("DRGEP", DRGEP + "run_drgep")):
        r = C.run(fid, layer)
        vals = [x for s in sources(r, r.retf) if s.op == "nt" for f, x in s.a[1] if f == "limbo_species"]
        vals = vals or [x for x in [project(r.retf, ("limbo_species",))] if x is not None]
        res = [(model_order(r, x), x) for x in vals]
        if not res:
            rep.und(f"{name}.limbo", f"limbo species of {name} follow the order of the model", None, "not found")
            continue
        st = tri_all([a for a, _ in res])
        w = [x for a, x in res if a is st]
        rep.put(verdict(False, r, *w) if st is False else st, f"{name}.limbo", f"limbo species of {name} follow the order of the model",
                c10.fn_where(C, fid), str(w[0])[:200] if st is not True else "")
    fid = SA + "run_sa"
    r = C.run(fid, "leaf")
    ev = [e for e in r.events if e.kind == "enter" and e.name == SA + "evaluate_species_errors"]
    r = C.run(fid, frozenset(q.LEAF | {SA + "evaluate_species_errors"}))
    res = []
    for e in r.events:
        if e.kind == "rcall" and e.name == SA + "evaluate_species_errors":
            for p, x in e.kw:
                if (p.a[0] if isinstance(p, N) else p) == "species_limbo":
                    res.append((model_order(r, x), x, e))
    if not res:
        rep.und("SA.candidates", "the sensitivity analysis considers species in the order of the model", None, "not found")
    else:
        st = tri_all([a for a, _, _ in res])
        a, x, e = [y for y in res if y[0] is st][0]
        rep.put(verdict(False, r, x) if st is False else st, "SA.candidates",
                "the sensitivity analysis considers species in the order of the model", loc(e), str(x)[:200] if st is not True else "")


def check(C, rep):
    R = Rule(C, rep)
    for fid in c10.ROOTS:
        if fid in INNER:
            continue
        if fid not in C.prog.funcs:
            raise AnalysisError(f"anchor {fid} not found")
        rep.section(short(fid), lambda C, rep, fid=fid: R.check(fid))
    for fid in PUBLIC:
        if fid in C.prog.funcs:
            rep.section(short(fid), lambda C, rep, fid=fid: R.check(fid))
    for cid in sim_classes(C):
        for m in c10.METHODS:
            fid = method(C, cid, m)
            if fid is not None:
                rep.section(f"{cid.rsplit('.', 1)[-1]}.{m}", lambda C, rep, fid=fid, cid=cid: R.check(fid, cid))
    rep.section("model order", model_orders)
    rep.note(f"{R.sites} events and {R.sinks} sinks examined")
