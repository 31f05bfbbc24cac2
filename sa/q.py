"""Queries over analysis results: value-flow sources, guards, collection members, printing."""
from . import ir
from .ir import AND, FALSE, N, NONE, NOT, OR, TRUE, UNDEF, cval, deps, is_const, mk, show
from .interp import Interp
from .loader import AnalysisError, Program

S = "pymars.sampling."
SIM = "pymars.simulation."
DRG, DRGEP, PFA = "pymars.drg.", "pymars.drgep.", "pymars.pfa."
SA = "pymars.sensitivity_analysis."
MAIN = "pymars.pymars."

LEAF = frozenset({
    S + "sample", S + "sample_metrics", S + "calculate_error", S + "read_metrics",
    DRG + "create_drg_matrix", DRGEP + "create_drgep_matrix", PFA + "create_pfa_matrix",
    DRG + "trim_drg", PFA + "trim_pfa", DRGEP + "get_importance_coeffs",
    "pymars.reduce_model.trim", "pymars.soln2yaml.write", "pymars.soln2ck.write",
    "pymars.tools.convert", "pymars.tools.compare_models"})
RUNS = frozenset({DRG + "run_drg", DRGEP + "run_drgep", PFA + "run_pfa", SA + "run_sa"})
PARSERS = frozenset({S + "parse_ignition_inputs", S + "parse_psr_inputs", S + "parse_flame_inputs"})
TRACE = frozenset({"pymars.psr_solver.trace_extinction_curve"})


class Ctx:
    def __init__(self, root):
        self.root = root
        self.prog = Program(root)
        self._runs = {}
        self.notes = []
        self.analysed = {}

    def sim_methods(self):
        out = set(TRACE)
        for f in self.prog.funcs.values():
            if f.cls is not None and f.mod.name == "pymars.simulation" and f.fid.rsplit(".", 1)[1] in (
                    "setup_case", "run_case", "calculate", "process_results", "clean"):
                out.add(f.fid)
        return frozenset(out)

    def layer(self, name):
        return {
            "full": frozenset(), "leaf": LEAF, "run": LEAF | RUNS,
            "parse": LEAF | RUNS | PARSERS,
            "cli": LEAF | RUNS | {MAIN + "parse_inputs", MAIN + "main"},
            "sim": self.sim_methods() | {"pymars.reduce_model.trim"},
            "trace": TRACE,
            "nochild": None,
        }[name]

    def run(self, fid, layer="full", args=None, self_cls=None):
        key = (fid, layer, tuple(sorted(args.items(), key=lambda x: x[0])) if args else None, self_cls)
        r = self._runs.get(key)
        if r is None:
            if fid not in self.prog.funcs:
                raise AnalysisError(f"anchor {fid} not found")
            op = layer if isinstance(layer, frozenset) else self.layer(layer)
            it = Interp(self.prog, op - {fid})
            r = it.run(fid, args, self_cls)
            r.fid = fid
            r.ctx = self
            self._runs[key] = r
            self.analysed[fid] = len(r.events)
        return r


# ---------------------------------------------------------------- sources
def project(n, path):
    for k, v in path:
        n = mk("attr", n, v, None) if k == "attr" else mk("item", n, v)
    return n


def strip_ver(n):
    """Forget object versions on attribute nodes (top level)."""
    if n.op == "attr" and n.a[2] is not None:
        return mk("attr", n.a[0], n.a[1], None)
    return n


def sources(r, n, path=(), seen=None):
    """All values that may flow into n (through joins, loops and records)."""
    out = []
    seen = set() if seen is None else seen
    _sources(r.loops, n, tuple(path), seen, out)
    res = []
    for x in out:
        if x not in res:
            res.append(x)
    return res


def _sources(loops, n, path, seen, out):
    key = (n, path)
    if key in seen:
        return
    seen.add(key)
    op = n.op
    if n is UNDEF:
        return
    if op == "phi":
        _sources(loops, n.a[1], path, seen, out)
        _sources(loops, n.a[2], path, seen, out)
    elif op == "mu":
        info = loops.get(n.a[0])
        if info is None:
            out.append(project(n, path))
            return
        for d in ("init", "next"):
            v = info[d].get(n.a[1])
            if v is not None:
                _sources(loops, v, path, seen, out)
    elif op == "out":
        for v in (n.a[2], n.a[3]):
            if v is not None:
                _sources(loops, v, path, seen, out)
    elif op == "last":
        _sources(loops, n.a[2], path, seen, out)
        _sources(loops, n.a[3], path, seen, out)
    elif op == "first":
        _sources(loops, n.a[3], path, seen, out)
    elif op == "maybe":
        _sources(loops, n.a[1], path, seen, out)
        _sources(loops, n.a[2], path, seen, out)
    elif op == "attr":
        _sources(loops, n.a[0], (("attr", n.a[1]),) + path, seen, out) if descend(n.a[0]) else out.append(project(n, path))
    elif op == "item" and n.a[1].op == "const":
        _sources(loops, n.a[0], (("item", n.a[1]),) + path, seen, out) if descend(n.a[0]) else out.append(project(n, path))
    elif op == "nt" and path:
        k, v = path[0]
        flds = dict(n.a[1])
        if k == "attr" and v in flds:
            _sources(loops, flds[v], path[1:], seen, out)
        elif k == "item" and isinstance(cval(v), int) and -len(n.a[1]) <= cval(v) < len(n.a[1]):
            _sources(loops, n.a[1][cval(v)][1], path[1:], seen, out)
        else:
            out.append(project(n, path))
    elif op == "replaced" and path:
        k, v = path[0]
        flds = dict(n.a[1])
        if k == "attr" and v in flds:
            _sources(loops, flds[v], path[1:], seen, out)
        else:
            _sources(loops, n.a[0], path, seen, out)
    elif op == "tuple" and path and path[0][0] == "item" and isinstance(cval(path[0][1]), int):
        i = cval(path[0][1])
        if -len(n.a) <= i < len(n.a):
            _sources(loops, n.a[i], path[1:], seen, out)
    else:
        out.append(project(n, path))


def descend(n):
    if n.op in ("phi", "mu", "out", "last", "first", "nt", "replaced", "maybe", "tuple"):
        return True
    if n.op == "attr" or (n.op == "item" and n.a[1].op == "const"):
        return descend(n.a[0])
    return False


def unwrap_list(n):
    """list(x), tuple(x), x[:], x.copy(), np.array(x) of a sequence -> x."""
    while True:
        if n.op == "coll" and n.a[0] == "list" and len(n.a[1]) == 1 and n.a[1][0][0] == "splice":
            n = n.a[1][0][1]
        elif n.op == "call" and n.a[0] in ("builtins.list", "builtins.tuple", "copy.copy", "copy.deepcopy") and n.a[1]:
            n = n.a[1][0]
        elif n.op == "meth" and n.a[1] == "copy" and not n.a[2]:
            n = n.a[0]
        elif n.op == "item" and n.a[1].op == "slice" and all(x is NONE for x in n.a[1].a):
            n = n.a[0]
        else:
            return n


# ---------------------------------------------------------------- events
def calls(r, *names):
    """Events that call one of the given functions (opaque package functions or externals)."""
    return [e for e in r.events if e.kind in ("rcall", "call", "meth", "new") and e.name in names]


def argmap(e):
    """Argument mapping of a call to a package function (by parameter name)."""
    return dict(e.node.a[1]) if e.kind == "rcall" else dict(e.kw)


def nodearg(n, name):
    """Argument `name` of an rcall node."""
    return dict(n.a[1]).get(name)


def rcalls_in(n, fid):
    return [m for m in deps(n) if m.op == "rcall" and m.a[0] == fid]


def has_unk(n):
    return n is not None and any(m.op == "unk" for m in deps(n))


def has_unk_deep(r, *ns):
    """unk reachable, also through the loop tables."""
    seen, todo = set(), [n for n in ns if isinstance(n, N)]
    while todo:
        n = todo.pop()
        for m in deps(n):
            if m in seen:
                continue
            seen.add(m)
            if m.op == "unk":
                return True
            if m.op == "mu":
                info = r.loops.get(m.a[0])
                if info:
                    for d in ("init", "next"):
                        v = info[d].get(m.a[1])
                        if isinstance(v, N) and v not in seen:
                            todo.append(v)
    return False


def deep_deps(r, *ns):
    """All nodes reachable from ns, also through loop tables."""
    seen, todo = set(), [n for n in ns if isinstance(n, N)]
    while todo:
        n = todo.pop()
        for m in deps(n):
            if m in seen:
                continue
            seen.add(m)
            if m.op == "mu":
                info = r.loops.get(m.a[0])
                if info:
                    for d in ("init", "next"):
                        v = info[d].get(m.a[1])
                        if isinstance(v, N) and v not in seen:
                            todo.append(v)
    return seen


def exc_label(c):
    return c


# ---------------------------------------------------------------- collections
def members(n, guards=(), binders=()):
    """Entries of a collection node, flattened: (kind, payload..., guards, binders)."""
    if n.op == "phi":
        yield from members(n.a[1], guards + (n.a[0],), binders)
        yield from members(n.a[2], guards + (NOT(n.a[0]),), binders)
        return
    if n.op == "tuple":
        for x in n.a:
            yield ("item", x, guards, binders)
        return
    if n.op == "coll":
        for e in n.a[1]:
            yield from _mem(e, guards, binders)
        return
    if n.op == "bin" and n.a[0] == "+":
        yield from members(n.a[1], guards, binders)
        yield from members(n.a[2], guards, binders)
        return
    if n.op == "call" and n.a[0] in ("builtins.sorted", "builtins.list", "builtins.tuple", "builtins.reversed",
                                     "builtins.set", "builtins.frozenset") and n.a[1]:
        yield from members(n.a[1][0], guards, binders)
        return
    if n.op == "removed":
        yield from members(n.a[0], guards, binders)
        return
    yield ("splice", n, guards, binders)


def _mem(e, guards, binders):
    if e[0] == "if":
        for x in e[2]:
            yield from _mem(x, guards + (e[1],), binders)
    elif e[0] == "for":
        for x in e[3]:
            yield from _mem(x, guards, binders + ((e[1], e[2]),))
    elif e[0] == "splice":
        yield from members(e[1], guards, binders)
    elif e[0] == "kv":
        yield ("kv", (e[1], e[2]), guards, binders)
    else:
        yield ("item", e[1], guards, binders)


def atoms(gs):
    """Known-true conjuncts of a list of conditions."""
    out = set()
    for g in gs:
        for x in (g.a if g.op == "and" else (g,)):
            out.add(x)
    return out


# ---------------------------------------------------------------- printing
def dag(n, maxd=400):
    """Readable rendering with shared sub-terms named."""
    names, lines = {}, []

    def complex_(m):
        return m.op in ("rcall", "nt", "mu", "out", "coll", "first", "last", "storefor", "sumfor", "exists", "replaced", "store")

    def ref(m):
        if m.op in ("const", "param", "ext"):
            return show(m)
        if complex_(m):
            if m in names:
                return names[m]
            nm = f"%{len(names)}"
            names[m] = nm
            body = rend(m)
            lines.append(f"  {nm} = {body}")
            return nm
        return rend(m)

    def parts(x):
        if isinstance(x, N):
            return ref(x)
        if isinstance(x, tuple):
            return "(" + ", ".join(parts(y) for y in x) + ")"
        return str(x)

    def rend(m):
        if m.op == "rcall":
            return f"{m.a[0]}(" + ", ".join(f"{k}={ref(v)}" for k, v in m.a[1]) + f")#{m.a[2]}"
        if m.op == "attr":
            return f"{ref(m.a[0])}.{m.a[1]}" + (f"@{m.a[2].id}" if m.a[2] is not None else "")
        if m.op == "item":
            return f"{ref(m.a[0])}[{ref(m.a[1])}]"
        if m.op == "bin":
            return f"({ref(m.a[1])} {m.a[0]} {ref(m.a[2])})"
        if m.op == "phi":
            return f"({ref(m.a[1])} if {ref(m.a[0])} else {ref(m.a[2])})"
        if m.op in ("lt", "le", "eq", "in", "is"):
            return f"({ref(m.a[0])} {m.op} {ref(m.a[1])})"
        if m.op == "call":
            return (m.a[0] if isinstance(m.a[0], str) else ref(m.a[0])) + "(" + ", ".join(
                [ref(x) for x in m.a[1]] + [f"{k}={ref(v)}" for k, v in m.a[2]]) + ")" + (f"#{m.a[3]}" if m.a[3] else "")
        if m.op == "meth":
            return ref(m.a[0]) + "." + m.a[1] + "(" + ", ".join(
                [ref(x) for x in m.a[2]] + [f"{k}={ref(v)}" for k, v in m.a[3]]) + ")" + (f"#{m.a[4]}" if len(m.a) > 4 and m.a[4] else "")
        if m.op in ("and", "or"):
            return "(" + f" {m.op} ".join(ref(x) for x in m.a) + ")"
        if m.op == "not":
            return "!" + ref(m.a[0])
        if m.op == "coll":
            return m.a[0] + "{" + ", ".join(ent(e) for e in m.a[1]) + "}"
        if m.op == "mu":
            return f"mu:{parts(m.a[0])}:{m.a[1]}"
        return m.op + parts(m.a)

    def ent(e):
        if e[0] == "item":
            return ref(e[1])
        if e[0] == "kv":
            return f"{ref(e[1])}: {ref(e[2])}"
        if e[0] == "splice":
            return "*" + ref(e[1])
        if e[0] == "for":
            return f"for {ref(e[1])}'{e[2]}: [" + "; ".join(ent(x) for x in e[3]) + "]"
        if e[0] == "if":
            return f"if {ref(e[1])}: [" + "; ".join(ent(x) for x in e[2]) + "]"
        return str(e)
    top = ref(n)
    return top + ("\n" + "\n".join(lines) if lines else "")


# ---------------------------------------------------------------- guarded value flow
def pcguards(pc):
    return [p[1] for p in pc if p[0] == "g"]


def gsources(r, n, path=(), limit=4000):
    """Pairs (guards, leaf): values that may flow into n together with the conditions under which they do."""
    out = []
    count = [0]

    def go(n, path, gs, busy):
        count[0] += 1
        if count[0] > limit:
            out.append((gs, mk("unk", "too many flows", 0, ())))
            return
        key = (n, path)
        if key in busy or n is UNDEF:
            return
        busy = busy | {key}
        op = n.op
        if op == "phi":
            go(n.a[1], path, gs + (n.a[0],), busy)
            go(n.a[2], path, gs + (NOT(n.a[0]),), busy)
        elif op == "mu":
            info = r.loops.get(n.a[0])
            if info is None:
                out.append((gs, project(n, path)))
                return
            i, x = info["init"].get(n.a[1]), info["next"].get(n.a[1])
            if i is not None:
                go(i, path, gs, busy)
            if x is not None and x is not n:
                go(x, path, gs + tuple(next_guards(info)), busy)
        elif op == "out":
            info = r.loops.get(n.a[0])
            go(n.a[2], path, gs, busy) if n.a[2] is not None else None
            if n.a[3] is not None:
                go(n.a[3], path, gs + tuple(next_guards(info) if info else ()), busy)
        elif op == "last":
            go(n.a[2], path, gs, busy)
            go(n.a[3], path, gs, busy)
        elif op == "first":
            go(n.a[3], path, gs + (n.a[2],), busy)
        elif op == "maybe":
            go(n.a[1], path, gs, busy)
            go(n.a[2], path, gs, busy)
        elif op == "attr":
            if descend(n.a[0]):
                go(n.a[0], (("attr", n.a[1]),) + path, gs, busy)
            else:
                out.append((gs, project(n, path)))
        elif op == "item" and n.a[1].op == "const":
            if descend(n.a[0]):
                go(n.a[0], (("item", n.a[1]),) + path, gs, busy)
            else:
                out.append((gs, project(n, path)))
        elif op == "nt" and path:
            k, v = path[0]
            flds = dict(n.a[1])
            if k == "attr" and v in flds:
                go(flds[v], path[1:], gs, busy)
            elif k == "item" and isinstance(cval(v), int) and -len(n.a[1]) <= cval(v) < len(n.a[1]):
                go(n.a[1][cval(v)][1], path[1:], gs, busy)
            else:
                out.append((gs, project(n, path)))
        elif op == "replaced" and path:
            k, v = path[0]
            flds = dict(n.a[1])
            if k == "attr" and v in flds:
                go(flds[v], path[1:], gs, busy)
            else:
                go(n.a[0], path, gs, busy)
        elif op == "tuple" and path and path[0][0] == "item" and isinstance(cval(path[0][1]), int):
            i = cval(path[0][1])
            if -len(n.a) <= i < len(n.a):
                go(n.a[i], path[1:], gs, busy)
        else:
            out.append((gs, project(n, path)))
    go(n, tuple(path), (), frozenset())
    return out


def next_guards(info):
    """Conditions under which an iteration of the loop is begun and completed."""
    nxt = info.get("nxt")
    if nxt is None:
        return []
    e = info["entry"]
    return pcguards(nxt.pc[len(e.pc):])


def flat(gs):
    out = []
    for g in gs:
        for x in (g.a if g.op == "and" else (g,)):
            if x not in out:
                out.append(x)
    return out
