"""Command line. The entry points are read as decision tables: for one abstract command line of every shape and one abstract input
file of every kind of model, the calls that are reached, with their arguments, are compared with the documented ones."""
import itertools
import os.path

from .c15 import Eval as Eval15, Fn, Loops, O, Reject, Run as Run15, Und, kwargs
from .common import *
from ..ir import N as Node

CLI, CONVERT, ENTRY = "pymars.pymars.pymars", "pymars.tools.convert", "pymars.__main__.main"
PARSE, REDUCE = "pymars.pymars.parse_inputs", "pymars.pymars.main"
EXPORT = "pymars.soln2ck.write"
ASSUMES = ["argparse, yaml.safe_load and cantera.ck2yaml behave as documented",
           "a worker count of zero or None means all cores but one (decided under C08)"]
GIVEN = "given by the caller"
FLAGS = {"--permissive": 0, "-p": 0, "--quiet": 0, "-q": 0, "--verbose": 0, "-v": 0, "--no-validate": 0, "--single-intermediate-temperature": 0,
         "--input": 1, "--thermo": 1, "--transport": 1, "--surface": 1, "--extra": 1, "--name": 1, "--output": 1}


class Stop(Exception):
    """The program ends."""

    def __init__(self, how, what=None):
        Exception.__init__(self, how, what)
        self.how, self.what = how, what


class PathV(str):
    pass


class Opt:
    def __init__(self, names, kw):
        self.flags = [x for x in names if x.startswith("-")]
        if not self.flags:
            raise Und("a positional argument")
        unknown = set(kw) - {"help", "type", "default", "nargs", "const", "action", "dest", "metavar", "required", "choices"}
        if unknown:
            raise Und(f"an option with {', '.join(unknown)}")
        long = [x for x in self.flags if x.startswith("--")]
        self.dest = kw.get("dest") or (long or self.flags)[0].lstrip("-").replace("-", "_")
        self.type, self.default, self.nargs, self.const = kw.get("type"), kw.get("default"), kw.get("nargs"), kw.get("const")
        self.action, self.required, self.choices = kw.get("action", "store"), kw.get("required", False), kw.get("choices")
        if self.action == "store_true":
            self.default = kw.get("default", False)
        elif self.action == "store_false":
            self.default = kw.get("default", True)
        elif self.action not in ("store", "version", "store_const"):
            raise Und(f"action {self.action}")

    def conv(self, s):
        t = self.type.name if isinstance(self.type, Fn) else None
        if t in ("int", "float"):
            try:
                s = int(s) if t == "int" else float(s)
            except ValueError:
                raise Stop("error", f"invalid {t}")
        elif self.type is not None and t not in ("str", "Path"):
            raise Und("the type of an option")
        if self.choices is not None and s not in self.choices:
            raise Stop("error", "not among the choices")
        return s


def parse_args(opts, argv):
    """The namespace, as argparse makes it."""
    ns = {o.dest: o.default for o in opts}
    by = {f: o for o in opts for f in o.flags}
    seen = set()
    i = 0
    while i < len(argv):
        s = argv[i]
        val = None
        if s not in by and "=" in s:
            s, val = s.split("=", 1)
        if s in ("-h", "--help"):
            raise Stop("exit", 0)
        if s not in by:
            c = [f for f in by if f.startswith("--") and s.startswith("--") and f.startswith(s)]
            if len(c) != 1:
                raise Stop("error", f"unrecognised argument {s}")
            s = c[0]
        o = by[s]
        seen.add(o)
        i += 1
        if o.action == "version":
            raise Stop("exit", 0)
        if o.action in ("store_true", "store_false", "store_const"):
            ns[o.dest] = True if o.action == "store_true" else False if o.action == "store_false" else o.const
            continue
        rest = [val] if val is not None else list(itertools.takewhile(lambda x: not x.startswith("-"), argv[i:]))
        if o.nargs is None:
            if not rest:
                raise Stop("error", f"{s} expects an argument")
            ns[o.dest] = o.conv(rest[0])
            i += val is None
        elif o.nargs == "?":
            ns[o.dest] = o.conv(rest[0]) if rest else o.const
            i += val is None and bool(rest)
        else:
            raise Und(f"nargs {o.nargs}")
    if any(o.required and o not in seen for o in opts):
        raise Stop("error", "a required argument is missing")
    return ns


class World:
    def __init__(self, argv=None, file=None, cores=8, desc=""):
        self.argv, self.file, self.cores, self.desc = argv, file, cores, desc
        self.opts, self.species, self.rx = [], [], []


WRITTEN = ["the exported mechanism file", "the exported thermo file", "the exported transport file"]


class Eval(Eval15):
    """Values of one world."""

    def op_ext(self, n, env):
        if str(n) == "sys.argv":
            return ["pymars"] + list(self.w.argv or [])
        return Eval15.op_ext(self, n, env)

    def op_global(self, n, env):
        raise Und("a global")

    def op_nt(self, n, env):
        raise Und("a record")

    def op_rcall(self, n, env):
        fid = n.a[0]
        args = [self.v(x[1] if isinstance(x, tuple) else x, env) for x in n.a[1]]
        if fid == CONVERT:
            f = args[0]
            back = ["the exported files"] if isinstance(f, str) and os.path.splitext(f)[1] in (".yaml", ".yml", ".cti") else f"converted {f}"
            return back
        if fid == PARSE:
            return O("inputs", ("ReductionInputs",), of=args[0])
        if fid == EXPORT:
            return list(WRITTEN)
        if fid in (CLI, REDUCE):
            return O("status" if fid == CLI else "result")
        raise Und(f"call {fid}")

    def attr(self, x, name):
        if isinstance(x, O) and x.kind == "inputs":
            return ("field", name, id(x.at["of"]))
        if isinstance(x, O) and x.kind == "args":
            if name in x.at:
                return x.at[name]
            raise Reject(f"no attribute {name}", "AttributeError")
        if isinstance(x, PathV):
            b = os.path.basename(x)
            if name in ("suffix", "stem", "name"):
                return os.path.splitext(b)[1] if name == "suffix" else os.path.splitext(b)[0] if name == "stem" else b
            if name == "parent":
                return PathV(os.path.dirname(x) or ".")
            raise Und(f"attribute {name}")
        return Eval15.attr(self, x, name)

    def op_isinst(self, n, env):
        x, t = self.v(n.a[0], env), str(n.a[1]).split(".")[-1]
        if t in ("list", "str", "dict", "tuple"):
            return isinstance(x, {"list": list, "str": str, "dict": dict, "tuple": tuple}[t]) and not isinstance(x, PathV)
        raise Und("isinstance")

    def op_meth(self, n, env):
        b = self.v(n.a[0], env)
        nm = n.a[1]
        xs = [self.v(x, env) for x in n.a[2]]
        kw = {k: self.v(x, env) for k, x in (dict(n.a[3]) if len(n.a) > 3 and n.a[3] else {}).items()}
        if isinstance(b, O) and b.kind == "parser":
            if nm in ("parse_args", "parse_known_args"):
                argv = xs[0] if xs else kw.get("args")
                if argv is None:
                    argv = self.w.argv
                if not isinstance(argv, (list, tuple)):
                    raise Und("the arguments")
                ns = O("args", **parse_args(self.w.opts, list(argv)))
                return ns if nm == "parse_args" else (ns, [])
            if nm in ("add_argument_group", "add_mutually_exclusive_group"):
                return b
            if nm in ("error", "exit", "add_argument", "print_help", "print_usage"):
                return None
            raise Und(f"method {nm}")
        if isinstance(b, O) and b.kind == "file":
            if nm in ("read", "__enter__"):
                return b
            raise Und(f"method {nm}")
        if isinstance(b, PathV):
            if nm in ("open", "read_text"):
                return O("file", path=str(b))
            if nm in ("with_suffix", "with_name"):
                p, e = os.path.splitext(b)
                return PathV(p + xs[0]) if nm == "with_suffix" else PathV(os.path.join(os.path.dirname(b), xs[0]))
            if nm == "joinpath":
                return PathV(os.path.join(b, *xs))
        if isinstance(b, Node):
            raise Und("method")
        return self.method(b, nm, xs, kw)

    def binary(self, o, a, b):
        if o == "/" and isinstance(a, PathV) and isinstance(b, str):
            return PathV(os.path.join(a, b))
        return Eval15.binary(self, o, a, b)

    def op_call(self, n, env):
        nm, kw = n.a[0], dict(n.a[2])
        if not isinstance(nm, str):
            return Eval15.op_call(self, n, env)
        if nm in ("argparse.ArgumentParser",):
            return O("parser")
        if nm == "builtins.open":
            x = self.v(n.a[1][0], env)
            return O("file", path=x)
        if nm in ("yaml.safe_load", "yaml.load", "yaml.full_load"):
            x = self.v(n.a[1][0], env)
            if isinstance(x, O) and x.kind == "file":
                if not isinstance(x.at["path"], str):
                    raise Reject("no such file", "TypeError")
                if self.w.file is None or x.at["path"] != self.w.file[0]:
                    return {"model": "another file.yaml", "of": x.at["path"]}
                return self.w.file[1]
            raise Und("the input file")
        if nm.startswith("os.path."):
            s = nm.split(".")[-1]
            xs = [self.v(x, env) for x in n.a[1]]
            if not all(isinstance(x, str) for x in xs):
                if any(x is None for x in xs):
                    raise Reject(f"{s} of None", "TypeError")
                raise Und(s)
            if s in ("splitext", "basename", "dirname", "join", "split", "normpath"):
                return getattr(os.path, s)(*xs)
            raise Und(s)
        if nm in ("multiprocessing.cpu_count", "os.cpu_count"):
            return self.w.cores
        if nm in ("pathlib.Path", "pathlib.PurePath"):
            xs = [self.v(x, env) for x in n.a[1]]
            if all(isinstance(x, str) for x in xs):
                return PathV(os.path.join(*xs)) if xs else PathV(".")
            raise Und("a path")
        if nm in ("os.fspath", "builtins.str") and len(n.a[1]) == 1:
            x = self.v(n.a[1][0], env)
            if isinstance(x, str):
                return str(x)
        if nm == "cantera.Solution":
            xs = [self.v(x, env) for x in n.a[1]]
            kv = {k: self.v(x, env) for k, x in kw.items()}
            return O("solution", file=(xs or [kv.get("infile")])[0], phase=xs[1] if len(xs) > 1 else kv.get("name", ""))
        if nm in ("builtins.list", "builtins.tuple", "builtins.dict", "builtins.len", "builtins.bool", "builtins.max", "builtins.min", "builtins.int", "builtins.any",
                  "builtins.all", "builtins.getattr", "builtins.print", "builtins.sorted", "builtins.set", "builtins.zip", "builtins.enumerate", "builtins.range"):
            return Eval15.op_call(self, n, env)
        if nm == "builtins.vars" and len(n.a[1]) == 1:
            x = self.v(n.a[1][0], env)
            if isinstance(x, O) and x.kind == "args":
                return dict(x.at)
        raise Und(f"call {nm}")

    def item(self, b, i):
        if isinstance(b, O) and b.kind == "inputs":
            raise Und("a field by number")
        return Eval15.item(self, b, i)


class Run(Run15):
    """The calls that one world reaches, in order."""

    def __init__(self, r, ev):
        self.calls = []
        Run15.__init__(self, r, ev)

    @staticmethod
    def relevant(e):
        if e.kind in ("raise", "rcall"):
            return True
        if e.kind == "meth":
            return e.name in ("add_argument", "set_defaults", "add_subparsers", "parse_args", "parse_known_args", "error", "print_help")
        if e.kind == "mutate":
            return True
        return e.kind == "call" and (str(e.name).startswith("cantera.ck2yaml") or e.name in ("builtins.open", "subprocess.run", "subprocess.call", "os.system"))

    def emit(self, e, env):
        ev = self.ev
        if e.kind == "raise":
            n = strip_versions(e.node) if isinstance(e.node, Node) else None
            if e.name == "SystemExit" and n is not None and n.op == "call" and n.a[0] in ("sys.exit", "builtins.exit", "builtins.quit"):
                raise Stop("exit", ev.v(n.a[1][0], env) if n.a[1] else 0)
            if e.name == "SystemExit" and n is not None and n.op == "meth" and n.a[1] == "error":
                raise Stop("error")
            if e.name == "SystemExit" and n is not None and n.op == "meth" and n.a[1] == "exit":
                kw = dict(n.a[3]) if len(n.a) > 3 and n.a[3] else {}
                raise Stop("exit", ev.v(n.a[2][0], env) if n.a[2] else ev.v(kw["status"], env) if "status" in kw else 0)
            if e.name == "SystemExit":
                if e.args and isinstance(e.args[0], Node) and e.args[0].op == "call":
                    xs = e.args[0].a[1]
                    raise Stop("exit", ev.v(xs[0], env) if xs else 0)
                raise Und("an exit")
            raise Stop("raise", e.name)
        if e.kind == "mutate":
            return
        if e.kind == "meth":
            b = ev.v(strip_versions(e.args[0]), env)
            if not (isinstance(b, O) and b.kind == "parser"):
                return
            if e.name == "add_argument":
                xs = [ev.v(strip_versions(x), env) for x in e.args[1:]]
                ev.w.opts.append(Opt(xs, {k: ev.v(strip_versions(x), env) for k, x in kwargs(e) if k not in ("help", "metavar")}))
            elif e.name in ("parse_args", "parse_known_args"):
                xs = [ev.v(strip_versions(x), env) for x in e.args[1:]]
                argv = xs[0] if xs else ev.w.argv
                parse_args(ev.w.opts, list(argv) if argv is not None else [])
            elif e.name == "error":
                raise Stop("error")
            elif e.name != "print_help":
                raise Und(e.name)
            return
        if e.kind == "call":
            kw = {k: ev.v(strip_versions(x), env) for k, x in kwargs(e)}
            self.calls.append((e.name, [ev.v(strip_versions(x), env) for x in e.args], kw))
            return
        kw = {k: strip_versions(x) for k, x in kwargs(e)}
        self.calls.append((e.name, None, {k: ev.v(x, env) for k, x in kw.items()}))


class Table:
    """One obligation over several worlds."""

    def __init__(self):
        self.bad = self.und = None
        self.n = 0

    def put(self, rep, key, what, at, r):
        rep.put(verdict(False, r) if self.bad else None if self.und else True, key, what, at, self.bad or self.und or f"{self.n} cases")


def follow(r, w, params):
    ev = Eval(w, params, Loops(r))
    run = None
    calls, stop = [], None
    run = Run.__new__(Run)
    run.calls = calls
    try:
        Run15.__init__(run, r, ev)
    except Stop as ex:
        stop = ex
    except Reject as ex:
        stop = Stop("crash", ex.name)
    return ev, calls, stop


def failure(stop):
    return stop is not None and (stop.how in ("error", "raise", "crash") or stop.how == "exit" and stop.what not in (0, None))


def said(stop):
    return "goes on to the end" if stop is None else f"ends with {stop.how}" + (f" {stop.what}" if stop.what is not None else "")


MODELS = ("mech.yaml", "dir/mech.yml", "mech.inp", "dir.v2/mech.dat", "chem", "a.b/mech.txt", "mech.yaml.inp")


def native(f):
    return os.path.splitext(f)[1] in (".yaml", ".yml")


def cli(C, rep):
    if CLI not in C.prog.funcs:
        raise AnalysisError(f"anchor {CLI} not found")
    fn = C.prog.funcs[CLI]
    at = (fn.mod.path, fn.node.lineno)
    r = C.run(CLI, frozenset(C.layer("cli") | {CONVERT}))
    p0 = P(fn.node.args.args[0].arg)
    T = {}

    def judge_(key, w, test):
        t = T.setdefault(key, Table())
        t.n += 1
        w.opts = []
        try:
            ev, calls, stop = follow(r, w, {p0: list(w.argv)})
            msg = test(ev, calls, stop)
            if msg:
                t.bad = t.bad or f"{' '.join(w.argv) or 'no arguments'}{w.desc}: {msg}"
        except Stop as ex:
            t.bad = t.bad or f"{' '.join(w.argv)}: {said(ex)}"
        except Reject as ex:
            t.bad = t.bad or f"{' '.join(w.argv)}{w.desc}: {ex}"
        except Und as ex:
            t.und = t.und or f"{' '.join(w.argv)}: {ex}"

    def of(calls, fid):
        return [c for c in calls if c[0] == fid]

    def ends_badly(ev, calls, stop):
        if not failure(stop) or stop.how == "crash":
            return said(stop) + " instead of reporting an error"
        if of(calls, CONVERT) or of(calls, REDUCE):
            return "acts before the error is reported"

    judge_("error.none", World([]), ends_badly)
    for extra in ([], ["--path", "out"], ["--num_threads"], ["--thermo", "t.dat"], ["--num_threads", "4"]):
        if extra:
            judge_("error.no-input", World(extra), ends_badly)
        judge_("error.no-model", World(["--convert"] + extra), ends_badly)
        judge_("error.no-model", World(["--convert", "-i", "in.yaml"] + extra, ("in.yaml", {"model": "mech.yaml"})), ends_badly)
        judge_("error.no-input", World(["--model", "mech.yaml"] + extra), ends_badly)
    for v in ("--version", "-V"):
        def version(ev, calls, stop):
            if failure(stop) or stop is None:
                return said(stop)
            if calls:
                return "acts as well"
        judge_("version", World([v]), version)
        judge_("version", World([v, "-i", "in.yaml"], ("in.yaml", {"model": "mech.yaml"})), version)

    opts = []
    for th, tr, pa in itertools.product((None, "t.dat"), (None, "tr.dat"), (None, "out/dir")):
        opts.append((th, tr, pa, (["--thermo", th] if th else []) + (["--transport", tr] if tr else []) + (["--path", pa] if pa else [])))

    def conversion(m, th, tr, pa):
        def test(ev, calls, stop):
            if failure(stop):
                return said(stop)
            if of(calls, REDUCE) or of(calls, PARSE):
                return "a reduction is run"
            cs = of(calls, CONVERT)
            if len(cs) != 1:
                return f"{len(cs)} conversions"
            return wrong_conversion(cs[0][2], m, th, tr, pa)
        return test

    def wrong_conversion(kw, m, th, tr, pa):
        for k, x in (("model_file", m), ("thermo_file", th), ("transport_file", tr), ("path", pa)):
            g = kw.get(k)
            if (g or None) != (x or None):
                return f"the {k.replace('_', ' ')} of the conversion is {g!r} instead of {x!r}"

    for m in MODELS:
        for th, tr, pa, o in opts:
            for flag in ("--model", "-m"):
                judge_("convert", World(["--convert", flag, m] + o), conversion(m, th, tr, pa))
    judge_("convert", World(["--convert", "-m", "mech.inp", "-i", "in.yaml"], ("in.yaml", {"model": "other.yaml"})), conversion("mech.inp", None, None, None))

    def reduction(d, th, tr, pa, workers):
        m = d.get("model", "")

        def test(ev, calls, stop):
            if failure(stop):
                return said(stop)
            cs, ps, ms = of(calls, CONVERT), of(calls, PARSE), of(calls, REDUCE)
            if m and not native(m):
                if len(cs) != 1:
                    return f"{len(cs)} conversions of a Chemkin model"
                bad = wrong_conversion(cs[0][2], m, th, tr, pa)
                if bad:
                    return bad
                want = {**d, "model": f"converted {m}"}
            else:
                if cs:
                    return f"the model {m or '(none)'} is converted"
                want = d
            if len(ps) != 1 or len(ms) != 1:
                return f"{len(ms)} reductions"
            got = list(ps[0][2].values())[0]
            if got != want:
                return f"the settings are {got} instead of {want}"
            kw = ms[0][2]
            if (kw.get("path") or "") != (pa or ""):
                return f"the output path is {kw.get('path')!r} instead of {pa!r}"
            n = kw.get("num_threads")
            every = max(1, ev.w.cores - 1)
            if workers is None and not (n in (0, None) or n == every) or workers is not None and n != workers:
                return f"the worker count is {n!r}"
            f = kw.get("model_file")
            if not (isinstance(f, tuple) and f[:2] == ("field", "model")):
                return f"the model of the reduction is {f!r}"
        return test

    for m in ("",) + MODELS:
        for th, tr, pa, o in opts:
            d = {"error": 10.0, "method": "DRGEP"}
            if m:
                d["model"] = m
            for flag in ("-i", "--input"):
                judge_("model." + ("none" if not m else "native" if native(m) else "converted"), World([flag, "in/put.yaml"] + o, ("in/put.yaml", d), desc=f", model {m}"),
                       reduction(d, th, tr, pa, 1))
    d = {"model": "mech.yaml", "error": 5}
    for cores in (1, 2, 8):
        judge_("workers.all", World(["-i", "in.yaml", "--num_threads"], ("in.yaml", d), cores), reduction(d, None, None, None, None))
        judge_("workers.all", World(["--num_threads", "-i", "in.yaml"], ("in.yaml", d), cores), reduction(d, None, None, None, None))
        judge_("workers.default", World(["-i", "in.yaml"], ("in.yaml", d), cores), reduction(d, None, None, None, 1))
        for n in (1, 2, 5, 16):
            judge_("workers.number", World(["-i", "in.yaml", "--num_threads", str(n), "--path", "out"], ("in.yaml", d), cores), reduction(d, None, None, "out", n))
            judge_("workers.number", World([f"--num_threads={n}", "--input=in.yaml"], ("in.yaml", d), cores), reduction(d, None, None, None, n))
    text = {"error.none": "a call without arguments is reported as an error", "error.no-input": "a missing input file is reported as an error before anything is done",
            "error.no-model": "a conversion without a model is reported as an error", "version": "asking for the version does nothing else and succeeds",
            "convert": "a conversion converts the given model with the given files and path, and nothing else",
            "model.none": "an input file without a model reaches the validation unchanged", "model.native": "a model in the native format is used as it is",
            "model.converted": "a Chemkin model is converted with the given files, and the run uses the result",
            "workers.all": "the worker option without a number stands for all cores but one", "workers.default": "without the worker option there is one worker",
            "workers.number": "the given worker count and path reach the reduction"}
    for k, t in T.items():
        t.put(rep, "cli." + k, text[k], at, r)


def convert(C, rep):
    if CONVERT not in C.prog.funcs:
        raise AnalysisError(f"anchor {CONVERT} not found")
    fn = C.prog.funcs[CONVERT]
    at = (fn.mod.path, fn.node.lineno)
    r = C.run(CONVERT, frozenset({EXPORT}))
    names = [x.arg for x in fn.node.args.args]
    T = {k: Table() for k in ("export", "import", "import.files", "result")}

    def one(m, th, tr, pa):
        w = World(desc=f"{m}, {th!r}, {tr!r}, {pa!r}")
        ks = ["export", "result"] if native(m) else ["import", "import.files", "result"]
        for k in ks:
            T[k].n += 1

        def bad(k, msg):
            T[k].bad = T[k].bad or f"{m}, thermo {th!r}, transport {tr!r}, path {pa!r}: {msg}"
        try:
            params = dict(zip((P(a) for a in names), (m, th, tr, pa)))
            ev, calls, stop = follow(r, w, params)
            main = "export" if native(m) else "import"
            if stop is not None:
                return bad(main, said(stop))
            base = os.path.splitext(os.path.basename(m))[0]
            ex = [c for c in calls if c[0] == EXPORT]
            ck = [c for c in calls if str(c[0]).startswith("cantera.ck2yaml")]
            res = ev.v(strip_versions(r.retf))
            if native(m):
                if ck or len(ex) != 1:
                    return bad("export", f"{len(ex)} exports and {len(ck)} imports")
                kw = ex[0][2]
                s = kw.get("solution")
                if not (isinstance(s, O) and s.kind == "solution" and s.at["file"] == m):
                    bad("export", f"another model than {m} is exported")
                elif s.at["phase"] not in ("", None):
                    bad("export", f"the phase {s.at['phase']!r} is exported")
                f = os.path.join(kw.get("path") or "", kw.get("output_filename") or "")
                if f != os.path.join(pa, base + ".inp"):
                    bad("export", f"the file is {f!r}")
                if kw.get("skip_thermo") or kw.get("skip_transport"):
                    bad("export", "data are left out")
                if not (isinstance(res, (list, tuple)) and list(res) == WRITTEN):
                    bad("result", f"the result is {res!r} instead of the written files")
                return
            if ex or len(ck) != 1:
                return bad("import", f"{len(ex)} exports and {len(ck)} imports")
            got = importer(ck[0])
            want = os.path.join(pa, base + ".yaml")
            if got.get("--input") != m:
                bad("import", f"{got.get('--input')!r} is read")
            if os.path.normpath(got.get("--output") or "") != os.path.normpath(want):
                bad("import", f"{got.get('--output')!r} is written instead of {want!r}")
            if not got.get("--permissive"):
                bad("import", "it is not permissive")
            for k, x in (("--thermo", th), ("--transport", tr)):
                if (got.get(k) or None) != (x or None):
                    bad("import.files", f"{k[2:]} file {got.get(k)!r}")
            if any(got.get(k) not in (None, "", "gas") for k in ("--surface", "--name", "--extra")):
                bad("import", "further options")
            if not isinstance(res, str) or os.path.normpath(res) != os.path.normpath(want):
                bad("result", f"the result is {res!r} instead of {want!r}")
        except Reject as ex:
            bad(ks[0], str(ex))
        except Stop as ex:
            bad(ks[0], said(ex))
        except Und as ex:
            for k in ks:
                T[k].und = T[k].und or str(ex)

    for m in MODELS:
        for th in (None, "", "t.dat", "dir/t.dat"):
            for tr in (None, "", "tr.dat"):
                for pa in ("", "out/dir"):
                    one(m, th, tr, pa)
    text = {"export": "a native model is exported, complete, to a Chemkin file of the same name in the given directory",
            "import": "other models are converted, permissively, to a native file of the same name in the given directory",
            "import.files": "exactly the given thermodynamic and transport files are passed on", "result": "the converted file or files are returned"}
    for k, t in T.items():
        t.put(rep, "convert." + k, text[k], at, r)


def importer(c):
    """Options of cantera.ck2yaml."""
    name, args, kw = c
    f = name.split(".")[-1]
    out = {}
    if f == "main":
        argv = args[0] if args else kw.get("argv")
        if not isinstance(argv, (list, tuple)) or not all(isinstance(x, str) for x in argv):
            raise Und("the arguments of ck2yaml")
        i = 0
        while i < len(argv):
            k, eq, v = argv[i].partition("=")
            i += 1
            if k not in FLAGS:
                raise Reject(f"ck2yaml does not know {k}")
            if not FLAGS[k]:
                out["--permissive" if k == "-p" else k] = True
            elif eq:
                out[k] = v
            else:
                if i >= len(argv) or argv[i].startswith("-"):
                    raise Reject(f"ck2yaml misses the value of {k}")
                out[k] = argv[i]
                i += 1
        return out
    if f in ("convert", "convert_mech"):
        pos = ["--input", "--thermo", "--transport", "--surface"]
        nm = {"input_file": "--input", "thermo_file": "--thermo", "transport_file": "--transport", "surface_file": "--surface", "phase_name": "--name",
              "extra_file": "--extra", "out_name": "--output", "permissive": "--permissive", "quiet": "--quiet", "verbose": "--verbose"}
        out.update(zip(pos, args))
        for k, x in kw.items():
            if k not in nm:
                raise Und(k)
            out[nm[k]] = x
        return out
    raise Und(name)


def entry(C, rep):
    if ENTRY not in C.prog.funcs:
        raise AnalysisError(f"anchor {ENTRY} not found")
    fn = C.prog.funcs[ENTRY]
    at = (fn.mod.path, fn.node.lineno)
    r = C.run(ENTRY, frozenset({CLI}))
    T = Table()
    S = Table()
    rr = C.run(CLI, frozenset(C.layer("cli") | {CONVERT})) if CLI in C.prog.funcs else None
    status = strip_versions(rr.retf) if rr is not None and rr.retf is not None else NONE
    for argv, given in ((["-i", "a"], None), ([], None), (["x"], ["-V"]), (["x"], [])):
        T.n += 1
        S.n += 1
        try:
            ev, calls, stop = follow(r, World(argv), {P(a.arg): given for a in fn.node.args.args[:1]})
            want = argv if given is None else given
            cs = [c for c in calls if c[0] == CLI]
            if stop is not None or len(cs) != 1 or list(list(cs[0][2].values())[0]) != want:
                T.bad = T.bad or f"called with {given}, command line {argv}: " + (said(stop) if stop else f"{[list(c[2].values()) for c in cs]}")
            res = ev.v(strip_versions(r.retf)) if r.retf is not None else None
            if isinstance(res, O) and res.kind == "status":
                if status is not NONE:
                    S.und = "the result of pymars"
            elif res is not None and res != 0:
                S.bad = S.bad or f"the exit status is {res!r} after success"
        except (Reject, Stop) as ex:
            T.bad = T.bad or str(ex)
        except Und as ex:
            T.und = T.und or str(ex)
            S.und = S.und or str(ex)
    T.put(rep, "entry.arguments", "the entry point passes on its arguments, or those of the command line", at, r)
    S.put(rep, "entry.status", "success is an exit status of zero", at, r)


def check(C, rep):
    rep.section("cli", cli)
    rep.section("convert", convert)
    rep.section("entry", entry)
