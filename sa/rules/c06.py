"""For each kind of case the metric and sample vectors are flattened in every case of a finite table: metric file and
data file present or not, number of metrics, rows and columns right or wrong (and, for the metrics of the sensitivity
analysis, reuse allowed or not). They must be the saved arrays exactly when everything matches and freshly simulated
otherwise. Comparisons of sizes are read as linear forms over (number of metrics, rows, columns, number of cases,
number of species). The save calls, the deletions before them and the calls that may reuse files are enumerated."""
import itertools
from .c04 import *
from .c04 import judge_leaf

ASSUMES = ["numpy.genfromtxt reads what numpy.savetxt wrote", "files are not changed by others during a run"]
ROWS = {"ignition": 20, "psr": 3, "flame": 20}
READ = ("numpy.genfromtxt", "numpy.loadtxt")


def bare(n):
    while n.op == "call" and n.a[0] in FLAT and n.a[1]:
        n = n.a[1][0]
    return n


def read_of(n):
    n = bare(n)
    if n.op == "call" and n.a[0] in READ and n.a[1]:
        return n.a[1][0]
    return None


def savefiles(r):
    """{kind: {"metric": file, "sample": file}} from the save calls, with their events."""
    out = {k: {} for k in KINDS}
    ev = []
    for e in calls(r, "numpy.savetxt", "numpy.save"):
        am = argmap(e)
        f, x = am.get("fname", am.get("file")), am.get("X", am.get("arr"))
        if f is None or x is None:
            f, x = (e.args + (None, None))[:2]
        got = None
        for k in KINDS:
            V = Vec(nofile(present({k})))
            try:
                segs = V.flat(x)
            except Und:
                continue
            for part in ("metric", "sample"):
                if len(segs) == 1 and expected(r, segs[0], k, judge_leaf(r, part))[0] is True:
                    got = (k, part)
        ev.append((e, f, x, got))
        if got:
            out[got[0]][got[1]] = f
    return out, ev


RIGHT = dict(out=True, data=True, M=True, R=True, W=True)


class Reader:
    """Atoms in one case of the table for kind k."""

    def __init__(self, k, files, sc, base, others=()):
        self.k, self.files, self.sc, self.base = k, files, sc, base
        self.others = [Reader(k2, f2, RIGHT, base) for k2, f2 in others]

    def var(self, n):
        """Name of a measured quantity."""
        if n.op == "call" and n.a[0] == "builtins.len" and n.a[1][0] is conds(self.k) or n.op == "attr" and n.a[1] == "size" and \
                n.a[0] is conds(self.k):
            return "L"
        if n.op == "attr" and n.a[1] == "n_species":
            return "N"
        if n.op == "call" and n.a[0] == "builtins.len" and n.a[1][0].op == "attr" and n.a[1][0].a[1] == "species_names":
            return "N"
        m, what = None, None
        if n.op == "attr" and n.a[1] == "size":
            m, what = n.a[0], "size"
        elif n.op == "call" and n.a[0] in ("builtins.len", "numpy.size"):
            m, what = n.a[1][0], "size" if n.a[0] == "numpy.size" else "len"
        elif n.op == "item" and n.a[0].op == "attr" and n.a[0].a[1] == "shape" and n.a[1].op == "const":
            m, what = n.a[0].a[0], "shape%s" % cval(n.a[1])
        elif n.op == "call" and n.a[0] == "numpy.shape":
            return None
        if m is None:
            return None
        m = self.pick(m)
        if m is None:
            return None
        f = read_of(m)
        if f is None:
            b = bare(m)
            if b.op == "coll" and not b.a[1] or b.op == "call" and b.a[0] in EMPTY and b.a[1] and is_const(b.a[1][0], 0):
                return "0"
            if b.op == "call" and b.a[0] in ("numpy.zeros", "numpy.empty") and self.var(b.a[1][0]) == "L":
                return "L"
            return None
        if f is self.files.get("metric"):
            return {"size": "M", "len": "M", "shape0": "M"}.get(what)
        if f is self.files.get("sample"):
            return {"len": "R", "shape0": "R", "shape1": "W", "shape-1": "W", "size": "RW"}.get(what)
        return None

    def pick(self, m):
        while True:
            b = bare(m)
            if b.op != "phi":
                return m
            t = tri(b.a[0], self.atom)
            if t is None:
                return None
            m = b.a[1] if t else b.a[2]

    def side(self, n):
        while n.op == "phi":
            t = tri(n.a[0], self.atom)
            if t is None:
                return None
            n = n.a[1] if t else n.a[2]
        lin = linear(n)
        if lin is None:
            return None
        out = {}
        for x, c in lin.items():
            v = 1 if x == 1 else self.var(x)
            if v is None:
                return None
            if v != "0":
                out[v] = out.get(v, 0) + c
        return out

    def atom(self, c):
        v = self.atom0(c)
        for o in self.others:
            if v is None:
                v = o.atom(c)
        return v

    def atom0(self, c):
        sc = self.sc
        v = self.base(c)
        if v is not None:
            return v
        x = c.a[0] if c.op == "truth" else c
        if x.op == "call" and x.a[0] in ("os.path.isfile", "os.path.exists") and x.a[1]:
            for part, have in (("metric", sc["out"]), ("sample", sc["data"])):
                if x.a[1][0] is self.files.get(part):
                    return have
        if c.op in ("eq", "le", "lt"):
            a, b = self.side(c.a[0]), self.side(c.a[1])
            if a is None or b is None:
                return None
            d = dict(a)
            for k, w in b.items():
                d[k] = d.get(k, 0) - w
            right = {"M": (sc["M"], {"L": NPER[self.k]}), "R": (sc["R"], {"L": ROWS[self.k]}), "W": (sc["W"], {"N": 1, 1: 2})}
            wrong = False
            for vname, (ok, val) in right.items():
                w = d.pop(vname, 0)
                if w:
                    for k, u in val.items():
                        d[k] = d.get(k, 0) + w * u
                    wrong = wrong or not ok
            d = {k: w for k, w in d.items() if w}
            if not d:                       # equal when everything is right
                if wrong:
                    return False if c.op == "eq" else None
                return c.op in ("eq", "le")
            if set(d) == {1}:
                if wrong:
                    return None
                return False if c.op == "eq" else d[1] <= 0 if c.op == "le" else d[1] < 0
            if not wrong and set(d) <= {"L", 1} and len(set(w > 0 for w in d.values())) == 1:
                return False if c.op == "eq" else all(w < 0 for w in d.values())     # counts are positive
            return None
        return None

    def loose(self, c):
        """A comparison that measures a saved array but does not settle a mismatch."""
        if c.op == "truth":
            c = c.a[0]
        if c.op in ("le", "lt", "eq"):
            a, b = self.side(c.a[0]), self.side(c.a[1])
            if a is not None and b is not None:
                return bool({"M", "R", "W"} & (set(a) | set(b)))
        if c.op in ("le", "lt", "eq") or c.op == "bin" and c.a[0] in ("//", "%"):
            if any(m.op in ("unk", "mu", "phi") for m in deps(c)):
                return False
            vs = {self.var(x) for x in deps(c)} - {None, "0"}
            return bool(vs & {"M", "R", "W"})
        return False


def table(reuse=None):
    for out, data, m, rr, w in itertools.product((True, False), repeat=5):
        if not out and not m or not data and not (rr and w):
            continue
        yield dict(out=out, data=data, M=m, R=rr, W=w)


def say(sc, metrics=False):
    t = ["metric file " + ("present" if sc["out"] else "absent")]
    if not metrics:
        t.append("data file " + ("present" if sc["data"] else "absent"))
    if sc["out"]:
        t.append(("right" if sc["M"] else "wrong") + " number of metrics")
    if sc["data"] and not metrics:
        t.append(("right" if sc["R"] else "wrong") + " number of rows")
        t.append(("right" if sc["W"] else "wrong") + " number of columns")
    if "mate" in sc:
        t.append(f"matching files of {sc['mate']} cases")
    return ", ".join(t)


def outcomes(r, k, files, sc, base, n, part, i=None, others=()):
    """Set over {'reuse', 'run', 'other', '?'} for the vector n, or for its i-th member. The other kinds are present with
    matching files and contribute their saved vectors."""
    rd = Reader(k, files, sc, base, others)
    foreign = {f2[x] for _, f2 in others for x in f2}
    loose = []

    V0 = Vec(rd.atom)

    def find(c, acc):
        for x in undetermined(c, V0.atom, []):
            if rd.loose(x) and x not in acc:
                acc.append(x)
    # conditions that stay open are given both values when they are loose size comparisons
    res = set()
    for g in sorted({m.a[0] for m in deps(n) if m.op == "phi"}, key=lambda g: g.id):
        find(g, loose)
    for vals in itertools.product((True, False), repeat=min(len(loose), 4)):
        m = dict(zip(loose, vals))
        V = Vec(lambda c: m[c] if c in m else rd.atom(c))
        try:
            if i is not None:
                pair = V.pick(n)
                if pair.op != "tuple" or len(pair.a) != 2:
                    raise Und("the result is not a pair")
                segs = V.flat(pair.a[i])
            else:
                segs = V.flat(n)
        except Und as ex:
            res.add(("?", str(ex)[:200]))
            continue
        segs = [x for x in segs if not (x[0] == "leaf" and read_of(x[1]) in foreign)]
        if len(segs) == 1 and segs[0][0] == "leaf":
            f = read_of(segs[0][1])
            res.add(("reuse", "") if f is not None and f is files.get(part) else ("other", str(segs[0])[:200]))
        elif len(segs) == 1:
            st, why = expected(r, segs[0], k, judge_leaf(r, part))
            res.add(("run", "") if st is True else ("other" if st is False else "?", why))
        else:
            res.add(("other", str(segs)[:200]))
    return res


def reuse(C, rep):
    args = {"num_threads": const(1)}
    r = C.run(SAMPLE, "sim", args=args)
    f = C.prog.funcs[SAMPLE]
    at = (f.mod.path, f.node.lineno)
    files, evs = savefiles(r)
    used = [x for d in files.values() for x in d.values()]
    if len(set(used)) != len(used):
        rep.bad("files.distinct", "every kind has its own metric and data file", at, str(used)[:200])
    elif len(used) == 6:
        rep.ok("files.distinct", "every kind has its own metric and data file", at)
    else:
        rep.und("files.distinct", "every kind has its own metric and data file", at, str(files)[:200])
    for e, ff, x, got in evs:
        if got is None:
            wrong = wrong_saved(r, x)
            rep.put(False if wrong else None, "save.content", "what is saved is the metrics or the samples of one kind of case", e.loc,
                    wrong or str(x)[:150])
    for k in KINDS:
        if "metric" not in files[k] or "sample" not in files[k]:
            miss = "metric" if "metric" not in files[k] else "sample"
            all_known = all(g for _, _, _, g in evs)
            rep.put(False if all_known else None, f"save.{k}", f"metrics and samples of {k} cases are saved", at, f"no {miss} saved")
            continue
        base = present({k})
        for i, part in ((0, "metric"), (1, "sample")):
            bad, und, n = [], [], 0
            mates = [()] + [((k2, files[k2]),) for k2 in KINDS if k2 != k and len(files[k2]) == 2]
            for sc, mate in itertools.product(table(), mates):
                n += 1
                want = "reuse" if all(sc.values()) else "run"
                got = outcomes(r, k, files[k], sc, present({k} | {x for x, _ in mate}), r.retf, part, i, mate)
                sc = dict(sc, mate=mate[0][0]) if mate else sc
                if any(g in ("run", "reuse", "other") and g != want for g, _ in got):
                    bad.append((sc, [g for g in got if g[0] != want][0], want))
                elif any(g == "?" for g, _ in got):
                    und.append((sc, [w for g, w in got if g == "?"][0]))
            key, what = f"reuse.{k}.{part}", f"saved {part}s of {k} cases are used exactly when complete and matching"
            if bad:
                sc, g, want = bad[0]
                rep.bad(key, what, at, f"{g[0]} instead of {want} with {say(sc)} {g[1]}"[:400])
            elif und:
                rep.und(key, what, at, f"{say(und[0][0])}: {und[0][1]}"[:400])
            else:
                rep.ok(key, what, at, f"{n} cases")
        saves(C, rep, r, k, files[k], evs, base)
    sizes(rep, r, at)


def wrong_saved(r, x):
    """Why the saved array x is surely not the metrics or samples of the kinds simulated."""
    for k in KINDS:
        try:
            segs = Vec(nofile(present({k}))).flat(x)
        except Und:
            continue
        if len(segs) == 1 and segs[0][0] == "each":
            for kk in KINDS:
                for part in ("metric", "sample"):
                    st, why = expected(r, segs[0], kk, judge_leaf(r, part))
                    if st is False and segs[0][1] is conds(kk):
                        return why
    return None


def amount(c, rd):
    """A comparison of the number of new results with a constant that some numbers of cases meet and others do not."""
    if c.op not in ("lt", "le", "eq"):
        return False
    for u, w in (c.a, c.a[::-1]):
        x = Vec.sized(u)
        if x is not None and w.op == "const" and isinstance(cval(w), (int, float)) and cval(w) > 1:
            segs = Vec(rd.atom).try_flat(x)
            if segs and segs[0][0] == "each":
                return True
    return False


def saves(C, rep, r, k, files, evs, base):
    mine = [e for e, _, _, got in evs if got and got[0] == k]
    first = min(e.seq for e in mine)
    for sc in table():
        if all(sc.values()):
            continue
        rd = Reader(k, files, sc, base)
        for e in mine:
            t = tri(AND(*q.pcguards(e.pc)), rd.atom)
            if t is not True:
                loose = any(rd.loose(x) or amount(x, rd) for x in undetermined(AND(*q.pcguards(e.pc)), rd.atom, []))
                rep.put(False if t is False or loose else None, f"save.{k}", f"new results of {k} cases are saved", e.loc, f"not with {say(sc)}")
                break
        else:
            continue
        break
    else:
        rep.ok(f"save.{k}", f"new results of {k} cases are saved", mine[0].loc)
    # both files are gone before the first is written
    for part in ("metric", "sample"):
        F = files[part]
        rm = [e for e in calls(r, "os.remove", "os.unlink") if e.args and F in flow(r, e.args[0]) and e.seq < first]
        sc = dict(out=True, data=True, M=True, R=True, W=False)
        sc2 = dict(out=part == "metric", data=part == "sample", M=True, R=True, W=True)
        st = None
        for s in (sc, sc2):
            rd = Reader(k, files, s, base)
            ts = [tri(AND(*q.pcguards(e.pc)), rd.atom) for e in rm]
            st = True if True in ts else None if None in ts else False
            if st is not True:
                break
        if st is False and not rm and any(e.name in ("os.replace", "os.rename", "shutil.move") for e in r.events):
            st = None
        rep.put(st, f"save.{k}.{part}.fresh", f"the old {part} file of {k} cases is removed before new results are saved", mine[0].loc,
                "" if st else "it may survive with results of another run")


def flow(r, n):
    out = []
    for s in sources(r, n):
        out.append(s)
    return out


def sizes(rep, r, at):
    """len() of an array read from a file with one number fails unless it was made one-dimensional."""
    for m in {m for e in r.events for p in e.pc if p[0] == "g" for m in deps(p[1])}:
        if m.op == "call" and m.a[0] == "builtins.len" and m.a[1][0].op == "call" and m.a[1][0].a[0] in READ:
            rep.bad("read.scalar", "a saved file with a single number is handled", at, str(m)[:100])
        if m.op == "item" and m.a[0].op == "attr" and m.a[0].a[1] == "shape" and m.a[0].a[0].op == "call" and m.a[0].a[0].a[0] in READ:
            pass


def metrics(C, rep):
    f = C.prog.funcs[METRICS]
    at = (f.mod.path, f.node.lineno)
    rs = C.run(SAMPLE, "sim", args={"num_threads": const(1)})
    allfiles, _ = savefiles(rs)
    for flag in (True, False):
        r = C.run(METRICS, "sim", args={"num_threads": const(1), "reuse_saved": TRUE if flag else FALSE})
        for k in KINDS:
            files = {"metric": allfiles[k].get("metric")}
            if files["metric"] is None:
                rep.und(f"metrics.{k}", "saved metrics are found", at)
                continue
            bad, und, n = [], [], 0
            for out, m in ((True, True), (True, False), (False, True)):
                sc = dict(out=out, data=True, M=m, R=True, W=True)
                n += 1
                want = "reuse" if flag and out and m else "run"
                got = outcomes(r, k, files, sc, present({k}), r.retf, "metric")
                if any(g in ("run", "reuse", "other") and g != want for g, _ in got):
                    bad.append((sc, [g for g in got if g[0] != want][0], want))
                elif any(g == "?" for g, _ in got):
                    und.append((sc, [w for g, w in got if g == "?"][0]))
            key = f"metrics.{k}.{'allowed' if flag else 'forbidden'}"
            what = (f"saved metrics of {k} cases are used exactly when complete" if flag else
                    f"saved metrics of {k} cases are never used when reuse is not asked for")
            if bad:
                sc, g, want = bad[0]
                rep.bad(key, what, at, f"{g[0]} instead of {want} with {say(sc, True)} {g[1]}"[:400])
            elif und:
                rep.und(key, what, at, f"{say(und[0][0], True)}: {und[0][1]}"[:400])
            else:
                rep.ok(key, what, at, f"{n} cases")
        names = {x for d in allfiles.values() for x in d.values()}
        w = [e for e in r.events if e.kind in ("call", "meth") and e.name in ("numpy.savetxt", "numpy.save", "os.remove", "tofile", "savetxt") and
             any(x in names for a_ in e.args for x in flow(r, a_))]
        rep.put(not w, "metrics.readonly", "computing metrics never writes or removes saved files", w[0].loc if w else at)
        sizes(rep, r, at)


def digits(fmt):
    """Whether a number written with this format is read back the same."""
    import re
    m = re.fullmatch(r"%[-+ #0]*\d*(?:\.(\d+))?([a-zA-Z])", fmt)
    if m is None:
        return None
    p, c = int(m.group(1)) if m.group(1) else 6, m.group(2).lower()
    return {"e": p >= 16, "g": p >= 17, "f": False, "d": False, "i": False, "s": True, "r": True}.get(c)


def exact(C, rep):
    """What is read is all of what was written, to the last digit."""
    seps = {"w": set(), "r": set()}
    header = False
    for fname in (SAMPLE, METRICS, S + "read_metrics"):
        if fname not in C.prog.funcs:
            continue
        r = C.run(fname, "sim")
        for e in calls(r, "numpy.savetxt"):
            kw = dict(e.kw)
            fmt = kw.get("fmt", e.args[2] if len(e.args) > 2 else None)
            header = header or "header" in kw or "footer" in kw
            seps["w"].add(kw.get("delimiter", e.args[3] if len(e.args) > 3 else const(" ")))
            what = "saved numbers are written with every digit"
            if fmt is None:
                rep.ok("exact.write", what, e.loc)
            elif fmt.op == "const" and isinstance(cval(fmt), str):
                rep.put(digits(cval(fmt)), "exact.write", what, e.loc, f"written as {cval(fmt)}")
            else:
                rep.und("exact.write", what, e.loc, str(fmt)[:80])
            x = kw.get("X", e.args[1] if len(e.args) > 1 else None)
            while x is not None and x.op == "call" and x.a[0] in FLAT and x.a[1]:
                x = x.a[1][0]
            lossy = x is not None and (x.op == "call" and x.a[0] in ("numpy.round", "numpy.around", "numpy.float32") or
                                       x.op == "meth" and x.a[1] in ("round", "astype"))
            rep.put(None if x is None else verdict(not lossy, r, x), "exact.write", what, e.loc, str(x)[:100])
        for e in calls(r, *READ):
            kw = dict(e.kw)
            seps["r"].add(kw.get("delimiter", NONE))
            what = "everything saved is read"
            bad = [k for k in ("skip_header", "skip_footer", "skiprows", "max_rows", "usecols", "dtype", "converters", "missing_values")
                   if k in kw and not (is_const(kw[k]) and cval(kw[k]) in (0, None)) and kw[k] not in (
                       mk("ext", "builtins.float"), mk("ext", "numpy.float64"))]
            sure = bad and not header and all(is_const(kw[k]) for k in bad if k != "dtype")
            rep.put(True if not bad else (False if sure else None), "exact.read", what, e.loc, ", ".join(bad))
    if not seps["w"] or not seps["r"]:
        rep.und("exact.delimiter", "no saved file is written or read")
        return
    seps = {k: {const(" ") if x is NONE else x for x in v} for k, v in seps.items()}     # any blank
    rep.put(True if seps["w"] == seps["r"] and len(seps["w"]) == 1 else (
        False if all(is_const(x) for x in seps["w"] | seps["r"]) and len(seps["w"]) == 1 else None),
        "exact.delimiter", "saved files are read with the separator they are written with", None,
        " ".join(str(x) for x in seps["w"] | seps["r"]))


def callers(C, rep):
    n = 0
    for name, fid in dict(STAGES, SA=RUN_SA).items():
        r = C.run(fid, "leaf")
        for e in calls(r, METRICS):
            n += 1
            am = argmap(e)
            ru = am.get("reuse_saved", FALSE)
            model = am.get("model")
            may = [s for s in sources(r, ru)]
            what = f"metrics computed in {short(e.func)} reuse saved files only for the starting model"
            if all(s is FALSE or is_const(s) and not cval(s) for s in may):
                rep.ok(f"{name}.metrics", what, e.loc)
                continue
            ok = same_param(r, model, "model_file") and not pcl(e)
            rep.put(verdict(ok, r, model), f"{name}.metrics", what, e.loc, f"model {str(model)[:120]}")
            if name == "SA":
                rep.put(verdict(only(may, TRUE), r, ru), "SA.reuse", "starting metrics may come from the saved files", e.loc)
        for e in calls(r, SAMPLE):
            n += 1
            model = argmap(e).get("model")
            rep.put(verdict(same_param(r, model, "model_file") and not pcl(e), r, model), f"{name}.sample",
                    "only the starting model is sampled with saved files", e.loc, f"model {str(model)[:120]}")
    if not n:
        rep.und("callers", "calls that may reuse saved files")


def check(C, rep):
    rep.section("reuse", reuse)
    rep.section("metrics", metrics)
    rep.section("callers", callers)
    rep.section("exact", exact)
