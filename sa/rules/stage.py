"""Facts about the threshold loop of a graph-based reduction stage."""
from .common import *


class StageLoop:
    def __init__(self, C, name):
        self.name = name
        self.fid = STAGES[name]
        self.r = r = C.run(self.fid, "leaf")
        self.trims = calls(r, TRIM)
        self.errors = calls(r, ERROR)
        self.info = None
        self.intrims, self.posttrims = [], []
        for e in self.trims:
            ls = [p for p in e.pc if p[0] == "loop" and p[2].op == "while" or p[0] == "loop" and unbounded(p[2])]
            if ls:
                self.intrims.append(e)
                if self.info is None:
                    self.info = r.loops.get(ls[0][1])
            else:
                self.posttrims.append(e)
        self.thr = self.inc = None
        if self.info is not None:
            ex = argmap(self.intrims[0]).get("exclusion_list")
            for k, m in self.mus().items():
                if ex is not None and m in deps(ex) and self.info["init"][k].op in ("const", "param", "bin"):
                    self.thr = k
            if self.thr is not None:
                # the increment: the loop-carried number added to the threshold
                nx = self.info["next"].get(self.thr)
                for k, m in self.mus().items():
                    if k != self.thr and nx is not None and m in deps(nx) and is_const(self.info["init"][k]) and \
                            isinstance(cval(self.info["init"][k]), float):
                        self.inc = self.inc or (k if any(lin.get(m) for lin in self.lins(nx)) else None)

    def lins(self, nx):
        for fs, v in cases(nx):
            l = linear(v)
            if l:
                yield l

    def mus(self):
        return {k: mk("mu", self.info["lid"], k) for k in self.info["init"]}

    def next_cond(self):
        """The loop's entry condition as it stands before the following iteration."""
        c = self.info["cond"]
        mp = {}
        for k, m in self.mus().items():
            v = self.info["next"].get(k)
            if v is not None:
                mp[m] = v
        return subst(c, mp) if isinstance(c, N) else TRUE

    def continuing(self, facts=()):
        """Cases of an iteration that is followed by another: (facts, next threshold, next increment)."""
        i = self.info
        thr = i["next"].get(self.thr)
        m = self.mus()
        inc = i["next"].get(self.inc, m.get(self.inc)) if self.inc else NONE
        g = AND(*next_guards_after(i))
        t = mk("tuple", thr, inc if inc is not None else m[self.inc], self.next_cond(), g)
        for fs, v in cases(t, facts):
            if v.a[2] is FALSE or v.a[3] is FALSE:
                continue
            yield fs, v.a[0], v.a[1], v.a[2], v.a[3]

    def last_value(self, n, facts):
        """Value of n after the loop in terms of the last iteration's loop-carried values."""
        r = self.r
        lid = self.info["lid"]

        def go(x):
            if x.op == "out" and x.a[0] is lid:
                nx = self.info["next"].get(x.a[1])
                return resolve(nx, facts) if nx is not None else None
            if x.op == "first" and (len(x.a) < 5 or x.a[4] is lid):
                return resolve(x.a[3], facts)
            if x.op == "last":
                return resolve(x.a[2], facts)
            if x.op == "phi":
                a, b = go(x.a[1]), go(x.a[2])
                if a is b:
                    return a
                la, lb = (linear(a) if a is not None else None), (linear(b) if b is not None else None)
                return a if la is not None and la == lb else None
            if x.op == "bin":
                a, b = go(x.a[1]), go(x.a[2])
                return None if a is None or b is None else mk("bin", x.a[0], a, b)
            if x.op == "un":
                a = go(x.a[1])
                return None if a is None else mk("un", x.a[0], a)
            if x.op == "const":
                return x
            if x.op in ("param",):
                return x
            return None
        return go(n)


def unbounded(it):
    return it.op == "call" and it.a[0] in ("itertools.count", "itertools.cycle", "itertools.repeat")


def next_guards_after(info):
    gs = q.next_guards(info)
    c = info["cond"]
    drop = set(c.a) if isinstance(c, N) and c.op == "and" else {c}
    return [g for g in q.flat(gs) if g not in drop]


# ------------------------------------------------------------ result objects
def model_pairs(r, ret=None):
    """(event, fields) of every ReducedModel built."""
    out = []
    for e in r.events:
        if e.kind == "new" and isinstance(e.name, str) and e.name.endswith(".ReducedModel") and e.extra != "_replace":
            n = e.node
            if n.op == "nt":
                out.append((e, dict(n.a[1])))
    return out


def replaced_events(r):
    return [e for e in r.events if e.kind == "new" and e.extra == "_replace"]
