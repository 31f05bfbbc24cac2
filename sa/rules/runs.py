"""Facts about the three kinds of simulation and the vectors assembled from them."""
from .vec import *

KINDS = ("ignition", "psr", "flame")
CONDS = {k: k + "_conditions" for k in KINDS}
CLS = {"ignition": SIM + "IgnitionSimulation", "psr": SIM + "PSRSimulation", "flame": SIM + "FlameSimulation"}
NPER = {"ignition": 1, "psr": 3, "flame": 1}


def conds(kind):
    return P(CONDS[kind])


def present(which):
    """Reader of atoms under the assumption that exactly the kinds in `which` have cases."""
    def cls(c):
        if c.op == "truth":
            for k in KINDS:
                if c.a[0] is conds(k) or is_len(c.a[0], k):
                    return k in which
        if c.op in ("eq", "is") and NONE in c.a:
            for k in KINDS:
                if conds(k) in c.a:
                    return False
        return None
    return cls


def is_len(n, k):
    return n.op == "call" and n.a[0] == "builtins.len" and n.a[1][0] is conds(k)


def news(r, cid):
    return {e.node: e for e in r.events if e.kind == "new" and e.name == cid}


def kind_of_inst(r, inst):
    for k, cid in CLS.items():
        if inst.op in ("ref", "inst") and inst in news(r, cid):
            return k
    return None


def subsets():
    import itertools
    for n in (3, 1, 2):
        yield from itertools.combinations(KINDS, n)


def ctor(C, e, cid, fld):
    """Value stored in field fld of the object made by event e."""
    return (e.extra or {}).get(fld) if isinstance(e.extra, dict) else None
