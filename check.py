#!/usr/bin/env python3
"""Decide one property of pyMARS from its source: python3 check.py C01 [--thorough]."""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(60000)

from sa.loader import AnalysisError   # noqa: E402
from sa.q import Ctx                  # noqa: E402
from sa.report import Report          # noqa: E402


def known(pid):
    """Listed findings of this property: violation key -> text (fixed entries suppress nothing)."""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known: property=" + pid + " "):
                _, _, rest = ln.split(" ", 2)
                key, _, text = rest.partition(" :: ")
                out[key.strip()] = text.strip()
    return out


def decide(pid, root):
    C = Ctx(root)
    rep = Report(pid, C)
    mod = importlib.import_module("sa.rules." + pid.lower())
    mod.check(C, rep)
    return C, rep, mod


def main(argv):
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(run(argv)))
    t.start()
    t.join()
    return res[0] if res else 2


def run(argv):
    pid = argv[0]
    thorough = "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough"
    root = os.environ.get("PYMARS_SRC", "/repo/src")
    verbose = "-v" in argv
    t0 = time.time()
    try:
        C, rep, mod = decide(pid, root)
    except AnalysisError as ex:
        print(f"ANALYSIS-BROKEN property={pid} {ex}")
        return 2
    n = {"proven": 0, "violated": 0, "undecided": 0}
    for o in rep.obs:
        n[o.status] += 1
    kf = known(pid)
    new, old = [], []
    for o in rep.obs:
        if o.status == "violated":
            (old if o.key in kf else new).append(o)
    wit = None
    if thorough:
        from sa import witness
        wit = witness.run(pid, root)
        for k, ok, txt in wit["rows"]:
            if verbose:
                print("  witness", k, ok, txt)
    ev = {
        "property": pid,
        "tier": "thorough" if thorough else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": (mod.__doc__ or "").strip(),
            "functions_analysed": sorted(C.analysed),
            "call_and_effect_events": sum(C.analysed.values()),
            "modules_parsed": len(C.prog.mods),
            "obligations": len(rep.obs),
            "discharged": n["proven"],
            "undecided": [o.line() for o in rep.obs if o.status == "undecided"],
            "violated": [o.line() for o in rep.obs if o.status == "violated"],
            "samples": [o.line() for o in rep.obs if o.status == "proven"][:60],
            "notes": rep.notes,
        },
        "assumptions": getattr(mod, "ASSUMES", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    if wit is not None:
        ev["coverage"]["witnesses"] = {"broken_variants": wit["n"], "reported": wit["caught"],
                                       "rows": [list(r) for r in wit["rows"]]}
    d = os.environ.get("SA_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if verbose:
        for o in rep.obs:
            print("  " + o.line())
    for o in rep.obs:
        if o.status == "undecided" and not verbose:
            print("  " + o.line()[:300])
    print(f"{pid}: {len(rep.obs)} obligations, {n['proven']} proven, {n['violated']} violated, "
          f"{n['undecided']} undecided; {len(C.analysed)} functions analysed")
    for o in old:
        print(f"KNOWN-FINDING: property={pid} {o.key}: {kf[o.key]}")
    if new:
        rp = os.path.join(d, pid + ".violation.txt")
        with open(rp, "w") as f:
            f.write("\n".join(o.line() for o in new) + "\n")
        for o in new:
            print("  " + o.line()[:1200])
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if not rep.obs or n["proven"] == 0 and not old:
        print(f"ANALYSIS-BROKEN property={pid}: no obligation could be decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
