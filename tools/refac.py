"""Development: behaviour-preserving edits (tools/refactor/*.txt, witness format). No check may report any of them."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import witness   # noqa: E402
from concurrent.futures import ProcessPoolExecutor   # noqa: E402

ROOT = os.environ.get("PYMARS_SRC", "/repo/src")


def load():
    witness.WDIR = os.path.join(HERE, "tools", "refactor")
    return witness.load()


def one(job):
    import shutil
    import tempfile
    import threading
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    ids, name, eds = job
    out = []

    def work():
        from check import decide, known
        d = tempfile.mkdtemp(prefix="pymars-refactor-")
        try:
            why = witness.variant(ROOT, eds, d)
            if why:
                out.append((name, "-", why, []))
                return
            for i in ids:
                try:
                    C, rep, mod = decide(i, d)
                    bad = [o.line()[:400] for o in rep.obs if o.status == "violated" and o.key not in known(i)]
                    und = [o.key for o in rep.obs if o.status == "undecided"]
                    out.append((name, i, bad, und))
                except Exception as ex:      # noqa: BLE001
                    out.append((name, i, [f"{type(ex).__name__}: {ex}"], []))
        finally:
            shutil.rmtree(d)
    t = threading.Thread(target=work)
    t.start()
    t.join()
    return out


if __name__ == "__main__":
    rules = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "sa", "rules")) if f[0] == "c" and f[1:3].isdigit())
    want = [a for a in sys.argv[1:] if a.startswith("C")] or rules
    pat = [a for a in sys.argv[1:] if not a.startswith(("C", "-"))]
    jobs = [(want, n, e) for _, n, e in load() if not pat or any(p in n for p in pat)]
    nb = 0
    with ProcessPoolExecutor(max_workers=8) as ex:
        for rows in ex.map(one, jobs):
            for name, i, bad, und in rows:
                if i == "-":
                    print(f"{name}: {bad}")
                    continue
                if bad:
                    nb += 1
                    print(f"ALARM {name} {i}: {bad[0]}")
                if und:
                    print(f"  und {name} {i}: {len(und)} {und[:6]}")
    print(len(jobs), "refactorings,", nb, "alarms")
