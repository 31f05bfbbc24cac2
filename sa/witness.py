"""Thorough tier: the check is turned on copies of the current source in which the property is broken on purpose.

Each witness is a small textual edit of the current tree (skipped where its text no longer occurs); the same static
decision procedure must report it. Nothing of pyMARS is run: the copies are only parsed."""
import ast
import os
import shutil
import tempfile

WDIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), "witnesses")


def load(pid=None):
    """[(pid, name, [(file, old, new)])] from the witness files."""
    out = []
    for fn in sorted(os.listdir(WDIR)):
        if not fn.endswith(".txt"):
            continue
        for blk in open(os.path.join(WDIR, fn)).read().split("\n=== ")[0:]:
            blk = blk[4:] if blk.startswith("=== ") else blk
            head, _, body = blk.partition("\n")
            h = head.split()
            if len(h) < 2 or not h[0].startswith("C"):
                continue
            eds = []
            for part in ("\n" + body).split("\n@@ ")[1:]:
                f, _, rest = part.partition("\n")
                old, _, new = (rest + "\n").partition("\n--->\n")
                eds.append((f.strip(), old, new.rstrip("\n") if new.strip() else ""))
            for p in h[0].split(","):
                if pid is None or p == pid:
                    out.append((p, h[1], eds))
    return out


def variant(root, eds, dst):
    """Copy of the package below root with the edits applied, or a reason why not."""
    pkg = os.path.join(root, "pymars")
    os.makedirs(os.path.join(dst, "pymars"), exist_ok=True)
    for f in os.listdir(pkg):
        if f.endswith(".py"):
            shutil.copy(os.path.join(pkg, f), os.path.join(dst, "pymars", f))
    for f, old, new in eds:
        f, _, within = f.partition(" ")         # "file function": the edit is made in that function
        p = os.path.join(dst, "pymars", f)
        s = open(p).read()
        cls, _, within = within.rpartition(".")  # "file Class.method" likewise
        at = s.find(f"\nclass {cls}") if cls else 0
        if within and at >= 0:
            at = s.find(f"\n{'    ' if cls else ''}def {within}(", at)
        at = s.find(old, at) if at >= 0 else -1
        if at < 0:
            return "text not in this tree"
        s = s[:at] + new + s[at + len(old):]
        open(p, "w").write(s)
        ast.parse(s)
    return None


def one(args):
    pid, name, eds, root = args
    import sys
    sys.setrecursionlimit(60000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []

    def work():
        from check import decide, known
        d = tempfile.mkdtemp(prefix="pymars-witness-")
        try:
            why = variant(root, eds, d)
            if why:
                res.append((name, None, why))
                return
            C, rep, mod = decide(pid, d)
            bad = [o for o in rep.obs if o.status == "violated" and o.key not in known(pid)]
            res.append((name, bool(bad), bad[0].line()[:300] if bad else "not reported; undecided: " +
                        "; ".join(o.key for o in rep.obs if o.status == "undecided")[:200]))
        except Exception as ex:      # noqa: BLE001
            res.append((name, False, f"{type(ex).__name__}: {ex}"))
        finally:
            shutil.rmtree(d)
    t = threading.Thread(target=work)
    t.start()
    t.join()
    return res[0]


def run(pid, root):
    from concurrent.futures import ProcessPoolExecutor
    jobs = [(p, n, e, root) for p, n, e in load(pid)]
    rows = []
    if jobs:
        with ProcessPoolExecutor(max_workers=min(8, len(jobs))) as ex:
            rows = list(ex.map(one, jobs))
    done = [r for r in rows if r[1] is not None]
    return {"n": len(done), "caught": sum(1 for r in done if r[1]), "rows": rows}
