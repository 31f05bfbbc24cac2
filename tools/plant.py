"""Development: build and validate planted bugs.  plant.py ID [ID...] [--notest]

tools/plants/ID.txt holds the edit (witness format without the === line); seeded/ID/ holds demo.py and meta.json.
Writes seeded/ID/patch.diff and demo.sh and confirms: original lines only, demo clean/broken, the tests, the check."""
import json
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "77d63b4"
DEMO = '''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 2
cd "$T" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${PYTHONHASHSEED:-0}" OMP_NUM_THREADS=1 timeout 280 /opt/venv/bin/python "$D/demo.py"
rc=$?
cd /
rm -rf "$T"
exit $rc
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for pid in [a for a in sys.argv[1:] if not a.startswith("-")]:
        sd = os.path.join(HERE, "seeded", pid)
        meta = json.load(open(os.path.join(sd, "meta.json")))
        scr = f"/tmp/plant_{pid}"
        shutil.rmtree(scr, ignore_errors=True)
        sh(f"cp -a /repo {scr}")
        try:
            txt = open(os.path.join(HERE, "tools", "plants", pid + ".txt")).read()
            bad = None
            for part in ("\n" + txt).split("\n@@ ")[1:]:
                f, _, rest = part.partition("\n")
                old, _, new = (rest + "\n").partition("\n--->\n")
                new = new.rstrip("\n")
                p = f"{scr}/src/pymars/{f.strip()}"
                s = open(p).read()
                if s.count(old) != 1:
                    bad = f"{f}: old text occurs {s.count(old)} times"
                    break
                base = sh(f"git show {BASE}:src/pymars/{f.strip()}", cwd=scr).stdout
                s2 = s.replace(old, new)
                open(p, "w").write(s2)
            if bad:
                print(pid, "BAD EDIT", bad)
                continue
            d = sh("git diff", cwd=scr).stdout
            for l in d.splitlines():
                if l.startswith("-") and not l.startswith("---") and l[1:].strip():
                    if l[1:] not in sh(f"git show {BASE}:src/pymars/" + "{" + "}" if 0 else "cat /dev/null").stdout and not any(
                            l[1:] in sh(f"git show {BASE}:src/pymars/{x}", cwd=scr).stdout.splitlines()
                            for x in os.listdir(f"{scr}/src/pymars") if x.endswith(".py")):
                        print(pid, "  line not original:", l)
            open(os.path.join(sd, "patch.diff"), "w").write(d)
            open(os.path.join(sd, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(sd, "demo.sh"), 0o755)
            env = dict(os.environ, PYTHONPATH=f"{scr}/src")
            c = sh(f"bash {sd}/demo.sh", cwd="/repo")
            b = sh(f"bash {sd}/demo.sh", cwd=scr, env=env)
            print(pid, "demo clean", c.returncode, "broken", b.returncode, "|", (b.stderr or b.stdout).strip().splitlines()[-1:] ,
                  (c.stderr.strip().splitlines()[-1:] if c.returncode else ""))
            if "--notest" not in sys.argv:
                t = sh("sed 's#/repo#%s#g' /opt/vp/test.sh > /tmp/plant_test.sh; PYTHONPATH=%s/src bash /tmp/plant_test.sh /tmp/plant_out.json" % (scr, scr))
                o = json.load(open("/tmp/plant_out.json"))
                failed = sorted(stable - set(o["passed"]) if "passed" in o else stable)
                print(pid, "tests:", len(failed), "stable tests not passing", failed[:3])
            r = sh(f"python3 check.py {meta['property']}", cwd=HERE, env=dict(os.environ, PYMARS_SRC=f"{scr}/src", SA_EVIDENCE="/tmp"))
            print(pid, "check", meta["property"], "exit", r.returncode, "|", [x for x in r.stdout.splitlines() if "VIOL" in x or "violat" in x][:2])
        finally:
            shutil.rmtree(scr, ignore_errors=True)


main()
