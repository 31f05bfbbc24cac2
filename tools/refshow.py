"""Development: refshow NAME Cxx — run one check verbosely on one refactoring."""
import os, shutil, sys, tempfile, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import witness
witness.WDIR = os.path.join(HERE, "tools", os.environ.get("DIR", "refactor"))
d = tempfile.mkdtemp(prefix="pymars-refactor-")
for p, n, e in witness.load():
    if n == sys.argv[1]:
        print(witness.variant("/repo/src", e, d))
env = dict(os.environ, PYMARS_SRC=d, SA_EVIDENCE=d)
if sys.argv[2].endswith(".py"):
    subprocess.run([sys.executable, *sys.argv[2:]], env=env)
else:
    subprocess.run([sys.executable, os.path.join(HERE, "check.py"), *sys.argv[2:]], env=env)
shutil.rmtree(d)
