"""Development: run every witness (all properties or given ids) and list those not reported."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import witness   # noqa: E402

ids = [a for a in sys.argv[1:] if a.startswith("C")] or sorted({p for p, _, _ in witness.load()})
for i in ids:
    r = witness.run(i, os.environ.get("PYMARS_SRC", "/repo/src"))
    print(f"{i}: {r['caught']}/{r['n']}")
    for k, ok, txt in r["rows"]:
        if not ok or "-v" in sys.argv:
            print("   ", k, ok, txt[:260])
