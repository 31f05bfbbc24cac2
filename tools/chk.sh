#!/bin/bash
# chk.sh ID: apply plant ID's edit to a copy of the sources and run its check
HERE="$(cd "$(dirname "$0")/.." && pwd)"
D=$(mktemp -d); mkdir -p "$D/src"; cp -r /repo/src/pymars "$D/src/"; (cd "$D" && git apply --include='src/*' "$HERE/seeded/$1/patch.diff")
P=$(python3 -c "import json;print(json.load(open('$HERE/seeded/$1/meta.json'))['property'])")
cd "$HERE"; PYMARS_SRC="$D/src" SA_EVIDENCE=/tmp python3 check.py "${2:-$P}" "${@:3}"; echo "exit $?"
rm -rf "$D"
