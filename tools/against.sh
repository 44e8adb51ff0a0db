#!/bin/bash
# against.sh SEED [PROPERTY]: run a check against a scratch copy carrying a planted bug
V=$(cd "$(dirname "$0")/.." && pwd)
T=$(mktemp -d /tmp/against.XXXXXX)
cp -a /repo "$T/repo"
git -C "$T/repo" apply "$V/seeded/$1/patch.diff" || exit 3
P=${2:-$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$V/seeded/$1/meta.json")}
VERIF_REPO="$T/repo" VERIF_EVIDENCE="$T/ev" python3 "$V/check.py" "$P"
R=$?
rm -rf "$T"
exit $R
