#!/bin/bash
# trybug.sh ID [PROPS] [RUNS]: run checks against a copy of /repo with a planted bug (no tests, no demo).
D=$(mktemp -d /tmp/mut.XXXXXX); cp -a /repo/. "$D/"
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")
git -C "$D" apply "/verif/seeded/$1/patch.diff" || echo "does not apply"
for p in ${2:-$P}; do (cd /verif; SIM_REPO=$D env ${3:+SIM_RUNS=$3} ./check $p quick 2>&1 | cut -c1-300 | tail -2); done
rm -rf "$D"
