#!/bin/bash
# seedtest.sh ID [--nocheck]: confirm a planted bug on /repo, then run its check.  Undoes the patch.
ID=$1; D=/verif/seeded/$ID
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "repo dirty"; exit 9; }
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
T=$(mktemp -d /tmp/seed.XXXXXX); cp -a "$D" "$T/x"; rm -f "$T/x"/*.diff "$T/x/meta.json"
undo() { git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1; rm -rf "$T"; }
trap undo EXIT
cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BASE BUILD FAILED"
timeout 300 bash "$T/x/demo.sh" >"$T/o1" 2>&1; r1=$?
git apply "$D/patch.diff" || { echo "$ID patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$ID BUILD FAILED"
t=$(bash /opt/vp/test.sh "$T/o.json" 2>/dev/null | tail -1)
timeout 300 bash "$T/x/demo.sh" >"$T/o2" 2>&1; r2=$?
[ $r1 = 0 ] && [ $r2 != 0 ] || { echo "$ID DEMO clean=$r1 patched=$r2"; for o in o1 o2; do tail -n 3 "$T/$o"; done; }
echo "$ID $P tests: $t demo: $r1/$r2"
[ "${2:-}" = --nocheck ] && exit
for p in ${2:-$P}; do /verif/check $p quick 2>&1 | cut -c1-300 | tail -2; done
