#!/bin/bash
# tools/confirm.sh ID [--notest]: confirm a planted bug in a private copy of /repo
# (bind-mounted over /repo in a private namespace; the real /repo is not touched).
ID=$1; D=/verif/seeded/$ID; W=$(mktemp -d /tmp/bug_XXXXXX); trap 'rm -rf "$W"' EXIT
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cp -a /repo "$W/repo"; cp -a "$D" "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
(cd /repo && bash "$W/demo/demo.sh" >"$W/clean.log" 2>&1); c=$?
cd "$W/repo" && git apply "$D/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
export W ID PROP
unshare -Urm bash -c '
mount --bind "$W/repo" /repo; cd /repo
(bash "$W/demo/demo.sh" >"$W/bug.log" 2>&1); echo $? >"$W/b"
(cd /verif && VERIF_TIER=quick VERIF_SEED=1 VERIF_MIN_S=${VERIF_MIN_S:-20} python3 check.py $PROP >"$W/check.log" 2>&1); echo $? >"$W/k"
'
t=skipped
if [ "$2" != "--notest" ]; then
unshare -Urm bash -c 'mount --bind "$W/repo" /repo; bash /opt/vp/test.sh "$W/out.json" >"$W/test.log" 2>&1'
t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$W/out.json'))
m=sorted(set(b["stable"])-set(o["passed"])); print("pass" if not m else "FAIL "+str(m[:3]))
P
)
fi
echo "$ID property=$PROP demo clean=$c bug=$(cat $W/b) check=$(cat $W/k) tests=$t"
grep -h "violation run\|HARNESS" -A1 "$W/check.log" | head -4
[ "$3" = "-v" ] && cat "$W/clean.log" "$W/bug.log" | tail -20
