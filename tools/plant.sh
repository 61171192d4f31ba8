#!/bin/bash
# plant.sh ID [nocheck]: validates seeded/ID in a private copy of /repo bound over /repo (own mount namespace):
# the demo passes unchanged, the patched tree builds, passes the stable tests, fails the demo, and the check of its property reports it.
ID=$1; MODE=${2:-all}; D=/verif/seeded/$ID; W=/tmp/plant.$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
rm -rf "/tmp/plant.$ID"; cp -a /repo "$W"; git -C "$W" checkout -q -- .
L=/tmp/plant.lock
unshare -Urm bash -c '
ID='$ID'; D='$D'; P='$P'; W='$W'; MODE='$MODE'
mount --bind $W /repo || exit 9
mkdir -p /tmp/plantdemo.$ID; cp -a $D/. /tmp/plantdemo.$ID/; rm -f /tmp/plantdemo.$ID/patch.diff /tmp/plantdemo.$ID/meta.json
cd /repo
timeout 300 bash /tmp/plantdemo.$ID/demo.sh >/tmp/plant.$ID.d0 2>&1 && echo "$ID demo clean: ok" || { echo "$ID demo clean: FAILS"; tail -3 /tmp/plant.$ID.d0; }
git apply $D/patch.diff || { echo "$ID patch does not apply"; exit 9; }
S=$(date +%s); timeout 300 bash /tmp/plantdemo.$ID/demo.sh >/tmp/plant.$ID.d1 2>&1 && echo "$ID demo patched: PASSES (bad)" || echo "$ID demo patched: fails as wanted ($(tail -1 /tmp/plant.$ID.d1 | cut -c1-150))"
if [ $MODE != check ] && [ $MODE != demo ]; then exec 9>'$L'; flock 9; bash /opt/vp/test.sh /tmp/plant.$ID.json >/tmp/plant.$ID.t 2>&1; python3 -c "
import json; t=json.load(open(\"/tmp/plant.$ID.json\")); print(\"$ID tests: %d passed, %d failed\" % (len(t[\"passed\"]), len(t[\"failed\"])))"; flock -u 9; fi
if [ $MODE != nocheck ] && [ $MODE != demo ]; then cd /verif; S=$(date +%s); timeout 900 python3 run/check.py $P --tier quick >/tmp/plant.$ID.c 2>&1; R=$?; echo "$ID check $P: rc=$R $(grep -c ^VIOLATION /tmp/plant.$ID.c) violations, $(( $(date +%s) - S )) s: $(grep "\[" /tmp/plant.$ID.c | head -2 | cut -c1-200 | tr "\n" "|")"; fi
'
rm -rf "/tmp/plant.$ID" "/tmp/plantdemo.$ID"
