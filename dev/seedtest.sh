#!/bin/bash
# dev tool: seedtest.sh ID [PROP...] : validates a seeded bug in private copies and runs the checks against it
# (private mount namespace; the real /repo and /verif stay untouched)
id=$1; shift; export PROPS="$*"
W=/tmp/seed-$id; rm -rf "$W"; mkdir -p "$W"
cp -a /repo "$W/repo"
[ $# -gt 0 ] && { mkdir -p $W/verif; (cd /verif && tar cf - --exclude=./build --exclude=./replays .) | tar xf - -C $W/verif; mkdir -p $W/verif/build $W/verif/replays; }
cp /verif/seeded/$id/patch.diff $W/p.diff; cp -a /verif/seeded/$id "$W/demo"; rm -f "$W"/demo/patch.diff "$W"/demo/meta.json
export id W
unshare -Urm bash -c '
mount --bind $W/repo /repo; [ -d $W/verif ] && mount --bind $W/verif /verif
cd /repo
if [ "$SKIPBASE" = "" ]; then (cd /repo; timeout 300 bash $W/demo/demo.sh) > $W/demo0.log 2>&1; echo "demo on clean: $?"; fi
git -C /repo apply $W/p.diff || exit 9
if [ "$SKIPTEST" = "" ]; then bash /opt/vp/test.sh $W/t.json > $W/test.log 2>&1; python3 - <<P
import json;d=json.load(open("$W/t.json"));b=json.load(open("/opt/vp/BASELINE.json"))
print("tests passed",len(d["passed"]),"failed",d["failed"])
P
(cd /repo; timeout 300 bash $W/demo/demo.sh) > $W/demo1.log 2>&1; echo "demo on patched: $?"; fi
for p in $PROPS; do (cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p quick > $W/$p.log 2>&1; echo "check $p: $?"; grep -a VIOLATION $W/$p.log | head -3); done
' x "$@"
