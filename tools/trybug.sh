#!/bin/bash
# trybug.sh DIR [PROP...]: in throw-away copies of /repo and /verif (bind-mounted over the real paths
# in a private namespace) apply DIR/patch.diff, build, run the stable tests, the demonstration on both
# trees, and the given checks (default: the property of DIR/meta.json).
D=$(realpath "$1"); shift
P="$*"; [ -n "$P" ] || P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
T=$(mktemp -d /tmp/tb.XXXXXX)
trap 'rm -rf "$T"' EXIT
cp -a /repo "$T/repo"; mkdir "$T/verif" "$T/demo"; cp -a "$D/." "$T/demo/"
tar -C /verif --exclude=./.build --exclude=./.git --exclude=./replays --exclude='*/target' -cf - . | tar -C "$T/verif" -xf -
unshare -Urm bash -c '
T=$1; P=$2; ID=$3
mount --bind $T/repo /repo; mount --bind $T/verif /verif; cd /repo
say(){ echo "[$ID] $*"; }
if [ -z "$NODEMO" ]; then
 bash /opt/vp/build.sh >$T/b0.log 2>&1
 (mkdir $T/d1; cp -a $T/demo/. $T/d1; rm -f $T/d1/*.diff $T/d1/meta.json; timeout 300 bash $T/d1/demo.sh >$T/demo0.log 2>&1); rc=$?
 [ $rc = 0 ] && say "demo clean ok" || { say "DEMO FAILS ON CLEAN TREE rc $rc"; tail -5 $T/demo0.log; }
fi
git apply $T/demo/patch.diff || { say "PATCH DOES NOT APPLY"; exit 1; }
if [ -z "$NOTEST" ]; then
 bash /opt/vp/build.sh >$T/b1.log 2>&1 || { say "DOES NOT BUILD"; grep -A8 "^error" $T/b1.log | head -30; exit 1; }
 bash /opt/vp/test.sh $T/t.json >/dev/null 2>&1
 python3 - $T/t.json <<PY || say "BREAKS STABLE TESTS"
import json,sys
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); t=json.load(open(sys.argv[1]))
m=b-set(t["passed"]); print("   failing:",sorted(m)[:4]) if m else None
sys.exit(bool(m))
PY
fi
if [ -z "$NODEMO" ]; then
 (mkdir $T/d2; cp -a $T/demo/. $T/d2; rm -f $T/d2/*.diff $T/d2/meta.json; timeout 300 bash $T/d2/demo.sh >$T/demo1.log 2>&1); rc=$?
 [ $rc != 0 ] && say "demo patched fails ok ($(tail -1 $T/demo1.log | cut -c1-150))" || say "DEMO PASSES WITH PATCH"
fi
cd /verif
for p in $P; do
 timeout 900 ./check $p >$T/c.log 2>&1; rc=$?
 say "check $p rc $rc: $(grep -v "^VIOL" $T/c.log | tail -1 | cut -c1-300)"
done
' _ "$T" "$P" "$(basename $D)"
