#!/bin/bash
# seed.sh <seed>...: verify planted bugs of /verif/seeded in a private copy of /repo (mounted over /repo in a namespace
# of its own): demo quiet before, patch applies and builds, stable tests pass, demo fails, the property's check reports it
# NOTESTS=1 skips the stable tests, NOCHECK=1 the check
for s in "$@"; do
d=$(mktemp -d /tmp/seedXXXXXX); cp -a "${SRC:-/repo}" "$d/repo"
unshare -Urm bash -c '
s=$1; d=$2; S=/verif/seeded/$s
mount --bind $d/repo /repo; cd /repo
git checkout -q -- .
bash /opt/vp/build.sh >$d/b0.log 2>&1 || echo "$s: BUILD0 FAILED"
mkdir $d/demo; cp -r $S/. $d/demo/; rm -f $d/demo/patch.diff $d/demo/meta.json
timeout 300 bash $d/demo/demo.sh >$d/d0.log 2>&1; r0=$?
git apply $S/patch.diff || echo "$s: PATCH DOES NOT APPLY"
bash /opt/vp/build.sh >$d/b1.log 2>&1 || { echo "$s: BUILD FAILED"; tail -5 $d/b1.log; }
timeout 300 bash $d/demo/demo.sh >$d/d1.log 2>&1; r1=$?
echo "$s: demo unchanged=$r0 patched=$r1 $( [ $r0 = 0 ] && [ $r1 != 0 ] && echo ok || { echo BAD; for f in $d/d0.log $d/d1.log; do tail -n 5 $f; done; } )"
if [ -z "$NOTESTS" ]; then
  bash /opt/vp/test.sh $d/out.json >$d/t.log 2>&1
  python3 -c "
import json,sys
b=json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]; o=json.load(open(sys.argv[1]))
p=set(o.get(\"passed\",o.get(\"pass\",[]))); print(sys.argv[2]+\": failing stable tests\",[x for x in b if x not in p])" $d/out.json $s
fi
if [ -z "$NOCHECK" ]; then
  id=$(python3 -c "import json;print(json.load(open(\"$S/meta.json\"))[\"property\"])")
  for i in $id $ALSO; do timeout 900 /verif/run.sh $i ${TIER:-quick} 2>/dev/null | cut -c1-220 | tail -2 | sed "s/^/$s: /"; done
fi
' x "$s" "$d"
find "$d" -mindepth 1 -delete; rmdir "$d"
done
