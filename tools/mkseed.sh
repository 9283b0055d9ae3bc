#!/bin/bash
# mkseed.sh <seed-id>: validate /verif/seeded/<id> in a scratch copy of /repo (build, tests, demo both ways), then run the
# property's check on it.  Development tool; no check uses it.
set -u
id=$1; d=/verif/seeded/$id; w=/tmp/seedwork.$id
/bin/rm -rf "$w"; mkdir "$w"; cp -a /repo "$w/repo"; cp -a "$d" "$w/demo"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd "$w/repo"
bash "$w/demo/demo.sh" > "$w/demo0.log" 2>&1 </dev/null; a=$?
git apply "$d/patch.diff" || { echo "$id: patch does not apply"; /bin/rm -rf "$w"; exit 2; }
if grep -q libsofa "$w/demo/demo.sh"; then ( . /opt/vp/env.sh; rm -f libsofa-pbrpc.a sofa-pbrpc-client; vmake "$LIB_SRC" build ) > "$w/build.log" 2>&1 || { echo "$id: does not build"; tail -5 "$w/build.log"; }; fi
bash "$w/demo/demo.sh" > "$w/demo1.log" 2>&1 </dev/null; b=$?
cd /verif; VERIF_REPO=$w/repo VERIF_EVID=$w ./check $prop quick > "$w/check.log" 2>&1; c=$?
echo "$id property=$prop demo(unchanged)=$a demo(patched)=$b check=$c $(grep -h VIOLATION $w/check.log | head -2 | tr '\n' ' ')"
[ $a = 0 ] && [ $b != 0 ] || { tail -5 "$w/demo0.log" "$w/demo1.log"; }
/bin/rm -rf "$w"
