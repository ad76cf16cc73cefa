#!/bin/bash
# usage: seedtest.sh ID   validates /verif/seeded/ID in a scratch copy of /repo:
# demo passes without and fails with the patch, stable tests pass with it.
# (Runs the demo in the copy through PYTHONPATH; demos import from the working directory.)
ID=$1; S=/verif/seeded/$ID; W=/tmp/seedwork/$ID
rm -rf "$W"; mkdir -p "$W"; cp -a /repo "$W/repo"; mkdir "$W/demo"
cp -r "$S"/. "$W/demo/"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
cd "$W/repo" || exit 9
export PYTHONPATH="$W/repo" PYTHONDONTWRITEBYTECODE=1
fail=0
timeout 300 bash "$W/demo/demo.sh" > "$W/clean.out" 2>&1; c=$?
[ $c = 0 ] || { echo "$ID: demo fails on the clean tree ($c)"; tail -5 "$W/clean.out"; fail=1; }
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
timeout 300 bash "$W/demo/demo.sh" > "$W/bug.out" 2>&1; b=$?
[ $b != 0 ] || { echo "$ID: demo passes with the patch"; fail=1; }
if [ "$2" != notests ]; then
sed "s#/opt/vp/reports#$W/reports#; s#cd /repo#cd $W/repo#; s#-n 8#-n 4#" /opt/vp/test.sh > "$W/test.sh"
bash "$W/test.sh" "$W/out.json" > "$W/test.out" 2>&1
python3 - "$W/out.json" "$ID" <<'P' || fail=1
import json, sys
o = json.load(open(sys.argv[1])); p = set(o["passed"])
miss = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in p]
if miss:
    print(f"{sys.argv[2]}: {len(miss)} stable tests fail, e.g. {miss[:3]}")
    sys.exit(1)
P
fi
[ $fail = 0 ] && echo "$ID: valid (demo clean 0, patched $b: $(tail -1 "$W/bug.out" | cut -c1-150))"
cd /; rm -rf "/tmp/seedwork/$ID"
exit $fail
