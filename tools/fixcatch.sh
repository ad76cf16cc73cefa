#!/bin/bash
# usage: fixcatch.sh  checks that undoing each "fix:" commit is reported by its property's check
cd /verif
python3 - <<'P' | while read prop commit; do
import json
for l in json.load(open("KNOWN_FINDINGS.json"))["fixed"]:
    w = l.split()
    print(w[1].split("=")[1], w[2])
P
  [ -n "$1" ] && [ "$1" != "$commit" ] && continue
  W=/tmp/fixcatch/$commit; rm -rf "/tmp/fixcatch/$commit"; mkdir -p $W; cp -a /repo $W/repo; cp -r /verif $W/verif; rm -rf "$W/verif/seeded"
  git -C $W/repo show $commit | git -C $W/repo apply -R 2>$W/err || { echo "$prop $commit: cannot be undone alone ($(head -1 $W/err))"; rm -rf "/tmp/fixcatch/$commit"; continue; }
  (cd $W/verif && PYTHONHASHSEED=0 VERIF_REPO=$W/repo VERIF_SEED=1 timeout 900 /opt/venv/bin/python -m vf --property $prop --tier quick > $W/out 2>&1 </dev/null); c=$?
  [ $c = 1 ] && grep -q "^VIOLATION property=$prop" $W/out && echo "$prop $commit: reported" || echo "$prop $commit: NOT REPORTED ($c) $(tail -1 $W/out)"
  rm -rf "/tmp/fixcatch/$commit"
done
