#!/bin/bash
# usage: seedcatch.sh [ID ...]  runs the quick check of each planted bug's property on a
# scratch copy of /repo with the bug applied; prints whether it is caught.
cd /verif
for ID in ${*:-$(ls seeded)}; do
  W=/tmp/seedcatch/$ID; rm -rf "/tmp/seedcatch/$ID"; mkdir -p "$W"; cp -a /repo "$W/repo"
  git -C "$W/repo" apply /verif/seeded/$ID/patch.diff || { echo "$ID: does not apply"; continue; }
  P=$(python3 -c "import json; print(json.load(open('seeded/$ID/meta.json'))['property'])")
  t=$SECONDS
  EV="$W/ev"; cp -r /verif "$W/verif"; rm -rf "$W/verif/seeded"
  (cd "$W/verif" && PYTHONHASHSEED=0 VERIF_REPO="$W/repo" VERIF_SEED=${VERIF_SEED:-1} timeout 900 /opt/venv/bin/python -m vf --property $P --tier quick > "$W/out" 2>&1); c=$?
  if [ $c = 1 ] && grep -q "^VIOLATION property=$P" "$W/out"; then echo "$ID: caught by $P in $((SECONDS-t)) s"; else echo "$ID: MISSED by $P (exit $c, $((SECONDS-t)) s)"; tail -3 "$W/out"; fi
  rm -rf "/tmp/seedcatch/$ID"
done
