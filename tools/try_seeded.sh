#!/bin/bash
# Development aid, not a check: plants each given bug (a folder with patch.diff and meta.json) in /repo, runs the check
# of its property (and those named in $ALSO), undoes the bug, and says whether it was caught.
cd /verif || exit 2
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick
for d in "$@"; do
  id=$(basename "$d")
  p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
  git -C /repo apply "$(realpath "$d/patch.diff")" || { echo "$id DOES NOT APPLY"; continue; }
  for c in $p $ALSO; do
    t0=$SECONDS
    timeout 900 ./check.sh "$c" > "/tmp/try.$id.$c.log" 2>&1
    rc=$?
    v=$(grep -c "^VIOLATION property=$c " "/tmp/try.$id.$c.log")
    if [ $rc -eq 1 ] && [ "$v" -gt 0 ]; then r=CAUGHT; else r=MISSED; fi
    echo "$r $id $c rc=$rc violations=$v $((SECONDS - t0))s $(grep -m1 -A3 '^VIOLATION' "/tmp/try.$id.$c.log" | tr '\n' ' ' | cut -c1-200)"
  done
  git -C /repo checkout -q -- .
done
