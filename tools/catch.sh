#!/bin/bash
# catch.sh [ids...]: runs the property's check against a copy of /repo with each planted bug applied
cd "$(dirname "$0")/.."
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do (
  w=$(mktemp -d /tmp/catch-XXXX); cp -a /repo/src "$w/"; (cd "$w" && git init -q . && git apply "$OLDPWD/seeded/$i/patch.diff" 2>/dev/null || git -C "$w" apply /verif/seeded/$i/patch.diff)
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  t0=$SECONDS
  PV_JOBS=${PV_JOBS:-4} PV_REPO=$w timeout 900 python3 check.py $p > "$w/out" 2>&1; rc=$?
  echo "$i $p rc=$rc $((SECONDS-t0))s $(grep -m2 -h VIOLATION "$w/out" | sed 's/.*replay=.*replay.//' | tr '\n' ' ')"
  rm -rf "$w" ) &
  while [ $(jobs -r | wc -l) -ge 3 ]; do sleep .2; done
done; wait
