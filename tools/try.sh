#!/bin/bash
# tools/try.sh ID...: run the check of each planted change against a scratch copy with the change applied
cd "$(dirname "$0")/.."
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  d=$(mktemp -d /tmp/try_XXXX); cp -a /repo $d/repo; git -C $d/repo apply $PWD/seeded/$id/patch.diff
  t=$(date +%s); SYMX_REPO=$d/repo python3-vt run.py $p > $d/out 2>&1; rc=$?
  echo "$id $p rc=$rc $(($(date +%s)-t))s $(grep -c VIOLATION $d/out) $(grep -B1 VIOLATION $d/out | head -1 | cut -c1-150)"
  [ $rc = 1 ] || tail -5 $d/out
  rm -rf $d
done
