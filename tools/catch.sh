#!/bin/bash
# catch.sh ID...: runs the check of the property of each planted bug against a scratch copy with the bug.
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  W=/tmp/catch_w_$id; rm -rf "$W"; cp -a /repo "$W"; cd "$W"; git checkout -q -- .; git apply "$V/seeded/$id/patch.diff"
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  ( cd "$V"; VERIF_REPO=$W timeout 900 python3 check.py $p > /tmp/catch_$id.log 2>&1; echo "$id ($p): exit $? $(grep -h '^VIOLATION' /tmp/catch_$id.log) $(grep -c '^failing input' /tmp/catch_$id.log) inputs, $(grep -c '^failed obl' /tmp/catch_$id.log) obligations" )
  rm -rf "$W"
done
