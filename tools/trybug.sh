#!/bin/bash
# tools/trybug.sh ID... : applies each planted bug to /repo, builds, runs stable tests, demo and its property's check, and reverts
here="$(cd "$(dirname "$0")/.." && pwd)"
for id in "$@"; do
  d=$here/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  t=$(bash "$here/tools/testok.sh")
  (cd /repo && timeout 300 bash "$d/demo.sh") >/tmp/demo.log 2>&1; bad=$?
  bash "$here/check.sh" "$prop" quick > /tmp/check_$id.log 2>&1; chk=$?
  git -C /repo checkout -q -- .
  bash /opt/vp/build.sh >/dev/null 2>&1
  (cd /repo && timeout 300 bash "$d/demo.sh") >/tmp/demo0.log 2>&1; good=$?
  echo "$id $prop: $t | demo patched=$bad clean=$good | check exit=$chk $(grep -c VIOLATION /tmp/check_$id.log) $(grep VIOLATION /tmp/check_$id.log | head -3 | sed 's/.*replays.//' | tr '\n' ' ')"
done
