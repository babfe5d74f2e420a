#!/bin/bash
# which contracts report each planted bug: applies every seeded patch to a scratch copy of /repo and runs its property's quick check there
out=/tmp/mx/matrix.txt; : > $out
for d in /verif/seeded/*/; do
  id=$(basename $d); prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cp -a /repo /tmp/mx/copy && git -C /tmp/mx/copy apply $d/patch.diff && \
  VF_REPO=/tmp/mx/copy bash /verif/check.sh $prop quick > /tmp/mx/$id.log 2>&1
  echo "$id $prop rc=$? $(grep -E '^violation' /tmp/mx/$id.log | awk '{print $2}' | tr '\n' ' ')| $(grep -c no-failing-input-found /tmp/mx/$id.log)" >> $out
  rm -rf /tmp/mx/copy
done
