#!/bin/bash
# runs the check of each planted bug's property on a scratch copy with the bug
for id in ${@:-$(ls /verif/seeded)}; do
  w=$(mktemp -d /tmp/seedwt.XXXX); git -C /repo archive HEAD | tar -x -C $w; (cd $w && git init -q . && git apply /verif/seeded/$id/patch.diff) || echo "$id: patch does not apply"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  APOLLO_REPO=$w timeout 900 python3 /verif/check.py $p --no-evidence > /tmp/try-$id.log 2>&1; r=$?
  echo "$id $p exit=$r $(grep -c ^VIOLATION /tmp/try-$id.log) $(grep -m1 -A1 '^  [a-z]*:' /tmp/try-$id.log | head -1 | cut -c1-140)"
  rm -rf "$w"
done
