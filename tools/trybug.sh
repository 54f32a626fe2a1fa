#!/bin/bash
# tools/trybug.sh <seeded id>...: apply each planted bug to /repo, run its property's quick check, undo
cd /verif
for id in "$@"; do
  c=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'].lower())")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  t=$(date +%s); ./run.sh $c > /tmp/trybug.$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $c rc=$rc violations=$(grep -c '^VIOLATION' /tmp/trybug.$id.log) $(( $(date +%s) - t ))s"
done
