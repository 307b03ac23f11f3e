#!/bin/bash
# trychk.sh ID [PROP...]: apply seeded patch to /repo, run checks, undo
id=$1; shift
git -C /repo diff --quiet || { echo dirty; exit 1; }
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
for c in ${@:-$p}; do
  s=$(date +%s); timeout 900 bash /verif/check.sh $c ${TIER:-quick} > /tmp/seed/chk-$id-$c.log 2>&1; r=$?
  echo "$id -> $c: exit $r in $(( $(date +%s)-s ))s: $(grep -v '^VIOLATION' /tmp/seed/chk-$id-$c.log | head -1 | cut -c1-250)"
done
git -C /repo checkout -q -- .
