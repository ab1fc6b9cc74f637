#!/bin/bash
# developer tool: every planted bug (or those named) against the check of its property; never used by a check
cd /verif
for i in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || continue
  timeout 900 python3-vt -m vc.check $p quick > /tmp/seed_$i.log 2>&1
  echo "$i $p rc=$? $(grep VIOLATION /tmp/seed_$i.log | head -2 | tr '\n' ' ')"
  git -C /repo checkout -- .
done
