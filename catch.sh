#!/bin/bash
# catch.sh id...: apply each seeded bug in /repo, run the check of its property, undo
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'].lower())")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: no apply"; continue; }
  timeout 900 /opt/venv/bin/python checks/$p.py --seed ${SEED:-1} > /tmp/catch.$id.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(tail -1 /tmp/catch.$id.out | cut -c1-160)"
  grep -o "mech=[^ ]*" /tmp/catch.$id.out | sort | uniq -c | sort -rn | head -3
done
