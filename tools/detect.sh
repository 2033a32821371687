#!/bin/bash
# run the owning check against each planted bug given (or all of them), on a
# scratch copy of /repo (VERIF_REPO), so that /repo itself is never touched
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  d=/tmp/detect_$id
  rm -rf "$d"; git clone -q /repo "$d"
  git -C "$d" apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; rm -rf "$d"; continue; }
  s=$(date +%s)
  VERIF_REPO=$d VERIF_SEED=1 VERIF_TIER=quick /opt/venv/bin/python -B run.py $p --tier quick >/tmp/det_$id.log 2>&1; rc=$?
  rm -rf "$d"
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 -A1 VIOLATION /tmp/det_$id.log | tail -1 | cut -c1-140)"
done
