#!/bin/bash
# usage: trybugs.sh [id...]  -- run each bug's property check against a patched copy (QSA_REPO), print verdicts
cd /verif
for d in ${@:-$(ls seeded)}; do
  rm -rf /tmp/tb_$d; git clone -q /repo /tmp/tb_$d; git -C /tmp/tb_$d apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  out=$(QSA_REPO=/tmp/tb_$d python3 -m qsa $p 2>&1); rc=$?
  echo "$d $p rc=$rc $(echo "$out" | grep -m1 '^  \[' | cut -c1-220)"
  rm -rf /tmp/tb_$d
done
