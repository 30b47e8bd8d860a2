#!/bin/bash
# dev/runseed.sh [ids]: which checks report which planted change (applied to a copy)
cd "$(dirname "$0")/.."
for s in ${@:-$(ls seeded)}; do
  d=/tmp/rs_$s; rm -rf $d; mkdir $d; cp -a /repo/dataprofiler $d/; (cd $d && rm -rf dataprofiler/tests && git init -q . && git apply -p1 --exclude='*/tests/*' /verif/seeded/$s/patch.diff) || echo APPLY $s
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  VERIF_REPO=$d python3 dev/alldiff.py $s $p
  rm -rf $d
done
