#!/bin/bash
# run_all.sh quick|thorough [seed]: every check, one after another
cd "$(dirname "$0")"
export VERIF_SEED=${2:-1} VERIF_TIER=$1
for i in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  python3 check.py $i --tier $1 > /tmp/run_$i.log 2>&1; rc=$?
  echo "$i rc=$rc $(head -1 /tmp/run_$i.log)"
  [ $rc = 0 ] || tail -5 /tmp/run_$i.log | cut -c1-400
done
