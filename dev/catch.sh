#!/bin/bash
# catch.sh ID...: does the check of the property catch the planted bug? (applies it to /repo and undoes it)
cd /verif
for i in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  [ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo dirty"; exit 1; }
  git -C /repo apply /verif/seeded/$i/patch.diff || continue
  S=$(date +%s); KSIM_SECS=${SECS:-40} ./check.sh $P quick >/tmp/catch.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$i $P rc=$rc $(($(date +%s)-S))s $(grep -h 'violates it' /tmp/catch.out | cut -c1-200) $(grep -c '^VIOLATION' /tmp/catch.out) $(grep -h 'replay in' /tmp/catch.out) $(tail -1 /tmp/catch.out | cut -c1-200)"
done
