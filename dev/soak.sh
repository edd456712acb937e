#!/bin/bash
# soak.sh SECS PROPS...: long searches with varying seeds from a copy of the binary; failures in /tmp/soak/log
S=$1; shift
mkdir -p /tmp/soak; cp /verif/build/target/x86_64-unknown-linux-gnu/release/ksim /tmp/soak/ksim; cp /verif/known_findings.txt /tmp/soak/; cd /tmp/soak
for seed in ${SEEDS:-101 102 103}; do for p in "$@"; do
  nice -n 10 timeout $((S*4+300)) ./ksim check $p --tier quick --seed $seed --secs $S --jobs ${J:-4} > out.$p.$seed 2>&1; rc=$?
  echo "$p $seed rc=$rc $(grep -h 'violates it\|unreprod\|^VIOL\|did not fail again' out.$p.$seed | head -3 | cut -c1-300) $(tail -1 out.$p.$seed | cut -c1-150)" >> log
done; done
echo done >> log
