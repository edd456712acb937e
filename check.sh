#!/bin/bash
# check.sh PROPERTY quick|thorough: rebuild from /repo's working tree, then search seeded schedules and fault sequences.
cd "$(dirname "$0")" || exit 2
P=$1; T=${2:-${VERIF_TIER:-quick}}
./build.sh || exit 2
case $T in thorough) S=${KSIM_SECS:-600};; *) S=${KSIM_SECS:-11};; esac
exec ./build/target/x86_64-unknown-linux-gnu/release/ksim check "$P" --tier "$T" --seed "${VERIF_SEED:-1}" --secs "$S" --jobs "${KSIM_JOBS:-$(nproc)}"
