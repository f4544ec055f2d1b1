#!/bin/bash
# check.sh ID : builds from /repo's current tree and runs the check of one property (VERIF_SEED, VERIF_TIER).
V=$(cd "$(dirname "$0")" && pwd)
id=$1
if [ "$id" = C20 ]; then
    "$V/build.sh" asan & a=$!
    "$V/build.sh" tsan & b=$!
    "$V/build.sh" plain || { wait; exit 2; }
    wait $a || exit 2
    wait $b || exit 2
else
    "$V/build.sh" plain || exit 2
fi
export VCHK_DIR="$V"
export VCHK_ASAN="$V/target-asan/x86_64-unknown-linux-gnu/release/vchk"
export VCHK_TSAN="$V/target-tsan/x86_64-unknown-linux-gnu/release/vchk"
export VCHK_TSAN_SUPP="$V/tsan.supp"
exec "$V/target/release/vchk" check "$id"
