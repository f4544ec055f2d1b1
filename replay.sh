#!/bin/bash
# replay.sh FILE : runs the case of a replay file again (VCHK_REPEAT times, default 20).
V=$(cd "$(dirname "$0")" && pwd)
for k in plain asan tsan; do
    if [ $k = plain ] || grep -q "\"bin\": \"$k\"" "$1"; then "$V/build.sh" $k || exit 2; fi
done
export VCHK_DIR="$V" VCHK_ASAN="$V/target-asan/x86_64-unknown-linux-gnu/release/vchk" VCHK_TSAN="$V/target-tsan/x86_64-unknown-linux-gnu/release/vchk" VCHK_TSAN_SUPP="$V/tsan.supp"
exec "$V/target/release/vchk" replay "$1"
