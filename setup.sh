#!/bin/bash
# builds the three harness binaries (plain, AddressSanitizer, ThreadSanitizer)
V=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$V/evidence"
"$V/build.sh" plain || exit 2
"$V/build.sh" asan & a=$!
"$V/build.sh" tsan & b=$!
wait $a || exit 2
wait $b || exit 2
