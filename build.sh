#!/bin/bash
# build.sh plain|asan|tsan : builds the harness with /repo's current tree, and prints nothing unless it fails.
set -u
V=$(cd "$(dirname "$0")" && pwd)
kind=${1:-plain}
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0
unset RUSTFLAGS
extra=()
case $kind in
plain) T=$V/target; flags="--cfg hnsw_vhook"; bin=$T/release/vchk ;;
asan)
    export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
    T=$V/target-asan; flags="--cfg hnsw_vhook -Zsanitizer=address"; bin=$T/x86_64-unknown-linux-gnu/release/vchk
    extra=(--target x86_64-unknown-linux-gnu) ;;
tsan)
    export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
    T=$V/target-tsan; flags="--cfg hnsw_vhook -Zsanitizer=thread"; bin=$T/x86_64-unknown-linux-gnu/release/vchk
    extra=(-Zbuild-std --target x86_64-unknown-linux-gnu) ;;
*) echo "build.sh plain|asan|tsan"; exit 2 ;;
esac
mkdir -p "$T"
exec 9>"$T/.lock"
flock 9
# what is built is a function of these files: times of files are not trusted
sum=$( { echo "$flags"; rustc --version; cd /repo && find src Cargo.toml build.rs .cargo -type f 2>/dev/null | sort | xargs sha256sum; cd "$V/harness" && find src Cargo.toml Cargo.lock -type f | sort | xargs sha256sum; } | sha256sum | cut -d' ' -f1)
if [ -x "$bin" ] && [ "$(cat "$T/.stamp" 2>/dev/null)" = "$sum" ]; then exit 0; fi
: > "$T/.stamp"
cd "$V/harness" || exit 2
cargo clean --offline --release --target-dir "$T" ${extra[@]+"${extra[@]:(-2)}"} -p hnsw_rs -p vchk >"$T/.log" 2>&1
if ! RUSTFLAGS="$flags" cargo build --locked --offline --release --target-dir "$T" ${extra[@]+"${extra[@]}"} >>"$T/.log" 2>&1; then
    echo "build of the harness ($kind) fails:"
    grep -A12 '^error' "$T/.log" | head -60
    tail -5 "$T/.log"
    exit 2
fi
echo "$sum" > "$T/.stamp"
