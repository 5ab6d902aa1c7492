#!/bin/bash
# Builds the harness against /repo's working tree and runs one property's check.
# usage: check.sh PROPERTY quick|thorough
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="$2"
. /opt/vp/env.sh
export CARGO_NET_OFFLINE=true VERIF_DIR="$here"
cd "$here/harness" || exit 2
mkdir -p "$here/work"
log="$here/work/build-$prop.log"
failed() {
    tail -40 "$1" >&2
    echo "the harness does not build against /repo" >&2
    exit 2
}
if [ "$prop" = M01 ]; then
    # Built three times: with each sanitizer and for Miri.
    host=x86_64-unknown-linux-gnu
    RUSTFLAGS="-Zsanitizer=address" CARGO_TARGET_DIR="$here/target-asan" \
        cargo +nightly build --release --offline --target $host >"$log.asan" 2>&1 &
    a=$!
    RUSTFLAGS="-Zsanitizer=memory -Zsanitizer-memory-track-origins" CARGO_TARGET_DIR="$here/target-msan" \
        cargo +nightly build -Zbuild-std --release --offline --target $host >"$log.msan" 2>&1 &
    b=$!
    MIRIFLAGS="-Zmiri-disable-isolation" CARGO_TARGET_DIR="$here/target-miri" \
        cargo +nightly miri run --offline -- texts /dev/null >"$log.miri" 2>&1 &
    c=$!
    wait $a || failed "$log.asan"
    wait $b || failed "$log.msan"
    wait $c || failed "$log.miri"
    cd "$here" || exit 2
    export ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1
    export MSAN_OPTIONS=abort_on_error=1
    export VH_NO_LIMIT=1 VH_ALSO="$here/target-msan/$host/release/vh"
    [ "$tier" = quick ] && export VH_DEADLINE=150
    VERIF_TIER="$tier" exec "$here/target-asan/$host/release/vh" check M01
fi
if [ "$prop" = M02 ]; then
    # Built with the thread sanitizer and without.
    host=x86_64-unknown-linux-gnu
    RUSTFLAGS="-Zsanitizer=thread" CARGO_TARGET_DIR="$here/target-tsan" \
        cargo +nightly build -Zbuild-std --release --offline --target $host >"$log.tsan" 2>&1 &
    a=$!
    CARGO_TARGET_DIR="$here/target" cargo build --release --offline >"$log" 2>&1 || failed "$log"
    wait $a || failed "$log.tsan"
    cd "$here" || exit 2
    export TSAN_OPTIONS=halt_on_error=1:abort_on_error=1
    export VH_NO_LIMIT=1 VH_ALSO="$here/target-tsan/$host/release/vh"
    VERIF_TIER="$tier" exec "$here/target/release/vh" check M02
fi
export CARGO_TARGET_DIR="$here/target"
cargo build --release --offline >"$log" 2>&1 || failed "$log"
cd "$here" || exit 2
VERIF_TIER="$tier" exec "$here/target/release/vh" check "$prop"
