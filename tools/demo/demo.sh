#!/bin/bash
# Exits 0 if the toolchain in /repo behaves as expected.txt says.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
target="${DEMO_TARGET:-$tmp/target}"
cp -r "$here/demo" "$tmp/demo"
cd "$tmp/demo" || exit 2
CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$target" cargo build --offline >"$tmp/log" 2>&1 || { tail -20 "$tmp/log"; exit 2; }
timeout 120 "$target/debug/demo" "$here/cases.txt" >"$tmp/out" 2>"$tmp/err"
rc=$?
[ $rc = 0 ] || { echo "the program ended with status $rc"; tail -5 "$tmp/err"; exit 1; }
[ "$1" = --print ] && { cat "$tmp/out"; exit 0; }
diff "$here/expected.txt" "$tmp/out" && exit 0
exit 1
