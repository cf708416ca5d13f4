#!/bin/bash
# Exit 0 when the behaviour is right, non-zero when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp -r "$here/Cargo.toml" "$here/Cargo.lock" "$here/src" "$work/"
cd "$work" && CARGO_TARGET_DIR="$work/target" cargo run --release --offline -q >"$work/out" 2>"$work/err"
rc=$?
grep -v '^warning' "$work/err" | tail -n 15 >&2
exit $rc
