#!/bin/bash
# check.sh ID [quick|thorough]: rebuilds the harness against /repo's working tree and runs one check.
# check.sh replay FILE: runs one recorded case again.
set -u
root="$(cd "$(dirname "$0")" && pwd)"
export CYVERIF_ROOT="$root"
export CARGO_TARGET_DIR="$root/.target"
export CARGO_NET_OFFLINE=true
log="$root/.work/build-$$.log"
mkdir -p "$root/.work"
build() { (cd "$root/harness" && cargo build --release --offline "$@" >"$log" 2>&1); }
# The checks need no more than the instruction interface: other signatures and names of library
# functions, state types or their fields must not take them down.
less() { build --no-default-features --features "$1"; }
if ! build && ! less snapshot,names && ! less pure,names && ! less names && ! less snapshot && ! less ""; then
    tail -n 40 "$log" >&2
    rm -f "$log"
    echo "the harness does not build against this tree" >&2
    exit 2
fi
rm -f "$log"
if [ "$1" = replay ]; then
    exec "$root/.target/release/cyverif" replay "$2"
fi
exec "$root/.target/release/cyverif" check "$1" --tier "${2:-${VERIF_TIER:-quick}}"
