#!/bin/bash
# usage: valseed.sh id...   validates demos (shared target) and the stable tests
for id in "$@"; do
 d=/verif/seeded/$id
 rm -rf /tmp/dw; mkdir -p /tmp/dw; cp -r $d/Cargo.toml $d/Cargo.lock $d/src /tmp/dw/
 cd /tmp/dw
 CARGO_TARGET_DIR=/tmp/dt cargo run --release --offline -q >/tmp/dw/o 2>/tmp/dw/e; a=$?
 [ $a != 0 ] && { echo "$id CLEAN FAILS"; grep -E "^error|panicked|thread" -A6 /tmp/dw/e | head -12; tail -2 /tmp/dw/e; }
 git -C /repo apply $d/patch.diff || { echo "$id APPLY FAIL"; continue; }
 CARGO_TARGET_DIR=/tmp/dt cargo run --release --offline -q >/tmp/dw/o2 2>/tmp/dw/e2; b=$?
 [ $b = 0 ] && echo "$id PATCHED PASSES"
 t=$(bash /tmp/t.sh 2>&1 | tail -1)
 git -C /repo checkout -q -- .
 m=$(grep -hE "^error|panicked at|assert" -A2 /tmp/dw/e2 | head -4 | tr '\n' ' ')
 echo "$id clean=$a patched=$b tests=$t | $m"
done
