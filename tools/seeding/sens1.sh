#!/bin/bash
# inside a slot: sens1.sh id...  validates (V=1) and runs the property's check
for id in "$@"; do
 d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 git -C /repo checkout -q -- .
 if [ "$V" = 1 ]; then
  rm -rf /verif/.dw; mkdir -p /verif/.dw; cp -r $d/Cargo.toml $d/Cargo.lock $d/src /verif/.dw/; cd /verif/.dw
  CARGO_TARGET_DIR=/verif/.dt cargo run --release --offline -q >o 2>e; a=$?
  [ $a != 0 ] && { echo "$id CLEAN FAILS"; grep -E "^error|panicked|thread" -A6 e | head -12; }
 fi
 git -C /repo apply $d/patch.diff || { echo "$id APPLY FAIL"; continue; }
 r=""
 if [ "$V" = 1 ]; then
  CARGO_TARGET_DIR=/verif/.dt cargo run --release --offline -q >o2 2>e2; b=$?
  t=$(bash /tmp/t.sh 2>&1 | tail -1)
  r="clean=$a patched=$b tests=$t |"
 fi
 if [ "$C" != 0 ]; then
  out=$(VERIF_SEED=1 timeout 900 /verif/check.sh ${P:-$p} quick 2>&1); rc=$?
  r="$r ${P:-$p} rc=$rc $(echo "$out" | grep -E "VIOLATION|held|quick:" | head -2 | cut -c1-200 | tr '\n' ' ')"
 fi
 git -C /repo checkout -q -- .
 echo "$id $r"
done
