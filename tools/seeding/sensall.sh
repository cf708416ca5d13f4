#!/bin/bash
# usage: sensall.sh id...  : the property's own check against each seeded bug
for id in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id APPLY"; continue; }
 s=$(date +%s)
 r=$(timeout 900 /verif/check.sh $p quick 2>/dev/null | grep -E "VIOLATION|held|VIOLATED" | head -1 | cut -c1-100)
 git -C /repo checkout -q -- .
 echo "$id $p $(( $(date +%s)-s ))s | $r"
done
