#!/bin/bash
# all.sh [quick|thorough]: every check one after the other
cd "$(dirname "$0")/.."
for i in $(seq -w 1 27); do ./check.sh C$i "${1:-quick}" 2>&1 | grep -E "VIOLATION|KNOWN|held|VIOLATED|harness|error" ; done
