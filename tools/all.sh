#!/bin/bash
# run every check (quick) and print its last line
cd "$(dirname "$0")/.."
for c in checks/C*.py; do i=$(basename $c .py); python3 run.py $i ${1:-quick} > /tmp/all_$i.log 2>&1; echo "$i exit $? $(tail -1 /tmp/all_$i.log | cut -c1-120)"; done
