#!/bin/sh
# run all quick checks, summary lines
cd "$(dirname "$0")/.."
for f in contracts/c[0-9]*.py; do
  i=$(basename $f .py | tr c C)
  s=$(date +%s)
  python3-vt -W ignore run.py $i --tier quick > /tmp/all.$i.log 2>&1
  echo "$i rc=$? $(( $(date +%s) - s ))s $(tail -1 /tmp/all.$i.log | cut -c1-150)"
done
