#!/bin/bash
# all.sh [tier] [ids]: every check one after the other; one line per check
cd /verif
for p in ${2:-$(ls props | grep -E '^[a-z][0-9]+\.py$' | sed 's/\.py//' | tr a-z A-Z)}; do
  a=$(date +%s); timeout 1000 /opt/venv/bin/python check.py --property $p --tier ${1:-quick} > /tmp/all_$p.log 2>&1; r=$?
  echo "$p rc=$r $(( $(date +%s) - a ))s $(grep -cE '^UNDECIDED' /tmp/all_$p.log) undecided; $(grep -E '^(VIOLATION|UNDECIDED)' /tmp/all_$p.log | head -3 | cut -c1-200)"
done
