#!/bin/bash
# run.sh ID [tier] [extra]: short report of one check
cd /verif
for p in $1; do timeout 900 /opt/venv/bin/python check.py --property $p --tier ${2:-quick} "${@:3}" 2>/dev/null | cut -c1-900 | awk '/^[a-zA-Z0-9_.-]+ paths=/{line=$0; next} /^   !/{if(line!=""){print line; line=""} print; next} {print}' | head -${LINES_MAX:-40}; done
