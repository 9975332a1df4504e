#!/bin/bash
# tools/all.sh [IDs...]: run every registered check quickly, one line each
cd /verif; ids="$@"; [ -z "$ids" ] && ids=$(python3 -c "
import json
for c in json.load(open('MANIFEST.json'))['checks']: print(c.get('property') or c.get('id') or c['property_id'])")
for i in $ids; do s=$(date +%s); timeout 900 python3 run.py $i > /tmp/all.$i.log 2>&1; echo "$i rc=$? $(( $(date +%s) - s ))s $(grep -c VIOLATION /tmp/all.$i.log) $(tail -1 /tmp/all.$i.log | cut -c1-150)"; done
