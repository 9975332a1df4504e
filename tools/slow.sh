#!/bin/bash
# tools/slow.sh NAME [seconds] [args]: run one harness over 8 shards, showing slow cases (development aid)
n=$1; s=${2:-0.5}; shift 2
python3 /verif/tools/build1.py $n >/dev/null || exit 1; exe=$(ls -t /verif/.build/bin/$n-* | head -1)
for i in 0 1 2 3 4 5 6 7; do VH_SLOW=$s timeout 300 $exe --shard=$i --nshards=8 "$@" > /tmp/slow.$i 2>&1 & done; wait
grep -h slow /tmp/slow.? | sort -k2 | tail -30; cat /tmp/slow.? | grep -v ^slow | cut -c1-300
