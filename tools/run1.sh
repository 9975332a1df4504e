#!/bin/bash
# tools/run1.sh NAME [rel|asan] [args]: build and run one harness over 8 shards; summary (development aid)
n=$1; v=${2:-rel}; shift; shift
cd /verif; exe=$(python3 tools/build1.py $n $v) || exit 1
t=$(date +%s)
for i in 0 1 2 3 4 5 6 7; do timeout ${TMO:-150} $exe --shard=$i --nshards=8 --out=/tmp/r1.$i "$@" > /tmp/r1.$i.log 2>&1 || { echo "shard $i exit $?"; tail -5 /tmp/r1.$i.log | cut -c1-600; echo; } & done; wait
echo "$(( $(date +%s) - t )) s"
python3 - <<'P'
import json,os,collections
tot=collections.Counter(); fails=[]; 
for i in range(8):
    try: d=json.load(open('/tmp/r1.%d'%i))
    except Exception as e: print('no result',i,e); continue
    for k in ('evals','nontrivial','states','transitions','traces','nfails'): tot[k]+=d[k]
    for k,v in d['counters'].items(): tot['c:'+k]+=v
    if d['capped']: tot['capped']+=1
    fails+=d['fails']
print(dict(tot))
by=collections.defaultdict(list)
for f in fails: by[f['key']].append(f)
for k,v in by.items():
    v.sort(key=lambda f:len(f['case']))
    for f in v[:int(os.environ.get('NF','2'))]: print(k,'x%d'%len(v),'idx',f['idx'],f['case'][:500],'|',f['msg'][:400])
P
rm -f /tmp/r1.?
