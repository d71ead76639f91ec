#!/bin/bash
# par.sh DIR WALL entry...: run entries in parallel (development)
D=$1; W=$2; shift 2
for e in "$@"; do (ulimit -v 9000000; timeout -k 5 $((W+40)) /verif/engine/target/release/symex $D/t.ll $e /tmp/o_$e.json wall=$W > /tmp/o_$e.txt 2>&1) & done; wait
for e in "$@"; do tail -4 /tmp/o_$e.txt | cut -c1-330; grep -h "reached" /tmp/o_$e.txt | head -1; python3 - $e <<'P'
import json,sys
try:
    j=json.load(open(f'/tmp/o_{sys.argv[1]}.json')); print('   reached',j['reached'])
    for v in j['violations'][:3]: print('   V',v['kind'],v['id'],v['desc'][:100],v['stack'][-4:],v['inputs'][:12])
except Exception as e: print('   no result')
P
done
