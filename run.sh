#!/bin/bash
# dev helper: run.sh harness libs [secs] [kind]
cd /verif; E=$(python3 engine/build.py $1 $2 ${4:-sym}) || exit 1
$E -t ${3:-60} -j 8 -o /tmp/o-$1.json | tail -3
python3 - /tmp/o-$1.json <<'P'
import json,sys
j=json.load(open(sys.argv[1]))
print({k:v for k,v in j.items() if k not in('violations','functions','samples','reached')})
print(' '.join(j['reached']))
for v in j['violations']: print('VIOL',v['key'],v['values'],v.get('docs','')[-1500:])
P
