#!/bin/bash
# try.sh PROP COUNT [flavour] [seed] [group]: a batch of runs with a digest, for development
exe=$(python3 $(dirname $0)/../sim/build.py --flavour ${3:-plain} --group ${5:-core})
T=$(mktemp -d)
for w in 0 1 2 3 4 5 6 7; do
 timeout 600 $exe batch --prop $1 --seed ${4:-1} --from $w --step 8 --count $(($2/8)) --double 20 --maxfail 8 --wall 300 > $T/$w.out 2>$T/$w.err &
done; wait
python3 - $T <<'P'
import json,sys
C={};ok=d=r=0;cl={};sec=0
for w in range(8):
  for l in open(f'{sys.argv[1]}/{w}.out'):
    if not l.startswith('{'): continue
    j=json.loads(l)
    if 'summary' in j:
      ok+=j['ok'];d+=j['discard'];r+=j['runs'];sec=j['secs']
      for k,v in j['counters'].items(): C[k]=C.get(k,0)+v
    elif 'diverged' in j: print('DIVERGED',j)
    else: cl.setdefault(j['class'],[]).append((j['index'],j['msg'][:500]))
  e=open(f'{sys.argv[1]}/{w}.err').read()
  if e: print('stderr', e[:300])
print('runs',r,'ok',ok,'disc',d,'secs',sec)
print({k:v for k,v in sorted(C.items())})
for k,v in cl.items():
  print(k,len(v))
  for x in v[:3]: print('   ',x)
P
rm -rf "$T"
