#!/usr/bin/env python3
# run the baseline tests on /repo (or cwd copy) and print the stable tests that fail
import json,subprocess,sys,os
out='/tmp/bt.%d.json'%os.getpid()
subprocess.run(['bash','/opt/vp/test.sh',out],stdout=subprocess.DEVNULL,cwd=sys.argv[1] if len(sys.argv)>1 else '/repo')
r=json.load(open(out)); os.remove(out)
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
p=set(r.get('passed',r.get('pass',[])))
bad=sorted(st-p)
print('stable',len(st),'failed',len(bad)); print('\n'.join(bad[:20]))
sys.exit(1 if bad else 0)
