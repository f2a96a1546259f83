import json,sys
r=json.load(open(sys.argv[1])); print(r['class'],r['msg']); print(json.dumps(r['plan']['knobs']),r['plan']['sched'])
for o in r['plan']['ops'] or []: print(o)
for o in r['plan']['faults'] or []: print(o)
n=int(sys.argv[2]) if len(sys.argv)>2 else 60
print('\n'.join((r['trace'] or [])[-n:]))
print((r.get('stderr') or '')[:3000])
