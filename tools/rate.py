#!/usr/bin/env python3
"""How often does a replay's plan fail under other scheduling seeds?"""
import collections, concurrent.futures as cf, json, os, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
import check as C
C.SCRATCH = tempfile.mkdtemp(prefix='rate')
d = json.load(open(sys.argv[1]))
d = d.get('plan', d)
d['sched']['limit'] = 1 << 60


def one(s):
    q = json.loads(json.dumps(d))
    q['seed'] = s
    o = C.run_plan(q)
    return o.kind, o.cls


with cf.ThreadPoolExecutor(8) as ex:
    print(collections.Counter(ex.map(one, range(int(sys.argv[2])))))
