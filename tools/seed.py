#!/usr/bin/env python3
"""seed.py ID...      confirm planted bugs in a scratch copy: builds, stable tests pass, demo passes without and fails with it
seed.py --catch ID...  apply to /repo, run the check of its property, undo
"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME='/root', GOROOT='/opt/vp/go1.18.10', PATH='/opt/vp/go1.18.10/bin:' + os.environ['PATH'], GOTOOLCHAIN='local',
           GOWORK='off', GOFLAGS='-mod=readonly', GOPROXY='off', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/opt/vp/gocache')
def run(cmd, cwd, t=600):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
def stable(d):
    pk = [p for p in run(['go', 'list', '-e', './...'], d).stdout.split() if not p.endswith('/storetheindex/internal/ingest')]
    out = run(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '10m'] + pk, d, 900).stdout
    res = {}
    for l in out.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get('Test') and e['Action'] in ('pass', 'fail'): res[e['Package'] + '/' + e['Test']] = e['Action']
    want = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [w for w in want if res.get(w) != 'pass']
def confirm(i):
    s = os.path.join(V, 'seeded', i)
    d = '/tmp/seedrepo'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True)
    demo = ['bash', os.path.join(s, 'demo.sh')]
    r0 = run(demo, d)
    a = run(['git', 'apply', os.path.join(s, 'patch.diff')], d)
    if a.returncode: print(i, 'DOES NOT APPLY', a.stdout); return False
    b = run(['go', 'build', './...'], d)
    if b.returncode: print(i, 'DOES NOT BUILD', b.stdout); return False
    r1 = run(demo, d)
    bad = stable(d)
    ok = r0.returncode == 0 and r1.returncode != 0 and not bad
    print(i, 'OK' if ok else 'BAD', 'clean', r0.returncode, 'patched', r1.returncode, 'broken tests', bad)
    if r0.returncode: print(r0.stdout[-1500:])
    if '-v' in sys.argv or r1.returncode == 0: print(r1.stdout[-1500:])
    shutil.rmtree(d, ignore_errors=True)
    return ok
def catch(i):
    s = os.path.join(V, 'seeded', i)
    prop = json.load(open(os.path.join(s, 'meta.json')))['property']
    assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], stdout=subprocess.PIPE, text=True).stdout.strip()
    subprocess.check_call(['git', '-C', '/repo', 'apply', os.path.join(s, 'patch.diff')])
    try:
        t = time.time()
        e = dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick', VERIF_MIN_BUDGET=os.environ.get('VERIF_MIN_BUDGET', '5'))
        r = subprocess.run([sys.executable, os.path.join(V, 'check.py'), prop], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(i, prop, 'exit', r.returncode, '%.0fs' % (time.time() - t), '\n   '.join([l[:300] for l in r.stdout.splitlines() if l.startswith(prop + ': ') or 'VIOLATION' in l][:3]))
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '--', '.'])
    return r.returncode == 1
a = [x for x in sys.argv[1:] if not x.startswith('-')] or sorted(os.listdir(os.path.join(V, 'seeded')))
f = catch if '--catch' in sys.argv else confirm
n = sum([f(x) for x in a])
print(n, 'of', len(a))
