#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines id, property, needs, breaks, edits=[(file, old, new)], pkg, test (Go source), [run]"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/tmp/w/r'
DEMO = '''#!/bin/bash
# Exit 0 when the behaviour is right, nonzero when it is not. Run in the repository's root.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
. /opt/vp/env.sh
cd "$R" || exit 2
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp "$D/demo_test.go.txt" "$T/demo_test.go"
cat > "$T/overlay.json" <<EOF
{"Replace": {"$R/%(pkg)s/zz_demo_test.go": "$T/demo_test.go"}}
EOF
TMPDIR=$T timeout 250 go test -vet=off -count=1 -overlay "$T/overlay.json" -run '%(run)s' ./%(pkg)s
'''
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    subprocess.check_call(['git', '-C', R, 'fetch', '-q', '/repo', 'HEAD'])
    subprocess.check_call(['git', '-C', R, 'reset', '-q', '--hard', 'FETCH_HEAD'])
    for f, old, new in ns['edits']:
        p = os.path.join(R, f); s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = os.path.join(V, 'seeded', ns['id']); os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', '-C', R, 'diff'], stdout=subprocess.PIPE, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO % dict(pkg=ns['pkg'], run=ns.get('run', 'TestDemo')))
    open(d + '/demo_test.go.txt', 'w').write(ns['test'].lstrip())
    json.dump({"property": ns['property'], "needs": ns['needs'], "what_it_breaks": ns['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
    print(ns['id'])
