#!/usr/bin/env python3
"""Build the simulator from /repo's current working tree.

overlay = patched Go standard library files (deterministic runtime)
        + instrumented copies of the repository's packages (preemption points)
        + the harness sources, mapped to /repo/internal/verifsim
Nothing is written outside /verif/.build.
"""
import fcntl, hashlib, json, os, subprocess, sys, shutil, glob

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, '.build')
REPO = '/repo'
GOROOT = '/opt/vp/go1.18.10'
INSTR = ['internal', 'server', 'api', 'peerutil', 'config', 'command']


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e['GOROOT'] = GOROOT
    e['PATH'] = GOROOT + '/bin:' + e.get('PATH', '')
    e['GOCACHE'] = os.path.join(BUILD, 'gocache')
    e['GOPATH'] = e.get('GOPATH', '/root/go')
    e['GOFLAGS'] = '-mod=mod -buildvcs=false'
    e['GOPROXY'] = 'off'
    e['GONOSUMDB'] = '*'
    e['GONOSUMCHECK'] = '1'
    e['GOFLAGS'] = '-buildvcs=false'
    e['GOSUMDB'] = 'off'
    e['GOTOOLCHAIN'] = 'local'
    e['CGO_ENABLED'] = '0'
    e['GOTMPDIR'] = os.path.join(BUILD, 'tmp')
    return e


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        raise BuildError('%s failed:\n%s\n%s' % (' '.join(cmd), p.stdout[-4000:], p.stderr[-8000:]))
    return p.stdout


def build(quiet=True):
    os.makedirs(os.path.join(BUILD, 'tmp'), exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build()


def slow_timers(e):
    """A housekeeping timer of a dependency that fires ten times a second in a
    dozen goroutines for ever: made slow, so that days can be simulated."""
    d = run(['go', 'list', '-m', '-f', '{{.Dir}}', 'github.com/ipfs/go-graphsync'], env=e, cwd=REPO).strip()
    src = os.path.join(d, 'taskqueue', 'taskqueue.go')
    if not d or not os.path.exists(src):
        return {}
    txt = open(src).read()
    new = txt.replace('const thawSpeed = time.Millisecond * 100', 'const thawSpeed = time.Second * 10')
    if new == txt:
        return {}
    out = os.path.join(BUILD, 'taskqueue.go')
    open(out, 'w').write(new)
    return {src: out}


def legs_hooks(e):
    """Hooks in go-legs that tell the simulator which sync a request belongs to
    and when the sync chose its rate limiter."""
    d = run(['go', 'list', '-m', '-f', '{{.Dir}}', 'github.com/filecoin-project/go-legs'], env=e, cwd=REPO).strip()
    res = {}

    def sub(rel, pairs):
        src = os.path.join(d, rel)
        txt = open(src).read()
        for a, b in pairs:
            if txt.count(a) != 1:
                raise BuildError('go-legs is not the version that the simulator knows: %s: %r' % (rel, a))
            txt = txt.replace(a, b)
        out = os.path.join(BUILD, 'legs_' + rel.replace('/', '_'))
        open(out, 'w').write(txt)
        res[src] = out
    sub('httpsync/sync.go', [
        ('type Syncer struct {\n', '// SimClock and SimKey are the hooks of the simulator.\nvar SimClock = func() int64 { return 0 }\n\ntype SimKey struct{}\n\ntype Syncer struct {\n\tSimT0, SimT1 int64\n'),
        ('\treturn &Syncer{\n', '\treturn &Syncer{\n\t\tSimT1: SimClock(),\n'),
        ('http.NewRequestWithContext(ctx, "GET"', 'http.NewRequestWithContext(context.WithValue(ctx, SimKey{}, s), "GET"'),
    ])
    sub('subscriber.go', [
        ('\tvar httpAddr multiaddr.Multiaddr\n\tif len(peerAddrs) == 0 {', '\tsimT0 := httpsync.SimClock()\n\tvar httpAddr multiaddr.Multiaddr\n\tif len(peerAddrs) == 0 {'),
        ('\t\treturn syncer, true, nil\n', '\t\tsyncer.SimT0 = simT0\n\t\treturn syncer, true, nil\n'),
    ])
    return res


def daemon_hooks(e):
    """Seams for running the whole daemon: its libp2p host, the storage below
    its leveldb datastore, and the value store below its engine."""
    res = {}

    def sub(mod, rel, pairs):
        d = run(['go', 'list', '-m', '-f', '{{.Dir}}', mod], env=e, cwd=REPO).strip()
        src = os.path.join(d, rel)
        txt = open(src).read()
        for a, b in pairs:
            if txt.count(a) != 1:
                raise BuildError('%s is not the version that the simulator knows: %s: %r' % (mod, rel, a))
            txt = txt.replace(a, b)
        out = os.path.join(BUILD, 'dep_' + mod.split('/')[-1] + '_' + rel.replace('/', '_'))
        open(out, 'w').write(txt)
        res[src] = out
    sub('github.com/libp2p/go-libp2p', 'libp2p.go', [
        ('func New(opts ...Option) (host.Host, error) {\n', '// SimNew is a hook of the simulator.\nvar SimNew func() (host.Host, error)\n\nfunc New(opts ...Option) (host.Host, error) {\n\tif SimNew != nil {\n\t\treturn SimNew()\n\t}\n'),
    ])
    sub('github.com/ipfs/go-ds-leveldb', 'datastore.go', [
        ('type Datastore struct {\n', '// SimStorage is a hook of the simulator.\nvar SimStorage func() storage.Storage\n\ntype Datastore struct {\n'),
        ('\tif path == "" {\n', '\tif SimStorage != nil {\n\t\tdb, err = leveldb.Open(SimStorage(), &nopts)\n\t} else if path == "" {\n'),
    ])
    sub('github.com/filecoin-project/go-indexer-core', 'engine/engine.go', [
        ('func New(resultCache cache.Interface, valueStore indexer.Interface,', '// SimStore is a hook of the simulator.\nvar SimStore func(indexer.Interface) indexer.Interface\n\nfunc New(resultCache cache.Interface, valueStore indexer.Interface,'),
        ('\t\tvalueStore:  valueStore,\n', '\t\tvalueStore:  simStore(valueStore),\n'),
        ('type Engine struct {\n', 'func simStore(s indexer.Interface) indexer.Interface {\n\tif SimStore != nil {\n\t\treturn SimStore(s)\n\t}\n\treturn s\n}\n\ntype Engine struct {\n'),
    ])
    sub('github.com/filecoin-project/go-indexer-core', 'store/memory/memory.go', [
        ('func (s *memoryStore) Close() error { return nil }', '// SimClose is a hook of the simulator.\nvar SimClose func(s interface{})\n\nfunc (s *memoryStore) Close() error {\n\tif SimClose != nil {\n\t\tSimClose(s)\n\t}\n\treturn nil\n}'),
    ])
    return res


def _build():
    sys.path.insert(0, os.path.join(HERE, 'rt'))
    import patch
    e = env()
    std = os.path.join(BUILD, 'std')
    os.makedirs(std, exist_ok=True)
    replace = dict(patch.generate(GOROOT, std))
    replace.update(slow_timers(e))
    replace.update(legs_hooks(e))
    replace.update(daemon_hooks(e))
    # instrumenter (plain toolchain, plain cache entries)
    instr = os.path.join(BUILD, 'instr')
    isrc = os.path.join(HERE, 'instr', 'main.go')
    if not os.path.exists(instr) or os.path.getmtime(instr) < os.path.getmtime(isrc):
        run(['go', 'build', '-o', instr, isrc], env=e, cwd=os.path.join(HERE, 'instr'))
    iout = os.path.join(BUILD, 'instrumented')
    if os.path.isdir(iout):
        shutil.rmtree(iout)
    os.makedirs(iout)
    for line in run([instr, REPO, iout] + INSTR, env=e).splitlines():
        src, dst = line.split('\t')
        replace[src] = dst
    for f in sorted(glob.glob(os.path.join(HERE, 'sim', '*.go'))):
        replace[os.path.join(REPO, 'internal', 'verifsim', os.path.basename(f))] = f
    # extra files placed inside repository packages
    exp = os.path.join(HERE, 'export')
    for root, _, files in os.walk(exp):
        for f in files:
            if f.endswith('.go'):
                rel = os.path.relpath(os.path.join(root, f), exp)
                replace[os.path.join(REPO, rel)] = os.path.join(root, f)
    ov = os.path.join(BUILD, 'overlay.json')
    with open(ov, 'w') as fh:
        json.dump({'Replace': replace}, fh, indent=1)
    out = os.path.join(BUILD, 'simbin.new')
    run(['go', 'build', '-overlay', ov, '-tags', 'faketime', '-o', out, './internal/verifsim'], env=e, cwd=REPO)
    fin = os.path.join(BUILD, 'simbin')
    os.replace(out, fin)
    return fin


if __name__ == '__main__':
    try:
        print(build())
    except BuildError as ex:
        print(ex, file=sys.stderr)
        sys.exit(2)
