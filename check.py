#!/usr/bin/env python3
"""Deterministic-simulation checks for storetheindex.

  check.py PROPERTY [--tier quick|thorough]   run the check of a property
  check.py --replay FILE                      replay a violation exactly
  check.py --determinism PROPERTY N           run N seeds, then their plans; compare

Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. 2: error.
"""
import argparse, collections, concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
import props as P

BIN = os.path.join(B.BUILD, 'simbin')
WORKERS = int(os.environ.get('VERIF_JOBS', '8'))
RUN_TIMEOUT = 120


class Outcome:
    """Result of one simulated run."""
    __slots__ = ('seed', 'kind', 'cls', 'msg', 'res', 'stderr', 'plan')

    def __init__(self):
        self.seed = self.kind = self.cls = self.msg = self.res = self.stderr = self.plan = None


def first_repo_frame(err):
    # the innermost frame of repository (or harness) code in the first goroutine
    blk = err.split('\n\ngoroutine ')
    txt = err
    m = re.search(r'goroutine \d+ \[running.*?\n(.*?)(\n\n|\Z)', err, re.S)
    if m:
        txt = m.group(1)
    for line in txt.splitlines():
        m = re.match(r'github.com/filecoin-project/storetheindex/(.*?)\(', line)
        if m and not m.group(1).startswith('internal/verifsim'):
            return re.sub(r'\.func\d+.*$', '', m.group(1))
    return ''


def run_once(args, timeout=RUN_TIMEOUT):
    o = Outcome()
    fd, out = tempfile.mkstemp(prefix='simres', dir=SCRATCH)
    os.close(fd)
    try:
        env = {'HOME': SCRATCH, 'PATH': '/usr/bin:/bin', 'GOTRACEBACK': 'single', 'TMPDIR': SCRATCH}
        if os.environ.get('SIM_LOG'):
            env['SIM_LOG'] = os.environ['SIM_LOG']
        try:
            p = subprocess.run([BIN, '-out', out] + args, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=SCRATCH)
        except subprocess.TimeoutExpired:
            o.kind, o.cls, o.msg = 'timeout', 'no-progress', 'the simulated process stopped making progress (no scheduling decision returned to the simulator)'
            return o
        err = p.stderr.decode('utf-8', 'replace')
        o.stderr = err[-20000:]
        if p.returncode == 0:
            try:
                o.res = json.load(open(out))
            except Exception as ex:
                o.kind, o.msg = 'error', 'bad result file: %s' % ex
                return o
            v = o.res.get('violation')
            if v:
                o.kind, o.cls, o.msg = 'violation', v['class'], v['msg']
            else:
                o.kind = 'ok'
            return o
        m = re.search(r'^(panic: .*|fatal error: .*)$', err, re.M)
        if p.returncode == 2 and m:
            head = m.group(1)
            if 'harness:' in head or 'run queue overflow' in head or 'out of memory' in head:
                o.kind, o.msg = 'error', head
                return o
            if 'livelock' in head:
                o.kind, o.cls, o.msg = 'violation', 'livelock', 'busy loop without progress: ' + head
                return o
            if 'all goroutines are asleep' in head:
                o.kind, o.cls, o.msg = 'violation', 'deadlock', head
                return o
            frame = first_repo_frame(err)
            o.kind, o.cls = 'violation', 'process-crash:' + frame
            o.msg = 'the indexer process dies: %s (in %s)' % (head[:300], frame or 'a dependency')
            return o
        o.kind, o.msg = 'error', 'exit %d: %s' % (p.returncode, err[-2000:])
        return o
    finally:
        try:
            os.unlink(out)
        except OSError:
            pass


class Plans:
    """Plan files for consecutive seeds, generated in blocks on demand."""
    BLOCK = 100

    def __init__(self, prop, tier, scen=os.environ.get('VERIF_SCENARIO')):
        self.dir = tempfile.mkdtemp(prefix='plans', dir=SCRATCH)
        self.args = ['-property', prop, '-tier', tier, '-dir', self.dir] + (['-scenario', scen] if scen else [])
        self.have = set()
        self.lock = threading.Lock()

    def path(self, seed):
        b = seed // self.BLOCK
        with self.lock:
            if b not in self.have:
                p = subprocess.run([BIN, '-gen', str(self.BLOCK), '-seed', str(b * self.BLOCK)] + self.args,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
                if p.returncode != 0:
                    raise RuntimeError('plan generation failed: ' + p.stderr[-2000:])
                self.have.add(b)
        return os.path.join(self.dir, '%d.json' % seed)

    def plan(self, seed):
        return json.load(open(self.path(seed)))

    def run(self, seed):
        return run_once(['-plan', self.path(seed)])


def run_plan(plan, timeout=RUN_TIMEOUT, extra=()):
    fd, f = tempfile.mkstemp(prefix='plan', suffix='.json', dir=SCRATCH)
    with os.fdopen(fd, 'w') as fh:
        json.dump(plan, fh)
    try:
        return run_once(['-plan', f] + list(extra), timeout)
    finally:
        os.unlink(f)


def same(o, cls):
    return o.kind in ('violation', 'timeout') and o.cls == cls


def minimise(plan, cls, budget):
    """Delta-debug ops and faults, then bisect the schedule limit."""
    end = time.time() + budget
    best = plan
    pool = cf.ThreadPoolExecutor(WORKERS)

    def trial(cands):
        """Return the first candidate (in order) that still fails."""
        futs = [pool.submit(run_plan, c, 60) for c in cands]
        hit = None
        for c, f in zip(cands, futs):
            o = f.result()
            if hit is None and same(o, cls):
                hit = c
        return hit

    for key in ('faults', 'ops'):
        n = 2
        while best.get(key) and time.time() < end:
            items = best[key]
            n = min(n, len(items))
            size = (len(items) + n - 1) // n
            cands = []
            for i in range(0, len(items), size):
                c = dict(best)
                c[key] = items[:i] + items[i + size:]
                cands.append(c)
            got = None
            for i in range(0, len(cands), WORKERS):
                got = trial(cands[i:i + WORKERS])
                if got or time.time() > end:
                    break
            if got:
                best = got
                n = max(2, n - 1)
            elif size == 1:
                break
            else:
                n = min(len(items), n * 2)
    # shrink schedule: how many scheduling decisions have to be random at all
    o = run_plan(best, 60)
    if same(o, cls) and o.res:
        lo, hi = 0, int(o.res['decisions'])
        while hi - lo > max(1, hi // 200) and time.time() < end:
            step = max(1, (hi - lo) // (WORKERS + 1))
            lims = sorted(set(min(hi - 1, lo + step * k) for k in range(0, WORKERS)))
            cands = []
            for l in lims:
                c = json.loads(json.dumps(best))
                c['sched']['limit'] = l
                cands.append(c)
            got = trial(cands)
            if not got:
                lo = lims[-1] + 1
                if lo >= hi:
                    break
                continue
            hi = got['sched']['limit']
            best = got
            lo = max([l for l in lims if l < hi], default=lo - 1) + 1 if hi > lo else lo
            if hi <= lo:
                break
    pool.shutdown()
    return best


def load_findings():
    f = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(f):
        return {'findings': [], 'fixed': []}
    return json.load(open(f))


def matches_finding(fi, o):
    return fi['class'] == o.cls and re.search(fi['msg_re'], o.msg or '')


def check(prop, tier, seed0):
    t0 = time.time()
    spec = P.PROPS[prop]
    B.build()
    build_s = time.time() - t0
    n = spec['quick'] if tier == 'quick' else spec['thorough']
    if os.environ.get('VERIF_RUNS'):
        n = int(os.environ['VERIF_RUNS'])
    cap = 420 if tier == 'quick' else 6 * 3600
    findings = [f for f in load_findings()['findings'] if f['property'] == prop]
    for f in findings:
        # The committed plan fixes the workload; a few scheduling seeds are tried
        # so that unrelated edits, which shift the schedule, do not hide it.
        plan = json.load(open(os.path.join(HERE, f['plan'])))
        for s in range(10):
            o = run_plan(dict(plan, seed=plan['seed'] + s))
            if o.kind in ('violation', 'timeout') and matches_finding(f, o):
                break
        if o.kind in ('violation', 'timeout') and matches_finding(f, o):
            print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
        else:
            print('note: known finding %s no longer reproduces (%s %s)' % (f['id'], o.kind, o.cls))
    agg = collections.Counter()
    inter, hist, states = set(), set(), set()
    decs = sim_us = preempt = 0
    runs = known = errors = 0
    fails = []
    samples = []
    scen = collections.Counter()
    trun = time.time()
    stop = False
    err_msgs = []
    base = seed0 * 1000000
    plans = Plans(prop, tier)
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        it = iter(range(n))
        pending = {}

        def submit():
            for i in it:
                s = base + i
                f = ex.submit(plans.run, s)
                pending[f] = s
                return True
            return False

        for _ in range(WORKERS * 2):
            submit()
        while pending:
            done, _ = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
            for f in done:
                s = pending.pop(f)
                o = f.result()
                o.seed = s
                runs += 1
                if o.res:
                    r = o.res
                    for k, v in r['counts'].items():
                        agg[k] += v
                    inter.add(r['interleaving'])
                    if any(k.startswith(('fault:', 'op:', 'net.', 'vs.', 'disk.', 'ev:')) and v for k, v in r['counts'].items()):
                        hist.add(r['history'])
                    states.update(r['states'] or [])
                    decs += r['decisions']
                    preempt += r['preemptions']
                    sim_us += r['sim_us']
                    scen[r['plan']['scenario']] += 1
                    if len(samples) < 2:
                        samples.append({'seed': s, 'plan': shorten(r['plan']), 'history_digest': r['history'], 'interleaving': r['interleaving']})
                if o.kind == 'error':
                    errors += 1
                    err_msgs.append('seed %d: %s' % (s, o.msg))
                elif o.kind in ('violation', 'timeout'):
                    if any(matches_finding(fi, o) for fi in findings):
                        known += 1
                    else:
                        fails.append(o)
                        stop = True
                if not stop and errors < 5 and time.time() - trun < cap:
                    submit()
    run_s = time.time() - trun
    fails.sort(key=lambda o: (o.kind == 'timeout', o.seed))
    rep = None
    for o in fails[:4]:
        rep = report(prop, tier, o)
        if rep:
            break
    wall = time.time() - t0
    faults = {k[6:]: v for k, v in sorted(agg.items()) if k.startswith('fault:')}
    ev = {
        'property': prop, 'tier': tier, 'seed': seed0, 'level': 'exploration',
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': len(hist),
            'rule': 'one evaluation is one simulated run of the whole system from one seed (workload, faults, scheduling all drawn from it); '
                    'it is non-trivial if at least one workload operation or seam event took place, and distinct if its history digest '
                    '(every workload step, fault, observation and its simulated time) differs from all others in this run of the check',
            'samples': samples,
            'seeds_per_hour': int(runs / max(run_s, 1e-3) * 3600),
            'simulated_seconds': round(sim_us / 1e6, 1),
            'scheduling_decisions': decs,
            'preemptions_taken': preempt,
            'distinct_interleavings': len(inter),
            'distinct_abstract_states': len(states),
            'faults_injected': faults,
            'operations': {k[3:]: v for k, v in sorted(agg.items()) if k.startswith('op:')},
            'seam_events': {k: v for k, v in sorted(agg.items()) if k.startswith(('net.', 'vs.', 'disk.', 'wire.', 'restart', 'ev:'))},
            'probes': {k: v for k, v in sorted(agg.items()) if not k.startswith(('op:', 'fault:', 'net.', 'vs.', 'disk.', 'wire.', 'restart', 'ev:'))},
            'scenarios': dict(scen),
            'known_findings_hit': known,
            'errors': errors,
            'real_components': P.REAL + spec.get('real', []),
            'stub_components': P.STUB + spec.get('stub', []),
        },
        'assumptions': P.ASSUME + spec.get('assume', []),
        'wall_s': round(wall, 1),
        'violations': 1 if rep else 0,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s: %d runs, %d distinct histories, %d interleavings, %.0f simulated s, faults %s, %d known, %d errors, build %.0f s, run %.0f s'
          % (prop, runs, len(hist), len(inter), sim_us / 1e6, faults, known, errors, build_s, run_s))
    if rep:
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    if fails and not rep:
        print('error: a failure did not reproduce: %s' % [(o.seed, o.cls, o.msg) for o in fails[:3]])
        return 2
    if errors:
        print('error: %s' % '\n'.join(err_msgs[:5]))
        return 2
    if runs == 0:
        return 2
    return 0


def shorten(plan):
    p = dict(plan)
    p['ops'] = p['ops'][:12] if p.get('ops') else []
    return p


def report(prop, tier, o):
    """Confirm, minimise, write the replay file. Returns its path."""
    if o.res:
        plan = o.res['plan']
    else:
        plan = Plans(prop, tier).plan(o.seed)
    again = run_plan(plan)
    if not same(again, o.cls):
        return None
    if o.kind == 'timeout':
        third = run_plan(plan)
        if not same(third, o.cls):
            return None
    mini = plan
    if o.kind != 'timeout':
        mini = minimise(plan, o.cls, float(os.environ.get('VERIF_MIN_BUDGET', '60')))
    fin = run_plan(mini, extra=['-log'])
    fin2 = run_plan(mini, extra=['-log'])
    if not (same(fin, o.cls) and same(fin2, o.cls)):
        mini = plan
        fin = run_plan(mini, extra=['-log'])
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha256(json.dumps(mini, sort_keys=True).encode()).hexdigest()[:10]))
    with open(path, 'w') as fh:
        json.dump({'property': prop, 'class': fin.cls, 'msg': fin.msg, 'seed': o.seed,
                   'history': fin.res and fin.res['history'], 'plan': mini,
                   'trace': (fin.res or {}).get('log'), 'stderr': None if fin.res else fin.stderr}, fh, indent=1)
    print('%s: %s: %s' % (prop, fin.cls, fin.msg))
    print('%s: minimised from %d ops / %d faults to %d / %d, random decisions %s' % (
        prop, len(plan.get('ops') or []), len(plan.get('faults') or []), len(mini.get('ops') or []), len(mini.get('faults') or []), mini['sched']['limit']))
    return path


def replay(path):
    B.build()
    r = json.load(open(path))
    o = run_plan(r['plan'], extra=['-log'])
    print('recorded: %s %s (history %s)' % (r['class'], r['msg'], r['history']))
    print('now:      %s %s (history %s)' % (o.cls or o.kind, o.msg, o.res and o.res['history']))
    if same(o, r['class']):
        exact = (o.res and o.res['history']) == r['history'] and o.msg == r['msg']
        print('reproduced %s' % ('exactly' if exact else 'the same class of violation'))
        print('VIOLATION property=%s replay=%s' % (r['property'], path))
        return 1
    return 0 if o.kind == 'ok' else 2


def determinism(prop, n, tier):
    B.build()
    plans = Plans(prop, tier)
    bad = 0

    def two(s):
        a = plans.run(s)
        b = run_plan(a.res['plan'] if a.res else plans.plan(s), extra=['-log'])
        ka = (a.kind, a.cls, a.res and (a.res['history'], a.res['interleaving'], a.res['decisions']))
        kb = (b.kind, b.cls, b.res and (b.res['history'], b.res['interleaving'], b.res['decisions']))
        return s, ka, kb

    with cf.ThreadPoolExecutor(WORKERS) as ex:
        for s, a, b in ex.map(two, range(n)):
            if a != b:
                bad += 1
                if bad < 10:
                    print('DIVERGE seed', s, a, b)
    print('%s: %d seeds twice, %d diverged' % (prop, n, bad))
    return 1 if bad else 0


def main():
    global SCRATCH
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('n', nargs='?', type=int, default=100)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--determinism', action='store_true')
    a = ap.parse_args()
    sys.stdout.reconfigure(line_buffering=True)
    with tempfile.TemporaryDirectory(prefix='verifsim') as SCRATCH:
        try:
            if a.replay:
                return replay(a.replay)
            if a.determinism:
                return determinism(a.prop, a.n, a.tier)
            return check(a.prop, a.tier, int(os.environ.get('VERIF_SEED', '1')))
        except B.BuildError as ex:
            print('error: build failed: %s' % ex)
            return 2


if __name__ == '__main__':
    sys.exit(main())
