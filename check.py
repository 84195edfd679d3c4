#!/usr/bin/env python3
"""Runs the deterministic simulation that decides one property.

  check.py ID             search (tier from VERIF_TIER, seeds from VERIF_SEED)
  check.py --replay FILE  run a replay file again and print its trace
  check.py --build        build the simulator only

Exit 0: the property held in every simulated run. Exit 1 with a VIOLATION line:
a run broke it, and its replay file reproduces that in a fresh process.
Anything else is trouble of the check itself.
"""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from checkinfo import INFO  # noqa: E402

BUILD = os.path.join(VERIF, 'build')
REPLAYS = os.path.join(VERIF, 'replays')
EVID = os.path.join(VERIF, 'evidence')
FINDINGS = os.path.join(VERIF, 'known-findings.txt')
MEM = 12 << 30
HANG = 240  # wall seconds after which one simulated run (normally milliseconds) counts as stuck


def trouble(msg, code=2):
    print('CHECK ERROR: ' + msg, flush=True)
    sys.exit(code)


def build():
    out = tempfile.mkdtemp(prefix='w', dir=ensure(BUILD))
    p = subprocess.run(['bash', os.path.join(VERIF, 'tools/simbuild.sh'), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(os.path.join(out, 'worker')):
        print(p.stdout[-6000:])
        shutil.rmtree(out, ignore_errors=True)
        trouble('the simulator does not build from /repo')
    return out


def ensure(d):
    os.makedirs(d, exist_ok=True)
    return d


class Worker:
    """One worker process running one job."""

    def __init__(self, bdir, name, job, procs=None, mem=MEM):
        self.dir = bdir
        self.out = os.path.join(bdir, name + '.out')
        self.cur = os.path.join(bdir, name + '.cur')
        self.log = os.path.join(bdir, name + '.log')
        self.jobf = os.path.join(bdir, name + '.job')
        for f in (self.out, self.cur):
            if os.path.exists(f):
                os.remove(f)
        job = dict(job, out=self.out, current=self.cur)
        with open(self.jobf, 'w') as f:
            json.dump(job, f)
        env = dict(os.environ, VW_JOB=self.jobf, GOGC='200', GOMEMLIMIT='2500MiB', GOTRACEBACK='all')
        env['GOMAXPROCS'] = str(procs or 2)
        self.logf = open(self.log, 'w')

        def lim():
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            os.setpgid(0, 0)
        self.p = subprocess.Popen([os.path.join(bdir, 'worker'), '-test.run', '^TestWorker$', '-test.timeout', '0'], cwd=bdir,
                                  env=env, stdout=self.logf, stderr=subprocess.STDOUT, preexec_fn=lim)
        self.curval, self.curtime = None, time.time()
        self.killed = False

    def current(self):
        try:
            with open(self.cur) as f:
                return f.readline().strip()
        except OSError:
            return None

    def poll(self):
        """None while running; kills a run that is stuck."""
        r = self.p.poll()
        if r is None:
            c = (self.current(), os.path.getmtime(self.cur) if os.path.exists(self.cur) else 0)
            if c != self.curval:
                self.curval, self.curtime = c, time.time()
        return r

    def stuck(self):
        return time.time() - self.curtime

    def kill(self):
        self.killed = True
        try:
            self.p.send_signal(signal.SIGQUIT)
            self.p.wait(10)
        except Exception:
            self.p.kill()
            self.p.wait()

    def report(self):
        try:
            with open(self.out) as f:
                return json.load(f)
        except Exception:
            return None

    def tail(self, n=4000):
        self.logf.flush()
        with open(self.log, errors='replace') as f:
            return f.read()[-n:]

    def head(self, n=6000):
        with open(self.log, errors='replace') as f:
            return f.read()[:n]


def run_one(bdir, name, job, limit=HANG):
    w = Worker(bdir, name, job)
    t0 = time.time()
    while w.poll() is None:
        time.sleep(0.05)
        if time.time() - t0 > limit:
            w.kill()
            return w, 'hang'
    rep = w.report()
    if rep and rep.get('finished'):
        return w, 'ok'
    return w, 'died'


def load_findings(prop):
    known, fixed = [], []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            m = re.match(r'finding: property=(\S+) id=(\S+) (.*)$', line)
            if m and m.group(1) == prop:
                known.append({'id': m.group(2), 'what': m.group(3)})
            m = re.match(r'fixed: property=(\S+) ', line)
            if m and m.group(1) == prop:
                fixed.append(line)
    return known, fixed


def base_seed(prop, seed):
    h = hashlib.sha256(('%s/%s' % (prop, seed)).encode()).digest()
    return int.from_bytes(h[:6], 'big')


def died_in_library(text):
    """a process that died for good: was it the code under test?"""
    return 'danomagnum/gologix' in text or 'gologix.(' in text


def search(prop, bdir, tier, seed):
    info = INFO[prop]
    known, _ = load_findings(prop)
    avoid = [k['id'] for k in known]
    base = base_seed(prop, seed)
    n = int(os.environ.get('VERIF_JOBS', '8'))
    secs = float(os.environ.get('VERIF_SECONDS', info.get('thorough' if tier == 'thorough' else 'quick', 1200 if tier == 'thorough' else 40)))
    print('seed %d base %d workers %d budget %.0f s' % (seed, base, n, secs), flush=True)
    t0 = time.time()

    # the same seeds in two processes with different parallelism give the same event logs
    selfn = 60 if tier == 'thorough' else 24
    a = Worker(bdir, 'h1', dict(mode='hashes', prop=prop, **{'from': base}, step=1, count=selfn, avoid=avoid), procs=1)
    b = Worker(bdir, 'h2', dict(mode='hashes', prop=prop, **{'from': base}, step=1, count=selfn, avoid=avoid), procs=8)
    for w in (a, b):
        while w.poll() is None and w.stuck() < HANG:
            time.sleep(0.02)
        if w.p.poll() is None:
            w.kill()
    ra, rb = a.report(), b.report()
    det = 0
    if ra and rb and ra.get('finished') and rb.get('finished'):
        if ra['hashes'] != rb['hashes']:
            d = [k for k in ra['hashes'] if ra['hashes'][k] != rb['hashes'].get(k)]
            trouble('not deterministic across processes: seeds %s' % d[:5], 3)
        det = len(ra['hashes'])
    # otherwise a run killed its process; the search below will find and report that

    stop = os.path.join(bdir, 'stop')
    if os.path.exists(stop):
        os.remove(stop)
    shrink = info.get('shrink', 45 if tier == 'quick' else 240)
    ws = [Worker(bdir, 'w%d' % i, dict(mode='search', prop=prop, **{'from': base + 1000 + i}, step=n, seconds=secs, shrink=shrink, avoid=avoid, stop=stop))
          for i in range(n)]
    viol, dead = None, None
    live = list(ws)
    while live:
        time.sleep(0.1)
        for w in list(live):
            r = w.poll()
            rep = None
            if os.path.exists(w.out):
                rep = w.report()
            if rep and (rep.get('viol') or rep.get('nondeterminism')) and not os.path.exists(stop):
                open(stop, 'w').close()
            if r is None:
                if w.stuck() > max(HANG, shrink + 60):
                    w.kill()
                    r = 1
                else:
                    continue
            live.remove(w)
            if not (rep and rep.get('finished')) and dead is None and not (rep and rep.get('nondeterminism')):
                dead = w
                open(stop, 'w').close()
    reps = [w.report() for w in ws]
    for rep in reps:
        if rep and rep.get('nondeterminism'):
            trouble('not deterministic: ' + rep['nondeterminism'], 3)
    found = [r['viol'] for r in reps if r and r.get('viol')]
    wall = time.time() - t0
    replay = None
    if found:
        found.sort(key=lambda v: (v['choices'], v['seed']))
        viol = found[0]
        replay = save_replay(prop, seed, viol)
        w, how = run_one(bdir, 'confirm', dict(mode='replay', prop=prop, seed=viol['seed'], streams=viol['streams'], avoid=avoid, trace=True))
        r = w.report() if how == 'ok' else None
        if not r or not r.get('viol') or r['viol']['key'] != viol['key'] or r['viol']['hash'] != viol['hash']:
            trouble('the replay file %s does not reproduce: %s / %s' % (replay, viol['key'], r and r.get('viol')), 3)
        with open(replay[:-5] + '.log', 'w') as f:
            f.write('\n'.join(r['log']))
        for l in r['log'][-60:]:
            print(l)
        print('violation: %s: %s' % (viol['key'], viol['msg']))
        print('seed %d, scenario %s, %d choices (%d before minimisation), confirmed in a fresh process' % (viol['seed'], viol['scen'], viol['choices'], viol['choices_before']))
    elif dead is not None:
        c = dead.current()
        text = dead.head() + dead.tail()
        if not c:
            print(text)
            trouble('a worker died before its first run')
        sd = int(c)
        how1 = 'hang' if dead.killed else 'died'
        w, how = run_one(bdir, 'confirm', dict(mode='search', prop=prop, **{'from': sd}, step=1, count=1, avoid=avoid, noshrink=True))
        text = w.head() + w.tail()
        if how == 'ok' or how != how1 or not died_in_library(text):
            print(text)
            trouble('a worker %s at seed %d, again alone: %s' % (how1, sd, how))
        viol = dict(seed=sd, key='process-' + how, msg=text[:3000], streams=None, scen='', choices=0, choices_before=0)
        replay = save_replay(prop, seed, viol)
        print(text[:3000])
        print('violation: the process %s in the simulated run of seed %d, and again in a fresh process' % (how, sd))
    if viol is None:
        reps = [r for r in reps if r]
        if len(reps) != n or not all(r.get('finished') for r in reps):
            trouble('a worker gave no report')
    kf = []
    for k in known:
        w, how = run_one(bdir, 'known', dict(mode='search', prop=prop, **{'from': base}, step=1, count=60, avoid=avoid, only=k['id'], noshrink=True))
        r = w.report() if how == 'ok' else None
        if r is None:
            trouble('the demonstration of known finding %s does not run' % k['id'])
        if r.get('failing'):
            kf.append(k['id'])
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, k['id'], k['what']))
        else:
            print('note: known finding %s no longer fails' % k['id'])
    evidence(prop, tier, seed, [r for r in reps if r], wall, det, viol, kf, base, n)
    if viol:
        print('VIOLATION property=%s replay=%s' % (prop, replay), flush=True)
        return 1
    runs = sum(r['runs'] for r in reps)
    print('held: property %s in %d simulated runs, %.1f simulated hours, %.0f s' % (prop, runs, sum(r['sim_seconds'] for r in reps) / 3600, wall))
    return 0


def save_replay(prop, seed, viol):
    ensure(REPLAYS)
    f = os.path.join(REPLAYS, '%s-%d.json' % (prop, viol['seed']))
    with open(f, 'w') as fh:
        json.dump(dict(prop=prop, verif_seed=seed, **viol), fh, indent=1)
    return f


def evidence(prop, tier, seed, reps, wall, det, viol, kf, base, n):
    info = INFO[prop]
    runs = sum(r['runs'] for r in reps)
    stats = {}
    scens = {}
    for r in reps:
        for k, v in (r.get('stats') or {}).items():
            stats[k] = stats.get(k, 0) + v
        for k, v in (r.get('scens') or {}).items():
            scens[k] = scens.get(k, 0) + v
    hs = set()
    for r in reps:
        hs.update(r.get('shashes') or [])
    simh = sum(r['sim_seconds'] for r in reps) / 3600
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': len(hs),
        'rule': 'One evaluation is one simulated run: a seed draws the configuration, the operations, the schedule and the faults. It is non-trivial if '
                'at least one fault fired or tasks contended for a lock or channel, and distinct if the hash of its complete event log differs from that of '
                'every other run of this check (at most 400000 hashes kept per worker). ' + info['rule'],
        'samples': [x for r in reps for x in (r.get('samples') or [])][:4],
        'runs_per_hour': round(runs / wall * 3600) if wall else 0,
        'seeds_per_hour': round(runs / wall * 3600) if wall else 0,
        'seeds': 'from %d step 1 over %d workers' % (base, n),
        'simulated_hours': round(simh, 2),
        'scheduling_steps': sum(r['steps'] for r in reps),
        'task_switches': sum(r['switches'] for r in reps),
        'nontrivial_runs': sum(r['nontrivial'] for r in reps),
        'faults_injected': {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault.')},
        'probes': {k: v for k, v in sorted(stats.items()) if not k.startswith('fault.')},
        'runs_per_scenario': scens,
        'determinism': '%d seeds gave identical event logs in two processes with GOMAXPROCS 1 and 8; %d runs were repeated in their process, from the seed and from the recorded choices, with identical logs'
                       % (det, sum(r['rechecked'] for r in reps)),
        'real_code': info['real'],
        'stubs': info['stubs'],
        'known_findings_confirmed': kf,
    }
    ev = dict(property=prop, tier=tier, seed=seed, level=info.get('level', 'exploration'), coverage=cov, assumptions=info['assumptions'], wall_s=round(wall, 2), violations=1 if viol else 0)
    if viol:
        cov['violation'] = dict(seed=viol['seed'], key=viol['key'], msg=viol['msg'][:2000], choices=viol['choices'])
    ensure(EVID)
    f = os.path.join(EVID, prop + '.json')
    with open(f + '.tmp', 'w') as fh:
        json.dump(ev, fh, indent=1)
    os.replace(f + '.tmp', f)


def replay(path):
    with open(path) as f:
        v = json.load(f)
    bdir = build()
    try:
        known, _ = load_findings(v['prop'])
        job = dict(mode='replay', prop=v['prop'], seed=v['seed'], trace=True, avoid=[k['id'] for k in known])
        if v.get('streams') is not None:
            job['streams'] = v['streams']
        w, how = run_one(bdir, 'replay', job)
        if how != 'ok':
            print(w.head() + w.tail())
            print('the process %s' % how)
            return 1 if v['key'] == 'process-' + how else 2
        r = w.report()
        print('\n'.join(r['log']))
        if r.get('viol'):
            print('violation: %s: %s' % (r['viol']['key'], r['viol']['msg']))
            print('same event log as recorded: %s' % (r['viol']['hash'] == v.get('hash')))
            return 1
        print('no violation')
        return 0
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[:1] == ['--build']:
        shutil.rmtree(build(), ignore_errors=True)
        return 0
    if a[:1] == ['--replay']:
        return replay(a[1])
    prop = a[0]
    if prop not in INFO:
        trouble('unknown property ' + prop)
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    bdir = build()
    try:
        return search(prop, bdir, tier, seed)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except KeyboardInterrupt:
        sys.exit(2)
