"""Orchestrates simulated runs: build, seeded search over worker processes, minimisation, replay, evidence."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
WORKERS = int(os.environ.get('SIM_WORKERS', '8'))
PY = '/opt/venv/bin/python'


class HarnessError(Exception):
    pass


class BuildViolation(Exception):
    """The property is broken so that the simulated program cannot even be built."""
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls, self.msg = cls, msg


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise HarnessError('command failed (%d): %s\n%s' % (r.returncode, ' '.join(map(str, cmd)), r.stdout.decode(errors='replace')[-4000:]))
    return r.stdout.decode(errors='replace')


class Variant:
    """One way to run the simulation of a property: a command implementing run/plan/exec."""
    def __init__(self, name, cmd, quick, thorough, env=None, chunk=None, timeout=600, workers=None, cwd=None, serve=False):
        self.name, self.cmd, self.quick, self.thorough, self.serve = name, cmd, quick, thorough, serve
        self.env, self.chunk, self.timeout, self.workers, self.cwd = env or {}, chunk, timeout, workers or WORKERS, cwd


SIMS = []


class Sim:
    def __init__(self, prop, variant, workdir):
        self.prop, self.v, self.workdir = prop, variant, workdir
        self.env = dict(os.environ)
        for k in list(self.env):
            if k.startswith(('ASAN_', 'UBSAN_', 'PYTHON', 'MALLOC_')):
                self.env.pop(k)
        self.env.update({
            'SIM_PROPERTY': prop, 'LC_ALL': 'C', 'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
            'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:symbolize=1:allocator_may_return_null=1:detect_stack_use_after_return=0',
            'UBSAN_OPTIONS': 'print_stacktrace=0:exitcode=78:halt_on_error=1',
            'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
        })
        self.env.update(variant.env)
        self.n = 0
        self.lock = threading.Lock()
        self.servers, self.idle = [], []
        self.scratch = None
        if variant.serve:
            self.scratch = tempfile.mkdtemp(prefix='sim-%s-' % prop, dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
            os.chmod(self.scratch, 0o755)
            self.env['SIM_SCRATCH'] = self.scratch
            SIMS.append(self)

    def close(self):
        for p in self.servers:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
        self.servers, self.idle = [], []
        if self.scratch:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def ask(self, words, timeout):
        """a request to a persistent simulator process (those that are slow to start)"""
        with self.lock:
            p = self.idle.pop() if self.idle else None
            if p is None:
                p = subprocess.Popen(self.v.cmd + ['serve'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=self.env, start_new_session=True, cwd=self.v.cwd or self.workdir)
                self.servers.append(p)
        timer = threading.Timer(timeout, lambda: os.killpg(p.pid, 9))
        timer.start()
        try:
            p.stdin.write(('\t'.join(map(str, words)) + '\n').encode())
            p.stdin.flush()
            out = []
            while True:
                l = p.stdout.readline()
                if not l:
                    raise HarnessError('the simulator process ended: %s' % (words,))
                l = l.decode(errors='replace')
                m = re.match(r'END (\d+)$', l.strip())
                if m:
                    break
                out.append(l)
        except BrokenPipeError:
            raise HarnessError('the simulator process ended: %s' % (words,))
        finally:
            timer.cancel()
        with self.lock:
            self.idle.append(p)
        return int(m.group(1)), ''.join(out), ''

    def tmp(self, suffix):
        with self.lock:
            self.n += 1
            return os.path.join(self.workdir, '%s-%d%s' % (self.v.name, self.n, suffix))

    def call(self, args, timeout, env=None):
        e = dict(self.env)
        if env:
            e.update(env)
        p = subprocess.Popen(self.v.cmd + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, start_new_session=True, cwd=self.v.cwd or self.workdir)
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.communicate()
            raise HarnessError('simulator exceeded its wall limit: %s %s' % (self.v.name, args))
        return p.returncode, out.decode(errors='replace'), err.decode(errors='replace')

    def batch(self, seed0, count, hashlog=False, env=None):
        st = self.tmp('.json')
        hl = self.tmp('.log') if hashlog else None
        args = ['run', str(seed0), str(count), st] + ([hl] if hl else [])
        rc, out, err = self.ask(args, self.v.timeout) if self.v.serve and not env else self.call(args, self.v.timeout, env)
        if not os.path.exists(st):
            raise HarnessError('simulator %s died (%d): %s %s' % (self.v.name, rc, out[-1500:], err[-3000:]))
        with open(st, errors='replace') as f:
            d = json.load(f)
        os.unlink(st)
        log = None
        if hl:
            with open(hl, errors='replace') as f:
                log = f.read()
            os.unlink(hl)
        return d, log

    def plan(self, seed):
        rc, out, err = (self.ask if self.v.serve else self.call)(['plan', str(seed)], 120)
        if rc != 0:
            raise HarnessError('plan failed: ' + err[-2000:])
        return [l for l in out.split('\n') if l.strip()]

    def exec(self, lines, trace=False, timeout=300):
        f = self.tmp('.plan')
        with open(f, 'w', errors='replace') as o:
            o.write('\n'.join(lines) + '\n')
        rc, out, err = (self.ask if self.v.serve else self.call)(['exec', f] + (['trace'] if trace else []), timeout)
        os.unlink(f)
        m = re.search(r'^RESULT (\d+) CLASS (\S+) HASH (\d+)', out, re.M)
        if not m:
            raise HarnessError('exec gave no result (%d): %s %s' % (rc, out[-1000:], err[-2000:]))
        msg = re.search(r'^MSG (.*)$', out, re.M)
        return int(m.group(1)), m.group(2), msg.group(1) if msg else '', int(m.group(3)), out


def read_findings():
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) class=(\S+) match=/(.*?)/ (.*)$', l.strip())
            if m:
                out.append(dict(property=m.group(1), cls=m.group(2), rx=re.compile(m.group(3)), text=m.group(4)))
    return out


def minimise(sim, lines, cls, deadline, max_exec=3000):
    """ddmin over plan lines, then shrink of numeric arguments, keeping the violation class."""
    n_exec = [0]

    def test(ls):
        if n_exec[0] >= max_exec or time.time() > deadline:
            return False
        n_exec[0] += 1
        try:
            rc, c, _, _, _ = sim.exec(ls)
        except HarnessError:
            return False
        return rc == 1 and c == cls

    def par_first(cands):
        """first candidate (in order) that still fails"""
        for i in range(0, len(cands), WORKERS):
            grp = cands[i:i + WORKERS]
            with cf.ThreadPoolExecutor(WORKERS) as ex:
                res = list(ex.map(test, grp))
            for c, r in zip(grp, res):
                if r:
                    return c
        return None

    n = 2
    while len(lines) >= 2 and time.time() < deadline:
        size = max(1, len(lines) // n)
        cands = []
        for a in range(0, len(lines), size):
            cands.append(lines[:a] + lines[a + size:])
        got = par_first(cands)
        if got is not None:
            lines = got
            n = max(n - 1, 2)
        elif size == 1:
            break
        else:
            n = min(len(lines), n * 2)
    # arguments: one pass
    for i in range(len(lines)):
        if time.time() > deadline:
            break
        w = lines[i].split(' ')
        for k in range(1, len(w)):
            if not re.fullmatch(r'-?\d+', w[k]) or w[0] in ('cfg', 'prop') or w[k] in ('0', '1'):
                continue
            v = int(w[k])
            cands = []
            for x in (0, 1, v // 2, v - 1):
                if x != v and abs(x) <= abs(v):
                    c = list(w); c[k] = str(x)
                    cands.append(lines[:i] + [' '.join(c)] + lines[i + 1:])
            got = par_first(cands)
            if got is not None:
                lines = got
                w = lines[i].split(' ')
    return lines, n_exec[0]


def main(argv):
    if not argv or argv[0].startswith('-'):
        print(__doc__); return 2
    prop = argv[0]
    import props
    try:
        spec = props.get(prop)
    except KeyError:
        print('unknown property %s' % prop); return 2
    work = os.path.join(VERIF, 'build', prop, 'run-%d' % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        if '--replay' in argv:
            return replay(prop, spec, argv[argv.index('--replay') + 1], work)
        if '--determinism' in argv:
            return determinism(prop, spec, int(argv[argv.index('--determinism') + 1]), work)
        return search(prop, spec, work)
    except BuildViolation as e:
        path = os.path.join(VERIF, 'replays', '%s-build.plan' % prop)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w', errors='replace') as f:
            f.write('# property: %s\n# variant: build\n# class: %s\n# message: %s\n' % (prop, e.cls, e.msg))
        ev = {'property': prop, 'tier': os.environ.get('VERIF_TIER', 'quick'), 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'exploration',
              'coverage': {'evaluations': 1, 'distinct_nontrivial': 1, 'rule': 'The program to simulate could not be built because of a violation.', 'samples': [{'class': e.cls, 'message': e.msg}]},
              'assumptions': [], 'wall_s': 0, 'violations': 1}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('class=%s: %s' % (e.cls, e.msg))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    except HarnessError as e:
        print('HARNESS-ERROR property=%s %s' % (prop, e), file=sys.stderr)
        return 2
    finally:
        for sim in SIMS:
            sim.close()
        shutil.rmtree(work, ignore_errors=True)


def build(prop, spec):
    d = os.path.join(VERIF, 'build', prop)
    os.makedirs(d, exist_ok=True)
    return spec.build(d)


def replay(prop, spec, path, work):
    lines, meta = [], {}
    with open(path, errors='replace') as f:
        for l in f.read().split('\n'):
            if l.startswith('#'):
                m = re.match(r'# (\w+): (.*)', l)
                if m:
                    meta[m.group(1)] = m.group(2)
            elif l.strip():
                lines.append(l)
    vs = [v for v in build(prop, spec) if v.name == meta.get('variant')]
    if not vs:
        raise HarnessError('replay file names no known variant')
    sim = Sim(prop, vs[0], work)
    rc, cls, msg, h, out = sim.exec(lines, trace=True)
    sys.stdout.write(out)
    if rc == 3:
        raise HarnessError('replay: ' + msg)
    if rc == 1:
        print('class %s: %s' % (cls, msg))
        if cls != meta.get('class'):
            print('note: the file was recorded for class %s' % meta.get('class'))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    else:
        print('replay: property held')
    return rc


def determinism(prop, spec, n, work):
    bad = 0
    for v in build(prop, spec):
        base = None
        for workers, hs in ((1, '0'), (3, '0'), (8, '12345'), (8, 'random')):
            sim = Sim(prop, v, work)
            sim.env['PYTHONHASHSEED'] = hs
            step = max(1, (n + workers - 1) // workers)
            with cf.ThreadPoolExecutor(workers) as ex:
                parts = list(ex.map(lambda s: sim.batch(s, min(step, n - (s - 1)), True), range(1, n + 1, step)))
            log = ''.join(p[1] for p in parts)
            if base is None:
                base = log
            diff = [(a, b) for a, b in zip(base.split('\n'), log.split('\n')) if a != b]
            print('%s/%s workers=%d hashseed=%s: %d seeds, %d differ%s' % (prop, v.name, workers, hs, log.count('\n'), len(diff), ' ' + str(diff[:3]) if diff else ''))
            bad += len(diff) + (log.count('\n') != base.count('\n'))
    return 1 if bad else 0


def search(prop, spec, work):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    print('property=%s seed=%d tier=%s' % (prop, seed, tier), flush=True)
    variants = build(prop, spec)
    t_build = time.time() - t0
    findings = [f for f in read_findings() if f['property'] == prop]
    agg = dict(runs=0, steps=0, simtime_us=0, counts={}, hashes=set(), states=set(), resampled=0)
    per_variant = {}
    violation = None
    seen_findings = {}
    samples = []
    t_search = time.time()
    for vi, v in enumerate(variants):
        total = v.quick if tier == 'quick' else v.thorough
        if 'SIM_RUNS' in os.environ:
            total = int(os.environ['SIM_RUNS'])
        if total <= 0:
            continue
        sim = Sim(prop, v, work)
        seed0 = (seed * 1000003 + vi * 7919) * 1000000 % (1 << 60) + 1
        chunk = v.chunk or max(1, min(250, (total + v.workers - 1) // v.workers))
        starts = list(range(0, total, chunk))
        best = [None]
        lock = threading.Lock()
        errors = []
        tv = time.time()
        vr = [0]

        def work_chunk(a):
            pos, end = a, min(a + chunk, total)
            while pos < end:
                with lock:
                    if errors or (best[0] is not None and best[0][0] < pos):
                        return
                d, log = sim.batch(seed0 + pos, end - pos, hashlog=True)
                with lock:
                    agg['runs'] += d['runs']; vr[0] += d['runs']
                    agg['steps'] += d['steps']; agg['simtime_us'] += d['simtime_us']
                    for k, n in d['counts'].items():
                        agg['counts'][k] = agg['counts'].get(k, 0) + n
                    agg['hashes'].update((vi, h) for h in d['hashes'])
                    agg['states'].update(d['states'])
                    for l in log.split('\n'):
                        if l:
                            logs[int(l.split()[0])] = l
                if d['rc'] == 0:
                    return
                if d['rc'] != 1:
                    with lock:
                        errors.append('seed %s: %s %s' % (d['seed'], d['class'], d['msg']))
                    return
                kf = next((f for f in findings if f['cls'] == d['class'] and f['rx'].search(d['msg'])), None)
                rel = d['seed'] - seed0
                if kf:
                    with lock:
                        seen_findings.setdefault(kf['text'], d['seed'])
                    pos = rel + 1
                    continue
                with lock:
                    if best[0] is None or rel < best[0][0]:
                        best[0] = (rel, d)
                return

        logs = {}
        with cf.ThreadPoolExecutor(v.workers) as ex:
            futs = [ex.submit(work_chunk, a) for a in starts]
            for f in futs:
                f.result()
        if errors and best[0] is None:
            raise HarnessError('; '.join(errors[:3]))
        per_variant[v.name] = dict(runs=vr[0], wall_s=round(time.time() - tv, 2), runs_per_hour=int(vr[0] / max(1e-6, time.time() - tv) * 3600))
        if best[0] is not None:
            violation = (v, sim, best[0][1])
            break
        # determinism: a sample of the seeds again, in one other process, must give the same event logs
        k = min(24, total)
        d, log = sim.batch(seed0, k, hashlog=True)
        for l in log.split('\n'):
            if l and logs.get(int(l.split()[0])) != l:
                raise HarnessError('run is not deterministic: %r != %r' % (logs.get(int(l.split()[0])), l))
        agg['resampled'] += k
        if len(samples) < 3:
            pl = sim.plan(seed0 + min(3, total - 1))
            samples.append({'variant': v.name, 'seed': seed0 + min(3, total - 1), 'plan': [x[:160] for x in pl[:40]], 'plan_lines': len(pl)})
    t_search = time.time() - t_search
    rc = 0
    replay_path = None
    info = None
    if violation:
        v, sim, d = violation
        lines = sim.plan(d['seed'])
        orig = len(lines)
        full = lines
        for _ in range(6):
            r, cls, msg, h, _ = sim.exec(lines)
            if r == 1:
                break
        else:
            raise HarnessError('seed %s did not fail again: %s' % (d['seed'], (d, r, cls)))
        lines, n_exec = minimise(sim, lines, cls, time.time() + 60)
        # twice the same: the minimised plan, or the whole one; code that depends on what no seed decides (addresses,
        # memory that was never written) may do neither, and then any of its failures counts
        exact, failed = False, []
        for cand in (lines, full):
            got = [sim.exec(cand)[:4] for _ in range(3)]
            failed += [(cand, g) for g in got if g[0] == 1]
            if all(g[0] == 1 and (g[1], g[3]) == (got[0][1], got[0][3]) for g in got):
                exact = True
                failed = [(cand, got[0])]
                break
        if not failed:
            raise HarnessError('plan of seed %s does not fail again' % d['seed'])
        lines, (r, cls2, msg, h) = failed[0]
        if not exact:
            print('note: the failing code is not deterministic, the replay fails only now and then')
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        replay_path = os.path.join(VERIF, 'replays', '%s-%s-%d.plan' % (prop, v.name, d['seed']))
        with open(replay_path, 'w', errors='replace') as f:
            f.write('# property: %s\n# variant: %s\n# seed: %d\n# class: %s\n# message: %s\n# replay: python3 check.py %s --replay %s\n' % (prop, v.name, d['seed'], cls2, msg, prop, replay_path))
            f.write('\n'.join(lines) + '\n')
        print('class=%s seed=%d: %s' % (cls2, d['seed'], msg))
        print('minimised from %d to %d plan lines in %d executions' % (orig, len(lines), n_exec))
        for l in lines[:60]:
            print('   ' + l[:200])
        info = dict(cls=cls2, seed=d['seed'], message=msg, plan=lines[:60])
        samples.append({'variant': v.name, 'seed': d['seed'], 'violating_plan': lines[:60]})
        rc = 1
    wall = time.time() - t0
    probes = {k: agg['counts'].get(k, 0) for k in sorted(agg['counts'])}
    faults = {k: n for k, n in probes.items() if k.startswith('fault_')}
    missing = [k for k in spec.expect if not agg['counts'].get(k)]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': agg['runs'],
            'distinct_nontrivial': len(agg['hashes']),
            'rule': spec.rule + ' Distinct: different hash over the full event log of the run.',
            'samples': samples,
            'runs_per_hour': int(agg['runs'] / max(1e-6, t_search) * 3600),
            'seeds_per_hour': int(agg['runs'] / max(1e-6, t_search) * 3600),
            'simulated_steps': agg['steps'], 'simulated_time_s': agg['simtime_us'] / 1e6,
            'faults_injected': faults,
            'probes': {k: n for k, n in probes.items() if not k.startswith('fault_')},
            'distinct_abstract_states': len(agg['states']),
            'state_measure': spec.state_measure,
            'variants': per_variant,
            'determinism_resampled_runs': agg['resampled'],
            'probes_never_hit': missing,
            'components_real': spec.real, 'components_stubbed': spec.stub,
            'known_findings_seen': seen_findings,
        },
        'assumptions': spec.assumptions,
        'wall_s': round(wall, 2), 'violations': 1 if rc else 0,
    }
    if info:
        ev['coverage']['violation'] = info
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for t in sorted(seen_findings):
        print('KNOWN-FINDING: property=%s %s' % (prop, t))
    print('runs=%d distinct=%d states=%d faults=%s build=%.1fs wall=%.1fs' % (agg['runs'], len(agg['hashes']), len(agg['states']), json.dumps(faults), t_build, wall))
    if missing:
        print('probes never hit: %s' % missing)
    if rc:
        print('VIOLATION property=%s replay=%s' % (prop, replay_path))
    return rc
