"""C14: saving generated code and the code-generation tools, on a file system that fails.

op A convert M kind ver opt inst | save M s n how target [fault...] | tool T target how [fault...] | decoy k
how: plain, noname (name from the file), crash (the process dies at the fault), touch
"""
import os, re, sys
import hs, zoo
import p_models as pm

TOOLS = [
    ('window', ['--window', 'hann', '--length', '64']),
    ('window', ['--window', 'hamming', '--length', '300', '--symmetric']),
    ('window', ['--window', 'blackmanharris', '--length', '16', '--linewrap', '40']),
    ('window', ['--window', 'boxcar', '--length', '1']),
    ('window', ['--window', 'triang', '--length', '2048']),
    ('mel', ['--bands', '8', '--fft', '256', '--samplerate', '8000']),
    ('mel', ['--bands', '32', '--fft', '512']),
    ('mel', ['--bands', '5', '--fft', '128', '--fmin', '100', '--fmax', '4000', '--linewrap', '50']),
]
TOOL_REFS = {}


def tool_main(i):
    return {'window': pm.window_main, 'mel': pm.mel_main}[TOOLS[i][0]]


def default_name(i):
    k, o = TOOLS[i]
    g = lambda n, d: o[o.index(n) + 1] if n in o else d
    return '%s_%s_lut' % (g('--window', 'hann'), g('--length', '1024')) if k == 'window' else 'mel_%s_%s' % (g('--fft', '1024'), g('--bands', '32'))


def setup():
    pm.setup()
    from emlearn.tools import window_function, mel_filterbank
    pm.window_main, pm.mel_main = window_function.main, mel_filterbank.main
    import scipy.signal, librosa
    librosa.filters.mel(sr=8000, n_fft=128, n_mels=4)
    import json
    with open(os.path.join(pm.ZOO, 'tools.json')) as f:
        TOOL_REFS.update(json.load(f))


def references(outdir):
    """what each tool writes in a process that does nothing else; and whether that is the window or filterbank asked for"""
    import json, subprocess, tempfile, shutil
    import numpy as np
    import scipy.signal, librosa
    refs, bad = {}, []
    import concurrent.futures as cf

    def one(i, nm):
            k, o = TOOLS[i]
            d = tempfile.mkdtemp(dir=outdir)
            argv = [sys.executable, '-m', 'emlearn.tools.' + {'window': 'window_function', 'mel': 'mel_filterbank'}[k]] + o + (['--name', nm] if nm else [])
            r = subprocess.run(argv, cwd=d, env=dict(os.environ, PYTHONPATH=hs.REPO), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            fs = os.listdir(d)
            if r.returncode or fs != [(nm or default_name(i)) + '.h']:
                bad.append('%s ends with %d and files %s' % (' '.join(argv[2:]), r.returncode, fs))
                shutil.rmtree(d)
                return
            with open(os.path.join(d, fs[0]), newline='') as f:
                t = f.read()
            shutil.rmtree(d)
            refs['%d/%s' % (i, nm)] = t
            g = lambda n, dv: o[o.index(n) + 1] if n in o else dv
            arrays = {m.group(1): np.array([float(x.strip().rstrip('f')) for x in m.group(2).split(',') if x.strip()]) for m in re.finditer(r'(\w+)\s*\[[^\]]*\]\s*=\s*\{([^}]*)\}', t)}
            base = nm or default_name(i)
            if k == 'window':
                want = scipy.signal.get_window(g('--window', 'hann'), int(g('--length', '1024')), fftbins='--symmetric' not in o)
                got = arrays.get(base)
                if got is None or got.shape != want.shape or abs(got - want).max() > 1e-5:
                    bad.append('%s does not hold the window' % ' '.join(argv[2:]))
            else:
                fmax = g('--fmax', None)
                mel = librosa.filters.mel(sr=int(g('--samplerate', 16000)), n_fft=int(g('--fft', 1024)), n_mels=int(g('--bands', 32)), fmin=int(g('--fmin', 0)), fmax=int(fmax) if fmax else None, htk=False, norm='slaney')
                lut = arrays.get(base + '_lut')
                st, en = arrays.get(base + '_starts'), arrays.get(base + '_ends')
                ok = lut is not None and st is not None and en is not None and len(st) == len(en) == len(mel)
                if ok:
                    full, p = np.zeros(mel.shape), 0
                    for b in range(len(mel)):
                        n = int(en[b]) - int(st[b]) + 1
                        seg = lut[p:p + n]
                        full[b, int(st[b]):int(st[b]) + len(seg)] = seg
                        p += n
                    ok = abs(full - mel).max() <= 1e-5 + 1e-3 * abs(mel).max()
                if not ok:
                    bad.append('%s does not hold the filterbank: %s' % (' '.join(argv[2:]), sorted(arrays)))
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda a: one(*a), [(i, nm) for i in range(len(TOOLS)) for nm in ('', 'tbl')]))
    with open(os.path.join(outdir, 'tools.json'), 'w') as f:
        json.dump(refs, f)
    return bad


ERR = ['ENOSPC', 'EIO', 'EACCES', 'EMFILE', 'EDQUOT', 'EROFS', 'EINTR']


def fs_fault(r, crash):
    c = r.choice(['write', 'write', 'write', 'close', 'close', 'openw', 'openw', 'mkdir', 'rename', 'unlink', 'sync', 'openw+write+close', 'write+close', 'rename+unlink'])
    act = r.choice(['crash', 'crash-torn', 'crash-after']) if crash else r.choice(['fail', 'fail', 'fail-on', 'short'])
    return 'io:%s,%d,%s,%s' % (c, r.choice([1, 1, 1, 2, 3]), act, r.choice(ERR if act == 'fail' else ERR[:-1]))    # a call interrupted for ever never ends


TARGETS = ['new', 'old', 'long', 'same', 'link', 'nodir', 'isdir', 'readonly', 'relative', 'space']


def make_plan(seed):
    r = hs.Rng(seed)
    lines = [pm.names(r)]
    kinds = pm.pick_kinds(r, [1, 2, 3])
    conv = {}
    for m in range(r.choice([0, 1, 2, 2, 3])):
        conv[m] = r.choice(kinds)
        lines.append('op 0 convert %d %s %d %d' % (m, conv[m], r.randrange(len(pm.SP[conv[m]][2])), r.randrange(zoo.VERSIONS)))
    actors = r.choice([0, 0, 0, 1, 2])

    def one(a):
        crash = r.chance(0.15) and not a
        how = 'crash' if crash else r.choice(['plain', 'plain', 'plain', 'noname'])
        fs = ''.join(' ' + fs_fault(r, crash) for _ in range(r.choice([0, 1, 1, 1, 2]) if not crash else 1))
        t = r.choice(TARGETS[:4] if r.chance(0.75) else TARGETS)
        if a:
            t = 'own'
        if conv and r.chance(0.7):
            lines.append('op %d save %d %d %d %s %s%s' % (a, r.choice(sorted(conv)), r.randrange(4), r.randrange(len(zoo.NAMES)) if r.chance(0.5) else 0, how, t, fs))
        else:
            lines.append('op %d tool %d %s %s%s' % (a, r.randrange(len(TOOLS)), 'plain' if a and how == 'noname' else how, t, fs))
    for _ in range(r.randint(3, 14)):
        one(0)
    if actors:
        mode = r.choice(['thread', 'proc'])
        for a in range(1, actors + 1):
            lines.append('actor %d %s' % (a, mode))
            for _ in range(r.randint(1, 3)):
                # tools read sys.argv and the working directory, which threads share
                n = len(lines)
                one(a)
                if mode == 'thread' and ' tool ' in lines[-1]:
                    lines.pop()
        lines += pm.slices(r, actors)
        for _ in range(r.randint(0, 3)):
            one(0)
    return lines


# ------------------------------------------------------------------ execution
class Dir:
    """the output directory: what is in it besides the target stays as it is"""
    def __init__(self, path):
        self.path = path

    def snap(self):
        s = {}
        for base, ds, fs in os.walk(self.path):
            for n in ds:
                p = os.path.join(base, n)
                s[os.path.relpath(p, self.path)] = ('d', os.lstat(p).st_mode)
            for n in fs:
                p = os.path.join(base, n)
                st = os.lstat(p)
                if os.path.islink(p):
                    s[os.path.relpath(p, self.path)] = ('l', os.readlink(p))
                else:
                    with open(p, 'rb') as f:
                        s[os.path.relpath(p, self.path)] = ('f', st.st_mode, hs.hashlib.blake2b(f.read()).hexdigest())
        return s


DECOYS = {'mdl.c': 'int main;', 'mdl.h.bak': 'old', 'other_name.txt': '#' * 300, 'x1': '', 'keep.h': '// mine\n', 'mdl.h~': 'x', '.mdl.h.swp': 'y', 'mdl.tmp': 't', 'mdl.h.tmp': 't2', 'tmp': 'q'}


def prepare(w):
    out = os.path.join(w.ctx.scratch, 'out')
    os.mkdir(out + '/sub')
    os.mkdir(out + '/ro')
    for n, t in DECOYS.items():
        with open(os.path.join(out, n), 'w') as f:
            f.write(t)
    with open(out + '/ro/f.h', 'w') as f:
        f.write('ro')
    os.chmod(out + '/ro/f.h', 0o444)
    os.chmod(out + '/ro', 0o555)
    w.out = out


def target(w, actor, t, name, how, ref):
    """path of the target (as given to the code), which snapshot entries may change, must it fail"""
    out = w.out
    base = name + '.h'
    rel = {'new': base, 'old': base, 'long': base, 'same': base, 'own': 'a%d_%s' % (actor, base), 'relative': base, 'space': 'a b-%s' % base, 'nodir': 'missing/' + base,
           'isdir': 'sub', 'readonly': 'ro/' + base, 'link': base}[t]
    p = os.path.join(out, rel)
    allow = {rel}
    if os.path.islink(p) and t != 'link':
        os.unlink(p)
        if os.path.exists(out + '/sub/real.h'):
            os.unlink(out + '/sub/real.h')
    if t == 'old':
        with open(p, 'w') as f:
            f.write('// an older version\nint x;\n')
    elif t == 'long':
        with open(p, 'w') as f:
            f.write('// an older, longer version\n' * 6000)
    elif t == 'same':                    # as long as the code, but of another model: one digit differs
        ds = [i for i, c in enumerate(ref) if c.isdigit()]
        i = ds[len(ds) * 2 // 3]
        with open(p, 'w', newline='') as f:
            f.write(ref[:i] + str((int(ref[i]) + 1) % 10) + ref[i + 1:])
        os.utime(p, (4e9, 4e9))
    elif t == 'new':
        if os.path.lexists(p):
            os.unlink(p)
    elif t == 'link':
        if os.path.lexists(p):
            os.unlink(p)
        with open(out + '/sub/real.h', 'w') as f:
            f.write('old\n' * 10)
        os.symlink('sub/real.h', p)
        allow.add('sub/real.h')
    give = p
    if t == 'relative':
        os.chdir(out)
        give = rel
    return give, p, allow, t in ('nodir', 'isdir', 'readonly')


def check_dir(w, before, after, allow, what, others):
    for n in sorted(set(before) | set(after)):
        if n in allow or any(n.startswith(o) for o in others):
            continue
        b, a = before.get(n), after.get(n)
        if a == b:
            continue
        if b is None:
            w.ctx.violate('left-over', '%s left %s behind in the output directory' % (what, n))
        if a is None:
            w.ctx.violate('file-removed', '%s removed %s from the output directory' % (what, n))
        w.ctx.violate('file-changed', '%s changed %s in the output directory' % (what, n))


def do(w, actor, op):
    ctx = w.ctx
    if op[0] == 'convert':
        return pm.do(w, actor, op)
    if op[0] == 'save':
        m, s, n, how, t = int(op[1]), int(op[2]), int(op[3]), op[4], op[5]
        o = w.slots.get(m)
        if o is None or not 0 <= n < len(zoo.NAMES) or t not in TARGETS + ['own']:
            return
        so = zoo.save_options(o.kind, o.opt)
        s %= len(so)
        name = zoo.NAMES[n]
        if how == 'noname' and t not in ('new', 'old', 'long', 'same', 'nodir', 'readonly', 'link'):
            how = 'plain'
        ref = o.ref['code']['%d/%s' % (s, name)]
        give, path, allow, must_fail = target(w, actor, t, name, how, ref)
        kw = dict(so[s], file=give)
        if how != 'noname':
            kw['name'] = name
        fn = lambda: o.model.save(**kw)
        what = 'save(%s) of %s to %s' % (name, o.kind, t)
    elif op[0] == 'tool':
        i, how, t = int(op[1]) % len(TOOLS), op[2], op[3]
        if t not in TARGETS + ['own']:
            return
        nm = 'tbl' if i % 2 else ''
        name = nm or default_name(i)
        ref = TOOL_REFS['%d/%s' % (i, nm)]
        give, path, allow, must_fail = target(w, actor, t, name, how, ref)
        argv = ['tool'] + TOOLS[i][1] + (['--name', nm] if nm else [])
        if how == 'noname' and t in ('new', 'old', 'long', 'same', 'link'):
            os.chdir(w.out)              # the default: name.h in the working directory
        else:
            argv += ['--out', give]

        def fn():
            old = sys.argv
            sys.argv = argv
            try:
                tool_main(i)()
            except SystemExit as e:
                if e.code not in (None, 0):
                    raise RuntimeError('exit %s' % e.code)
            finally:
                sys.argv = old
        what = '%s of the %s tool to %s' % (' '.join(argv[1:]), TOOLS[i][0], t)
    else:
        return
    specs = op[6:] if op[0] == 'save' else op[4:]
    d = Dir(w.out)
    before = d.snap()
    others = ['a%d_' % k for k in range(1, 9) if k != actor]
    ctx.count('saves')
    if how == 'crash':
        if actor:
            return
        died = crash_in_child(ctx, fn, specs)
        ctx.note('%s crash %s' % (op[0], died))
        ctx.reach('crash %s %s %s' % (op[0], died, t))
        # in a crash the temporary names of an atomic replacement may stay; the next attempt must work
        if not must_fail:
            v, e = pm.attempt(fn)
            if e is not None:
                ctx.violate('save-failed', '%s after an interrupted one raised %s: %s' % (what, type(e).__name__, pm.short(str(e))))
            compare(ctx, what + ' after an interrupted one', path, ref, v if op[0] == 'save' else None)
        for n, b in before.items():
            if n not in allow and d.snap().get(n) != b:
                ctx.violate('file-changed', '%s changed %s' % (what, n))
        for n in set(d.snap()) - set(before) - allow:
            p = os.path.join(w.out, n)
            os.unlink(p) if not os.path.isdir(p) else None
        os.chdir(os.path.join(ctx.scratch, 'cwd'))
        return
    with hs.faults(ctx, specs) as f:
        v, e = pm.attempt(fn)
    ctx.note('%s %s %s' % (op[0], t, 'ok' if e is None else type(e).__name__))
    ctx.reach('%s %s %s %s %s %s' % (op[0], o.kind if op[0] == 'save' else i, how, t, sorted(s.rsplit(',', 1)[0] for s in f.fired), e is None))
    if f.fired:
        what += ' with ' + ' '.join(f.fired)
    if e is None:
        if must_fail:
            ctx.violate('no-error', '%s reported success' % what)
        compare(ctx, what, path, ref, v if op[0] == 'save' else None)
    else:
        ctx.count('saves_raised')
        if not f.fired and not must_fail:
            ctx.violate('save-failed', '%s raised without a fault: %s: %s' % (what, type(e).__name__, pm.short(str(e))))
    check_dir(w, before, d.snap(), allow, what, others)
    if e is not None and not must_fail:
        v, e = pm.attempt(fn)
        if e is not None:
            ctx.violate('no-recovery', '%s: a later attempt without faults raised %s: %s' % (what, type(e).__name__, pm.short(str(e))))
        compare(ctx, what + ', repeated without faults', path, ref, v if op[0] == 'save' else None)
    if not actor:
        os.chdir(os.path.join(ctx.scratch, 'cwd'))


def compare(ctx, what, path, ref, code):
    if code is not None and code != ref:
        ctx.violate('wrong-code', '%s returned other code than asked for: %s' % (what, pm.first_diff(code, ref)))
    try:
        with open(path, newline='') as f:
            t = f.read()
    except OSError as e:
        ctx.violate('incomplete-file', '%s reported success, but there is no file (%s)' % (what, e.strerror))
    if t != ref:
        ctx.violate('incomplete-file', '%s reported success, but the file does not hold the code: %d of %d bytes, %s' % (what, len(t), len(ref), pm.first_diff(t, ref)))


def crash_in_child(ctx, fn, specs):
    pid = os.fork()
    if pid == 0:
        try:
            f = hs.faults(ctx, specs)
            f.__enter__()
            fn()
        except BaseException:
            os._exit(1)
        os._exit(0)
    _, st = os.waitpid(pid, 0)
    rc = os.waitstatus_to_exitcode(st)
    if rc == hs.CRASH_CODE:
        for s in specs:
            p = s[3:].split(',')
            ctx.count('fault_io_%s_%s' % (p[0].split('+')[0], p[2]))
    return 'died' if rc == hs.CRASH_CODE else 'ended %d' % rc


def execute(ctx):
    w = pm.World(ctx)
    prepare(w)
    kinds, ops, order, sl = {}, {}, [], []
    for l in ctx.lines:
        p = l.split(' ')
        if p[0] == 'actor':
            kinds[int(p[1])] = p[2]
            if None not in order:
                order.append(None)
        elif p[0] == 'slice':
            sl.append((int(p[1]), int(p[2])))
        elif p[0] == 'op':
            if int(p[1]):
                ops.setdefault(int(p[1]), []).append(p[2:])
            else:
                order.append(p[2:])
    for op in order:
        if op is not None:
            do(w, 0, op)
            continue
        s = hs.Sched(ctx)
        ids = sorted(k for k in kinds if ops.get(k))
        for i in ids:
            def body(i=i):
                for op in ops[i]:
                    do(w, i, op)
            (s.process if kinds[i] == 'proc' else s.thread)(body)
        ctx.count('actors', len(ids))
        if ids:
            s.run(sl)
        else:
            ctx.sched = None
