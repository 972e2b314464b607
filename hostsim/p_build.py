"""C17: builds (programs of converted models, compile_executable) with failing compilers and file systems, crashes,
changing sources and headers, earlier build products and concurrent builds.

op A exe K N O I [fault...] | crash K N O I fault | source K V | header I V | stale O K | future O | drop O | lock O | unlock |
     convert/predict/del/gc as in p_models
"""
import os, shutil, stat, subprocess, sys, tempfile
import hs, zoo
import p_models as pm

NAMES = ['main', 'prog', 'k0', 'a.b']
OUTS = ['out/o0', 'out/o1', 'out/deep/er/o2', 'rel/o3']      # the last is relative to the working directory
INCS = 2

# source, with its constant and whether it uses the header; None: cannot be built
KINDS = [
    ('#include <stdio.h>\nint main(void) { printf("k0 %%d\\n", %d); return 0; }\n', False, True),
    ('#include <stdio.h>\n#include "val.h"\nint main(void) { printf("k1 %%d %%d\\n", %d, VAL); return 0; }\n', True, True),
    ('#include <stdio.h>\n#include <math.h>\nint main(int n, char **v) { printf("k2 %%.3f\\n", sqrt((double)n + %d)); return 0; }\n', False, True),
    ('#include <stdio.h>\n#include <val.h>\nstatic int f(void) { return VAL; }\nint main(void) { for (int i = 0; i < 3; i++) printf("k3 %%d\\n", f() + i * %d); return 0; }\n', True, True),
    ('#include <stdio.h>\nint main(void) { printf("bad %%d\\n", %d) return 0; }\n', False, False),
    ('#include "nowhere.h"\nint main(void) { return %d; }\n', False, False),
    ('int elsewhere(int);\nint main(void) { return elsewhere(%d); }\n', False, False),
    (None, False, False),
]


def output(k, c, v):
    if k == 0:
        return 'k0 %d\n' % c
    if k == 1:
        return 'k1 %d %d\n' % (c, v)
    if k == 2:
        return 'k2 %.3f\n' % ((1.0 + c) ** 0.5)
    return ''.join('k3 %d\n' % (v + i * c) for i in range(3))


def setup():
    pm.setup()
    global common
    import emlearn.common as common


# ------------------------------------------------------------------ plans
ERR = ['ENOSPC', 'EIO', 'EACCES', 'EMFILE', 'EDQUOT', 'EROFS', 'ENOMEM', 'EPERM']
CC = ['enoent', 'eacces', 'enomem', 'emfile', 'exit', 'kill', 'torn', 'tornexit', 'late', 'interrupt']


def fault(r, model=False):
    if r.chance(0.35):
        # compile_executable itself only makes and removes directories: the files are the compiler's
        c = r.choice(['openw', 'write', 'close', 'mkdir', 'openw+write+mkdir', 'unlink', 'list', 'openr', 'rename']) if model else r.choice(['mkdir', 'mkdir', 'mkdir', 'unlink', 'mkdir+unlink', 'openw+write+rename+list'])
        return 'io:%s,%d,%s,%s' % (c, r.choice([1, 1, 2, 3, r.randint(1, 12 if model else 6)]), r.choice(['fail', 'fail', 'fail-on', 'short']), r.choice(ERR))
    k = r.choice(['compile', 'link', 'cc'])
    f = r.choice(CC)
    a = r.choice([0, 1, r.randrange(64), r.logint(5000), r.logint(20000)]) if f.startswith('torn') else r.choice([1, 2, 4, 127])
    return 'pf:%s,%d,%s,%d' % (k, r.choice([1, 1, 1, 2, 3]) if model else r.choice([1, 1, 1, 2]) if k == 'cc' else 1, f, a)


def crash_fault(r):
    if r.chance(0.6):
        f = r.choice(['crash', 'crashlate', 'crashtorn', 'crashtorn'])
        return 'pf:%s,1,%s,%d' % (r.choice(['compile', 'link', 'link']), f, r.choice([0, 1, r.logint(20000)]))
    return 'io:%s,%d,%s,EIO' % (r.choice(['mkdir', 'mkdir', 'unlink', 'mkdir+unlink']), r.choice([1, 1, 2, 3, r.randint(1, 6)]), r.choice(['crash', 'crash-after']))


def make_plan(seed):
    r = hs.Rng(seed)
    lines = [pm.names(r)]
    part = r.choice(['exe', 'exe', 'model', 'both'])
    ks = r.sample(range(4), r.choice([1, 2, 4]))
    os_ = r.sample(range(len(OUTS)), r.choice([1, 1, 2, 4]))
    ns = r.sample(range(len(NAMES)), r.choice([1, 1, 2, 4]))
    kinds = pm.pick_kinds(r, [1, 1, 2])
    conv = {}

    def exe(a, par):
        k = r.choice(ks) if r.chance(0.88) else r.randrange(len(KINDS))
        fs = ''.join(' ' + fault(r) for _ in range(r.choice([0, 0, 1, 1, 2])))
        if not par and r.chance(0.12):
            lines.append('op %d crash %d %d %d %d %s' % (a, k, r.choice(ns), r.choice(os_), r.randrange(INCS), crash_fault(r)))
        else:
            lines.append('op %d exe %d %d %d %d%s' % (a, k, (10 + a) if par else r.choice(ns), r.choice(os_), r.randrange(INCS), fs))

    def model(a, slots):
        live = [m for m in slots if m in conv]
        k = r.random()
        if k < 0.5 or not live:
            m = r.choice(slots)
            conv[m] = r.choice(kinds)
            f = ' ' + fault(r, True) if r.chance(0.6) else ''
            lines.append('op %d convert %d %s %d %d%s' % (a, m, conv[m], r.randrange(len(pm.SP[conv[m]][2])), r.randrange(zoo.VERSIONS), f))
        elif k < 0.92:
            m = r.choice(live)
            f = ' ' + fault(r, True) if r.chance(0.4) else ''
            lines.append('op %d predict %d %s %d array%s' % (a, m, r.choice(pm.SP[conv[m]][3]), r.choice([0, 0, 1]), f))
        else:
            m = r.choice(live)
            conv.pop(m)
            lines.append('op %d del %d' % (a, m))

    def one(a, par=False):
        if part == 'model' or (part == 'both' and r.chance(0.5)):
            return model(a, [10 * a, 10 * a + 1] if par else [0, 1])
        k = r.random()
        if par or k < 0.72:
            return exe(a, par)
        lines.append(r.choice(['op 0 source %d %d' % (r.choice(ks), r.randrange(9)), 'op 0 source %d %d' % (r.choice(ks), r.randrange(9)),
                               'op 0 header %d %d' % (r.randrange(INCS), r.randrange(9)), 'op 0 header %d %d' % (r.randrange(INCS), r.randrange(9)),
                               'op 0 stale %d %d' % (r.choice(os_), r.choice(ks)), 'op 0 future %d' % r.choice(os_), 'op 0 future %d' % r.choice(os_), 'op 0 drop %d' % r.choice(os_),
                               'op 0 lock %d' % r.choice(os_), 'op 0 unlock', 'op 0 chdir %d' % r.randrange(2)]))
    for _ in range(r.randint(3, 12)):
        one(0)
    n = r.choice([0, 0, 0, 1, 2, 3])
    if n:
        lines.append('op 0 unlock')
        mode = r.choice(['thread', 'proc', 'mixed'])
        for a in range(1, n + 1):
            lines.append('actor %d %s' % (a, 'proc' if mode == 'proc' or (mode == 'mixed' and r.chance(0.5)) else 'thread'))
            for _ in range(r.randint(1, 3)):
                one(a, True)
        lines += pm.slices(r, n)
        for _ in range(r.randint(0, 3)):
            one(0)
    return lines


# ------------------------------------------------------------------ execution
class World(pm.World):
    def __init__(self, ctx):
        super().__init__(ctx)
        s = ctx.scratch
        self.consts, self.vals = [5] * len(KINDS), [100 + i for i in range(INCS)]
        self.src = os.path.join(s, 'home', 'src')
        os.mkdir(self.src)
        for i in range(INCS):
            os.mkdir(os.path.join(s, 'home', 'inc%d' % i))
            self.header(i, self.vals[i])
        for k in range(len(KINDS)):
            self.source(k, 5)
        with open(os.path.join(s, 'cwd', 'k0.c'), 'w') as f:
            f.write('not this one\n')
        self.progs = {}             # (out directory, name) -> digest of the file, when it is known to be right
        self.locked = None
        self.calm = self.listing()
        self.left = set()

    def write(self, p, t):
        with open(p, 'w') as f:
            f.write(t)
        os.utime(p, (1600000000, 1600000000))        # changes need not show in the time stamp

    def source(self, k, v):
        self.consts[k] = v
        if KINDS[k][0]:
            self.write(os.path.join(self.src, 'k%d.c' % k), KINDS[k][0] % v)

    def header(self, i, v):
        self.vals[i] = v
        self.write(os.path.join(self.ctx.scratch, 'home', 'inc%d' % i, 'val.h'), '#define VAL %d\n' % v)

    def out(self, o):
        p = OUTS[o]
        return p if p.startswith('rel') else os.path.join(self.ctx.scratch, p)

    def listing(self):
        """all files but those in output and temporary directories"""
        s = {}
        for b in ('cwd', 'home', 'out'):
            for base, ds, fs in os.walk(os.path.join(self.ctx.scratch, b)):
                rel = os.path.relpath(base, self.ctx.scratch)
                keep = []
                for n in ds:
                    p = os.path.join(rel, n)
                    skip = p in OUTS[:3] or (b == 'cwd' and n == 'tmp') or (n == 'o3' and os.path.basename(rel) == 'rel')
                    if not skip:
                        keep.append(n)
                    if not skip and not (p in ('out/deep', 'out/deep/er') or (b == 'cwd' and n in ('rel', 'd0', 'd1'))):
                        s[p] = 'dir'
                ds[:] = keep
                for n in fs:
                    with open(os.path.join(base, n), 'rb') as f:
                        s[os.path.join(rel, n)] = hs.hashlib.blake2b(f.read(), digest_size=8).hexdigest()
        return s

    def check_outside(self, what):
        now = self.listing()
        for n in sorted(set(now) | set(self.calm)):
            if now.get(n) != self.calm.get(n):
                self.ctx.violate('outside-touched', '%s: %s was %s' % (what, n, 'added' if n not in self.calm else 'removed' if n not in now else 'changed'))

    def check_temporary(self, what, excused):
        """nothing stays in the system's directory for temporary files; what a crash or a failing removal left is excused"""
        now = set(os.listdir(os.path.join(self.ctx.scratch, 'tmp')))
        if not excused and now - self.left:
            self.ctx.violate('litter', '%s: %s was left in the directory for temporary files' % (what, sorted(now - self.left)[0]))
        self.left = now

    def settle(self):
        self.calm = self.listing()


def digest(p):
    try:
        with open(p, 'rb') as f:
            return hs.hashlib.blake2b(f.read(), digest_size=8).hexdigest()
    except OSError:
        return None


def run(p):
    try:
        r = hs.RealPopen([p], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        out = r.communicate()[0]
        return out.decode(errors='replace') + ('' if r.returncode == 0 else '(status %d)' % r.returncode)
    except OSError as e:
        return str(e)


def exe(w, actor, op, crash=False):
    ctx = w.ctx
    k, n, o, i = [int(x) for x in op[:4]]
    name, out = NAMES[n] if n < len(NAMES) else 'p%d' % n, w.out(o)
    place = (os.path.abspath(out), name)
    src = os.path.join(w.src, 'k%d.c' % k)
    if k % 2:
        src = os.path.relpath(src)
    inc = [os.path.join(ctx.scratch, 'home', 'inc%d' % i)]
    what = 'building source %d as %s' % (k, name)
    fn = lambda: common.compile_executable(src, out, name=name, include_dirs=inc)
    ctx.count('builds')
    path, e, fired = None, None, []
    if crash:
        pid = os.fork()
        if pid == 0:
            try:
                hs.faults(ctx, op[4:]).__enter__()
                fn()
            except BaseException:
                os._exit(1)
            os._exit(0)
        rc = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        died = rc == hs.CRASH_CODE
        if died:
            p = op[4][3:].split(',')
            ctx.count('fault_%s_%s_%s' % ('io' if op[4].startswith('io') else 'proc', p[0].split('+')[0], p[2]))
        ctx.note('crash %d %s %d' % (k, name, rc))
        ctx.reach('crash %d %s %d' % (k, op[4] if died else '-', o))
        w.progs.pop(place, None)
        w.check_outside(what + (' that crashed' if died else ''))
        w.check_temporary(what, True)
        return
    with hs.faults(ctx, op[4:]) as f:
        try:
            path = fn()
        except (hs.Violation, hs.HarnessError):
            raise
        except BaseException as x:
            e = x
    fired = f.fired
    if fired:
        what += ' with ' + ' '.join(fired)
    ctx.note('exe %d %s %d %s' % (k, name, o, 'ok' if e is None else type(e).__name__))
    ctx.reach('exe %d %s %s %s' % (k, [s.rsplit(',', 1)[0] for s in fired], o, e is None))
    w.progs.pop(place, None)
    if e is None:
        if not KINDS[k][2]:
            ctx.violate('no-error', '%s, which cannot be built, reported success' % what)
        want = output(k, w.consts[k], w.vals[i])
        got = run(os.path.abspath(path))
        if got != want:
            ctx.violate('stale-or-wrong', '%s reported success, but the program writes %r, expected %r' % (what, got[:60], want))
        w.progs[place] = digest(path)
    else:
        ctx.count('builds_raised')
        if not fired and KINDS[k][2] and w.locked != place[0]:
            ctx.violate('build-failed', '%s raised without a fault: %s: %s' % (what, type(e).__name__, str(e)[:100]))
    if not actor:
        for (d, nm), h in sorted(w.progs.items()):
            if digest(os.path.join(d, nm)) != h:
                ctx.violate('other-program', '%s changed %s, built before' % (what, nm))
        w.check_outside(what)
        w.check_temporary(what, any(s.startswith('io:') for s in op))


def do(w, actor, op):
    ctx = w.ctx
    name, a = op[0], op[1:]
    if name == 'exe':
        return exe(w, actor, a)
    if name in ('convert', 'predict', 'del', 'gc'):
        if name == 'convert':
            tries = [op, op[:5]] if len(op) > 5 else [op]
        else:
            tries = [op]
        pm.do(w, actor, tries[0])
        if name == 'convert' and len(tries) > 1 and int(op[1]) not in w.slots:
            pm.do(w, actor, tries[1])          # once the fault is gone
        if not actor:
            what = '%s of %s' % (name, op[2] if name == 'convert' else 'a model')
            w.check_outside(what)
            w.check_temporary(what, any(s.startswith('io:') for s in op))
        return
    if actor:
        return
    if name == 'crash':
        exe(w, actor, a, True)
    elif name == 'source':
        w.source(int(a[0]), int(a[1])); w.settle()
        ctx.count('fault_source_changed')
    elif name == 'header':
        w.header(int(a[0]), int(a[1])); w.settle()
        ctx.count('fault_header_changed')
    elif name == 'stale':
        # objects of other code, where a build might look for its own
        o, k = int(a[0]), int(a[1])
        d = os.path.abspath(w.out(o))
        if w.locked == d:
            return
        obj = stale_object()
        for p in (d, os.path.join(d, w.src.lstrip('/')), os.path.join(ctx.scratch, 'cwd')):
            os.makedirs(p, exist_ok=True)
            shutil.copyfile(obj, os.path.join(p, 'k%d.o' % k))
        w.progs = {q: h for q, h in w.progs.items() if digest(os.path.join(*q)) == h}
        w.settle()
        ctx.count('fault_stale_objects')
    elif name == 'future':
        # what was built before the clock was set back
        d = os.path.abspath(w.out(int(a[0])))
        for base, _, fs in os.walk(d):
            for n in fs:
                os.utime(os.path.join(base, n), (4000000000, 4000000000))
                ctx.count('fault_clock_set_back')
    elif name == 'drop':
        d = os.path.abspath(w.out(int(a[0])))
        if w.locked == d:
            return
        shutil.rmtree(d, ignore_errors=True)
        w.progs = {q: h for q, h in w.progs.items() if q[0] != d}
        w.settle()
        ctx.count('fault_output_removed')
    elif name == 'lock' and w.locked is None:
        d = os.path.abspath(w.out(int(a[0])))
        os.makedirs(d, exist_ok=True)
        os.chmod(d, 0o555)
        w.locked = d
        w.settle()
        ctx.count('fault_output_readonly')
    elif name == 'unlock' and w.locked:
        os.chmod(w.locked, 0o755)
        w.locked = None
    elif name == 'chdir':
        d = os.path.join(ctx.scratch, 'cwd', 'd%s' % a[0])
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        ctx.count('fault_chdir')


_obj = []


def stale_object():
    if not _obj:
        p = os.path.join(hs.BUILD, 'stale.o')
        _obj.append(p)
    return _obj[0]


def execute(ctx):
    w = World(ctx)
    kinds, ops, order, sl = {}, {}, [], []
    for l in ctx.lines:
        p = l.split(' ')
        if p[0] == 'actor':
            kinds[int(p[1])] = p[2]
            if None not in order:
                order.append(None)
        elif p[0] == 'slice':
            sl.append((int(p[1]), int(p[2])))
        elif p[0] == 'op':
            if int(p[1]):
                ops.setdefault(int(p[1]), []).append(p[2:])
            else:
                order.append(p[2:])
    for op in order:
        if op is not None:
            do(w, 0, op)
            continue
        s = hs.Sched(ctx)
        ids = sorted(k for k in kinds if ops.get(k))
        if not ids:
            ctx.sched = None
            continue
        for k in ids:
            for op in ops[k]:
                if op[0] == 'convert' and op[2] in pm.SP and int(op[4]) < zoo.VERSIONS:
                    w.inst(op[2], int(op[4]))
        for i in ids:
            def body(i=i):
                lw = World.__new__(World)
                lw.__dict__.update(w.__dict__)
                lw.slots, lw.progs = {}, {}
                for op in ops[i]:
                    do(lw, i, op)
                lw.slots.clear()
                if kinds[i] == 'proc':
                    import weakref
                    weakref.finalize._exitfunc()
            (s.process if kinds[i] == 'proc' else s.thread)(body)
        ctx.count('actors', len(ids))
        s.run(sl)
        w.check_outside('concurrent builds')
        w.check_temporary('concurrent builds', any(s.startswith('io:') for l in ctx.lines for s in l.split(' ')))
        for (d, nm), h in sorted(w.progs.items()):
            if digest(os.path.join(d, nm)) != h:
                ctx.violate('other-program', 'concurrent builds changed %s, built before' % nm)
    # once the faults stop
    if w.locked:
        do(w, 0, ['unlock'])
    done = set()
    for l in ctx.lines:
        p = l.split(' ')
        if p[0] == 'op' and p[2] in ('exe', 'crash') and p[1] == '0' and KINDS[int(p[3])][2] and p[3:5] not in [list(d) for d in done] and len(done) < 2:
            done.add((p[3], p[4]))
            exe(w, 0, p[3:7])
    for m in sorted(w.slots):
        do(w, 0, ['predict', str(m), pm.SP[w.slots[m].kind][3][0], '0'])
    while w.slots:
        w.slots.popitem()
    w.check_outside('the end')
