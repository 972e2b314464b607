"""C15: installing the C headers as an Arduino library, with failing file systems, crashes and concurrent installs.

op A install V update via [fault...] | crash V update via fault | user what k | drop
via: fn, main (command line), home (command line, default directory)
"""
import os, sys, shutil
import hs

VERSIONS = 3


def setup():
    global install, pm_short
    import emlearn
    if not os.path.realpath(emlearn.__file__).startswith(os.path.realpath(hs.REPO) + os.sep):
        raise SystemExit('wrong emlearn: ' + emlearn.__file__)
    import emlearn.arduino.install as install
    import fnmatch, argparse, gettext


ERR = ['ENOSPC', 'EIO', 'EACCES', 'EMFILE', 'EDQUOT', 'EROFS', 'EPERM', 'EINTR']


def fault(r, crash):
    c = r.choice(['write', 'write', 'openw', 'openw', 'openr', 'close', 'mkdir', 'list', 'meta', 'rename', 'unlink', 'sync', 'openw+write+mkdir+meta+rename', 'openr+read+list', 'read'])
    if crash:
        c = r.choice(['write', 'openw', 'mkdir', 'meta', 'openw+write+mkdir+meta+rename+unlink', 'openw+write+mkdir+meta+rename+unlink', 'openr', 'list', 'rename', 'close'])
        a = r.choice(['crash', 'crash-torn', 'crash-after'])
    else:
        a = r.choice(['fail', 'fail', 'fail-on', 'short'])
    return 'io:%s,%d,%s,%s' % (c, r.choice([1, 1, 2, 3, r.randint(1, 14), r.randint(1, 40)]), a, r.choice(ERR if a == 'fail' else ERR[:-1]))


def make_plan(seed):
    r = hs.Rng(seed)
    lines = ['cfg names %d' % r.randrange(1 << 30), 'cfg src %d' % r.randrange(1 << 16), 'cfg parent %d' % r.randrange(2), 'cfg kind %s' % r.choice(['small', 'small', 'real']), 'cfg sizes %s' % r.choice(['any', 'any', 'same']), 'cfg times %s' % r.choice(['now', 'old', 'mixed', 'equal']),
             'cfg decoys %d' % r.randrange(2)]
    via = r.choice(['fn', 'fn', 'main', 'home'])

    def one(a, faults=True):
        k = r.random()
        v = r.randrange(VERSIONS)
        u = int(r.chance(0.6))
        if a:
            return lines.append('op %d install %d %d %s' % (a, v, u, 'fn'))
        if k < 0.45:
            lines.append('op 0 install %d %d %s%s' % (v, u, via, ''.join(' ' + fault(r, False) for _ in range(r.choice([0, 1, 1, 2]) if faults else 0))))
        elif k < 0.85:
            lines.append('op 0 crash %d %d %s %s' % (v, u, via, fault(r, True)))
        elif k < 0.93:
            lines.append('op 0 user %s %d' % (r.choice(['add', 'edit', 'truncate', 'remove', 'other', 'zero', 'zero', 'swap', 'touch']), r.randrange(6)))
        else:
            lines.append('op 0 drop')
    for _ in range(r.randint(1, 8)):
        one(0)
    n = r.choice([0, 0, 0, 1, 2, 2, 3])
    if n:
        mode = r.choice(['thread', 'proc', 'mixed'])
        lines.append('cfg par %s' % r.choice(['same', 'new', 'update-same']))
        if r.chance(0.7):
            lines.append('op 0 drop')
        for a in range(1, n + 1):
            lines.append('actor %d %s' % (a, 'proc' if mode == 'proc' or (mode == 'mixed' and r.chance(0.5)) else 'thread'))
            for _ in range(r.randint(1, 2)):
                one(a)
        lines += hs.slice_plan(r, n, r.choice([2, 10, 60]), r.choice([4, 20, 60]))
        for _ in range(r.randint(0, 2)):
            one(0)
    return lines


# ------------------------------------------------------------------ execution
def snap(d, skip=()):
    s = {}
    for base, ds, fs in os.walk(d):
        ds[:] = [n for n in ds if os.path.join(base, n) not in skip]
        for n in ds:
            s[os.path.relpath(os.path.join(base, n), d)] = 'dir'
        for n in fs:
            p = os.path.join(base, n)
            if p in skip:
                continue
            if os.path.islink(p):
                s[os.path.relpath(p, d)] = 'link ' + os.readlink(p)
                continue
            with open(p, 'rb') as f:
                s[os.path.relpath(p, d)] = hs.hashlib.blake2b(f.read()).hexdigest()
    return s


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        s = ctx.scratch
        r = hs.Rng(int(ctx.cfg.get('src', '0')))
        self.sketch = os.path.join(s, 'home', 'Arduino')
        os.mkdir(self.sketch)
        self.parent = os.path.join(self.sketch, 'libraries')
        self.lib = os.path.join(self.parent, 'emlearn')
        if ctx.cfg.get('parent', '1') == '1':
            os.mkdir(self.parent)
            os.mkdir(os.path.join(self.parent, 'other'))
            for n in ('eml_csv.h', 'VERSION.txt', 'library.properties'):
                with open(os.path.join(self.parent, 'other', n), 'w') as f:
                    f.write('not yours %s\n' % n)
            # what other tools or the user left, some under similar names
            for n in ('emlearn_old', 'emlearn-backup', '.emlearn', 'emlearn2', 'Emlearn'):
                if r.chance(0.5):
                    os.mkdir(os.path.join(self.parent, n))
                    with open(os.path.join(self.parent, n, 'eml_net.h'), 'w') as f:
                        f.write('not yours %s\n' % n)
            for n in ('eml_net.h', 'emlearn.zip', 'emlearn.bak', 'emlearn.h'):
                with open(os.path.join(self.parent, n), 'w') as f:
                    f.write('not yours\n')
        with open(os.path.join(self.sketch, 'sketch.ino'), 'w') as f:
            f.write('void loop() {}\n')
        self.src, self.want = [], []
        real = os.path.join(hs.REPO, 'emlearn')
        names = ['eml_%s.h' % x for x in ('a', 'b2', 'common', 'csv', 'net_common')]
        for v in range(VERSIONS):
            d = os.path.join(s, 'out', 'inc%d' % v)
            os.mkdir(d)
            w = {}
            if ctx.cfg.get('kind') == 'real':
                for n in sorted(os.listdir(real)):
                    if (n.startswith('eml_') and n.endswith('.h')) or n == 'VERSION.txt':
                        with open(os.path.join(real, n), 'rb') as f:
                            w[n] = f.read() + (b'// version %d\n' % v)
            else:
                for n in names + ([] if v != 2 else ['eml_new.h']):
                    w[n] = (b'/* %s version %d */\n' % (n.encode(), v)) * r.choice([0 if n == 'eml_b2.h' else 1, 1, 7, 900, 4000])
                if ctx.cfg.get('sizes') == 'same' and v:
                    # every version of a header has the same length; of some headers the same content
                    for n in names:
                        w[n] = self.want[0][n].replace(b'version 0', b'version %d' % v) if not n.startswith('eml_net') or v == 2 else self.want[0][n]
                w['VERSION.txt'] = b'0.%d\n' % v
            for n, t in w.items():
                with open(os.path.join(d, n), 'wb') as f:
                    f.write(t)
            for n in w:
                # when the headers were last written: checked out, unpacked or copied with their times
                t = {'now': None, 'old': 1500000000 + 1000 * v, 'equal': 1600000000, 'mixed': r.choice([1400000000, 1600000000, 1600000000, 4000000000])}[ctx.cfg.get('times', 'now')]
                if t is not None:
                    os.utime(os.path.join(d, n), (t, t))
            for n in ('common.py', 'eml_notes.txt', 'other.h', '__init__.py') if ctx.cfg.get('decoys', '1') == '1' else ('common.py', '__init__.py'):
                with open(os.path.join(d, n), 'w') as f:
                    f.write('x')
            os.mkdir(os.path.join(d, 'tools'))
            self.src.append(d)
            self.want.append(w)
        self.bystanders = self.outside()

    def outside(self):
        s = snap(self.ctx.scratch, (self.lib,))
        return {k: v for k, v in s.items() if k not in ('home/Arduino/libraries',)}

    def library(self):
        return snap(self.lib) if os.path.isdir(self.lib) else None


def call(w, v, update, via):
    if via == 'fn':
        return install.install_arduino_library(w.src[v], w.parent, update=bool(update))
    argv = ['install', '--emlearn-include-dir', w.src[v]] + (['--update'] if update else []) + (['--arduino-library-dir', w.parent] if via == 'main' else [])
    old = sys.argv
    sys.argv = argv
    try:
        install.main()
    except SystemExit as e:
        if e.code not in (None, 0):
            raise RuntimeError('exit %s' % e.code)
    finally:
        sys.argv = old
    return w.lib


def missing(w, v):
    """the first thing a complete installation of version v lacks"""
    for n, t in sorted(w.want[v].items()):
        p = os.path.join(w.lib, n)
        if not os.path.isfile(p):
            return '%s is missing' % n
        with open(p, 'rb') as f:
            got = f.read()
        if got != t:
            k = next((i for i in range(VERSIONS) if w.want[i].get(n) == got), None)
            return '%s holds %s' % (n, 'version %d' % k if k is not None else '%d of %d bytes' % (len(got), len(t)))
    return None


def attempt(fn):
    try:
        return fn(), None
    except (hs.Violation, hs.HarnessError):
        raise
    except Exception as e:
        return None, e


def tidy(w, before):
    """leftovers of a crashed update inside the library are allowed; outside nothing is"""
    now = w.outside()
    for n in sorted(set(now) | set(w.bystanders)):
        if now.get(n) != w.bystanders.get(n):
            w.ctx.violate('outside-touched', '%s, outside the library directory, was %s' % (n, 'removed' if n not in now else 'added' if n not in w.bystanders else 'changed'))


def do(w, op):
    ctx = w.ctx
    if op[0] == 'drop':
        shutil.rmtree(w.lib, ignore_errors=True)
        return
    if op[0] == 'user':
        what, k = op[1], int(op[2])
        if what == 'other':
            if not os.path.isdir(w.parent):
                os.mkdir(w.parent)
            p = os.path.join(w.parent, 'mine%d.txt' % k)
            with open(p, 'w') as f:
                f.write('mine')
            w.bystanders = w.outside()
            return
        if not os.path.isdir(w.lib):
            return
        fs = sorted(os.listdir(w.lib))
        if what == 'add':
            with open(os.path.join(w.lib, 'user%d.h' % k), 'w') as f:
                f.write('// my own header\n')
            return
        if not fs:
            return
        p = os.path.join(w.lib, fs[k % len(fs)])
        if not os.path.isfile(p):
            return
        ctx.count('fault_library_file_' + what)
        if what == 'edit':
            with open(p, 'a') as f:
                f.write('// edited\n')
        elif what == 'truncate':
            with open(p, 'r+') as f:
                f.truncate(os.path.getsize(p) // 2)
        elif what == 'zero':
            # a power loss after the length of the file was stored and before its last blocks were; the times are as before
            st = os.stat(p)
            with open(p, 'r+b') as f:
                f.seek(st.st_size // (1 + k % 3) - (st.st_size > 1))
                f.write(b'\0' * (st.st_size - f.tell()))
            os.utime(p, (st.st_atime, st.st_mtime))
        elif what == 'swap':
            # one character differs
            st = os.stat(p)
            if st.st_size:
                with open(p, 'r+b') as f:
                    f.seek(st.st_size * k // 6)
                    f.write(b'?')
            os.utime(p, (st.st_atime, st.st_mtime))
        elif what == 'touch':
            os.utime(p, (4100000000, 4100000000))
        else:
            os.unlink(p)
        return
    if op[0] not in ('install', 'crash'):
        return
    v, update, via = int(op[1]) % VERSIONS, int(op[2]), op[3]
    before = w.library()
    what = '%s of version %d over %s' % ('update' if update else 'install', v, 'nothing' if before is None else '%d files' % len(before))
    fn = lambda: call(w, v, update, via)
    ctx.count('installs')
    if op[0] == 'crash':
        pid = os.fork()
        if pid == 0:
            try:
                hs.faults(ctx, op[4:]).__enter__()
                fn()
            except BaseException:
                os._exit(1)
            os._exit(0)
        rc = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        died = rc == hs.CRASH_CODE
        if died:
            p = op[4][3:].split(',')
            ctx.count('fault_io_%s_%s' % (p[0].split('+')[0], p[2]))
        ctx.note('crash %d %d %s' % (v, update, rc))
        ctx.reach('crash %s %s %s' % (op[4] if died else '-', before is None, update))
        e = None if rc == 0 else Exception('died')
        what += ' that crashed' if died else ''
        fired = died
    else:
        with hs.faults(ctx, op[4:]) as f:
            _, e = attempt(fn)
        fired = f.fired
        if fired:
            what += ' with ' + ' '.join(fired)
        ctx.note('install %d %d %s' % (v, update, 'ok' if e is None else type(e).__name__))
        ctx.reach('install %s %s %s %s' % (sorted(fired), before is None, update, e is None))
    after = w.library()
    tidy(w, before)
    if before is not None and not update:
        if after != before:
            n = next(n for n in sorted(set(before) | set(after or {})) if (after or {}).get(n) != before.get(n))
            ctx.violate('modified-without-update', '%s changed %s of an existing installation' % (what, n))
        if e is None:
            ctx.violate('no-error', '%s reported success' % what)
    elif e is None:
        m = missing(w, v)
        if m:
            ctx.violate('incomplete', '%s reported success, but %s' % (what, m))
    elif not fired:
        if not (via == 'fn' or os.path.isdir(w.sketch)):
            return
        ctx.violate('install-failed', '%s raised without a fault: %s: %s' % (what, type(e).__name__, str(e)[:80]))
    else:
        ctx.count('installs_failed')


def parallel(w, kinds, ops, sl):
    """concurrent installs: of one version, or each without an update over nothing (then only one may win)"""
    ctx = w.ctx
    mode = ctx.cfg.get('par', 'same')
    s = hs.Sched(ctx)
    ids = sorted(k for k in kinds if ops.get(k))
    if not ids:
        ctx.sched = None
        return
    existed = w.library()
    log = os.path.join(ctx.scratch, 'tmp', 'par')
    for i in ids:
        def body(i=i):
            for op in ops[i]:
                if op[0] != 'install':
                    continue
                v = int(op[1]) % VERSIONS
                u = int(op[2])
                if mode != 'new':
                    v = 1
                if mode == 'new':
                    u = 0
                if mode == 'update-same':
                    u = 1
                _, e = attempt(lambda: call(w, v, u, 'fn'))
                ctx.count('installs')
                ctx.note('par %d %d %s' % (v, u, 'ok' if e is None else type(e).__name__))
                if e is not None and u:
                    ctx.violate('install-failed', 'an update beside other installs raised without a fault: %s: %s' % (type(e).__name__, str(e)[:80]))
                if e is None:
                    fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
                    os.write(fd, b'%d %d\n' % (v, u))
                    os.close(fd)
        (s.process if kinds[i] == 'proc' else s.thread)(body)
    ctx.count('actors', len(ids))
    s.run(sl)
    done = []
    if os.path.exists(log):
        with open(log) as f:
            done = [tuple(map(int, l.split())) for l in f]
        os.unlink(log)
    ctx.reach('parallel %s %s %d %d' % (mode, existed is None, len(ids), len(done)))
    plain = [v for v, u in done if not u]
    if existed is not None and plain:
        ctx.violate('no-error', 'an install without update over an existing installation reported success')
    if len(plain) > 1:
        ctx.violate('modified-without-update', '%d concurrent installs without update all reported success: each but the first modified an existing installation' % len(plain))
    if done:
        m = missing(w, done[-1][0])
        if m:
            ctx.violate('incomplete', 'concurrent installs reported success, but %s' % m)
    tidy(w, existed)


def execute(ctx):
    w = World(ctx)
    kinds, ops, order, sl = {}, {}, [], []
    for l in ctx.lines:
        p = l.split(' ')
        if p[0] == 'actor':
            kinds[int(p[1])] = p[2]
            if None not in order:
                order.append(None)
        elif p[0] == 'slice':
            sl.append((int(p[1]), int(p[2])))
        elif p[0] == 'op':
            if int(p[1]):
                ops.setdefault(int(p[1]), []).append(p[2:])
            else:
                order.append(p[2:])
    last = 0
    for op in order:
        if op is None:
            parallel(w, kinds, ops, sl)
        else:
            do(w, op)
            if op[0] in ('install', 'crash'):
                last = int(op[1]) % VERSIONS
    # once the faults stop: one more run completes the installation, whatever was there
    do(w, ['install', str(last), '1', 'fn'])
