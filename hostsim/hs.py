"""Simulator for the host side of emlearn: one process of real code under a simulated scheduler, file system,
process table and clock. Interface as the C simulators: run SEED0 COUNT STATS [LOG] | plan SEED | exec FILE [trace] | serve.

Every run happens in a child forked from a warm server, in a scratch directory of its own, as an unprivileged user:
 - threads (and forked processes) of the run are stepped one at a time; they are preempted at lines of the code under
   test, as the slices of the plan say
 - file-system calls below the scratch root go through iofault.so (faults, crashes)
 - processes are started through SimPopen (faults; compilations are cached by content)
 - time.time and time.sleep are simulated; random, numpy.random and temporary names are seeded, and temporary
   names collide now and then
"""
import os, sys
sys.dont_write_bytecode = True
import ctypes, errno, gc, hashlib, json, random, select, shutil, signal, subprocess, tempfile, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.environ.get('SIM_BUILD', '/tmp')        # shim, iofault.so, cache
SHIM = os.path.join(BUILD, 'procshim')
CACHE = os.path.join(BUILD, 'cc-cache')
NOBODY = 65534
real_lock = threading.Lock
real_sleep = time.sleep


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls, self.msg = cls, msg


class HarnessError(Exception):
    pass


class SimCrash(BaseException):
    pass


class Rng(random.Random):
    def chance(self, p):
        return self.random() < p

    def logint(self, hi):
        return int(hi ** self.random())


# ------------------------------------------------------------------ run context
class Ctx:
    def __init__(self, lines, scratch, trace):
        self.lines, self.scratch, self.trace = lines, scratch, trace
        self.root = os.path.realpath(scratch)
        self.cfg = {}
        for l in lines:
            w = l.split(' ')
            if w[0] == 'cfg' and len(w) > 2:
                self.cfg[w[1]] = w[2]
        self.counts, self.states, self.logs = {}, set(), {}
        self.now = 1700000000.0
        self.sched = None

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def reach(self, s):
        self.states.add(int(hashlib.blake2b(s.encode(), digest_size=4).hexdigest(), 16))

    def note(self, s):
        a = self.sched.current if self.sched else -1
        self.logs.setdefault(a, []).append(s)

    def violate(self, cls, msg):
        raise Violation(cls, msg.replace(self.root, 'SCRATCH'))

    def digest(self):
        h = hashlib.blake2b(digest_size=8)
        for a in sorted(self.logs):
            for s in self.logs[a]:
                h.update(('%d %s\n' % (a, s)).encode('utf8', 'replace'))
        return int(h.hexdigest(), 16)


CTX = None

# ------------------------------------------------------------------ file system faults
CLASSES = ['openw', 'openr', 'write', 'close', 'mkdir', 'rename', 'unlink', 'read', 'list', 'meta', 'sync']
ACTIONS = {'fail': 1, 'fail-on': 2, 'short': 3, 'crash': 4, 'crash-torn': 5, 'crash-after': 6}
ERRNOS = {'ENOSPC': errno.ENOSPC, 'EIO': errno.EIO, 'EACCES': errno.EACCES, 'EMFILE': errno.EMFILE, 'EDQUOT': errno.EDQUOT, 'ENOMEM': errno.ENOMEM,
          'EROFS': errno.EROFS, 'EINTR': errno.EINTR, 'ENOENT': errno.ENOENT, 'EPERM': errno.EPERM}
CRASH_CODE = 57
iof = None


def load_iof():
    global iof
    iof = ctypes.CDLL(os.path.join(BUILD, 'iofault.so'))
    iof.iof_fired.restype = iof.iof_count.restype = ctypes.c_long
    iof.iof_arm.argtypes = [ctypes.c_uint, ctypes.c_long, ctypes.c_int, ctypes.c_int]


def io_fault(spec):
    """spec: class[+class],nth,action,errno"""
    c, nth, act, err = spec.split(',')
    mask = 0
    for k in c.split('+'):
        mask |= 1 << CLASSES.index(k)
    return iof.iof_arm(mask, int(nth), ACTIONS[act], ERRNOS.get(err, errno.EIO))


class faults:
    """with faults(ctx, specs): arms io faults and process faults for what the calling thread does inside"""
    def __init__(self, ctx, specs):
        self.ctx, self.specs = ctx, [s for s in specs if s and s != '-']
        self.fired = []

    def __enter__(self):
        self.armed = []
        PROC_RULES[threading.get_ident()] = rules = []
        for s in self.specs:
            if s.startswith('io:'):
                self.armed.append((s, io_fault(s[3:])))
            elif s.startswith('pf:'):
                kind, nth, fault, arg = s[3:].split(',')
                rules.append([kind, int(nth), fault, int(arg), False])
            else:
                raise HarnessError('bad fault ' + s)
        return self

    def __exit__(self, *a):
        self.fired = [s for s, i in self.armed if iof.iof_hit(i)]
        iof.iof_disarm()
        rules = PROC_RULES.pop(threading.get_ident(), [])
        for r in rules:
            if r[4]:
                self.fired.append('pf:%s,%d,%s,%d' % tuple(r[:4]))
        for s in self.fired:
            p = s[3:].split(',')
            self.ctx.count('fault_' + (('io_%s_%s' % (p[0].split('+')[0], p[2])) if s.startswith('io:') else 'proc_%s_%s' % (p[0], p[2])))
        return False


# ------------------------------------------------------------------ processes
PROC_RULES = {}
RealPopen = subprocess.Popen
KINDS = {'cc': 'cc', 'gcc': 'cc', 'clang': 'cc', 'c99': 'cc', 'x86_64-linux-gnu-gcc': 'cc', 'make': 'make', 'gmake': 'make'}


def proc_kind(args):
    b = os.path.basename(os.fsdecode(args[0]))
    if b in KINDS:
        return KINDS[b]
    if b.endswith('size'):
        return 'size'
    if os.path.isabs(os.fsdecode(args[0])) or '/' in os.fsdecode(args[0]):
        return 'prog'
    return 'other'


_hdr = {}


def emlearn_digest():
    d = os.path.join(REPO, 'emlearn')
    if d not in _hdr:
        h = hashlib.blake2b(digest_size=16)
        for n in sorted(os.listdir(d)):
            if n.endswith('.h'):
                with open(os.path.join(d, n), 'rb') as f:
                    h.update(n.encode() + b'\0' + f.read() + b'\0')
        _hdr[d] = h.hexdigest()
    return _hdr[d]


def cc_key(args, cwd):
    """(key, output path) of a compiler call whose result depends only on what is hashed; None when unknown"""
    args = [os.fsdecode(a) for a in args]
    if '-o' not in args:
        return None
    out = args[args.index('-o') + 1]
    h = hashlib.blake2b(digest_size=16)
    dirs, srcs = [], []
    for i, a in enumerate(args):
        if a.startswith('-I') and len(a) > 2:
            dirs.append(a[2:]); h.update(b'-I')
        elif i and (args[i - 1] == '-o'):
            pass
        elif a.startswith('-'):
            h.update(a.encode() + b'\0')
        elif i and args[i - 1] in ('-I', '-include', '-isystem', '-L', '-x'):
            return None
        elif i:
            srcs.append(a)
        else:
            h.update(a.encode())
    full = lambda p: os.path.join(cwd or os.getcwd(), p)
    try:
        for s in srcs:
            with open(full(s), 'rb') as f:
                h.update(b'S' + os.path.splitext(s)[1].encode() + f.read())
            if '-c' in args:
                dirs.append(os.path.dirname(full(s)))
        seen = set()
        for d in dirs:
            d = os.path.realpath(full(d))
            if d in seen:
                continue
            seen.add(d)
            if d == os.path.realpath(os.path.join(REPO, 'emlearn')):
                h.update(b'E' + emlearn_digest().encode())
                continue
            if not os.path.isdir(d):
                continue
            for n in sorted(os.listdir(d)):
                p = os.path.join(d, n)
                if n.endswith(('.h', '.inc', '.c')) and p not in [full(s) for s in srcs] and os.path.isfile(p):
                    with open(p, 'rb') as f:
                        h.update(b'H' + n.encode() + b'\0' + f.read())
    except OSError:
        return None
    return h.hexdigest(), full(out)


def quiet(on):
    if iof:
        iof.iof_pause(on)


def copyfile(a, b):
    """not a step of the code under test"""
    with open(a, 'rb') as f:
        d = f.read()
    with open(b, 'wb') as f:
        f.write(d)


class SimPopen(RealPopen):
    def __init__(self, args, *a, **kw):
        self._store = None
        if CTX is None or kw.get('shell') or isinstance(args, (str, bytes)):
            return super().__init__(args, *a, **kw)
        args = list(args)
        kind = proc_kind(args)
        sub = ('link' if '-c' not in args else 'compile') if kind == 'cc' else kind
        if CTX.sched:
            CTX.sched.point()
        for r in PROC_RULES.get(threading.get_ident(), []):
            if r[0] in (kind, sub) and r[1] > 0:
                r[1] -= 1
                if r[1] == 0:
                    r[4] = True
                    return self._faulty(r[2], r[3], kind, args, a, kw)
        CTX.count('process_' + sub)
        if kind == 'cc':
            quiet(1)
            k = cc_key(args, kw.get('cwd'))
            quiet(0)
            if k:
                cf = os.path.join(CACHE, k[0])
                if os.path.exists(cf):
                    quiet(1)
                    try:
                        copyfile(cf, k[1] + '.simtmp')
                        if '-c' not in args:
                            os.chmod(k[1] + '.simtmp', 0o755)
                        os.rename(k[1] + '.simtmp', k[1])
                        hit = True
                    except OSError:
                        hit = False
                    finally:
                        quiet(0)
                    if hit:
                        return super().__init__([SHIM, 'exit', '0'], *a, **kw)
                self._store = (cf, k[1])
        elif kind == 'make' and MAKE_CACHE:
            quiet(1)
            k = make_key(args, kw.get('cwd'))
            quiet(0)
            if k:
                cf = os.path.join(CACHE, k)
                if os.path.isdir(cf):
                    quiet(1)
                    for n in os.listdir(cf):
                        copyfile(os.path.join(cf, n), os.path.join(kw['cwd'], n))
                    quiet(0)
                    return super().__init__([SHIM, 'exit', '0'], *a, **kw)
                self._store = (cf, kw['cwd'])
        super().__init__(args, *a, **kw)

    def wait(self, *a, **kw):
        rc = super().wait(*a, **kw)
        if rc == 0 and self._store:
            (cf, out), self._store = self._store, None
            quiet(1)
            store(cf, out)
            quiet(0)
        return rc

    def communicate(self, *a, **kw):
        v = super().communicate(*a, **kw)
        self.wait()
        return v

    def _faulty(self, fault, arg, kind, args, a, kw):
        out = None
        if '-o' in args:
            out = os.path.join(kw.get('cwd') or os.getcwd(), args[args.index('-o') + 1])
        real = lambda w: RealPopen.__init__(self, w, *a, **kw)
        if fault in ('enoent', 'eacces', 'enomem', 'emfile', 'etxtbsy'):
            e = getattr(errno, fault.upper())
            raise OSError(e, os.strerror(e), args[0])
        if fault in ('crash', 'crashlate', 'crashtorn'):     # the whole process dies, before, after or during
            if fault != 'crash':
                p = RealPopen([SHIM, 'file', out or '/dev/null', str(arg) if fault == 'crashtorn' and out else '-1', '0', '--'] + args, cwd=kw.get('cwd'), env=kw.get('env'), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                p.wait()
            os._exit(CRASH_CODE)
        if fault == 'interrupt':         # the user gives up
            raise KeyboardInterrupt()
        if fault == 'exit':              # fails without doing anything
            return real([SHIM, 'exit', str(arg)])
        if fault == 'kill':              # killed before it did anything
            return real([SHIM, 'exit', str(-signal.SIGKILL)])
        if fault == 'silent':            # says it worked, did nothing
            return real([SHIM, 'exit', '0'])
        if fault == 'cut':               # output cut at a byte, exit status 0
            return real([SHIM, 'out', str(arg), '0', '--'] + args)
        if fault == 'cutkill':           # output cut at a byte, killed
            return real([SHIM, 'out', str(arg), str(-signal.SIGKILL), '--'] + args)
        if fault == 'cutexit':
            return real([SHIM, 'out', str(arg), '1', '--'] + args)
        if fault == 'errline':           # the C code reports an error for a row
            return real([SHIM, 'line', str(arg), ERRVALUE[0], '--'] + args)
        if fault == 'torn' and out:      # killed while writing its output file
            return real([SHIM, 'file', out, str(arg), str(-signal.SIGKILL), '--'] + args)
        if fault == 'tornexit' and out:
            return real([SHIM, 'file', out, str(arg), '1', '--'] + args)
        if fault == 'tornelf':           # make and its linker killed while the program is written
            return real([SHIM, 'file', os.path.join(kw.get('cwd') or os.getcwd(), 'out.elf'), str(arg), str(-signal.SIGKILL), '--'] + args)
        if fault == 'late':              # did its work, then failed
            return real([SHIM, 'out', '-1', '1', '--'] + args)
        return real([SHIM, 'exit', '1'])


ERRVALUE = ['-3.000000']
MAKE_CACHE = True


def make_key(args, cwd):
    if not cwd:
        return None
    h = hashlib.blake2b(digest_size=16)
    try:
        for a in map(os.fsdecode, args):
            h.update(a.replace(cwd, 'CWD').replace(CTX.root, 'ROOT').encode() + b'\0')
            if os.path.isfile(a):
                with open(a, 'rb') as f:
                    h.update(f.read())
        for n in sorted(os.listdir(cwd)):
            p = os.path.join(cwd, n)
            if os.path.isfile(p) and n.endswith(('.c', '.h')):
                with open(p, 'rb') as f:
                    h.update(n.encode() + b'\0' + f.read())
            else:
                return None
        # include directories named in the flags
        for a in ' '.join(map(os.fsdecode, args)).split():
            for part in a.split('='):
                if part.startswith('-I'):
                    d = part[2:]
                    for n in sorted(os.listdir(d)):
                        if n.endswith('.h'):
                            with open(os.path.join(d, n), 'rb') as f:
                                h.update(n.encode() + f.read())
    except OSError:
        return None
    h.update(emlearn_digest().encode())
    return 'make-' + h.hexdigest()


def store(cf, out):
    t = '%s.%d.%d' % (cf, os.getpid(), threading.get_ident())
    try:
        if os.path.isdir(out):
            os.mkdir(t)
            for n in os.listdir(out):
                p = os.path.join(out, n)
                if os.path.isfile(p) and not n.endswith('.c'):
                    copyfile(p, os.path.join(t, n))
        else:
            copyfile(out, t)
        os.rename(t, cf)
    except OSError:
        if os.path.isdir(t):
            shutil.rmtree(t, ignore_errors=True)


# ------------------------------------------------------------------ scheduler
TRACED = tuple(os.path.join(p, '') for p in [os.path.join(REPO, 'emlearn')])
TRACED_PARTS = ('/_distutils/',)
TRACED_FILES = (os.__file__, shutil.__file__)
_traced = {}


def is_traced(fn):
    v = _traced.get(fn)
    if v is None:
        v = _traced[fn] = fn.startswith(TRACED) or any(p in fn for p in TRACED_PARTS) or fn in TRACED_FILES
    return v


def importing(f):
    while f is not None:
        if f.f_code.co_filename.startswith('<frozen importlib'):
            return True
        f = f.f_back
    return False


class Actor:
    def __init__(self, i, fn, proc):
        self.i, self.fn, self.proc, self.done, self.blocked, self.left, self.err = i, fn, proc, False, False, 0, None
        self.events, self.after = 0, 0       # a slice that ends some lines after the n-th file event
        self.go = real_lock(); self.go.acquire()


    def slice(self, steps):
        if steps > 0:
            self.left, self.events = steps, 0
        else:
            self.left, self.events, self.after = 1 << 40, -steps // 10, -steps % 10

    def event(self):
        if self.events:
            self.events -= 1
            if self.events == 0:
                self.left = self.after


STEP_LIMIT = 3000000
FILE_EVENTS = {'open', 'os.mkdir', 'os.rename', 'os.remove', 'os.rmdir', 'os.listdir', 'os.scandir', 'os.link', 'os.symlink', 'os.truncate', 'os.chmod', 'os.chdir'}


def audit(event, args):
    """file events of the code under test, for slices that end at one"""
    if CTX is None or CTX.sched is None or event not in FILE_EVENTS:
        return
    a = CTX.sched.me or CTX.sched.byid.get(threading.get_ident())
    if a is not None and a.events:
        fn = sys._getframe(1).f_code.co_filename
        if is_traced(fn) or fn == tempfile.__file__:
            a.event()


class Sched:
    """Steps actors one at a time. Threads share the run's memory; processes are forked from it."""
    def __init__(self, ctx):
        self.ctx, self.actors, self.back = ctx, [], real_lock()
        self.back.acquire()
        self.current, self.switches, self.preempted, self.steps = -1, 0, 0, 0
        self.threads = 1
        self.me = None       # in a forked actor: that actor
        self.byid = {}
        ctx.sched = self

    def thread(self, fn):
        self.actors.append(Actor(len(self.actors), fn, False))

    def process(self, fn):
        self.actors.append(Actor(len(self.actors), fn, True))

    # --- inside an actor
    def _tracer(self, a):
        def local(frame, event, arg):
            if event == 'line':
                self.steps += 1
                a.left -= 1
                if a.left <= 0:
                    if importing(frame):          # the others would wait for the import lock: later
                        a.left = 1
                    else:
                        self.preempted += 1
                        self._switch(a)
                if self.steps > STEP_LIMIT:
                    self.steps = 0
                    raise Violation('hang', 'no end within %d steps' % STEP_LIMIT)
            return local

        def glob(frame, event, arg):
            return local if is_traced(frame.f_code.co_filename) else None
        return glob

    def _switch(self, a, blocked=False):
        if self.me is not None:                      # forked actor: hand the turn back through the pipe
            os.write(a.w, b'B' if blocked else b'Y')
            self._await(a)
        else:
            a.blocked = blocked
            self.back.release()
            a.go.acquire()
            a.blocked = False

    def _await(self, a):
        b = b''
        while len(b) < 8:
            k = os.read(a.r, 8 - len(b))
            if not k:
                os._exit(3)
            b += k
        a.slice(int.from_bytes(b, 'little', signed=True))

    def point(self, blocked=False):
        """a scheduling point outside traced lines (process start, sleep, lock)"""
        a = self.me or self.byid.get(threading.get_ident())
        if a is None:
            return False
        self.steps += 1
        if self.steps > STEP_LIMIT:
            self.steps = 0
            raise Violation('hang', 'no end within %d steps' % STEP_LIMIT)
        if blocked:
            self._switch(a, True)
            return True
        a.event()
        a.left -= 1
        if a.left <= 0:
            self.preempted += 1
            self._switch(a)
        return True

    def _body(self, a):
        a.go.acquire()
        self.byid[threading.get_ident()] = a
        sys.settrace(self._tracer(a))
        try:
            a.fn()
        except BaseException as e:
            a.err = e
            a.tb = traceback.format_exc()
        finally:
            sys.settrace(None)
            a.done = True
            self.back.release()

    def _child(self, a):
        self.me = a
        self.current = a.i
        c = self.ctx
        c.counts, c.states, c.logs = {}, set(), {}
        out = {}
        try:
            self._await(a)
            sys.settrace(self._tracer(a))
            try:
                a.fn()
            finally:
                sys.settrace(None)
        except Violation as e:
            out['violation'] = [e.cls, e.msg]
        except BaseException:
            out['error'] = traceback.format_exc()
        out.update(counts=c.counts, states=sorted(c.states), log=c.logs.get(a.i, []), steps=self.steps, preempted=self.preempted)
        d = json.dumps(out).encode()
        os.write(a.w, b'D' + len(d).to_bytes(8, 'little'))
        o = 0
        while o < len(d):
            o += os.write(a.w, d[o:o + 60000])
        os._exit(0)

    def _read(self, fd, n):
        b = b''
        while len(b) < n:
            k = os.read(fd, n - len(b))
            if not k:
                return None
            b += k
        return b

    def _resume(self, a, steps):
        self.current = a.i
        if a.proc:
            try:
                os.write(a.cw, steps.to_bytes(8, 'little', signed=True))
                c = self._read(a.cr, 1)
            except OSError:
                c = None
            if c is None:
                _, st = os.waitpid(a.pid, 0)
                raise HarnessError('a simulated process died (status %d)' % st)
            a.blocked = c == b'B'
            if c == b'D':
                a.done = True
                n = int.from_bytes(self._read(a.cr, 8), 'little')
                d = json.loads(self._read(a.cr, n))
                os.waitpid(a.pid, 0)
                for k, v in d['counts'].items():
                    self.ctx.count(k, v)
                self.ctx.states.update(d['states'])
                self.ctx.logs.setdefault(a.i, []).extend(d['log'])
                self.steps += d['steps']; self.preempted += d['preempted']
                if 'violation' in d:
                    raise Violation(*d['violation'])
                if 'error' in d:
                    raise HarnessError(d['error'])
        else:
            a.slice(steps)
            a.go.release()
            self.back.acquire()
            if a.done and a.err is not None:
                if isinstance(a.err, (Violation, HarnessError)):
                    raise a.err
                raise HarnessError(a.tb)
        self.current = -1

    def run(self, slices):
        self.threads = len(self.actors)
        for a in self.actors:
            if a.proc:
                r1, w1 = os.pipe(); r2, w2 = os.pipe()
                a.pid = os.fork()
                if a.pid == 0:
                    os.close(w1); os.close(r2)
                    a.r, a.w = r1, w2
                    self._child(a)
                os.close(r1); os.close(w2)
                a.cw, a.cr = w1, r2
        for a in self.actors:
            if not a.proc:
                t = threading.Thread(target=self._body, args=(a,), daemon=True)
                t.start()
        last = None
        stuck = 0

        def pick(i):
            n = len(self.actors)
            for k in range(n):
                a = self.actors[(i + k) % n]
                if not a.done and not (a.blocked and stuck < n):
                    return a
            for a in self.actors:
                if not a.done:
                    return a
            return None
        it = iter(slices)
        rr = 0
        while True:
            s = next(it, None)
            if s is None:
                a = pick(rr); rr += 1
                steps = 400 if sum(1 for x in self.actors if not x.done) > 1 else 1 << 40
            else:
                a = pick(s[0]); steps = s[1] or 1
            if a is None:
                break
            if a is not last:
                self.switches += 1
                last = a
            self._resume(a, steps)
            # all blocked: let them try again a few times, then it is a deadlock
            live = [x for x in self.actors if not x.done]
            if live and all(x.blocked for x in live):
                stuck += 1
                if stuck > 50 * len(live):
                    raise Violation('deadlock', 'all tasks wait for one another')
                for x in live:
                    x.blocked = False
            elif not a.blocked:
                stuck = 0
        self.ctx.count('switches', self.switches)
        self.ctx.count('fault_preemption', self.preempted)
        self.ctx.sched = None


class SimLock:
    """replaces locks created by the code under test: waiting is a scheduling point"""
    def __init__(self, rec=False):
        self.l, self.rec, self.owner, self.n = real_lock(), rec, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self.rec and self.owner == me:
            self.n += 1
            return True
        tries = 0
        while not self.l.acquire(False):
            tries += 1
            if not blocking or (timeout >= 0 and tries > 20):
                return False
            if not (CTX and CTX.sched and CTX.sched.point(True)):
                if tries > 3:
                    raise Violation('deadlock', 'a lock is taken twice by one task')
        self.owner, self.n = me, 1
        return True

    def release(self):
        self.n -= 1
        if self.n == 0 or not self.rec:
            self.owner = None
            self.l.release()

    def locked(self):
        return self.l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def install_seams():
    def factory(orig, rec):
        def make(*a, **k):
            f = sys._getframe(1)
            return SimLock(rec) if f.f_code.co_filename.startswith(TRACED) else orig(*a, **k)
        return make
    threading.Lock = factory(threading.Lock, False)
    threading.RLock = factory(threading.RLock, True)
    subprocess.Popen = SimPopen
    rt, rns = time.time, time.time_ns

    def sim_time():
        return CTX.now if CTX else rt()

    def sim_sleep(s):
        if CTX is None:
            return real_sleep(s)
        CTX.now += max(0, s)
        if CTX.sched:
            CTX.sched.point(True)
    time.time, time.time_ns, time.sleep = sim_time, (lambda: int(sim_time() * 1e9)), sim_sleep
    import fcntl
    for name in ('flock', 'lockf'):
        def wrap(orig):
            def f(fd, cmd, *a):
                if CTX is None or not CTX.sched or cmd & (fcntl.LOCK_NB | fcntl.LOCK_UN):
                    return orig(fd, cmd, *a)
                while True:
                    try:
                        return orig(fd, cmd | fcntl.LOCK_NB, *a)
                    except OSError as e:
                        if e.errno not in (errno.EAGAIN, errno.EACCES):
                            raise
                    if not CTX.sched.point(True):
                        return orig(fd, cmd, *a)
            return f
        setattr(fcntl, name, wrap(getattr(fcntl, name)))


class Names:
    """temporary names: seeded, and in some runs from a small set, so that they collide"""
    def __init__(self, seed, small):
        self.r, self.small = random.Random(seed), small

    def __iter__(self):
        return self

    def __next__(self):
        if self.small and self.r.random() < 0.6:
            return 'n%d' % self.r.randrange(4)
        return 'r%08x' % self.r.getrandbits(32)


def slice_plan(r, n, scale, number):
    """slices of some lines of code; a negative length -(10 e + k): until k lines after the e-th file event"""
    files = r.choice([0, 0, 0.3, 0.9])
    out = []
    for _ in range(number):
        if r.chance(files):
            k = -(10 * r.choice([1, 1, 1, 2, 2, 3, r.randint(1, 12)]) + r.choice([0, 1, 2, r.randrange(10)]))
        else:
            k = r.randint(1, scale) if r.chance(0.7) else r.logint(2000)
        out.append('slice %d %d' % (r.randrange(n), k))
    return out


# ------------------------------------------------------------------ server
module = None
SCRATCH = os.environ.get('SIM_SCRATCH', '/tmp/hs')
_nr = [0]


def child_main(lines, trace, wfd, scratch):
    global CTX
    null = os.open('/dev/null', os.O_RDWR)
    os.dup2(null, 0); os.dup2(null, 1); os.dup2(null, 2)
    os.setsid()
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_CPU, (120, 125))
    out = {'rc': 0, 'cls': '-', 'msg': ''}
    for d in ('', '/cwd', '/tmp', '/home', '/out'):
        os.mkdir(scratch + d)
        if os.getuid() == 0:
            os.chown(scratch + d, NOBODY, NOBODY)
    if os.getuid() == 0:
        try:
            os.setgroups([]); os.setgid(NOBODY); os.setuid(NOBODY)
        except OSError:
            pass
    os.environ.update(TMPDIR=scratch + '/tmp', HOME=scratch + '/home')
    for k in ('LD_PRELOAD',):
        os.environ.pop(k, None)
    os.chdir(scratch + '/cwd')
    os.umask(0o022)
    tempfile.tempdir = None
    ctx = Ctx(lines, scratch, trace)
    seed = int(ctx.cfg.get('names', '0'))
    tempfile._name_sequence = Names(seed, seed % 2)
    tempfile._get_candidate_names = lambda: tempfile._name_sequence
    random.seed(7)
    try:
        import numpy
        numpy.random.seed(7)
    except ImportError:
        pass
    gc.collect(); gc.freeze(); gc.disable()
    CTX = ctx
    iof.iof_setup(ctx.root.encode())
    try:
        module.execute(ctx)
    except Violation as e:
        out.update(rc=1, cls=e.cls, msg=e.msg)
    except BaseException as e:
        out.update(rc=3, cls='harness', msg=traceback.format_exc()[-1500:])
    CTX = None
    iof.iof_disarm()
    h = ctx.digest()
    out.update(hash=h, steps=sum(len(v) for v in ctx.logs.values()), simtime=int((ctx.now - 1700000000.0) * 1e6), counts=ctx.counts, states=sorted(ctx.states))
    if trace:
        out['trace'] = ['%d %s' % (a, s) for a in sorted(ctx.logs) for s in ctx.logs[a]]
    d = json.dumps(out).encode()
    o = 0
    while o < len(d):
        o += os.write(wfd, d[o:o + 60000])
    os._exit(0)


def one(lines, trace=False):
    _nr[0] += 1
    scratch = os.path.join(SCRATCH, 'w%07d' % os.getpid(), 'r%06d' % _nr[0])     # of constant length: outputs that hold the path are cut at bytes
    os.makedirs(os.path.dirname(scratch), mode=0o755, exist_ok=True)
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            child_main(lines, trace, w, scratch)
        except BaseException:
            try:
                os.write(w, json.dumps({'rc': 3, 'cls': 'harness', 'msg': traceback.format_exc()[-1500:], 'hash': 0, 'steps': 0, 'simtime': 0, 'counts': {}, 'states': []}).encode())
            except OSError:
                pass
        os._exit(3)
    os.close(w)
    buf, end = b'', time.monotonic() + 240
    while True:
        left = end - time.monotonic()
        if left <= 0:
            buf = b''
            break
        rs, _, _ = select.select([r], [], [], left)
        if not rs:
            continue
        k = os.read(r, 1 << 16)
        if not k:
            break
        buf += k
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    try:
        return json.loads(buf)
    except ValueError:
        return {'rc': 3, 'cls': 'harness', 'msg': 'run died without a result (status %d)' % st, 'hash': 0, 'steps': 0, 'simtime': 0, 'counts': {}, 'states': []}


def do_run(seed0, n, stats, log):
    t = dict(rc=0, seed=0, msg='', runs=0, steps=0, simtime_us=0, counts={}, hashes=set(), states=set())
    t['class'] = '-'
    hl = open(log, 'w') if log else None
    for s in range(seed0, seed0 + n):
        d = one(module.make_plan(s))
        t['runs'] += 1; t['steps'] += d['steps']; t['simtime_us'] += d['simtime']
        for k, v in d['counts'].items():
            t['counts'][k] = t['counts'].get(k, 0) + v
        t['hashes'].add(d['hash']); t['states'].update(d['states'])
        if hl:
            hl.write('%d %d %d\n' % (s, d['rc'], d['hash']))
        if d['rc']:
            t.update(rc=d['rc'], seed=s, msg=d['msg'].replace('\n', ' '))
            t['class'] = d['cls']
            break
    if hl:
        hl.close()
    t['hashes'] = sorted(t['hashes']); t['states'] = sorted(t['states'])
    with open(stats, 'w') as f:
        json.dump(t, f)
    return t['rc']


def do_exec(path, trace):
    with open(path) as f:
        lines = [l for l in f.read().split('\n') if l.strip() and not l.startswith('#')]
    d = one(lines, trace)
    out = ''.join(l + '\n' for l in d.get('trace', []))
    out += 'RESULT %d CLASS %s HASH %d\n' % (d['rc'], d['cls'] if d['rc'] else '-', d['hash'])
    if d['rc']:
        out += 'MSG %s\n' % d['msg'].replace('\n', ' ')
    return d['rc'], out


def fixed_addresses(argv):
    """the same addresses in every run: id() and the order of sets of objects are part of what a seed decides"""
    if os.environ.get('SIM_FIXED'):
        return
    os.environ['SIM_FIXED'] = '1'
    libc = ctypes.CDLL(None, use_errno=True)
    if libc.personality(0x0040000) != -1:            # ADDR_NO_RANDOMIZE
        os.execv(sys.executable, [sys.executable] + sys.argv)


def main(argv):
    global module
    import importlib
    fixed_addresses(argv)
    load_iof()
    install_seams()
    sys.addaudithook(audit)
    sys.path[:0] = [HERE, REPO]
    name = {'C12': 'p_models', 'C13': 'p_models', 'C18': 'p_models', 'C14': 'p_save', 'C15': 'p_install', 'C16': 'p_size', 'C17': 'p_build', 'C30': 'p_bind'}[os.environ['SIM_PROPERTY']]
    module = importlib.import_module(name)
    module.setup()
    if argv[0] == 'serve':
        for l in sys.stdin:
            w = l.rstrip('\n').split('\t')
            try:
                if w[0] == 'exec':
                    rc, out = do_exec(w[1], len(w) > 2 and w[2] == 'trace')
                elif w[0] == 'plan':
                    rc, out = 0, '\n'.join(module.make_plan(int(w[1]))) + '\n'
                elif w[0] == 'run':
                    rc, out = do_run(int(w[1]), int(w[2]), w[3], w[4] if len(w) > 4 else None), ''
                else:
                    rc, out = 3, 'unknown request\n'
            except Exception:
                rc, out = 3, traceback.format_exc()
            sys.stdout.write(out + 'END %d\n' % rc)
            sys.stdout.flush()
        return 0
    if argv[0] == 'run':
        return do_run(int(argv[1]), int(argv[2]), argv[3], argv[4] if len(argv) > 4 else None)
    if argv[0] == 'plan':
        print('\n'.join(module.make_plan(int(argv[1]))))
        return 0
    rc, out = do_exec(argv[1], len(argv) > 2)
    sys.stdout.write(out)
    return rc


if __name__ == '__main__':
    sys.modules['hs'] = sys.modules['__main__']
    sys.exit(main(sys.argv[1:]))
