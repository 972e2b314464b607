"""C16: program-size measurements with concurrent measurements, failing tools and failing file systems.

op A measure C P inc via [fault...]     C: code, P: platform and MCU, inc: include directory (d: default)
op A tools P TOOL FAULT                 what missing or failing inner tools do to the measurements that follow, until
op A tools - - -                        they work again
faults: io:..., pf:make|size,nth,kind,arg
"""
import json, os, shutil, subprocess, sys, tempfile
import hs

TARGETS = [('avr', 'atmega2560'), ('avr', 'atmega328p'), ('arm', 'Cortex-M0'), ('arm', 'Cortex-M4F'), ('arm', 'Cortex-M3'), ('arm', 'Cortex-M0+')]
HEAD = '#include <stdint.h>\n'
MACROS = '''
#if defined(__AVR_ATmega2560__)
#define N 1100
#elif defined(__AVR_ATmega328P__)
#define N 300
#elif defined(__ARM_ARCH_6M__)
#define N 500
#elif defined(__ARM_ARCH_7M__)
#define N 700
#elif defined(__ARM_ARCH_7EM__) && defined(__ARM_FP)
#define N 900
#endif
#ifndef __OPTIMIZE_SIZE__
#error not optimized for size
#endif
'''
MACRO_N = {'atmega2560': 1100, 'atmega328p': 300, 'Cortex-M0': 500, 'Cortex-M0+': 500, 'Cortex-M3': 700, 'Cortex-M4F': 900}


def bss(n):
    return HEAD + 'volatile uint8_t buf[%d];\nint main(void) { return buf[3]; }\n' % n


def data(n):
    return HEAD + 'volatile uint8_t tab[%d] = { 1, 2, 3, 4 };\nint main(void) { return tab[3]; }\n' % n


def const(n):
    return HEAD + 'const uint8_t tab[%d] = { 1, 2, 3, 4 };\nvolatile unsigned at;\nint main(void) { return tab[at]; }\n' % n


# code, and whether it can be built
CODES = [
    ('int main(void) { return 0; }\n', True),
    (bss(100), True), (bss(612), True),
    (data(100), True), (data(612), True),
    (const(100), True), (const(612), True),
    (HEAD + MACROS + 'volatile uint8_t buf[N];\nint main(void) { return buf[3]; }\n', True),
    (HEAD + '#include "cfg.h"\nvolatile uint8_t buf[CFG];\nint main(void) { return buf[3]; }\n', None),
    (HEAD + '#include <eml_fixedpoint.h>\nvolatile eml_q16_t a, b;\nint main(void) { return eml_q16_div(a, b); }\n', 'd'),
    ('int main(void) { return 0 }\n', False),
    ('int helper(void) { return 1; }\n', False),
    ('#include "not_there.h"\nint main(void) { return 0; }\n', False),
    ('int other(void);\nint main(void) { return other(); }\n', False),
    ('volatile float f = 1.5f;\nint main(void) { f = f * 3.3f + f / 7.0f; return (int)f; }\n', True),
    (HEAD + '#include <eml_iir.h>\nfloat s[4]; const float c[6] = { 1.0f, 0, 0, 1.0f, 0.5f, 0 };\nEmlIIR f = { 1, s, 4, c, 6 };\nint main(void) { return (int)eml_iir_filter(f, 0.5f); }\n', 'd'),
    ('#error no\n', False),
    ('', False),
]
CFG = [40, 1500]
REFS = {}


def buildable(c, inc):
    b = CODES[c][1]
    return (inc != 'd') if b is None else (inc == 'd') if b == 'd' else b


def setup():
    global size, BIN
    import emlearn
    if not os.path.realpath(emlearn.__file__).startswith(os.path.realpath(hs.REPO) + os.sep):
        raise SystemExit('wrong emlearn: ' + emlearn.__file__)
    import emlearn.evaluate.size as size
    p = os.path.join(hs.BUILD, 'size-refs.json')
    if os.path.exists(p):
        with open(p) as f:
            REFS.update(json.load(f))
    BIN = {t: shutil.which(t) for t in ('make', 'sh', 'avr-gcc', 'avr-objcopy', 'avr-size', 'arm-none-eabi-gcc', 'arm-none-eabi-objcopy', 'arm-none-eabi-size', 'as', 'ld')}


# ------------------------------------------------------------------ references
def make_incs(d):
    for k, n in enumerate(CFG):
        os.makedirs(os.path.join(d, 'inc%d' % k), exist_ok=True)
        with open(os.path.join(d, 'inc%d' % k, 'cfg.h'), 'w') as f:
            f.write('#define CFG %d\n' % n)


def references(out):
    """fault-free sizes, each measured alone; complaints about those that cannot be the size of that program"""
    d = tempfile.mkdtemp()
    make_incs(d)
    bad, refs = [], {}

    def one(i, c, t, inc):
        tmp = os.path.join(d, 't%d' % i)
        os.mkdir(tmp)
        os.chdir(tmp)
        os.environ['TMPDIR'] = tmp
        tempfile.tempdir = None
        for fd in (1, 2):
            os.dup2(os.open('/dev/null', os.O_WRONLY), fd)
        try:
            v = size.get_program_size(CODES[c][0], platform=TARGETS[t][0], mcu=TARGETS[t][1], include_dirs=None if inc == 'd' else [os.path.join(d, 'inc' + inc)])
        except Exception as e:
            v = type(e).__name__ + ': ' + str(e)
        with open(os.path.join(d, 'r%d' % i), 'w') as f:
            json.dump([v, os.listdir(tmp)], f)

    def collect(i, c, t, inc):
        with open(os.path.join(d, 'r%d' % i)) as f:
            v, left = json.load(f)
        what = '%s %s code %d' % (TARGETS[t][0], TARGETS[t][1], c)
        if left:
            bad.append('%s leaves %s' % (what, left))
        if isinstance(v, str):
            if buildable(c, inc):
                bad.append('%s raises: %s' % (what, v[:200]))
            return
        if not buildable(c, inc):
            bad.append('%s cannot be built and is measured as %s' % (what, v))
        refs['%d/%d/%s' % (c, t, inc)] = v
    jobs = [(c, t, inc) for c in range(len(CODES)) for t in range(len(TARGETS)) for inc in ('d', '0', '1') if inc == 'd' or c in (0, 1, 8)]
    live = 0
    for i, j in enumerate(jobs):
        if live == 10:
            os.wait(); live -= 1
        if os.fork() == 0:
            try:
                one(i, *j)
            finally:
                os._exit(0)
        live += 1
    while live:
        os.wait(); live -= 1
    for i, j in enumerate(jobs):
        collect(i, *j)
    shutil.rmtree(d)
    if not bad:
        g = lambda c, t, k, inc='d': refs['%d/%d/%s' % (c, t, inc)][k]
        for t in range(len(TARGETS)):
            n = TARGETS[t][1]
            steps = [('zero-initialised data', 'ram', 1, 2, 512), ('zero-initialised data', 'flash', 1, 2, 0), ('initialised data', 'ram', 3, 4, 512), ('initialised data', 'flash', 3, 4, 512),
                     ('constants', 'flash', 5, 6, 512), ('constants', 'ram', 5, 6, 512 if TARGETS[t][0] == 'avr' else 0)]
            for w, k, a, b, want in steps:
                if g(b, t, k) - g(a, t, k) != want:
                    bad.append('%s: 512 bytes more of %s are measured as %d more of %s' % (n, w, g(b, t, k) - g(a, t, k), k))
            if g(7, t, 'ram') - g(1, t, 'ram') != MACRO_N[n] - 100:
                bad.append('%s: not built for that processor' % n)
            for i, c in enumerate(CFG):
                if abs(g(8, t, 'ram', str(i)) - g(1, t, 'ram') - (c - 100)) > 3:
                    bad.append('%s: not built with the include directory given' % n)
            if refs['1/%d/0' % t] != refs['1/%d/d' % t]:
                bad.append('%s: size depends on an unused include directory' % n)
    with open(out, 'w') as f:
        json.dump(refs, f)
    return bad


# ------------------------------------------------------------------ plans
ERR = ['ENOSPC', 'EIO', 'EACCES', 'EMFILE', 'EDQUOT', 'EROFS', 'ENOMEM']
PF = {'make': ['enoent', 'eacces', 'enomem', 'emfile', 'exit', 'kill', 'silent', 'late', 'cut', 'cutkill', 'tornelf', 'tornelf', 'interrupt'],
      'size': ['enoent', 'eacces', 'enomem', 'exit', 'kill', 'silent', 'cut', 'cut', 'cut', 'cutkill', 'cutexit', 'late', 'interrupt']}
TOOLF = ['missing', 'exit', 'kill', 'silent', 'late', 'notexec']


def fault(r):
    if r.chance(0.35):
        return 'io:%s,%d,%s,%s' % (r.choice(['openw', 'write', 'close', 'mkdir']), r.choice([1, 1, 1, 2]), r.choice(['fail', 'fail', 'fail-on', 'short']), r.choice(ERR))
    k = r.choice(['make', 'size', 'size'])
    f = r.choice(PF[k])
    return 'pf:%s,1,%s,%d' % (k, f, r.choice([0, 1, r.randint(1, 40), r.randint(40, 800), r.randint(0, 2000)]) if f.startswith('cut') else r.choice([0, 52, 500, 4000, 12000, -1]) if f == 'tornelf' else r.choice([1, 2, 127]))


def make_plan(seed):
    r = hs.Rng(seed)
    lines = ['cfg names %d' % r.randrange(1 << 30)]
    good = [c for c in range(len(CODES)) if CODES[c][1] is not False]
    ts = r.sample(range(len(TARGETS)), r.choice([1, 1, 2, 3]))
    cs = r.sample(good, r.choice([1, 2, 4, len(good)]))

    def one(a, par=False):
        c = r.choice(cs) if r.chance(0.85) else r.randrange(len(CODES))
        inc = r.choice('01') if CODES[c][1] is None and r.chance(0.9) else 'd' if c not in (0, 1) else r.choice('dd01')
        fs = ''.join(' ' + fault(r) for _ in range(r.choice([0, 0, 1, 1, 2])))
        lines.append('op %d measure %d %d %s%s' % (a, c, r.choice(ts), inc, fs))
    for _ in range(r.randint(2, 8)):
        if r.chance(0.15):
            lines.append('op 0 tools %d %s %s' % (r.choice(ts), r.choice(['gcc', 'gcc', 'link', 'objcopy', 'size', 'make']), r.choice(TOOLF)))
            one(0)
            if r.chance(0.6):
                one(0)
            lines.append('op 0 tools - - -')
        else:
            one(0)
    n = r.choice([0, 0, 0, 2, 2, 3])
    if n:
        mode = r.choice(['thread', 'proc', 'mixed'])
        for a in range(1, n + 1):
            lines.append('actor %d %s' % (a, 'proc' if mode == 'proc' or (mode == 'mixed' and r.chance(0.5)) else 'thread'))
            for _ in range(r.randint(1, 3)):
                one(a)
        lines += hs.slice_plan(r, n, r.choice([2, 8, 40]), r.choice([5, 20, 60]))
        for _ in range(r.randint(0, 2)):
            one(0)
    return lines


# ------------------------------------------------------------------ execution
class World:
    def __init__(self, ctx):
        self.ctx = ctx
        make_incs(os.path.join(ctx.scratch, 'out'))
        self.tools, self.path = None, os.environ['PATH']
        tempfile.gettempdir()
        self.calm = self.listing()

    def listing(self):
        out = []
        for b in ('tmp', 'cwd', 'home', 'out'):
            for base, ds, fs in os.walk(os.path.join(self.ctx.scratch, b)):
                if os.path.basename(base) == 'bin' and b == 'out':
                    ds[:] = []
                    continue
                out += [os.path.relpath(os.path.join(base, n), self.ctx.scratch) for n in ds + fs if n != 'bin']
        return sorted(out)

    def settools(self, t, tool, fault):
        d = os.path.join(self.ctx.scratch, 'out', 'bin')
        shutil.rmtree(d, ignore_errors=True)
        os.environ['PATH'] = self.path
        hs.MAKE_CACHE, self.tools = True, None
        if t == '-':
            return
        pl = TARGETS[int(t)][0]
        pre = {'avr': 'avr-', 'arm': 'arm-none-eabi-'}[pl]
        os.mkdir(d)
        hs.MAKE_CACHE, self.tools = False, (pl, tool, fault)
        name = 'make' if tool == 'make' else pre + ('gcc' if tool in ('gcc', 'link') else tool)
        for n, p in BIN.items():
            if p and n != name:
                os.symlink(p, os.path.join(d, n))
        os.environ['PATH'] = d
        real = BIN[name]
        if fault == 'missing' or not real:
            return
        p = os.path.join(d, name)
        hit = {'exit': 'exit 1', 'kill': 'exec %s exit -9' % hs.SHIM, 'silent': 'exit 0', 'late': '%s "$@"; exit 1' % real, 'notexec': 'exit 126'}[fault]
        body = hit
        if tool in ('gcc', 'link'):
            body = 'for a in "$@"; do if [ "$a" = -c ]; then C=1; fi; done\nif [ "$C" %s 1 ]; then %s; fi\nexec %s "$@"' % ('=' if tool == 'gcc' else '!=', hit, real)
        with open(p, 'w') as f:
            f.write('#!%s\n%s\n' % (BIN['sh'], body))
        os.chmod(p, 0o755 if fault != 'notexec' else 0o644)


def measure(w, op, shared=False):
    ctx = w.ctx
    c, t, inc = int(op[0]), int(op[1]), op[2]
    pl, mcu = TARGETS[t]
    ref = REFS.get('%d/%d/%s' % (c, t, inc))
    what = 'measuring code %d for %s %s' % (c, pl, mcu)
    dirs = None if inc == 'd' else [os.path.join(ctx.scratch, 'out', 'inc' + inc)]
    v, e = None, None
    with hs.faults(ctx, op[3:]) as f:
        try:
            v = size.get_program_size(CODES[c][0], platform=pl, mcu=mcu, include_dirs=dirs)
        except (hs.Violation, hs.HarnessError, hs.SimCrash):
            raise
        except BaseException as x:
            e = x
    fired = sorted(s[:s.rindex(',')] for s in f.fired)
    ctx.count('measurements')
    if w.tools and w.tools[0] == pl:
        ctx.count('fault_tool_%s_%s' % w.tools[1:])
    if fired:
        what += ' with ' + ' '.join(f.fired)
    if w.tools:
        what += ' with %s %s %s' % w.tools
    ctx.note('%d %d %s %s' % (c, t, inc, json.dumps(v, sort_keys=True) if e is None else type(e).__name__))
    ctx.reach('%d %s %s %s %s' % (c, pl, [' '.join(s.split(',')[::2]) for s in fired], w.tools, e is None))
    if e is None:
        if ref is None:
            ctx.violate('no-error', '%s, which cannot be built, gives %s' % (what, v))
        if v != ref:
            ctx.violate('wrong-size', '%s gives %s, alone and undisturbed it gives %s' % (what, v, ref))
    else:
        ctx.count('measurements_raised')
        if not fired and not w.tools and ref is not None:
            ctx.violate('raised', '%s raises without a fault: %s: %s' % (what, type(e).__name__, str(e)[:100]))
    if not shared:
        now = w.listing()
        if now != w.calm:
            x = [n for n in now if n not in w.calm] or [n for n in w.calm if n not in now]
            ctx.violate('litter' if len(now) > len(w.calm) else 'removed', '%s: afterwards %s' % (what, x[0]))


def do(w, op, shared=False):
    if op[0] == 'measure':
        measure(w, op[1:], shared)
    elif op[0] == 'tools' and not shared:
        w.settools(*op[1:4])


def execute(ctx):
    w = World(ctx)
    kinds, ops, order, sl = {}, {}, [], []
    last = None
    for l in ctx.lines:
        p = l.split(' ')
        if p[0] == 'actor':
            kinds[int(p[1])] = p[2]
            if None not in order:
                order.append(None)
        elif p[0] == 'slice':
            sl.append((int(p[1]), int(p[2])))
        elif p[0] == 'op':
            if int(p[1]):
                ops.setdefault(int(p[1]), []).append(p[2:])
            else:
                order.append(p[2:])
            if p[2] == 'measure':
                last = p[2:6]
    for op in order:
        if op is not None:
            do(w, op)
            continue
        s = hs.Sched(ctx)
        ids = sorted(k for k in kinds if ops.get(k))
        if not ids:
            ctx.sched = None
            continue
        for i in ids:
            def body(i=i):
                for o in ops[i]:
                    do(w, o, True)
            (s.process if kinds[i] == 'proc' else s.thread)(body)
        ctx.count('actors', len(ids))
        s.run(sl)
        now = w.listing()
        if now != w.calm:
            ctx.violate('litter', 'after concurrent measurements: %s' % [n for n in now if n not in w.calm][:1])
    # once the faults stop, the same measurement works
    w.settools('-', '-', '-')
    if last:
        do(w, last)


if __name__ == '__main__':
    sys.path[:0] = [hs.REPO]
    setup()
    for b in references(os.path.join(hs.BUILD, 'size-refs.json')):
        print('FAILS ' + b)
