"""C30: the Python extension modules (eml_audio, eml_signal) in a process whose heap fails, holds arbitrary
old contents and ends each block at an inaccessible page.

call FN LEN FORM SEED P1 .. P5 [fault NTH]: FN one of rfft, melfilter, melspectrogram, sparse, iir
FORM: how the data is given (0 float32, 1 float64, 2 list, 3 strided, 4 two-dimensional, 5 text, 6 int, 7 none)
"""
import ctypes, json, mmap, os, resource, signal, sys
import hs

np = audio = sig = mf = None
FNS = ('rfft', 'melfilter', 'melspectrogram', 'sparse', 'iir')


def setup():
    global np, audio, sig, mf
    import numpy
    np = numpy
    sys.path.insert(0, os.path.join(os.environ['SIM_BUILD'], 'ext'))
    import eml_audio, eml_signal
    audio, sig = eml_audio, eml_signal
    mf = ctypes.CDLL(None)
    mf.mf_arm.argtypes = [ctypes.c_long, ctypes.c_long, ctypes.c_int, ctypes.c_uint64]
    mf.mf_disarm.restype = ctypes.c_long
    # array memory from the simulated heap (PyDataMem_SetHandler of numpy's C API)
    py = ctypes.pythonapi
    py.PyCapsule_GetPointer.restype, py.PyCapsule_GetPointer.argtypes = ctypes.c_void_p, [ctypes.py_object, ctypes.c_char_p]
    py.PyCapsule_New.restype, py.PyCapsule_New.argtypes = ctypes.py_object, [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
    table = ctypes.cast(py.PyCapsule_GetPointer(np._core.multiarray._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))
    set_handler = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(table[304])
    set_handler(py.PyCapsule_New(ctypes.addressof(ctypes.c_char.in_dll(mf, 'mf_np_handler')), b'mem_handler', None))
    if np._core.multiarray.get_handler_name() != 'memfault':
        raise hs.HarnessError('numpy keeps its own heap')
    # what the first call and the first exception of a process set up is not the subject
    audio.rfft(np.zeros(8)); sig.iirfilter([[1, 0, 0, 1, 0, 0]], np.zeros(4))
    for f, a in ((audio.rfft, (np.zeros((2, 2)),)), (audio.rfft, ('x',)), (sig.iirfilter, (np.zeros(3), np.zeros(3)))):
        try:
            f(*a)
        except Exception:
            pass


def make_plan(seed):
    r = hs.Rng(seed)
    lines = []
    faulty = r.choice([0, 0, 0.3, 0.7])
    bad = r.choice([0.05, 0.3])
    for _ in range(r.randint(1, 12)):
        fn = r.choice(FNS)
        form = r.choice([0, 0, 0, 1, 2, 3, 6]) if not r.chance(bad * 0.4) else r.choice([4, 5, 7])
        n = 1 << (r.choice([15, 16, 17]) if r.chance(0.01) else r.randint(1, r.choice([6, 6, 9, 12])))
        p = [0] * 5
        b = r.chance(bad)
        if fn == 'rfft':
            if b:
                n = r.choice([0, 3, 5, 6, 7, 12, 100, n + 1, n - 1])
        elif fn in ('melfilter', 'melspectrogram'):
            nfft = n if fn == 'melspectrogram' else r.choice([n, 2 * r.randint(4, 300)])
            nfft = max(nfft, 8)
            n = nfft if fn == 'melspectrogram' else 1 + nfft // 2
            sr = r.choice([8000, 16000, 22050, 44100, 11025, 101])
            p = [sr, nfft, r.randint(1, min(40, nfft)), r.choice([0, 0, sr // 100, sr // 8]), r.choice([sr // 2, sr // 2, sr // 3, sr // 4])]
            if b:
                k = r.randrange(8)
                if k == 0: p[4] = sr // 2 + r.choice([1, sr // nfft, sr // nfft + sr // 50, sr // 4, sr * 10])
                elif k == 1: p[3] = -r.choice([1, sr // nfft, sr, 20 * sr])
                elif k == 2: p[2] = r.choice([0, -1, -1000, 3 * nfft])
                elif k == 3: n += r.choice([-1, 1, -n, n])
                elif k == 4: p[1] = r.choice([0, -1, -nfft, nfft + 2, nfft * 2, nfft // 2])
                elif k == 5: p[0] = r.choice([0, -sr, 1])
                elif k == 6: p[3], p[4] = p[4], p[3]
                else: p[1] = nfft + 1
        elif fn == 'sparse':
            n = r.choice([n, r.randint(1, 200)]) if n < 10000 else n
            p = [r.randint(1, 20), r.randint(1, 8), 0, 0, 0]         # filters, widest, kind of damage, value
            if b:
                p[2], p[3] = r.randint(1, 8), r.choice([1, 2, 100, 5000, 100000, 100000000])
        else:
            n = r.choice([n, r.randint(0, 300)]) if n < 10000 else n
            p = [r.randint(1, 6), 6, r.randint(0, 5), 0, 0]
            if b:
                k = r.randrange(4)
                if k == 0: p[1] = r.choice([0, 1, 3, 4, 5, 7, 12])
                elif k == 1: p[0] = 0
                elif k == 2: p[3] = r.choice([1, 2, 3])      # dimensions of sos
        l = 'call %s %d %d %d %s' % (fn, max(n, 0), form, r.randrange(100000), ' '.join(map(str, p)))
        if r.chance(faulty):
            l += ' fault %d' % r.choice([1, 2, 3, r.randint(1, 12), r.randint(1, 25)])
        lines.append(l)
    return ['cfg guard %d' % r.choice([1, 1, 0]), 'cfg old %d' % r.randrange(1000)] + lines


class Guarded:
    """float32 or int32 values that end at an inaccessible page"""
    def __init__(self, values, dtype):
        v = np.ascontiguousarray(values, dtype)
        pages = (v.nbytes + 4095) // 4096 + 1
        libc = ctypes.CDLL(None)
        libc.mmap.restype = ctypes.c_void_p
        libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
        libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
        a = libc.mmap(None, pages * 4096, 3, 0x22, -1, 0)
        libc.mprotect(a + (pages - 1) * 4096, 4096, 0)
        start = a + (pages - 1) * 4096 - v.nbytes
        ctypes.memset(a, 0xA7, (pages - 1) * 4096)
        self.buf = ((ctypes.c_float if dtype == 'float32' else ctypes.c_int32) * v.size).from_address(start)
        self.array = np.frombuffer(self.buf, dtype).reshape(v.shape) if v.size else np.zeros(v.shape, dtype)
        if v.size:
            self.array[...] = v


def parse(l):
    w = l.split()
    fault = None
    if 'fault' in w:
        k = w.index('fault')
        fault = (max(1, int(w[k + 1])), 1) if len(w) > k + 1 else None
        w = w[:k]
    fn = w[1] if len(w) > 1 and w[1] in FNS else 'rfft'
    nums = [int(x) for x in w[2:]] + [0] * 8
    if abs(nums[1]) % 8 in (5, 7):
        fault = None            # pybind11 ends the process when it cannot allocate its report of unconvertible arguments
    return fn, min(max(0, nums[0]), 300000), abs(nums[1]) % 8, nums[2], nums[3:8], fault


def mel_definition(x, fn, sr, nfft, mels, fmin, fmax):
    """-> values by definition and their tolerance; None where a band edge is too near to a bin to say on which side it is"""
    tol = 0.0
    if fn == 'melspectrogram':
        w = x * (0.5 - 0.5 * np.cos(2 * np.pi * np.arange(nfft) / (nfft - 1)))
        err = 2e-5 * np.abs(w).sum() + 1e-6
        re = np.fft.fft(w).real[:1 + nfft // 2]
        x, tol = re ** 2 / nfft, (2 * np.abs(re) * err + err ** 2) / nfft
    mel = lambda hz: 2595 * np.log10(1 + hz / 700)
    lo, hi = mel(fmin), mel(fmax)
    c = 700 * (10 ** ((lo + (hi - lo) / (mels + 1) * np.arange(mels + 2)) / 2595) - 1)
    at = c * (nfft + 1) / sr
    if np.any(np.abs(at[1:-1] - np.round(at[1:-1])) < 2e-3) or np.any(np.diff(c) < sr / nfft * 1e-3):
        return None, None
    f, b = np.arange(1 + nfft // 2) * (sr / 2.0) / (nfft // 2), np.floor(at + 1e-3).astype(int)
    out, tols = [], []
    for m in range(1, mels + 1):
        v = t = 0.0
        up = np.clip((f - c[m - 1]) / (c[m] - c[m - 1]), 0, 1); down = np.clip((c[m + 1] - f) / (c[m + 1] - c[m]), 0, 1)
        a, z = slice(b[m - 1], b[m] + 1), slice(b[m] + 1, b[m + 1] + 1)
        wt = 2e-3 * sr / nfft / (min(c[m] - c[m - 1], c[m + 1] - c[m])) + 1e-3 * (1 + (c[m] / (c[m + 1] - c[m])) * 1e-2)
        v = (x[a] * up[a]).sum() + (x[z] * down[z]).sum()
        both = slice(b[m - 1], b[m + 1] + 1)
        t = wt * np.abs(x[both]).sum() + (tol[both].sum() if fn == 'melspectrogram' else 0) + 1e-6
        out.append(v); tols.append(t)
    return np.array(out), np.array(tols)


def make_args(l):
    """-> (function, arguments, 'raise' | 'value' | 'any', expected length, definition or None, tolerance)"""
    fn, n, form, seed, p, fault = parse(l)
    r = np.random.RandomState(seed % (1 << 31))
    x = (r.uniform(-1, 1, n) * 10 ** r.randint(-2, 3)).astype('float32')
    if form == 6:
        x = np.round(x * 10).astype('float32')
    want, length, define, tol = 'value', n, None, 0
    keep = []

    def give(v, f):
        if f == 1: return v.astype('float64')
        if f == 2: return [float(a) for a in v]
        if f == 3:
            q = np.full(2 * len(v), 7, 'float32'); q[::2] = v
            return q[::2]
        if f == 4: return v.reshape((1, -1))
        if f == 5: return 'abc'
        if f == 6: return v.astype('int64')
        if f == 7: return None
        g = Guarded(v, 'float32'); keep.append(g)
        return g.array
    if fn == 'rfft':
        ok = n >= 2 and n & (n - 1) == 0
        want = 'value' if ok else 'any' if n == 1 else 'raise'
        define = lambda: np.fft.fft(x.astype('float64')).real
        tol = 1e-5 * float(np.abs(x).sum()) + 1e-6
        call, args = audio.rfft, [give(x, form)]
    elif fn in ('melfilter', 'melspectrogram'):
        sr, nfft, mels, fmin, fmax = p
        mels = max(-2000, min(20000, mels)); nfft = max(-20000, min(20000, nfft))
        need = nfft if fn == 'melspectrogram' else 1 + int(nfft / 2)
        pow2 = fn == 'melfilter' or (nfft >= 4 and nfft & (nfft - 1) == 0)
        x = np.abs(x) if fn == 'melfilter' else x
        good = n == need and nfft >= 8 and nfft % 2 == 0 and pow2 and 1 <= mels <= (nfft if fn == 'melspectrogram' else 20000) and sr > 0 and 0 <= fmin < fmax <= sr / 2
        wrong = n != need or not pow2 or mels < 0 or n == 0 or (fn == 'melspectrogram' and mels > n) or (sr > 0 and mels > 0 and nfft >= 8 and fmax > fmin and (fmax > 1.003 * sr * (1 + nfft // 2) / (nfft + 1) or -690 < fmin < 0))
        want = 'value' if good else 'raise' if wrong else 'any'
        length = mels
        if good:
            define = lambda: mel_definition(x.astype('float64'), fn, sr, nfft, mels, float(fmin), float(fmax))
            tol = None
        call, args = getattr(audio, fn), [give(x, form), sr, nfft, mels, float(fmin), float(fmax)]
    elif fn == 'sparse':
        k, wide, damage, val = max(0, min(p[0], 1000)), max(1, min(p[1], 100)), p[2], p[3]
        n = max(n, 1); x = (x if len(x) else np.ones(1, 'float32'))
        st = r.randint(0, n, k); en = np.minimum(n - 1, st + r.randint(0, wide, k))
        co = r.uniform(0, 1, int((en - st + 1).sum())).astype('float32')
        j = r.randint(0, k) if k else 0
        if k and val and damage:
            if damage == 1: st[j] = -val
            elif damage == 2: en[j] = n - 1 + val
            elif damage == 3: co = co[:max(0, len(co) - val)]
            elif damage == 4: st = st[:-1]
            elif damage == 5: en = en[:-1]
            elif damage == 6: st[j] = n - 1 + val; en[j] = st[j]
            elif damage == 7: en[j] = st[j] - 1
            elif damage == 8: co = co.reshape((1, -1))
            want = 'any' if damage == 7 else 'raise'
        length = k
        S, E, C = [Guarded(v, t).array if form == 0 else v for v, t in ((st, 'int32'), (en, 'int32'), (co, 'float32'))]

        def define():
            o, q = [], 0
            for a, b in zip(st, en):
                o.append(sum(float(x[i]) * float(co[q + i - a]) for i in range(a, b + 1))); q += b - a + 1
            return np.array(o)
        tol = 1e-4 * (float(np.abs(x).max()) + 1) * wide
        call, args = audio.sparse_filterbank, [give(x, form), S, E, C]
    else:
        k, cols, rad, dims = max(0, min(p[0], 60)), max(0, min(p[1], 50)), p[2], p[3]
        sos = np.zeros((k, cols), 'float64')
        for s in range(k):
            a, w = 0.1 + 0.14 * (abs(rad) % 6), r.uniform(0, 3.1)
            row = [r.uniform(0.1, 1), r.uniform(-1, 1), r.uniform(-1, 1), 1.0, -2 * a * np.cos(w), a * a]
            sos[s, :min(cols, 6)] = row[:min(cols, 6)]
        if dims == 1: sos = sos.reshape(-1)
        elif dims == 2: sos = sos.reshape((1,) + sos.shape)
        elif dims == 3: sos = sos[:, ::-1][:, ::-1]
        want = 'raise' if k == 0 or cols != 6 or dims in (1, 2) else 'value'
        c32 = sos.astype('float32').astype('float64')

        def define():
            z, o = np.zeros((k, 2)), []
            for v in x.astype('float64'):
                for s in range(k):
                    b0, b1, b2, _, a1, a2 = c32[s]
                    y = b0 * v + z[s, 0]; z[s, 0] = b1 * v - a1 * y + z[s, 1]; z[s, 1] = b2 * v - a2 * y; v = y
                o.append(v)
            return np.array(o)
        tol = 1e-3 * (float(np.abs(x).max() if n else 0) + 1) * 30 ** k / 10
        call, args = sig.iirfilter, [Guarded(sos, 'float32').array if form == 0 and dims == 0 else sos, give(x, form)]
    if form in (4, 5, 7):
        want = 'raise'
        if form == 4 and False:
            want = 'any'
    return call, args, want, length, define if want == 'value' and form not in (4, 5, 7) else None, tol, keep


def freeze(args):
    return [(a.tobytes(), a.shape, a.dtype.str) if isinstance(a, np.ndarray) else repr(a) for a in args]


def attempt(l, guard, old, fault=None):
    """one call -> (outcome, array or None, why)"""
    call, args, want, length, define, tol, keep = make_args(l)
    before = freeze(args)
    why = ''
    mf.mf_arm(fault[0] if fault else 0, fault[1] if fault else 0, guard, old)
    try:
        out = call(*args)
    except Exception as e:
        mf_state = mf.mf_disarm()
        out, why = None, type(e).__name__ + ': ' + str(e).split('\n')[0]
    else:
        mf_state = mf.mf_disarm()
    return out, why, freeze(args) == before, want, length, define, tol, mf_state % 100000, args


def history(lines, cfg, emit):
    guard, old = cfg
    refs = [l for l in lines]
    kept = []
    for i, l in enumerate(lines):
        fn, n, form, seed, p, fault = parse(l)
        emit({'at': '%s of call %d' % (fn, i)})
        for f in ([fault, None] if fault else [None]):
            out, why, same, want, length, define, tol, failed, args = attempt(l, guard, old * 31 + i, f)
            if failed:
                emit({'count': 'fault_allocation'})
            e = {'i': i, 'fn': fn, 'why': why, 'faulted': bool(f and failed), 'want': want}
            if not same:
                e['bad'] = ('argument-changed', '%s changes its arguments' % fn)
            elif out is None:
                e['out'] = None
            elif not isinstance(out, np.ndarray) or out.dtype != np.float32 or out.shape != (length,):
                e['bad'] = ('wrong-shape', '%s gives %s %s instead of %d values' % (fn, getattr(out, 'dtype', type(out)), getattr(out, 'shape', ''), length))
            elif any(isinstance(a, np.ndarray) and np.shares_memory(a, out) for a in args):
                e['bad'] = ('shared-memory', 'the result of %s is memory of an argument' % fn)
            else:
                e['out'] = out.tobytes().hex()
                if define and len(out):
                    d = define()
                    d, tol = d if tol is None else (d, tol)
                    k = int(np.argmax(np.abs(out - d) - tol)) if d is not None else 0
                    if d is not None and not (abs(float(out[k]) - d[k]) <= (tol[k] if np.ndim(tol) else tol)):
                        e['bad'] = ('wrong-value', '%s: value %d is %.9g, by definition %.9g' % (fn, k, out[k], d[k]))
                kept.append((fn, i, out, out.tobytes()))
            emit(e)
    for fn, i, out, b in kept:
        if out.tobytes() != b:
            emit({'i': i, 'fn': fn, 'why': '', 'faulted': False, 'want': 'any', 'out': None, 'bad': ('result-changed', 'the result of %s (call %d) was changed by later calls' % (fn, i))})
            return


def child(ctx, fn, what):
    """runs fn(emit) in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (20, 22))
            resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
            signal.signal(signal.SIGXCPU, signal.SIG_DFL)
            with os.fdopen(w, 'w') as f:
                def emit(d):
                    f.write(json.dumps(d) + '\n'); f.flush()
                fn(emit)
                emit({'end': 1})
        except BaseException as e:
            import traceback
            os.write(2, traceback.format_exc().encode())
            os._exit(77)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        got = [json.loads(x) for x in f.read().split('\n') if x.endswith('}')]
    _, st = os.waitpid(pid, 0)
    at = [g['at'] for g in got if 'at' in g]
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        ctx.violate('hang' if s == signal.SIGXCPU else 'crash', '%s: the process is ended by signal %d in %s' % (what, s, at[-1] if at else '?'))
    if st or not got or 'end' not in got[-1]:
        raise hs.HarnessError('%s ends with %d at %s' % (what, st, at[-1:]))
    return got[:-1]


def execute(ctx):
    lines = [l for l in ctx.lines if l.startswith('call ')]
    guard, old = int(ctx.cfg.get('guard', 1)) & 1, abs(int(ctx.cfg.get('old', 0)))
    if not lines:
        return
    # each call as the only one of a process, over other old memory
    ref = {}
    for l in dict.fromkeys(lines):
        def only(emit):
            out, why, same, want, length, define, tol, failed, args = attempt(l, 0, 2)
            emit({'out': None if out is None else np.asarray(out).tobytes().hex(), 'why': why})
        ref[l] = child(ctx, only, 'one call')[0]
    for e in child(ctx, lambda emit: history(lines, (guard, old), emit), 'history'):
        if 'count' in e:
            ctx.count(e['count']); continue
        if 'at' in e:
            continue
        ctx.count('calls'); ctx.note('%d %s %s %s' % (e['i'], e['fn'], 'raises' if e.get('out') is None else 'value', e['why'] if not e['faulted'] else ''))
        if 'bad' in e:
            ctx.violate(*e['bad'])
        l = lines[e['i']]
        fn, n, form, seed, p, fault = parse(l)
        ctx.reach('%s form%d %s %s %s' % (fn, form, e['want'], e['out'] is None, e['faulted']))
        if e['want'] == 'raise':
            ctx.count('fault_invalid_arguments')
        if e['out'] is None:
            ctx.count('calls_raised')
            if e['faulted']:
                continue
            if 'unknown' in e['why'].lower() and 'exception' in e['why'].lower():
                ctx.violate('unknown-exception', '%s reports no reason: %s' % (fn, e['why']))
            if e['want'] == 'value':
                ctx.violate('valid-refused', '%s of call %d raises %s' % (fn, e['i'], e['why']))
            if ref[l]['out'] is not None:
                ctx.violate('history-dependent', '%s of call %d raises %s; alone it gives a result' % (fn, e['i'], e['why']))
        else:
            if e['want'] == 'raise':
                ctx.violate('invalid-accepted', '%s of call %d gives a result for unusable arguments: %s' % (fn, e['i'], l))
            if e['out'] != ref[l]['out'] and not same_numbers(e['out'], ref[l]['out']):
                ctx.violate('history-dependent', '%s of call %d gives another result than as the only call of a process' % (fn, e['i']))
            ctx.note(e['out'][:64])


def same_numbers(a, b):
    if a is None or b is None or len(a) != len(b):
        return False
    x, y = np.frombuffer(bytes.fromhex(a), 'float32'), np.frombuffer(bytes.fromhex(b), 'float32')
    return bool(np.all((x == y) | (np.isnan(x) & np.isnan(y))))
