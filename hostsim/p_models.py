"""C12, C13, C18: conversions, predictions and saves of many models in one simulated host.

op A convert M kind ver opt inst | predict M meth x form [fault...] | save M s n how [fault..] | del M | refit kind inst ver |
     poke kind inst | gc | chdir k | ambient k | bad M meth how
actor A thread|proc ; slice A STEPS
"""
import copy, gc, hashlib, os, pickle, sys, warnings
import hs
import zoo

PROP = os.environ['SIM_PROPERTY']
ZOO = os.path.join(hs.BUILD, 'zoo')
warnings.simplefilter('ignore')


def setup():
    global emlearn, np, pd, SP, ESTS, REFS, KINDS
    import numpy as np
    import pandas as pd
    import emlearn
    if not os.path.realpath(emlearn.__file__).startswith(os.path.realpath(hs.REPO) + os.sep):
        raise SystemExit('wrong emlearn: ' + emlearn.__file__)
    import sklearn.utils.validation
    SP = zoo.spec()
    KINDS = sorted(SP)
    with open(os.path.join(ZOO, 'ests.pkl'), 'rb') as f:
        ESTS = pickle.load(f)
    with open(os.path.join(ZOO, 'refs.pkl'), 'rb') as f:
        REFS = pickle.load(f)
    for (k, v), e in ESTS.items():
        _ed[k, v] = digest(e)
    for n in ('jinja2', 'scipy.special', 'sklearn.utils', 'joblib'):
        __import__(n)
    warm()


def warm():
    """imports that happen on the first use"""
    from distutils.ccompiler import new_compiler, get_default_compiler
    new_compiler(force=1)
    import json.encoder, shlex, csv
    import jinja2.ext, scipy.special, sklearn.mixture._gaussian_mixture
    from emlearn import net
    net.c_generate_net_inline(['relu', 'softmax'], [np.ones((2, 2)), np.ones((2, 2))], [np.ones(2), np.ones(2)], prefix='warm')


# ------------------------------------------------------------------ digest of an estimator
def dig(o, h, seen, depth=0):
    t = type(o)
    if o is None or t in (bool, int, float, complex, str, bytes):
        h.update(repr(o).encode())
    elif isinstance(o, np.ndarray):
        h.update(('%s%s' % (o.dtype.descr, o.shape)).encode())
        if o.dtype == object:
            for x in o.ravel():
                dig(x, h, seen, depth + 1)
        else:
            h.update(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, np.generic):
        h.update(o.dtype.str.encode() + o.tobytes())
    elif id(o) in seen:
        h.update(b'seen')
    elif t in (list, tuple):
        h.update(b'[%d' % len(o))
        for x in o:
            dig(x, h, seen, depth + 1)
    elif t in (set, frozenset):
        h.update(repr(sorted(map(repr, o))).encode())
    elif isinstance(o, dict):
        seen = seen | {id(o)}
        for k in sorted(o, key=repr):
            h.update(repr(k).encode()); dig(o[k], h, seen, depth + 1)
    elif isinstance(o, np.random.RandomState):
        dig(o.get_state(), h, seen, depth + 1)
    elif callable(o) and hasattr(o, '__name__'):
        h.update(o.__name__.encode())
    else:
        seen = seen | {id(o)}
        h.update(t.__name__.encode())
        st = None
        if hasattr(o, '__getstate__'):
            st = o.__getstate__()
        elif hasattr(o, '__dict__'):
            st = o.__dict__
        if depth < 12 and st is not None:
            dig(st, h, seen, depth + 1)


def digest(o):
    h = hashlib.blake2b(digest_size=8)
    dig(o, h, frozenset())
    return h.hexdigest()


# ------------------------------------------------------------------ inputs
_x = {}


def input_set(kind, x):
    if (kind, x) not in _x:
        _x[kind, x] = zoo.test_X(kind, SP, x)
    return _x[kind, x].copy()


def shaped(kind, x, form):
    X = input_set(kind, x)
    if form == 'list':
        return X.tolist()
    if form == 'f32':
        return X.astype(np.float32)
    if form == 'fortran':
        return np.asfortranarray(X)
    if form == 'frame':
        return pd.DataFrame(X, columns=['c%d' % i for i in range(X.shape[1])], index=range(7, 7 + len(X)))
    if form == 'strided':
        b = np.zeros((len(X) * 2, X.shape[1] * 2))
        b[::2, ::2] = X
        return b[::2, ::2]
    if form == 'int' and (X == np.round(X)).all():
        return X.astype(int)
    return X


def bad_input(kind, how):
    X = input_set(kind, 0)
    if how == 'wide':
        return np.hstack([X, X[:, :1]])
    if how == 'narrow':
        return X[:, :-1]
    if how == 'nan':
        X[2, 1] = np.nan
    elif how == 'inf':
        X[1, 0] = np.inf
    elif how == 'empty':
        return X[:0]
    elif how == 'one':
        return X[0]
    elif how == 'cube':
        return X[None]
    elif how == 'text':
        o = X.astype(object)
        o[1, 1] = 'abc'
        return o
    elif how == 'none':
        return None
    return X


BAD = ['wide', 'narrow', 'nan', 'inf', 'empty', 'one', 'cube', 'text', 'none']
FORMS = ['array', 'list', 'f32', 'fortran', 'frame', 'strided', 'int']


# ------------------------------------------------------------------ plans
def make_plan(seed):
    r = hs.Rng(seed)
    return {'C12': plan12, 'C13': plan13, 'C18': plan18}[PROP](r)


def pick_kinds(r, few):
    ks = r.sample(KINDS, r.choice(few))
    # the same few kinds again and again make models meet that share names
    return ks


def names(r):
    return 'cfg names %d' % r.randrange(1 << 30)


def pick_x(r, kind, big=True):
    xs = zoo.xsets(kind)
    x = r.choice([0, 0, 0, 1, 1, 2, 3] if big else [0, 0, 1, 1, 2])
    return x if x in xs else r.choice(xs)


def plan12(r):
    lines = [names(r)]
    actors = r.choice([0, 1, 1, 2, 2, 2, 3])
    kinds = pick_kinds(r, [1, 1, 2, 2, 3, 4])
    conv = {}                       # slot -> kind
    mode = r.choice(['thread', 'proc', 'mixed'])

    def ops(a, n, slots, refits):
        for _ in range(n):
            k = r.random()
            live = [m for m in slots if m in conv]
            if k < 0.36 or not live:
                m = r.choice(slots)
                kind = r.choice(kinds)
                inst = r.randrange(zoo.VERSIONS) if not refits or r.chance(0.6) else 3
                conv[m] = kind
                lines.append('op %d convert %d %s %d %d' % (a, m, kind, r.randrange(len(SP[kind][2])), inst))
            elif k < 0.78:
                m = r.choice(live)
                kind = conv[m]
                lines.append('op %d predict %d %s %d' % (a, m, r.choice(SP[kind][3]), pick_x(r, kind, False)))
            elif k < 0.84:
                m = r.choice(live)
                lines.append('op %d save %d %d %d %s' % (a, m, r.randrange(4), r.randrange(len(zoo.NAMES)), r.choice(['text', 'file'])))
            elif k < 0.89:
                m = r.choice(live)
                conv.pop(m)
                lines.append('op %d del %d' % (a, m))
            elif k < 0.91:
                lines.append('op %d gc' % a)
            elif k < 0.925:
                lines.append('op %d ambient %d' % (a, r.randrange(AMBIENT)))
            elif k < 0.96 and refits:
                lines.append('op %d refit %s %d' % (a, r.choice(kinds), r.randrange(zoo.VERSIONS)))
            elif k < 0.99 and refits:
                lines.append('op %d poke %s' % (a, r.choice(kinds)))
            elif refits:
                lines.append('op %d chdir %d' % (a, r.randrange(2)))
    ops(0, r.randint(3, 9 if actors else 16), [0, 1, 2, 3], True)
    if actors:
        for a in range(1, actors + 1):
            proc = mode == 'proc' or (mode == 'mixed' and r.chance(0.5))
            lines.append('actor %d %s' % (a, 'proc' if proc else 'thread'))
        before = dict(conv)
        focus = r.choice([None, None, 'predict', 'convert', 'save']) if before else None
        for a in range(1, actors + 1):
            # own slots, and those that exist already
            own = [10 * a, 10 * a + 1]
            conv.clear(); conv.update(before)
            if focus:
                # all do the same thing at the same time
                for _ in range(r.randint(1, 3)):
                    m = r.choice(sorted(before))
                    if focus == 'predict':
                        lines.append('op %d predict %d %s %d' % (a, m, r.choice(SP[conv[m]][3]), pick_x(r, conv[m], False)))
                    elif focus == 'save':
                        lines.append('op %d save %d %d %d %s' % (a, m, r.randrange(4), r.randrange(len(zoo.NAMES)), r.choice(['text', 'file'])))
                    else:
                        m = r.choice(own)
                        conv[m] = r.choice(kinds)
                        lines.append('op %d convert %d %s %d %d' % (a, m, conv[m], r.randrange(len(SP[conv[m]][2])), r.randrange(zoo.VERSIONS)))
                        lines.append('op %d predict %d %s %d' % (a, m, r.choice(SP[conv[m]][3]), pick_x(r, conv[m], False)))
                continue
            ops(a, r.randint(1, 4), own + (sorted(before) if r.chance(0.5) else []), False)
        conv.clear(); conv.update(before)
        lines += slices(r, actors)
        ops(0, r.randint(1, 4), [0, 1, 2, 3], True)
    return lines


def slices(r, actors):
    return hs.slice_plan(r, actors, r.choice([3, 30, 300]), r.choice([0, 5, 20, 60]))


PROG_FAULTS = ['enoent', 'eacces', 'enomem', 'emfile', 'etxtbsy', 'exit', 'kill', 'silent', 'cut', 'cut', 'cut', 'cutkill', 'cutexit', 'late', 'errline']
CC_FAULTS = ['enoent', 'enomem', 'exit', 'kill', 'silent', 'torn', 'tornexit', 'late']


def proc_fault(r, kind, big):
    f = r.choice(PROG_FAULTS if kind == 'prog' else CC_FAULTS)
    arg = {'exit': r.choice([1, 2, 127, 255]), 'cut': 0, 'errline': r.choice([0, 0, 1, 2, 4])}.get(f, 0)
    if f.startswith('cut') or f.startswith('torn'):
        arg = r.choice([0, 1, 2, r.randrange(12), r.randrange(60), r.logint(600), r.logint(40000)])
    return 'pf:%s,%d,%s,%d' % (kind, r.choice([1, 1, 1, 2, 3]) if kind != 'prog' or big else 1, f, arg)


def io_faults(r):
    return 'io:%s,%d,%s,%s' % (r.choice(['openw', 'write', 'close', 'mkdir', 'openw+write', 'unlink', 'list', 'read', 'openr']), r.choice([1, 1, 2, 3, r.randint(1, 12)]),
                               r.choice(['fail', 'fail', 'fail-on', 'short']), r.choice(['ENOSPC', 'EIO', 'EACCES', 'EMFILE', 'EROFS']))


def plan13(r):
    lines = [names(r)]
    kinds = pick_kinds(r, [1, 1, 2])
    conv = {}
    for _ in range(r.randint(4, 12)):
        k = r.random()
        if k < 0.2 or not conv:
            m = r.randrange(2)
            kind = r.choice(kinds)
            conv[m] = kind
            f = ''
            if r.chance(0.25):
                f = ' ' + (proc_fault(r, r.choice(['compile', 'link', 'cc']), False) if r.chance(0.7) else io_faults(r))
            lines.append('op 0 convert %d %s %d %d%s' % (m, kind, r.randrange(len(SP[kind][2])), r.randrange(zoo.VERSIONS), f))
        elif k < 0.86:
            m = r.choice(sorted(conv))
            kind = conv[m]
            meth = r.choice(SP[kind][3])
            fs = []
            builds = kind in zoo.MIXTURES + zoo.TREES
            x = pick_x(r, kind)
            if r.chance(0.7):
                pk = r.choice(['prog', 'prog', 'prog', 'compile', 'link', 'io']) if builds else r.choice(['prog'] * 9 + ['io'])
                if pk == 'io':
                    fs.append(io_faults(r))
                else:
                    f = proc_fault(r, pk, kind in zoo.MIXTURES)
                    if ',errline,' in f and (meth != 'predict' or kind in zoo.UNSUPERVISED):
                        f = 'pf:prog,1,cut,%d' % r.logint(400)
                    fs.append(f)
                if r.chance(0.1):
                    fs.append(proc_fault(r, 'prog', False).replace('errline', 'exit'))
            lines.append('op 0 predict %d %s %d %s%s' % (m, meth, x, r.choice(FORMS) if r.chance(0.4) else 'array', ''.join(' ' + f for f in fs)))
        else:
            m = r.choice(sorted(conv))
            lines.append('op 0 bad %d %s %s' % (m, r.choice(SP[conv[m]][3]), r.choice(BAD)))
        if r.chance(0.04):
            lines.append('op 0 ambient %d' % r.randrange(AMBIENT))
    return lines


def plan18(r):
    lines = [names(r)]
    actors = r.choice([0, 0, 1, 2, 2, 3])
    kinds = pick_kinds(r, [1, 2, 3, 4])
    conv = {}

    def ops(a, n, slots, main):
        for _ in range(n):
            k = r.random()
            live = [m for m in slots if m in conv]
            if k < 0.35 or not live:
                m = r.choice(slots)
                kind = r.choice(kinds)
                conv[m] = kind
                lines.append('op %d convert %d %s %d %d' % (a, m, kind, r.randrange(len(SP[kind][2])), r.randrange(zoo.VERSIONS + (1 if main else 0))))
            elif k < 0.8:
                m = r.choice(live)
                lines.append('op %d save %d %d %d %s' % (a, m, r.randrange(4), r.randrange(len(zoo.NAMES)), r.choice(['text', 'file', 'twice'])))
            elif k < 0.88:
                m = r.choice(live)
                lines.append('op %d predict %d %s %d' % (a, m, r.choice(SP[conv[m]][3]), r.choice([0, 1])))
            elif k < 0.91:
                m = r.choice(live)
                conv.pop(m)
                lines.append('op %d del %d' % (a, m))
            elif main and k < 0.94:
                lines.append('op %d chdir %d' % (a, r.randrange(2)))
            elif main and k < 0.97:
                lines.append('op %d refit %s %d' % (a, r.choice(kinds), r.randrange(zoo.VERSIONS)))
            elif k < 0.985:
                lines.append('op %d ambient %d' % (a, r.randrange(AMBIENT)))
            else:
                lines.append('op %d gc' % a)
    for _ in range(r.choice([0, 0, 1, 2])):
        lines.append('op 0 ambient %d' % r.randrange(AMBIENT))
    ops(0, r.randint(4, 14), [0, 1, 2, 3], True)
    if actors:
        mode = r.choice(['thread', 'proc', 'mixed'])
        for a in range(1, actors + 1):
            lines.append('actor %d %s' % (a, 'proc' if mode == 'proc' or (mode == 'mixed' and r.chance(0.5)) else 'thread'))
        before = dict(conv)
        for a in range(1, actors + 1):
            conv.clear(); conv.update(before)
            ops(a, r.randint(1, 4), [10 * a, 10 * a + 1] + (sorted(before) if r.chance(0.6) else []), False)
        conv.clear(); conv.update(before)
        lines += slices(r, actors)
        ops(0, r.randint(1, 4), [0, 1, 2, 3], True)
    return lines


# ------------------------------------------------------------------ execution
class World:
    def __init__(self, ctx):
        self.ctx, self.slots = ctx, {}
        self.est = {}               # (kind, inst) -> [estimator, version or None]

    def inst(self, kind, i):
        if (kind, i) not in self.est:
            v = i if i < zoo.VERSIONS else 0
            # inst 0..2: the fitted estimators themselves, shared by all; 3: one that is fitted again
            e = ESTS[kind, v] if i < zoo.VERSIONS else copy.deepcopy(ESTS[kind, v])
            self.est[kind, i] = [e, v]
        return self.est[kind, i]


class Obj:
    def __init__(self, kind, ver, opt, model):
        self.kind, self.ver, self.opt, self.model = kind, ver, opt, model
        self.ref = REFS[kind, ver, opt]
        self.tainted = False        # its compiler said it worked, and did not


def same(a, b):
    return a == b or (len(a) == len(b) and all(x == y or (x != x and y != y) for x, y in zip(flat(a), flat(b))))


def flat(v):
    for x in v:
        if isinstance(x, list):
            yield from flat(x)
        else:
            yield x


def short(v):
    s = repr(v)
    return s if len(s) < 80 else s[:77] + '...'


def attempt(fn):
    """(value, None) or (None, exception); what the harness itself raises goes on"""
    try:
        return fn(), None
    except (hs.Violation, hs.HarnessError):
        raise
    except (Exception, KeyboardInterrupt) as e:
        return None, e


def do(w, actor, op):
    ctx = w.ctx
    name, a = op[0], op[1:]
    if name == 'convert':
        m, kind, opt, i = int(a[0]), a[1], int(a[2]), int(a[3])
        if kind not in SP or not 0 <= opt < len(SP[kind][2]) or not 0 <= i <= zoo.VERSIONS:
            return
        if actor and i == zoo.VERSIONS:
            return
        est, ver = w.inst(kind, i)
        if ver is None:
            return
        d0 = digest(est)
        specs = a[4:]
        with hs.faults(ctx, specs) as f:
            v, e = attempt(lambda: emlearn.convert(est, **SP[kind][2][opt]))
        if digest(est) != d0:
            ctx.violate('estimator-changed', 'convert(%s) changed the estimator' % kind)
        ctx.count('conversions')
        ctx.note('convert %s %d %s' % (kind, ver, 'ok' if e is None else type(e).__name__))
        if e is not None:
            w.slots.pop(m, None)
            if not f.fired:
                ctx.violate('convert-failed', 'convert(%s, %s) failed without a fault: %s: %s' % (kind, SP[kind][2][opt], type(e).__name__, short(str(e))))
            ctx.count('conversions_failed')
            ctx.reach('convert %s fails %s' % (kind, f.fired[0].split(',')[0]))
            return
        w.slots[m] = Obj(kind, ver, opt, v)
        w.slots[m].tainted = any(',silent,' in s for s in f.fired)
        ctx.reach('convert %s %d %s' % (kind, opt, ' '.join(f.fired)[:16]))
        return
    if name == 'predict':
        m, meth, x = int(a[0]), a[1], int(a[2])
        form = a[3] if len(a) > 3 else 'array'
        o = w.slots.get(m)
        if o is None or meth not in SP[o.kind][3] or x not in zoo.xsets(o.kind):
            return
        ref = o.ref['%s/%d' % (meth, x)] if PROP != 'C18' else None
        X = shaped(o.kind, x, form)
        # how the C code reports an error for a row
        hs.ERRVALUE[0] = 'nan' if o.kind in zoo.REGRESSORS + ('ee', 'eb') else '-%d' % (1 + 2 * x)
        with hs.faults(ctx, a[4:]) as f:
            v, e = attempt(lambda: zoo.plain(getattr(o.model, meth)(X)))
        ctx.count('predictions')
        ctx.note('predict %s %s %d %s' % (o.kind, meth, x, 'ok' if e is None else type(e).__name__))
        ctx.reach('predict %s %s %d %s %s %s' % (o.kind, meth, x, form, [s.rsplit(',', 1)[0] for s in f.fired], e is None))
        if PROP == 'C18':
            return
        where = '%s of %s, set %d as %s%s' % (meth, o.kind, x, form, ', with ' + ' '.join(f.fired) if f.fired else '')
        if e is not None:
            ctx.count('predictions_raised')
            if not f.fired and ref != 'raises' and form == 'array' and not o.tainted:
                ctx.violate('predict-failed', '%s raised without a fault: %s: %s' % (where, type(e).__name__, short(str(e))))
        elif ref == 'raises':
            ctx.violate('not-supported', '%s is not supported, but returned %s' % (where, short(v)))
        elif not same(v, ref):
            bad = next((k for k, (p, q) in enumerate(zip(v, ref)) if not same([p], [q])), min(len(v), len(ref)))
            ctx.violate('wrong-result', '%s returned %d results for %d rows; row %d: %s, expected %s' % (where, len(v), len(ref), bad, short(v[bad]) if bad < len(v) else 'nothing', short(ref[bad]) if bad < len(ref) else 'nothing'))
        o.tainted = o.tainted or any(',silent,' in s for s in f.fired if not s.startswith('pf:prog'))
        if f.fired and not o.tainted:    # once the faults stop
            v, e = attempt(lambda: zoo.plain(getattr(o.model, meth)(X)))
            if ref == 'raises':
                return
            if e is not None or not same(v, ref):
                ctx.violate('no-recovery', '%s: a later call without faults gave %s' % (where, short(v) if e is None else '%s: %s' % (type(e).__name__, short(str(e)))))
        return
    if name == 'bad':
        m, meth, how = int(a[0]), a[1], a[2]
        o = w.slots.get(m)
        if o is None or meth not in SP[o.kind][3] or how not in BAD:
            return
        X = bad_input(o.kind, how)
        v, e = attempt(lambda: zoo.plain(getattr(o.model, meth)(X)))
        ctx.count('fault_input_' + how)
        ctx.note('bad %s %s %s' % (o.kind, how, 'returned' if e is None else type(e).__name__))
        ctx.reach('bad %s %s %s' % (o.kind, meth, how))
        if e is None and not (how == 'empty' and v == []):
            ctx.violate('bad-input-accepted', '%s of %s returned %s for input of kind "%s"' % (meth, o.kind, short(v), how))
        return
    if name == 'save':
        m, s, n, how = int(a[0]), int(a[1]), int(a[2]), a[3]
        o = w.slots.get(m)
        if o is None or not 0 <= n < len(zoo.NAMES):
            return
        so = zoo.save_options(o.kind, o.opt)
        s %= len(so)
        ref = o.ref['code']['%d/%s' % (s, zoo.NAMES[n])]
        before = model_digest(o.model) if PROP == 'C18' else None
        ctx.count('saves')
        for rep in range(2 if how == 'twice' else 1):
            kw = dict(so[s])
            path = None
            if how == 'file':
                path = os.path.join(ctx.scratch, 'out', 'f%d-%d.h' % (actor, m))
                kw['file'] = path
            v, e = attempt(lambda: o.model.save(name=zoo.NAMES[n], **kw))
            ctx.note('save %s %s' % (o.kind, 'ok' if e is None else type(e).__name__))
            if e is not None:
                ctx.violate('save-failed', 'save of %s raised without a fault: %s: %s' % (o.kind, type(e).__name__, short(str(e))))
            if v != ref:
                ctx.violate('code-differs', 'save(%s, %s) of %s version %d gave other code than in another process: %s' % (zoo.NAMES[n], kw.get('format', ''), o.kind, o.ver, first_diff(v, ref)))
            if path:
                with open(path, newline='') as f:
                    t = f.read()
                if t != ref:
                    ctx.violate('code-differs', 'the file saved for %s differs from the code: %s' % (o.kind, first_diff(t, ref)))
                os.unlink(path)
        if before is not None and model_digest(o.model) != before:
            ctx.violate('model-changed', 'save() changed the model (%s)' % o.kind)
        ctx.reach('save %s %d %s' % (o.kind, s, how))
        return
    if name == 'del':
        w.slots.pop(int(a[0]), None)
        ctx.count('deletions')
    elif name == 'gc':
        gc.collect()
    elif name == 'refit' and not actor:
        kind, v = a[0], int(a[1])
        if kind not in SP or not 0 <= v < zoo.VERSIONS:
            return
        e = w.inst(kind, zoo.VERSIONS)
        zoo.fit(kind, SP, v, e[0])
        # only estimators whose fit starts anew give a version again
        e[1] = v if digest_fit(e[0], kind, v) else None
        ctx.count('fault_refit')
    elif name == 'poke' and not actor:
        kind = a[0]
        if kind not in SP or kind in zoo.UNSUPERVISED:     # these have no call that changes them in place
            return
        e = w.inst(kind, zoo.VERSIONS)
        poke(kind, e[0])
        e[1] = None
        ctx.count('fault_estimator_overwritten')
    elif name == 'chdir':
        d = os.path.join(ctx.scratch, 'cwd', 'd%s' % a[0])
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        ctx.count('fault_chdir')
    elif name == 'ambient':
        ambient(int(a[0]))
        ctx.count('fault_ambient_state')
        ctx.reach('ambient %s' % a[0])


AMBIENT = 10


def ambient(k):
    """settings of the process (or thread) that any other code in it may have changed"""
    import locale, random, decimal
    if k == 0:
        np.set_printoptions(edgeitems=3, threshold=1000, floatmode='maxprec', precision=8, suppress=False, linewidth=75, legacy=False)
        np.seterr(all='raise')          # as import emlearn leaves it
    elif k == 1:
        np.set_printoptions(precision=2, suppress=True, threshold=3, linewidth=20, edgeitems=1, floatmode='fixed')
    elif k == 2:
        np.set_printoptions(legacy='1.13')
    elif k == 3:
        np.random.seed(7)
        random.seed(7)
    elif k == 4:
        np.seterr(all='ignore')
    elif k == 5:
        pd.set_option('display.precision', 1, 'display.max_rows', 2, 'display.float_format', '{:.1f}'.format, 'mode.copy_on_write', True)
    elif k == 6:
        decimal.getcontext().prec = 2
    elif k == 7:
        gc.disable()
    elif k == 8:
        os.environ.update(LC_ALL='C', LANG='de_DE.UTF-8', CFLAGS='-O0', COLUMNS='20', PYTHONWARNINGS='error')
    else:
        for l in ('de_DE.UTF-8', 'C.UTF-8', 'C'):
            try:
                locale.setlocale(locale.LC_ALL, l)
                break
            except locale.Error:
                pass


def digest_fit(e, kind, v):
    """the refitted estimator is what a first fit gives"""
    return digest(strip(e)) == digest(strip(ESTS[kind, v]))


def strip(e):
    d = dict(e.__dict__)
    d.pop('_random_state', None)
    return d


def model_digest(m):
    d = dict(m.__dict__)
    for k in ('classifier', 'classifier_', '_classifier'):
        d.pop(k, None)
    return digest(d)


def poke(kind, e):
    """changes all the arrays an estimator holds, in place (as partial_fit, warm starts and changes to the training data do)"""
    seen = set()

    def walk(o, depth):
        if id(o) in seen or depth > 6:
            return
        seen.add(id(o))
        if isinstance(o, np.ndarray):
            if o.dtype == object:
                for x in o.ravel():
                    walk(x, depth + 1)
            elif o.flags.writeable and o.size and o.dtype.kind in 'fiu':
                try:
                    o[...] = o[::-1].copy() + (1 if o.dtype.kind == 'f' else 0)
                except (ValueError, TypeError):
                    pass
        elif isinstance(o, (list, tuple)):
            for x in o:
                walk(x, depth + 1)
        elif isinstance(o, dict):
            for x in o.values():
                walk(x, depth + 1)
        elif type(o).__name__ == 'Tree':
            for n in ('value', 'threshold', 'feature', 'impurity'):
                walk(getattr(o, n), depth + 1)
        elif hasattr(o, '__dict__') and type(o).__module__.startswith(('sklearn', 'zoo')):
            walk(o.__dict__, depth + 1)
    walk(e.__dict__, 0)


def first_diff(a, b):
    la, lb = str(a).split('\n'), str(b).split('\n')
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return 'line %d: %s, expected %s' % (i + 1, short(x), short(y))
    return '%d lines, expected %d' % (len(la), len(lb))


def execute(ctx):
    w = World(ctx)
    kinds, ops, sl = {}, {}, []
    order = []
    for l in ctx.lines:
        p = l.split(' ')
        if p[0] == 'actor':
            kinds[int(p[1])] = p[2]
            order.append(None)
        elif p[0] == 'slice':
            sl.append((int(p[1]), int(p[2])))
        elif p[0] == 'op':
            a = int(p[1])
            if a:
                ops.setdefault(a, []).append(p[2:])
            else:
                order.append(p[2:])
    started = [False]

    def actors():
        started[0] = True
        s = hs.Sched(ctx)
        ids = sorted(k for k in kinds if ops.get(k))
        for i in ids:
            def body(i=i):
                lw = World(ctx)
                lw.slots, lw.est = dict(w.slots), w.est
                for op in ops[i]:
                    do(lw, i, op)
                lw.slots.clear()
                if kinds[i] == 'proc':
                    # what runs when a process ends
                    import weakref
                    weakref.finalize._exitfunc()
            (s.process if kinds[i] == 'proc' else s.thread)(body)
        ctx.count('actors', len(ids))
        s.run(sl)
    if any(ops.get(k) for k in kinds):
        for k in sorted(kinds):
            for op in ops.get(k, []):
                if op[0] == 'convert' and op[2] in SP and int(op[4]) < zoo.VERSIONS:
                    w.inst(op[2], int(op[4]))
    for op in order:
        if op is None:
            if not started[0]:
                actors()
        else:
            do(w, 0, op)
    # every model that is left still predicts what its estimator did
    if PROP != 'C18':
        for m in sorted(w.slots):
            o = w.slots[m]
            do(w, 0, ['predict', str(m), SP[o.kind][3][0], '0'])
            if PROP == 'C12':
                do(w, 0, ['save', str(m), '0', '0', 'text'])
    for (kind, i), (e, v) in sorted(w.est.items()):
        if i < zoo.VERSIONS and digest(e) != EDIG(kind, i):
            ctx.violate('estimator-changed', 'the estimator of %s was changed' % kind)


_ed = {}


def EDIG(kind, i):
    return _ed[kind, i]
