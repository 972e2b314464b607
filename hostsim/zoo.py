"""Fitted estimators, inputs and reference results for the host simulations.

build(dir): fits every estimator version once and, for each (kind, version, options), converts it in a process that
has done nothing else and records what it predicts and what code it saves. zoo.py DIR [--code-only]."""
import os, sys, pickle, json, warnings, shutil
warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
import numpy as np

VERSIONS = 3
LIMITED = ('kb', 'nbm', 'dtm')     # models that not all rows can be predicted for
MIXTURES = ('gm', 'bg', 'gt', 'gs')
UNSUPERVISED = MIXTURES + ('ee', 'eb')
TREES = ('dt', 'rf', 'et', 'dr', 'rr', 'dtm', 'ds', 'dc', 'xr')
REGRESSORS = ('dr', 'rr', 'mlr', 'm2', 'mli', 'xr')
INTS = ('dt', 'rf', 'rr', 'kn', 'kb', 'dtm', 'ds', 'dc')
NAMES = ['mdl', 'other_name', 'x1']


def blob(seed, n, f, classes, scale, perm):
    r = np.random.RandomState(seed)
    c = r.uniform(-1, 1, size=(classes, f))
    y = np.arange(n) % classes
    X = (c[y] + 0.35 * r.normal(size=(n, f))) * scale
    return X, (y * 2 + perm) % classes if classes % 2 else (y + perm) % classes


class Dense:
    use_bias = True

    def __init__(self, act, w, b):
        self.activation, self.w, self.b = act, w, b

    def get_weights(self):
        return [self.w.copy(), self.b.copy()]


class Layer:
    def __init__(self, **k):
        self.__dict__.update(k)


class ReLU(Layer):
    pass


class Softmax(Layer):
    pass


class Activation(Layer):
    pass


class Dropout(Layer):
    pass


def relu():
    pass


def linear():
    pass


def tanh():
    pass


def softmax():
    pass


class Sequential:
    """stands in for a Keras model: what convert() uses of one"""
    def __init__(self, seed, separate=False):
        r = np.random.RandomState(seed)
        if separate:        # activations as layers of their own
            self.layers = [Dense(linear, r.normal(size=(4, 6)), r.normal(size=6)), ReLU(negative_slope=0.0, threshold=0.0), Dropout(rate=0.5), Dense(linear, r.normal(size=(6, 7)), r.normal(size=7)), Activation(activation=tanh),
                           Dense(linear, r.normal(size=(7, 3)) * 2, r.normal(size=3)), Softmax(axis=-1)]
        else:
            self.layers = [Dense(relu, r.normal(size=(4, 6)), r.normal(size=6)), Dense(softmax, r.normal(size=(6, 3)) * 2, r.normal(size=3))]

    def fit(self, X, y):
        r = np.random.RandomState(int(abs(X).sum() * 1000) % 100000)
        for l in self.layers:
            if isinstance(l, Dense):
                l.w[...] = r.normal(size=l.w.shape)
                l.b[...] = r.normal(size=l.b.shape)

    def predict(self, X):
        h = X
        for l in self.layers:
            if isinstance(l, Dense):
                h = h @ l.w + l.b
            a = getattr(l, 'activation', None)
            if a is relu or isinstance(l, ReLU):
                h = np.maximum(h, 0)
            elif a is tanh:
                h = np.tanh(h)
        return np.argmax(h, axis=1)


def spec():
    from sklearn.ensemble import RandomForestClassifier, ExtraTreesRegressor, ExtraTreesClassifier, RandomForestRegressor
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor
    from sklearn.neural_network import MLPClassifier, MLPRegressor
    from sklearn.naive_bayes import GaussianNB
    from sklearn.mixture import GaussianMixture, BayesianGaussianMixture
    from sklearn.covariance import EllipticEnvelope
    from sklearn.neighbors import KNeighborsClassifier
    I = lambda X: X.astype(np.int16).astype(float)
    s = {}

    def clf(seed, f, classes, scale, ints):
        def data(v):
            X, y = blob(seed + 100 * v, 60, f, classes, scale, v)
            return (I(X) if ints else X), y
        return data

    def reg(seed, f, scale, ints, outs=1):
        def data(v):
            X, y = blob(seed + 100 * v, 60, f, 3, scale, v)
            t = X[:, 0] * (0.2 + 0.3 * v) / scale * 10 + y * (1 + v)
            return (I(X) if ints else X), (t if outs == 1 else np.column_stack([t, t * 2]))
        return data
    # kind: (factory, data(v), [convert options], methods)
    s['dt'] = (lambda: DecisionTreeClassifier(max_depth=4, random_state=1), clf(1, 5, 3, 300, True), [dict(method='inline'), dict(method='loadable'), dict(method='inline', dtype='float')], ['predict', 'predict_proba'])
    s['rf'] = (lambda: RandomForestClassifier(n_estimators=3, max_depth=4, random_state=2), clf(2, 5, 3, 300, True), [dict(method='loadable'), dict(method='inline', leaf_bits=4), dict(method='loadable', leaf_bits=6)], ['predict', 'predict_proba'])
    s['et'] = (lambda: ExtraTreesClassifier(n_estimators=3, max_depth=4, random_state=3), clf(3, 4, 4, 3, False), [dict(method='inline', dtype='float', leaf_bits=8)], ['predict', 'predict_proba'])
    s['dr'] = (lambda: DecisionTreeRegressor(max_depth=4, random_state=4), reg(4, 4, 3, False), [dict(method='inline', dtype='float')], ['predict'])
    s['rr'] = (lambda: RandomForestRegressor(n_estimators=3, max_depth=4, random_state=5), reg(5, 5, 300, True), [dict(method='loadable'), dict(method='inline')], ['predict'])
    s['mlp'] = (lambda: MLPClassifier(hidden_layer_sizes=(6, 4), max_iter=40, learning_rate_init=0.05, random_state=6), clf(6, 4, 3, 2, False), [dict(method='loadable'), dict(method='inline')], ['predict', 'predict_proba'])
    s['mlb'] = (lambda: MLPClassifier(hidden_layer_sizes=(5,), activation='tanh', max_iter=40, learning_rate_init=0.05, random_state=7), clf(7, 4, 2, 2, False), [dict(method='loadable')], ['predict', 'predict_proba'])
    s['mlr'] = (lambda: MLPRegressor(hidden_layer_sizes=(6,), max_iter=25, random_state=8), reg(8, 4, 2, False), [dict(method='loadable', return_type='regressor')], ['predict'])
    s['ks'] = (lambda: Sequential(15), clf(15, 4, 3, 2, False), [dict(method='loadable'), dict(method='inline')], ['predict', 'predict_proba'])
    s['nb'] = (lambda: GaussianNB(), clf(9, 4, 3, 3, False), [dict()], ['predict'])
    s['gm'] = (lambda: GaussianMixture(n_components=3, random_state=9, max_iter=20), clf(10, 3, 3, 3, False), [dict()], ['predict', 'predict_proba', 'score_samples', 'predict_log_proba'])
    s['bg'] = (lambda: BayesianGaussianMixture(n_components=2, random_state=10, max_iter=20, covariance_type='diag'), clf(11, 3, 2, 3, False), [dict()], ['predict', 'score_samples'])
    s['ee'] = (lambda: EllipticEnvelope(random_state=11), clf(12, 3, 2, 2, False), [dict(method='inline')], ['predict', 'score_samples', 'mahalanobis'])
    s['kn'] = (lambda: KNeighborsClassifier(n_neighbors=3), clf(13, 4, 3, 400, True), [dict()], ['predict'])
    # more classes than the C code supports: it reports an error for some rows or all
    s['kb'] = (lambda: KNeighborsClassifier(n_neighbors=3), clf(16, 4, 13, 400, True), [dict()], ['predict'])
    s['nbm'] = (lambda: GaussianNB(), clf(17, 4, 12, 3, False), [dict()], ['predict'])
    s['dtm'] = (lambda: DecisionTreeClassifier(random_state=1), clf(18, 5, 35, 300, True), [dict(method='loadable'), dict(method='inline'), dict(method='inline', leaf_bits=8)], ['predict', 'predict_proba'])
    s['m2'] = (lambda: MLPRegressor(hidden_layer_sizes=(4,), max_iter=15, random_state=12), reg(14, 4, 2, False, 2), [dict(method='loadable', return_type='regressor')], ['predict'])
    s['ds'] = (lambda: DecisionTreeClassifier(max_depth=6, random_state=1), clf(19, 4, 3, 5, True), [dict(method='inline', dtype='int8_t', leaf_bits=5), dict(method='loadable', leaf_bits=8), dict(method='inline', dtype='int32_t')], ['predict', 'predict_proba'])
    s['dc'] = (lambda: DecisionTreeClassifier(min_samples_leaf=50, random_state=1), clf(20, 4, 3, 50, True), [dict(method='inline', leaf_bits=8), dict(method='loadable')], ['predict', 'predict_proba'])
    s['xr'] = (lambda: ExtraTreesRegressor(n_estimators=3, max_depth=5, random_state=13), reg(21, 4, 1e-5, False), [dict(method='inline', dtype='float')], ['predict'])
    s['mll'] = (lambda: MLPClassifier(hidden_layer_sizes=(5, 3), activation='logistic', max_iter=60, learning_rate_init=0.05, random_state=14), clf(22, 4, 3, 2, False), [dict(method='inline'), dict(method='loadable')], ['predict', 'predict_proba'])
    s['mli'] = (lambda: MLPRegressor(hidden_layer_sizes=(5,), activation='identity', max_iter=60, random_state=15), reg(23, 3, 1, False), [dict(method='loadable', return_type='regressor')], ['predict'])
    s['kd'] = (lambda: Sequential(24, True), clf(24, 4, 3, 2, False), [dict(method='loadable'), dict(method='inline')], ['predict', 'predict_proba'])
    s['gt'] = (lambda: GaussianMixture(n_components=2, random_state=16, max_iter=20, covariance_type='tied'), clf(25, 3, 2, 3000, False), [dict()], ['predict', 'predict_proba', 'score_samples'])
    s['gs'] = (lambda: BayesianGaussianMixture(n_components=3, random_state=17, max_iter=20, covariance_type='spherical'), clf(26, 2, 3, 30, False), [dict()], ['predict', 'predict_log_proba'])
    s['eb'] = (lambda: EllipticEnvelope(random_state=18), clf(27, 3, 2, 5000, False), [dict(method='inline')], ['predict', 'score_samples', 'mahalanobis'])
    return s


def fit(kind, sp, v, est=None):
    fac, data, _, _ = sp[kind]
    est = est if est is not None else fac()
    X, y = data(v)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if kind in UNSUPERVISED:
            est.fit(X)
        else:
            est.fit(X, y)
    return est


def test_X(kind, sp, x):
    """input sets: 0: 5 rows, 1: one row, 2: 40 rows, 3: 2500 rows"""
    X = np.vstack([sp[kind][1](v)[0] for v in range(VERSIONS)])
    r = np.random.RandomState(1000 + x)
    n = [5, 1, 40, 2500][x]
    T = X
    X = X[r.randint(0, len(X), size=n)]
    if kind in INTS:
        X = X + r.randint(-20, 21, size=X.shape) * (kind != 'ds')
    elif kind != 'xr':
        X = np.round(X + 0.1 * r.normal(size=X.shape), 4)
    if kind in TREES:                # values on and next to thresholds
        at = r.random_sample(X.shape) < 0.3
        for j in range(X.shape[1]):
            t = [np.unique(T[v * len(T) // VERSIONS:(v + 1) * len(T) // VERSIONS, j].astype(np.float32)) for v in range(VERSIONS)]
            t = np.concatenate([(u[1:].astype(float) + u[:-1]) / 2 for u in t]).astype(np.float32)
            c = r.choice(t, size=n)
            if kind in INTS:
                c = np.floor(c) + r.randint(0, 2, size=n)
            X[at[:, j], j] = c[at[:, j]].astype(float)
    return X


def xsets(kind):
    return (0, 1) if kind in MIXTURES else (0, 1, 2, 3)


def save_options(kind, opt):
    out = [dict()]
    if kind in ('dt', 'rf', 'rr', 'et', 'xr', 'dtm'):
        out.append(dict(format='csv'))
    if kind in ('dt', 'rf', 'et'):
        out.append(dict(include_proba=False))
    if kind in ('dt', 'rf'):
        out.append(dict(inference=['inline' if opt else 'loadable']))
    if kind in ('mlp', 'ks', 'mll', 'kd'):
        out.append(dict(inference=['inline']))
    return out


def plain(v):
    return np.asarray(v, dtype=float).tolist()


def alone(fn):
    """fn() in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(fn(), f)
            os._exit(0)
        except BaseException:
            import traceback
            traceback.print_exc()
        os._exit(1)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        t = f.read()
    if os.waitpid(pid, 0)[1] or not t:
        raise RuntimeError('save fails')
    return pickle.loads(t)


def reference(emlearn, sp, est, kind, opt, what):
    """what a conversion gives in a process that does nothing else"""
    o = {}
    m = emlearn.convert(est, **sp[kind][2][opt])
    o['code'] = {'%d/%s' % (i, n): alone(lambda: m.save(name=n, **so)) for i, so in enumerate(save_options(kind, opt)) for n in NAMES}
    if 'predict' in what:
        for meth in sp[kind][3]:
            for x in xsets(kind):
                X = test_X(kind, sp, x)
                n = len(X) if kind in MIXTURES else {5: 1, 1: 1, 40: 8, 2500: 500}[len(X)]
                try:
                    o['%s/%d' % (meth, x)] = sum((plain(getattr(m, meth)(X[i:i + n])) for i in range(0, len(X), n)), [])
                except ValueError as e:
                    if kind not in ('m2',) + LIMITED and not (meth == 'predict_proba' and kind in ('mlp', 'ks', 'mll', 'kd')):
                        raise
                    o['%s/%d' % (meth, x)] = 'raises'
    return o


def build(outdir, what=('code', 'predict')):
    """fits are shared by all users of outdir; references come from forked processes, one per entry"""
    import tempfile
    os.makedirs(outdir, exist_ok=True)
    sp = spec()
    ests = {(k, v): fit(k, sp, v) for k in sp for v in range(VERSIONS)}
    with open(os.path.join(outdir, 'ests.pkl'), 'wb') as f:
        pickle.dump(ests, f)
    sys.path.insert(0, os.environ.get('SIM_REPO', '/repo'))
    import emlearn
    import hs                      # compilations are cached by content; nothing else of the simulator is active
    hs.subprocess._USE_VFORK = True
    hs.subprocess.Popen = hs.SimPopen
    hs.CTX = hs.Ctx([], outdir, False)
    jobs = [(k, v, o) for k in sp for v in range(VERSIONS) for o in range(len(sp[k][2]))]
    procs, refs = {}, {}
    if 'predict' in what:
        sizes = {k: len(sp[k][3]) * (3 if k in MIXTURES else 1) for k in sp}
        jobs.sort(key=lambda j: -sizes[j[0]])
    scratch = tempfile.mkdtemp(prefix='zoo', dir=outdir)
    try:
        todo = list(jobs)
        bad = []

        def reap():
            pid, st = os.wait()
            j = procs.pop(pid)
            p = os.path.join(scratch, '%s-%d-%d.pkl' % j)
            if st or not os.path.exists(p):
                bad.append(j)
                return
            with open(p, 'rb') as f:
                refs[j] = pickle.load(f)
        while todo:
            if len(procs) >= 8:
                reap()
            j = todo.pop(0)
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    d = os.path.join(scratch, '%s-%d-%d' % j)
                    os.mkdir(d); os.chdir(d)
                    o = reference(emlearn, sp, ests[j[:2]], j[0], j[2], what)
                    with open(d + '.pkl', 'wb') as f:
                        pickle.dump(o, f)
                    rc = 0
                except BaseException as e:
                    import traceback
                    traceback.print_exc()
                    print('WHY %s %s: %s' % (j, type(e).__name__, str(e)[:160].replace('\n', ' ')), flush=True)
                os._exit(rc)
            procs[pid] = j
        while procs:
            reap()
        if bad:
            raise SystemExit('FAILS conversion, prediction or save without any fault: %s%s' % (sorted(bad)[:6], ' and %d more' % (len(bad) - 6) if len(bad) > 6 else ''))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    with open(os.path.join(outdir, 'refs.pkl'), 'wb') as f:
        pickle.dump(refs, f)
    print('references', len(refs))
    bad = []
    if os.environ.get('SIM_PROPERTY') == 'C14':
        import p_save
        bad += p_save.references(outdir) + not_compiling(refs, outdir)
    if os.environ.get('SIM_PROPERTY') == 'C12':
        bad += saved_otherwise(sp, ests, refs, outdir)
    return bad + (disagreements(sp, ests, refs) if 'predict' in what else [])


def not_compiling(refs, outdir):
    """saved C code that is not complete: it does not compile alone"""
    import subprocess
    import concurrent.futures as cf
    inc = os.path.join(os.environ.get('SIM_REPO', '/repo'), 'emlearn')
    jobs = []
    for (k, v, o), r in sorted(refs.items()):
        for key, code in sorted(r['code'].items()):
            i, n = key.split('/')
            if n != NAMES[v] or save_options(k, o)[int(i)].get('format') == 'csv':
                continue
            jobs.append((k, v, o, i, code))

    def one(j):
        p = os.path.join(outdir, 'c-%s-%d-%d-%s.c' % j[:4])
        with open(p, 'w') as f:
            f.write(j[4])
        r = subprocess.run(['gcc', '-std=c99', '-fsyntax-only', '-w', '-I' + inc, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        os.unlink(p)
        return r
    out = []
    with cf.ThreadPoolExecutor(8) as ex:
        for j, r in zip(jobs, ex.map(one, jobs)):
            if r.returncode:
                out.append('code saved for %s (%s) does not compile: %s' % (j[0], spec()[j[0]][2][j[2]], r.stdout.decode(errors='replace').split('\n')[0]))
    return out


# share of results that have to be those of the estimator, where it is not nearly all:
# hard voting of several trees, quantized leaves, fixed-point numbers
ROUGH = {'rf': 0.8, 'et': 0.97, 'nb': 0.96, 'kn': 0.98}


def disagreements(sp, ests, refs):
    """conversions whose results are not those of the estimator"""
    out = []
    for (k, v, o), r in sorted(refs.items()):
        bits = sp[k][2][o].get('leaf_bits', 0)
        for meth in sp[k][3]:
            x = max(xsets(k))
            p = r['%s/%d' % (meth, x)]
            if p == 'raises' or not hasattr(ests[k, v], meth) or meth == 'predict_proba' and k in TREES and not bits:
                continue
            m = getattr(ests[k, v], meth)
            e = np.asarray(m(test_X(k, sp, x)), dtype=float)
            p = np.asarray(p)
            scale = 1e-3 * float(np.abs(e).max()) if k in REGRESSORS else 0.5 / (2**bits - 1) + 0.005 if bits and meth == 'predict_proba' else 1e-3
            share = float(np.mean(np.isclose(p, e, rtol=1e-3, atol=scale))) if p.shape == e.shape else 0.0
            if os.environ.get('ZOO_SHARES'):
                print('SHARE', k, v, o, meth, round(share, 4))
            if share < (ROUGH.get(k, 0.995) if meth == 'predict' else 0.995):
                out.append('convert() of %s with %s: %.1f %% of the results of %s are those of the estimator' % (k, sp[k][2][o], 100 * share, meth))
    return out


# ------------------------------------------------------------------ what saved code computes
def evaluate_csv(text, X):
    """predictions of the trees in a CSV file"""
    nodes, roots, leaves, classes, bits = [], [], [], 0, 0
    for l in text.splitlines():
        t = l.split(',')
        if t[0] == 'n' and len(t) == 5:
            nodes.append((int(t[1]), np.float32(t[2]), int(t[3]), int(t[4])))
        elif t[0] == 'r':
            roots.append(int(t[1]))
        elif t[0] == 'l':
            leaves.append(np.array(t[1].strip('[]').split(), dtype=float))
        elif t[0] == 'c':
            classes = int(t[1])
        elif t[0] == 'lb':
            bits = int(t[1])
        elif t[0] != 'f' or int(t[1]) != X.shape[1]:
            raise ValueError('line %r' % l)
    out = []
    for x in X.astype(np.float32):
        at = []
        for i in roots:
            while True:
                f, v, a, b = nodes[i]
                d = a if x[f] <= v else b
                if d < 0:
                    break
                i += d
            at.append(leaves[-d - 1])
        if classes == 0:
            out.append(float(np.mean(at)))
        elif len(at[0]) > 1:
            out.append(int(np.argmax(np.sum(at, axis=0))))
        else:
            out.append(int(np.argmax(np.bincount([int(l[0]) for l in at], minlength=classes))))
    return out


PROGRAM = """
%s
#include <stdio.h>
#include <stdlib.h>
#define N %d
int main(void) {
    static double in[N];
    static float f[N]; static int16_t q[N]; static int8_t b[N]; static int32_t w[N];
    (void)f; (void)q; (void)b; (void)w;
    for (;;) {
        for (int i = 0; i < N; i++) {
            if (scanf("%%lf", &in[i]) != 1) return 0;
            f[i] = (float)in[i]; q[i] = (int16_t)in[i]; b[i] = (int8_t)in[i]; w[i] = (int32_t)in[i];
        }
        %s
    }
}
"""


def call_of(kind, kw, so, name, est, meth):
    """C statements that print the result for a row; None: this code has no such function"""
    t = {'int16_t': 'q', 'int8_t': 'b', 'int32_t': 'w', 'float': 'f'}[kw.get('dtype', 'int16_t')]
    if kind in TREES and meth == 'predict':
        return 'printf("%%.9g\\n", (double)%s_predict(%s, N));' % (name, t)
    if kind in TREES and meth == 'predict_proba' and so.get('include_proba', True):
        n = len(est.classes_)
        return 'float o[%d]; int e = %s_predict_proba(%s, N, o, %d); for (int i = 0; i < %d; i++) printf("%%.9g ", e ? -1.0 : (double)o[i]); printf("\\n");' % (n, name, t, n, n)
    if kind in ('kn', 'kb') and meth == 'predict':
        return 'static EmlNeighborsDistanceItem d[1000]; int16_t o = -1; int e = eml_neighbors_predict(&%s, q, N, d, 1000, &o); printf("%%d\\n", e ? -1 : (int)o);' % name
    if kind in MIXTURES and meth in ('predict_proba', 'predict'):
        n = est.n_components
        return ('float p[%d], s = 0, o[%d]; int e = %s_predict_proba(f, N, p, &s, o); int k = 0; (void)k; ' % (n, n, name) +
                ('for (int i = 0; i < %d; i++) printf("%%.9g ", e ? -1.0 : (double)o[i]); printf("\\n");' % n if meth == 'predict_proba' else
                 'for (int i = 0; i < %d; i++) if (o[i] > o[k]) k = i; printf("%%d\\n", e ? -1 : k);' % n))
    if kind in ('ee', 'eb') and meth == 'mahalanobis' or kind in ('nb', 'nbm') and meth == 'predict':
        return 'printf("%%.9g\\n", (double)%s_predict(f, N));' % name
    if kind in ('mlr', 'mli') and meth == 'predict':
        return 'printf("%%.9g\\n", (double)%s_regress1(f, N));' % name
    if kind in ('mlp', 'mlb', 'ks', 'mll', 'kd') and meth == 'predict':
        return 'printf("%%d\\n", (int)%s_predict(f, N));' % name
    return None


def saved_otherwise(sp, ests, refs, outdir):
    """saved code and tables that do not give the predictions of the object that saved them"""
    import subprocess
    import concurrent.futures as cf
    inc = os.path.join(os.environ.get('SIM_REPO', '/repo'), 'emlearn')
    jobs = []
    for (k, v, o), r in sorted(refs.items()):
        for i, so in enumerate(save_options(k, o)):
            if (o + i) % VERSIONS != v:
                continue
            for meth in sp[k][3]:
                x = 2 if 2 in xsets(k) else 0
                want = r['%s/%d' % (meth, x)]
                if want == 'raises':
                    if so.get('format') != 'csv' or meth != 'predict':
                        continue
                    want = plain(ests[k, v].predict(test_X(k, sp, x)))
                n = NAMES[(v + i) % len(NAMES)]
                code, X = r['code']['%d/%s' % (i, n)], test_X(k, sp, x)
                if so.get('format') == 'csv':
                    if meth == 'predict':
                        jobs.append((k, v, o, i, meth, None, code, X, want))
                    continue
                c = call_of(k, sp[k][2][o], so, n, ests[k, v], meth)
                if c:
                    jobs.append((k, v, o, i, meth, PROGRAM % (code, X.shape[1], c), None, X, want))

    def one(j):
        k, v, o, i, meth, prog, csv, X, want = j
        if csv is not None:
            try:
                return evaluate_csv(csv, X)
            except (ValueError, IndexError) as e:
                return str(e)
        p = os.path.join(outdir, 's-%s-%d-%d-%d-%s' % (k, v, o, i, meth))
        try:
            with open(p + '.c', 'w') as f:
                f.write(prog)
            c = subprocess.run(['gcc', '-std=c99', '-O1', '-w', '-I' + inc, p + '.c', '-o', p, '-lm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if c.returncode:
                return 'does not compile: ' + c.stdout.decode(errors='replace')[:200].replace('\n', ' ')
            c = subprocess.run([p], input=''.join(' '.join('%.17g' % z for z in row) + '\n' for row in X).encode(), stdout=subprocess.PIPE, timeout=60)
            if c.returncode:
                return 'ends with status %d' % c.returncode
            rows = [[float(z) for z in l.split()] for l in c.stdout.decode().split('\n') if l]
            return [q[0] if len(q) == 1 else q for q in rows]
        finally:
            for q in (p, p + '.c'):
                if os.path.exists(q):
                    os.unlink(q)
    out = []
    with cf.ThreadPoolExecutor(8) as ex:
        for j, got in zip(jobs, ex.map(one, jobs)):
            k, v, o, i, meth, _, csv, X, want = j
            if isinstance(got, str):
                share = -1
            else:
                a, b = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
                share = float(np.mean(np.isclose(a, b, rtol=1e-5, atol=1e-6 * float(np.abs(b).max())))) if a.shape == b.shape else 0.0
            if os.environ.get('ZOO_SHARES'):
                print('SAVED', k, v, o, i, meth, 'csv' if csv else 'c', round(share, 4))
            if share < 1:
                out.append('what save(%s) gives for %s with %s: %s' % (save_options(k, o)[i] or '', k, sp[k][2][o], got if share < 0 else '%.1f %% of the results of %s are those of the object that saved it' % (100 * share, meth)))
    return out


if __name__ == '__main__':
    sys.modules.pop('__main__')
    import zoo                     # pickles name the module
    for l in zoo.build(os.path.abspath(sys.argv[1]), ('code',) if '--code-only' in sys.argv else ('code', 'predict')):
        print('DISAGREES ' + l)
