"""Generates the C code of a fixed set of models with the real converters. Usage: genmodels.py OUTDIR"""
import os, sys, warnings
warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
REPO = os.environ.get('SIM_REPO', '/repo')
sys.path.insert(0, REPO)
import numpy as np


def data(seed, n, f, classes, scale):
    r = np.random.RandomState(seed)
    c = r.uniform(-1, 1, size=(classes, f))
    y = np.arange(n) % classes
    X = (c[y] + 0.6 * r.normal(size=(n, f))) * scale
    return X, y


def estimators():
    from sklearn.ensemble import RandomForestClassifier, ExtraTreesRegressor, ExtraTreesClassifier
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor
    from sklearn.neural_network import MLPClassifier, MLPRegressor
    from sklearn.naive_bayes import GaussianNB
    from sklearn.mixture import GaussianMixture
    from sklearn.covariance import EllipticEnvelope
    from sklearn.neighbors import KNeighborsClassifier
    out = {}
    Xi, yi = data(1, 120, 6, 3, 400.0); Xi = Xi.astype(np.int16).astype(float)
    out['tri'] = (DecisionTreeClassifier(max_depth=5, random_state=1).fit(Xi, yi), dict(method='inline'))
    out['rfl'] = (RandomForestClassifier(n_estimators=5, max_depth=5, random_state=2).fit(Xi, yi), dict(method='loadable', leaf_bits=0))
    out['rfp'] = (RandomForestClassifier(n_estimators=4, max_depth=4, random_state=3).fit(Xi, yi), dict(method='loadable', leaf_bits=4))
    Xf, yf = data(2, 120, 5, 4, 3.0)
    out['eti'] = (ExtraTreesClassifier(n_estimators=5, max_depth=5, random_state=4).fit(Xf, yf), dict(method='inline', dtype='float', leaf_bits=8))
    out['rgl'] = (ExtraTreesRegressor(n_estimators=3, max_depth=4, random_state=5).fit(Xi, Xi[:, 0] * 0.3 + yi), dict(method='loadable'))
    out['rgi'] = (DecisionTreeRegressor(max_depth=5, random_state=6).fit(Xf, Xf[:, 0] * 0.3 + yf), dict(method='inline', dtype='float'))
    Xb, yb = data(3, 100, 4, 2, 1.5)
    out['nb2'] = (MLPClassifier(hidden_layer_sizes=(7, 5), activation='tanh', max_iter=60, random_state=1).fit(Xb, yb), dict(method='loadable'))
    Xm, ym = data(4, 120, 6, 4, 1.5)
    out['nml'] = (MLPClassifier(hidden_layer_sizes=(9,), activation='relu', max_iter=60, random_state=2).fit(Xm, ym), dict(method='loadable'))
    out['nmi'] = (MLPClassifier(hidden_layer_sizes=(8, 6), activation='relu', max_iter=60, random_state=3).fit(Xm, ym), dict(method='inline'), dict(inference=['inline']))
    out['nrm'] = (MLPRegressor(hidden_layer_sizes=(6,), activation='logistic', max_iter=60, random_state=4).fit(Xb, Xb[:, :2]), dict(method='loadable', return_type='regressor'))
    out['nrl'] = (MLPRegressor(hidden_layer_sizes=(6, 4), activation='tanh', max_iter=60, random_state=5).fit(Xb, Xb[:, 0] + 0.5), dict(method='loadable', return_type='regressor'))
    out['nbi'] = (MLPClassifier(hidden_layer_sizes=(7, 5), activation='tanh', max_iter=60, random_state=6).fit(Xb, yb), dict(method='inline'), dict(inference=['inline']))
    out['bay'] = (GaussianNB().fit(*data(5, 90, 5, 3, 4.0)), dict())
    out['mix'] = (GaussianMixture(n_components=3, random_state=1).fit(data(6, 120, 4, 3, 2.0)[0]), dict())
    out['ell'] = (EllipticEnvelope(random_state=1).fit(data(7, 120, 4, 2, 2.0)[0]), dict(method='inline'))
    Xk, yk = data(8, 24, 4, 3, 500.0)
    out['knn'] = (KNeighborsClassifier(n_neighbors=3).fit(Xk.astype(np.int16), yk), dict())
    # wide shapes: near the limits of the library or beyond what small tests use
    Xw, yw = data(11, 500, 20, 25, 900.0); Xw = Xw.astype(np.int16).astype(float)
    out['wtl'] = (RandomForestClassifier(n_estimators=9, max_depth=9, random_state=11).fit(Xw, yw), dict(method='loadable', leaf_bits=0))
    Xv, yv = data(12, 500, 12, 28, 5.0)
    out['wti'] = (ExtraTreesClassifier(n_estimators=6, max_depth=8, random_state=12).fit(Xv, yv), dict(method='inline', dtype='float', leaf_bits=8))
    out['wrl'] = (ExtraTreesRegressor(n_estimators=20, max_depth=6, random_state=13).fit(Xw, Xw[:, 1] * 0.2 + yw), dict(method='loadable'))
    Xn, yn = data(13, 400, 40, 12, 1.5)
    out['wnl'] = (MLPClassifier(hidden_layer_sizes=(32, 20), activation='relu', max_iter=25, random_state=13).fit(Xn, yn), dict(method='loadable'))
    out['wni'] = (MLPClassifier(hidden_layer_sizes=(32, 20), activation='relu', max_iter=25, random_state=14).fit(Xn, yn), dict(method='inline'), dict(inference=['inline']))
    out['wbn'] = (GaussianNB().fit(*data(14, 300, 12, 10, 4.0)), dict())
    out['wmx'] = (GaussianMixture(n_components=12, covariance_type='diag', random_state=2).fit(data(15, 600, 9, 12, 3.0)[0]), dict())
    out['wmt'] = (GaussianMixture(n_components=4, covariance_type='tied', random_state=3).fit(data(16, 300, 6, 4, 3.0)[0]), dict())
    out['wel'] = (EllipticEnvelope(random_state=2).fit(data(17, 400, 12, 2, 2.0)[0]), dict(method='inline'))
    Xq, yq = data(18, 60, 9, 10, 700.0)
    out['wkn'] = (KNeighborsClassifier(n_neighbors=7).fit(Xq.astype(np.int16), yq), dict())
    return out


def generate(outdir, only=None):
    import emlearn
    os.makedirs(outdir, exist_ok=True)
    os.chdir(outdir)
    es = estimators()

    def one(k):
        est, kw = es[k][:2]
        m = emlearn.convert(est, **kw)
        m.save(name=k, file=os.path.join(outdir, k + '.h'), **(es[k][2] if len(es[k]) > 2 else {}))
    for k in es:
        if only is None or k in only:
            one(k)
    with open(os.path.join(outdir, 'ok'), 'w') as f:
        f.write('ok')


if __name__ == '__main__':
    generate(os.path.abspath(sys.argv[1]), sys.argv[2].split(',') if len(sys.argv) > 2 else None)
