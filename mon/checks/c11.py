"""C11: unusable input is rejected with an error before anything is changed; usable input is accepted."""
import numpy as np
import pandas as pd
from scipy.sparse import csr_matrix, csc_matrix

from mon import gen, view

RULE = ('every random problem is attacked with every applicable kind of unusable input, on a fresh and on a fitted '
        'model; the model must raise ValueError/TypeError and predict afterwards as before; non-trivial = rejected call; '
        'distinct by (case, attack, state of the model)')
MINIMUM = {'large_problems': 5, 'expected_errors': 6000, 'accepted': 1500, 'unchanged_after_error': 3000}
ERR = (ValueError, TypeError)


def plan(tier, seed):
    f = 5 if tier == 'quick' else 50
    return gen.plan(seed, [(70 * f, {'mt': mt}) for mt in ('PC', 'PR', 'HC', 'HR')] +
                    [(n, {'mt': mt, 'large': 1}) for mt, n in (('PC', 2), ('PR', 2), ('HC', 1), ('HR', 1))])


def run(case, rec):
    r = gen.rng(case)
    mt = case['mt']
    hyper = mt[0] == 'H'
    kw = {}
    if hyper:
        kw = dict(optimizer=gen.make_optimizer(r, mt == 'HC', name=r.choice(['random', 'quasi'])), xkind='cont')
    n, d = gen.sometimes(r, [2, 5, 12, 40], [257, 300]), gen.sometimes(r, [1, 2, 3, 5], [12, 20])
    if case.get('large'):
        n, d = int(r.choice([4097, 5000, 8193])), 1
        kw = dict(kw, xkind='grid', pp=.5)
        rec.event('large_problems')
    p = gen.problem(r, mt, n=n, d=d, k=gen.sometimes(r, [2, 3, 4], [9, 11, 13]) if mt[1] == 'C' else None, **dict({'xkind': r.choice(['cont', 'int', 'grid'])}, **kw))
    X, y = p.X, p.y.astype(float)
    n, d = X.shape
    fitted = rec.api('fit', p.model().fit, X, y)
    before = snapshot(fitted, X)

    def rejects(what, method, *args, **kwargs):
        for state in ('fresh', 'fitted'):
            if state == 'fresh' and method != 'fit':
                continue
            m = p.model() if state == 'fresh' else fitted
            ok = rec.expect_error('{} ({} model)'.format(what, state), ERR, getattr(m, method), *args, **kwargs)
            rec.nontrivial((case['i'], what, method, state))
            if not ok:
                rec.violations[-1]['detail']['problem'] = str(p.describe())[:1500]
                if state == 'fitted':
                    return False
            elif state == 'fresh':
                rec.check(not m.is_fitted() and str(m) == 'Unfitted model', 'a rejected fit leaves a fitted model', what=what)
                rec.expect_error('predict after rejected fit', ERR, m.predict, X)
            else:
                rec.event('unchanged_after_error')
                rec.check(snapshot(m, X) == before, 'a rejected call changed the model', what=what, problem=p.describe())
        return True

    # --- never fitted
    f = p.model()
    methods = ['predict'] + (['predict_proba'] if p.kind == 'cls' else []) + ([] if hyper else ['prediction_paths'])
    for name in methods:
        rec.expect_error(name + ' before fit', ERR, getattr(f, name), X)
        rec.nontrivial((case['i'], name, 'unfitted'))
    rec.expect_error('feature_importance before fit', ERR, f.feature_importance)
    rec.expect_error('get_depth before fit', ERR, f.get_depth)
    rec.expect_error('get_n_leaves before fit', ERR, f.get_n_leaves)
    # --- fit: lengths
    rejects('y too short', 'fit', X, y[:-1]) if n > 2 or p.kind == 'reg' else None
    rejects('y too long', 'fit', X, np.r_[y, y[:1]])
    rejects('y for another X', 'fit', X[:1], y)
    rejects('sparse X with other length', 'fit', csr_matrix(X[:1]), y)
    rejects('csc X with other length', 'fit', csc_matrix(np.vstack([X, X])), y)
    rejects('frame with other length', 'fit', pd.DataFrame(X[:-1]), y)
    rejects('transposed X', 'fit', X.T, y) if d != n else None
    if p.kind == 'cls':
        # other numbers of classes than the model was fitted with, together with unusable data
        for kk in (1, p.k + 1, p.k + 3):
            yy = np.arange(n + 1.) % kk
            rejects('{} classes and y too long'.format(kk), 'fit', X, yy)
            rejects('{} classes and text'.format(kk), 'fit', np.full((n, d), 'a'), yy[:n])
            rejects('{} classes and 3-d X'.format(kk), 'fit', X.reshape(n, d, 1), yy[:n])
    # --- fit: dimensions
    rejects('two target columns', 'fit', X, np.c_[y, y])
    rejects('two target columns as frame', 'fit', X, pd.DataFrame({'a': y, 'b': y}))
    rejects('two target rows', 'fit', X, np.vstack([y, y, y]))
    rejects('3-d X', 'fit', X.reshape(n, d, 1), y)
    rejects('3-d X list', 'fit', X.reshape(n, 1, d).tolist(), y)
    rejects('4-d X', 'fit', X.reshape(1, n, d, 1), y)
    # --- fit: nothing to train on
    none = np.zeros((0, d))
    rejects('no rows', 'fit', none, np.zeros(0))
    rejects('no rows, list of targets', 'fit', none, [])
    rejects('no rows, sparse', 'fit', csr_matrix((0, d)), [])
    rejects('no rows, frame', 'fit', pd.DataFrame(none), [])
    rejects('no features', 'fit', np.zeros((n, 0)), y)
    rejects('no features, other targets', 'fit', np.zeros((n + 1, 0)), np.arange(n + 1.))
    rejects('no features, sparse', 'fit', csc_matrix((n, 0)), y)
    # --- fit: names (with targets that need any of the features)
    j = int(r.integers(d))
    yn = y if p.kind == 'cls' and p.k > 2 else (X[:, j] > np.median(X[:, j])).astype(float)
    for names in ([], ['a'] * (d - 1), ['a'] * (d + 1), tuple('abcdefghijklmnopqrstuvwxyz'), pd.Index(['a'] * (d + 2)), np.array(['a'] * (d - 1), dtype=object)):
        if len(names) != d:
            rejects('{} feature names'.format(len(names)), 'fit', X, y if r.random() < .3 else yn, feature_names=names)
            rejects('{} feature names for a frame'.format(len(names)), 'fit', pd.DataFrame(X), yn, False, names)
    # --- fit: contents
    T = X.astype(object)
    T[r.integers(n), r.integers(d)] = 'abc'
    rejects('text in X', 'fit', T, y)
    rejects('text in a frame', 'fit', pd.DataFrame(T), y)
    T = X.astype(object)
    T[r.integers(n), r.integers(d)] = 2 ** 53 + 1
    rejects('an integer in X that float64 cannot hold', 'fit', T, y)
    rejects('text targets', 'fit', X, np.array(['c{}'.format(int(v)) for v in range(n)]))
    t = [str(v) for v in range(n)]
    t[r.integers(n)] = 'yes'
    rejects('some text targets', 'fit', X, t)
    if p.kind == 'cls':
        k = p.k
        bad = {'negative label': _put(r, y, -1.), 'fractional label': _put(r, y, .5), 'label beyond the classes': _put(r, y, k + 1.),
               'labels from 1': y + 1, 'labels doubled': y * 2, 'all labels 1': np.ones(n), 'labels -1/+1': np.where(y > 0, 1., -1.),
               'NaN label': _put(r, y, np.nan), 'infinite label': _put(r, y, np.inf), 'labels all fractional': y + .25,
               'negated labels': -y}
        for what, yb in bad.items():
            if set(np.unique(yb)) == set(range(len(np.unique(yb)))) and (p.params['prior'] is None or len(np.unique(yb)) == k):
                continue   # happens to be valid
            rejects(what, 'fit', X, yb)
            rejects(what + ' (sparse)', 'fit', csr_matrix(X), yb)
        if np.sum(y == k - 1) < n and p.params['prior'] is not None:
            rejects('a class of the prior without data', 'fit', X, np.where(y == k - 1, 0, y))
            m = p.model(prior=np.ones(k + 1))
            rec.expect_error('prior with too many classes', ERR, m.fit, X, y)
            if k > 2:
                m = p.model(prior=np.ones(k - 1))
                rec.expect_error('prior with too few classes', ERR, m.fit, X, y)
    else:
        for v in (np.nan, np.inf, -np.inf):
            rejects('a target that is {}'.format(v), 'fit', X, _put(r, y, v))
            rejects('targets that are all {}'.format(v), 'fit', csr_matrix(X), np.full(n, v))
        rejects('an infinite single precision target', 'fit', X, _put(r, np.zeros(n, dtype=np.float32), np.inf))
        rejects('targets with None', 'fit', X, [None] + y[1:].tolist())
        for size in (0, 1, 2, 3, 5, 8):
            m = p.model(prior=[1.] * size)
            rec.expect_error('prior with {} parameters'.format(size), ERR + (IndexError,), m.fit, X, y)
            rec.check(not m.is_fitted(), 'a rejected fit leaves a fitted model', what='prior size')
    # --- query
    for name in methods:
        rejects('one feature too many', name, np.c_[X, X[:, :1]])
        rejects('sparse with one feature too many', name, csr_matrix(np.c_[X, X[:, :1]]))
        rejects('csc with two features too many', name, csc_matrix(np.c_[X, X[:, :1], X[:, :1]]))
        rejects('frame with one feature too many', name, pd.DataFrame(np.c_[X, X[:, :1]]))
        rejects('one sample with one feature too many', name, np.ones(d + 1))
        rejects('one sample list with one feature too many', name, [1.] * (d + 1))
        if d > 1:
            rejects('one feature too few', name, X[:, 1:])
            rejects('sparse with one feature too few', name, csr_matrix(X[:, 1:]))
            rejects('one sample with one feature', name, [1.])
            rejects('a scalar', name, 1.)
        rejects('3-d query', name, X.reshape(n, d, 1))
        rejects('3-d query with the right last dimension', name, X.reshape(1, n, d))
        T = X.astype(object)
        T[0, 0] = 'abc'
        rejects('text query', name, T)
    if p.kind == 'reg' and hyper:
        z = y.copy()
        z[0] = .5
        m = p.model(optimizer=gen.ho.RandomTwoPointOptimizer(5, 1))
        if d > 1 and n > 1:
            rec.expect_error('two-point optimizer for regression', ERR, m.fit, X, z)
            # the same on a model that was fitted with it
            m = p.model(optimizer=gen.ho.RandomTwoPointOptimizer(5, 1))
            w = np.arange(n) % int(r.integers(2, 4)) * 1.
            rec.api('fit', m.fit, X, w)
            b = snapshot(m, X)
            if rec.expect_error('two-point optimizer for regression on a fitted model', ERR, m.fit, X, z):
                rec.event('unchanged_after_error')
                rec.check(snapshot(m, X) == b, 'a rejected call changed the model', what='fractional targets', problem=p.describe())
    rec.check(snapshot(fitted, X) == before, 'the rejected calls changed the model', problem=p.describe())
    # --- usable input is accepted
    for what, XX, yy in (('plain', X, y), ('single row', X[:1], np.zeros(1)), ('lists', X.tolist(), y.tolist()),
                         ('constant features', np.ones_like(X), y), ('sparse', csr_matrix(X), y), ('column', X, y[:, None]),
                         ('two rows', X[[0, 0]], np.array([0., 1.]) if p.kind == 'reg' or p.k == 2 else None),
                         ('names', X, y), ('scalar target', X[:1], 0 if p.kind == 'reg' else None),
                         ('object features', X.astype(object), y)):
        if yy is None or (what == 'single row' and p.kind == 'cls'):
            continue
        m = rec.api('fit ' + what, p.model().fit, XX, yy, False, tuple('abcdefghijklmnopqrstuvwxyz')[:d] if what == 'names' else None)
        rec.event('accepted')
        rec.api('predict ' + what, m.predict, XX)
    if p.kind == 'cls':
        m = p.model(prior=[1.])
        rec.api('fit one class', m.fit, X, np.zeros(n))
        rec.event('accepted')
        rec.check(np.all(m.predict(X) == 0) and np.all(m.predict_proba(X) == 1), 'one class only')
    rec.sample({'case': case, 'rejected': rec.counts['expected_errors']})


def _put(r, y, v):
    y = y.copy()
    y[r.integers(len(y))] = v
    return y


def snapshot(m, X):
    s = [str(m), m.predict(X).tobytes(), m.feature_importance().tobytes(), str(m.get_depth()), str(m.get_n_leaves())]
    if view.is_cls(m):
        s.append(m.predict_proba(X).tobytes())
    if hasattr(m, 'prediction_paths'):
        s.append(repr(m.prediction_paths(X)))
    if hasattr(m, '_get_raw_leaf_data'):
        s.append(np.asarray(m._get_raw_leaf_data(X), dtype=float).tobytes())
    return s
