"""C06: the same numbers give the same model and predictions, whatever container or dtype carries them."""
import tempfile
import warnings

import numpy as np
import pandas as pd
from scipy.sparse import csr_matrix, csc_matrix

from mon import gen, view

RULE = ('every data set is fitted in its plain float64 form and again in every other form that carries exactly the same '
        'values; trees and predictions are compared; non-trivial = form other than the plain one on a tree with a '
        'split; distinct by (case, form of X, form of y)')
MINIMUM = {'large_variants': 80, 'variants': 4000, 'variants_split': 2000, 'sparse_variants': 800, 'integer_variants': 300, 'hyper_variants': 500, 'prior_forms': 1500}
CASE_LIMIT = 240
ASSUMPTIONS = ['regression targets on a dyadic grid where the order of equal rows could change rounding',
               'hyperplane trees: continuous features (no exact ties of projections)']


def plan(tier, seed):
    f = 1 if tier == 'quick' else 18
    return gen.plan(seed, [(90 * f, {'mt': 'PC'}), (90 * f, {'mt': 'PR'}), (40 * f, {'mt': 'HC'}), (40 * f, {'mt': 'HR'}),
                           (15 * f, {'mt': 'PC', 'xkind': 'int'}), (15 * f, {'mt': 'PR', 'xkind': 'int'}),
                           (20 * f, {'mt': 'PC', 'xkind': 'binary'}), (15 * f, {'mt': 'PR', 'xkind': 'binary'}),
                           (10 * f, {'mt': 'PC', 'n': 1}), (10 * f, {'mt': 'PR', 'n': 1}),
                           (15 * f, {'mt': 'PC', 'bigint': 1}), (15 * f, {'mt': 'PR', 'bigint': 1})] +
                    [(4 * f, {'mt': mt, 'large': 1}) for mt in gen.MODELS])


def x_forms(X, r):
    n, d = X.shape
    names = ['c{}'.format(j) for j in range(d)]
    out = {
        'list': X.tolist(), 'list of arrays': [row.copy() for row in X],
        'fortran': np.asfortranarray(X), 'strided': np.repeat(np.repeat(X, 2, axis=0), 2, axis=1)[::2, ::2],
        'object': X.astype(object), 'readonly': _readonly(X), 'big endian': X.astype('>f8'),
        'csr': csr_matrix(X), 'csc': csc_matrix(X),
        'frame': pd.DataFrame(X, columns=names), 'frame odd index': pd.DataFrame(X, columns=names, index=r.permutation(n) + 7),
    }
    if np.all(X.astype(np.float32).astype(np.float64) == X):
        out['float32'] = X.astype(np.float32)
        out['csr float32'] = csr_matrix(X.astype(np.float32))
    # explicit zeros are still zeros
    s = csr_matrix(X)
    s2 = csr_matrix((np.r_[s.data, 0.], np.r_[s.indices, 0], np.r_[s.indptr[:-1], s.indptr[-1] + 1]), shape=X.shape) \
        if X[-1, 0] == 0 else s
    out['csr explicit zero'] = s2
    if np.all(X == np.round(X)) and not np.any(np.signbit(X) & (X == 0)):
        lo, hi = X.min(), X.max()
        for t in (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64):
            i = np.iinfo(t)
            if float(i.min) <= lo and hi < float(i.max) + (i.max < 2 ** 53) and (-2 ** 53 <= lo and hi <= 2 ** 53 or np.all(X.astype(t) == X)):
                out['integer ' + t.__name__] = X.astype(t)
                if r.random() < .3:
                    out['integer csr ' + t.__name__] = csr_matrix(X.astype(t))
                    out['integer csc ' + t.__name__] = csc_matrix(X.astype(t))
        if np.abs(X).max() < 2 ** 53:
            out['integer list'] = [[int(v) for v in row] for row in X]
            fr = pd.DataFrame({c: X[:, j].astype(np.int64) if j % 2 else X[:, j] for j, c in enumerate(names)})
            out['integer mixed frame'] = fr
        if set(np.unique(X)) <= {0., 1.}:
            out['integer bool'] = X.astype(bool)
            out['integer csr bool'] = csr_matrix(X.astype(bool))
            out['integer csc bool'] = csc_matrix(X.astype(bool))
            out['integer bool frame'] = pd.DataFrame(X.astype(bool), columns=names)
    if np.all(X.astype(np.float16).astype(np.float64) == X):
        out['float16'] = X.astype(np.float16)
    out['long double'] = X.astype(np.longdouble)
    out['csr repeated'], out['csc repeated'] = _repeated(csr_matrix(X)), _repeated(csc_matrix(X))
    out['backwards'] = X[::-1, ::-1].copy()[::-1, ::-1]
    out['frame float'] = pd.DataFrame(X, columns=names).astype('Float64')
    out['csr unsorted'], out['csc unsorted'] = _unsorted(csr_matrix(X)), _unsorted(csc_matrix(X))
    s = csr_matrix(X)
    s.indices, s.indptr = s.indices.astype(np.int64), s.indptr.astype(np.int64)
    out['csr long indices'] = s
    out['frame of sparse columns'] = pd.DataFrame.sparse.from_spmatrix(csr_matrix(X))
    out['frame of objects'] = pd.DataFrame(X, dtype=object)
    out['memory map'] = _memmap(X)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore', PendingDeprecationWarning)
        out['matrix'] = np.matrix(X)
        out['matrix of a sparse one'] = csr_matrix(X).todense()
    out['tuple'] = tuple(tuple(row) for row in X.tolist())
    out['tuple of arrays'] = tuple(X.copy())
    out['list of series'] = [pd.Series(row, index=names) for row in X]
    if n == 1:
        out['one sample 1-d'] = X[0].copy()
        out['one sample list'] = X[0].tolist()
    return out


def _unsorted(s):
    """the same matrix with the entries of each row (column) stored backwards"""
    order = np.concatenate([np.arange(b - 1, a - 1, -1) for a, b in zip(s.indptr[:-1], s.indptr[1:])]).astype(int) \
        if s.nnz else np.zeros(0, dtype=int)
    return type(s)((s.data[order], s.indices[order], s.indptr), shape=s.shape)


def sparse_form(form, X):
    m = (csr_matrix if form.startswith('csr') else csc_matrix)(X)
    return _unsorted(m) if 'unsorted' in form else _repeated(m) if 'repeated' in form else m


def _repeated(s):
    """the same matrix with its entries given as a sum of two (x/2 + x/2 = x)"""
    if s.nnz and not np.all(s.data * .5 * 2 == s.data):
        return s
    t = type(s)((np.repeat(s.data * .5, 2), np.repeat(s.indices, 2), s.indptr * 2), shape=s.shape)
    t.has_canonical_format = False
    return t


def _memmap(X):
    with tempfile.TemporaryFile() as f:
        a = np.memmap(f, dtype=np.float64, shape=X.shape, mode='w+')
        a[:] = X
        return a


def _readonly(X):
    X = X.copy()
    X.setflags(write=False)
    return X


def y_forms(y, r):
    y = np.asarray(y, dtype=float)
    n = len(y)
    out = {'list': y.tolist(), 'tuple': tuple(y.tolist()), 'series': pd.Series(y), 'series odd index':
           pd.Series(y, index=r.permutation(n) + 3), 'column': y.reshape(-1, 1), 'frame': pd.DataFrame({'t': y}),
           'categories': pd.Series(y, dtype='category'), 'object': y.astype(object), 'strided': np.repeat(y, 3)[::3], 'readonly': _readonly(y)}
    if np.all(y.astype(np.float32) == y):
        out['float32'] = y.astype(np.float32)
    if np.all(y == np.round(y)):
        for t in (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64):
            i = np.iinfo(t)
            if i.min <= y.min() and y.max() <= min(i.max, 2 ** 53):
                out['integer ' + t.__name__] = y.astype(t)
        out['integer list'] = [int(v) for v in y]
        out['integer series'] = pd.Series(y.astype(np.int64))
        if set(np.unique(y)) <= {0., 1.}:
            out['integer bool'] = y.astype(bool)
            out['integer bool list'] = [bool(v) for v in y]
    return out


def prior_forms(prior, r):
    v = np.asarray(prior, dtype=float)
    k = len(v)
    out = {'list': v.tolist(), 'tuple': tuple(v.tolist()), 'array': v.copy(), 'series': pd.Series(v), 'series odd index': pd.Series(v, index=np.arange(k) + 5),
           'series permuted index': pd.Series(v, index=r.permutation(k)), 'series named': pd.Series(v, index=['p{}'.format(j) for j in range(k)]),
           'strided': np.repeat(v, 2)[::2], 'backwards': v[::-1].copy()[::-1], 'object': v.astype(object), 'list of numpy numbers': list(v),
           'big endian': v.astype('>f8'), 'long double': v.astype(np.longdouble), 'index': pd.Index(v)}
    for t in (np.float16, np.float32, np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64):
        with np.errstate(all='ignore'):
            if np.all(v.astype(t).astype(float) == v) and (np.dtype(t).kind == 'f' or np.abs(v).max() < np.iinfo(t).max and (np.dtype(t).kind == 'i' or v.min() >= 0)):
                out[t.__name__] = v.astype(t)
    if np.all(v == np.round(v)):
        out['integer list'] = [int(x) for x in v]
    return out


def log_p(m):
    out, todo = [], [m]
    while todo:
        v = todo.pop()
        if not v.is_leaf():
            out += [v.log_p_data_no_split_, v.best_log_p_data_split_]
            todo += [v.child1_, v.child2_]
    return np.array(out, dtype=float)


def large(case, rec, r):
    """many rows, as arrays and sparse matrices: fine steps on a large offset, or hardly any entries at all"""
    mt = case['mt']
    n, d = int(r.choice([1100, 2050, 4100, 9000, 20001] + ([66000] if mt == 'PC' else []))), int(r.integers(2, 4))
    kw = {}
    if mt[0] == 'H' or r.random() < .4:
        # most rows are empty
        X = np.zeros((n, d))
        some = r.choice(n, max(12, int(n * d * r.choice([.003, .01, .03]))), replace=False) if mt[0] == 'H' else r.choice(n, n // 100, replace=False)
        X[some, r.integers(0, d, len(some))] = r.choice([-2., -1., 1., 2.], len(some))
        s = X.sum(axis=1)
        n = len(X)
        y = (s < 0).astype(int) if mt[1] == 'C' and r.random() < .5 else (s > 0).astype(int) if mt[1] == 'C' else np.round(s * 4 + r.integers(0, 3, n) * .125, 3)
        if mt[0] == 'H':
            kw['optimizer'] = gen.ho.RandomHyperplaneOptimizer(8, int(r.integers(1000)))
    else:
        X = r.normal(0, 1, (n, d)) * (r.random((n, d)) < .2)
        X[:, 0] = float(r.choice([1e3, -1e5])) + np.arange(n) * float(r.choice([1e-6, 2e-6]))
        k = np.arange(n) // (n // int(r.integers(3, 8)) + 1)
        y = k % 2 if mt[1] == 'C' else k * 2. % 7
        o = r.permutation(n)
        X, y = X[o], y[o]
    if mt[1] == 'C':
        y[0], y[1] = 0, 1
        kw['k'] = 2
    p = gen.problem(r, mt, X=X, y=y, pp=.9, **kw)
    m0 = p.model()
    rec.api('fit plain', m0.fit, X, y)
    s0, ref = view.signature(m0), m0.predict(X)
    few = r.integers(0, n, 500)
    forms = {'csr': csr_matrix(X), 'csc': csc_matrix(X), 'csr unsorted': _unsorted(csr_matrix(X)), 'fortran': np.asfortranarray(X),
             'frame': pd.DataFrame(X), 'big endian': X.astype('>f8'), 'object': X.astype(object)}
    if mt[1] == 'C' or mt[0] == 'P':
        forms['strided'] = np.repeat(X, 2, axis=0)[::2]
    for a, Z in forms.items():
        info = dict(form=a, rows=n, problem=p.describe())
        rec.event('large_variants')
        rec.nontrivial((case['i'], a))
        m = p.model()
        rec.api('fit X as ' + a, m.fit, Z, y)
        rec.check(view.same(s0, view.signature(m)), 'a different model for the same data in another form', plain=view.describe(m0, 400), other=view.describe(m, 400), **info)
        rec.check(np.allclose(rec.api('predict X as ' + a, m0.predict, Z), ref, rtol=1e-9, atol=1e-12), 'predictions depend on the form of the query', **info)
        Q = Z.iloc[few] if a == 'frame' else Z[few]
        rec.check(np.allclose(rec.api('predict some of X as ' + a, m.predict, Q), ref[few], rtol=1e-9, atol=1e-12), 'predictions depend on the form of the query', **info)


def run(case, rec):
    r = gen.rng(case)
    if case.get('large'):
        return large(case, rec, r)
    mt = case['mt']
    kw = {}
    hyper = mt[0] == 'H'
    xkind = case.get('xkind') or ('cont' if hyper else r.choice(gen.X_KINDS))
    n, d = case.get('n'), None
    if hyper:
        n, d = gen.sometimes(r, [8, 20, 50], [260, 300]), gen.sometimes(r, [2, 3, 4], [9, 12, 20])
        kw['optimizer'] = gen.make_optimizer(r, mt == 'HC', name=r.choice(['random', 'quasi']) if n > 200 or d > 8 else None)
    X = gen.make_X(r, xkind, n, d)
    if case.get('bigint'):
        # integers whose differences, squares and sums overflow their own dtype
        X = r.choice([-120, -100, 100, 127, -32000, 32000, 2 ** 31 - 1, -2 ** 31], X.shape).astype(float)
        if r.random() < .5:
            X = np.abs(X) % 256
        if r.random() < .4:
            # multiples of a power of two that only the widest integers hold, also beyond the signed ones
            X = r.integers(0, 64, X.shape) * 2. ** 58
            if r.random() < .5:
                X -= 2. ** 63
    if hyper and r.random() < .3:
        X = X * (r.random(X.shape) < .9)
        X[np.abs(X).sum(axis=1) == 0] = r.normal(0, 1, X.shape[1])
        if len(np.unique(X, axis=0)) < len(X):
            X = r.normal(0, 1, X.shape)
    y = None
    if mt[1] == 'R':
        y = np.round(gen.make_y_reg(r, X) * 8) / 8
        if r.random() < .4 or case.get('bigint'):
            y = np.round(y)
        if case.get('bigint'):
            y = y * 25
    if hyper and n > 200:
        # (every form is a training of its own)
        kw['pp'] = float(r.choice([.5, .9]))
        setattr(kw['optimizer'], 'n' if hasattr(kw['optimizer'], 'n') else 'n_mc', 5)
    p = gen.problem(r, mt, X=X, y=y, **kw)
    if p.kind == 'reg' and p.params['prior'] is not None:
        q = [round(float(v) * 64) / 64 for v in p.params['prior']]
        p.params['prior'] = [q[0], max(q[1], .25), max(q[2], .25), max(q[3], 1 / 64)]
    m0 = p.model()
    rec.api('fit plain', m0.fit, p.X, p.y.astype(float))
    s0 = view.signature(m0)
    Q = gen.queries(r, p.X, view.tree(m0), 20)
    if hyper:
        _, near = view.route(view.tree(m0), Q)
        Q = Q[~near]
    fn = 'predict_proba' if p.kind == 'cls' else 'predict'
    ref = getattr(m0, fn)(p.X)
    refQ = getattr(m0, fn)(Q)
    fi0 = m0.feature_importance()
    xf, yf = x_forms(p.X, r), y_forms(p.y, r)
    pairs = [(a, None) for a in xf] + [(None, b) for b in yf]
    pairs += [(str(r.choice(list(xf))), str(r.choice(list(yf)))) for _ in range(5)]
    for a, b in pairs:
        X, y = (xf[a] if a else p.X), (yf[b] if b else p.y)
        what = 'X as {}, y as {}'.format(a, b)
        info = dict(form=what, problem=p.describe())
        m = p.model()
        rec.event('variants')
        if len(s0) > 1:
            rec.event('variants_split')
            rec.nontrivial((case['i'], a, b))
        if 'cs' in str(a):
            rec.event('sparse_variants')
        if 'integer' in what:
            rec.event('integer_variants')
        if hyper:
            rec.event('hyper_variants')
        back = rec.api('fit ' + what, m.fit, X, y)
        rec.check(back is m, 'fit does not return the model', **info)
        rec.check(view.same(s0, view.signature(m)), 'a different model for the same data in another form',
                  plain=view.describe(m0), other=view.describe(m), **info)
        got = rec.api('predict', getattr(m, fn), p.X)
        rec.check(np.allclose(got, ref, rtol=1e-9, atol=1e-12), 'different predictions', **info)
        got = rec.api('feature_importance', m.feature_importance)
        rec.check(np.allclose(got, fi0, rtol=1e-6, atol=1e-6), 'different feature importance', got=got, plain=fi0, **info)
        if a:
            got = rec.api('predict X as ' + a, getattr(m0, fn), X)
            rec.check(np.shape(got) == np.shape(ref) and np.allclose(got, ref, rtol=1e-9, atol=1e-12),
                      'predictions depend on the form of the query', **info)
    if p.params['prior'] is not None:
        g0, raw0 = log_p(m0), m0.feature_importance()
        for a, prior in prior_forms(p.params['prior'], r).items():
            m = p.model(prior=prior)
            rec.api('fit with the prior as ' + a, m.fit, p.X, p.y)
            rec.event('prior_forms')
            info = dict(form=a, problem=p.describe())
            rec.check(view.same(s0, view.signature(m)), 'a different model for the same prior in another form', plain=view.describe(m0),
                      other=view.describe(m), **info)
            g = log_p(m)
            rec.check(g.shape == g0.shape and np.allclose(g, g0, rtol=1e-10, atol=1e-10), 'a different evidence for the same prior in another form',
                      plain=g0[:8], other=g[:8], **info)
            rec.check(hyper or str(m) == str(m0), 'a different text for the same prior in another form', plain=str(m0)[:300], other=str(m)[:300], **info)
            got = rec.api('predict', getattr(m, fn), p.X)
            rec.check(type(got) is type(ref) and got.dtype == ref.dtype and np.allclose(got, ref, rtol=1e-9, atol=1e-12), 'different predictions', **info)
    for a, Qf in x_forms(Q, r).items():
        got = rec.api('predict Q as ' + a, getattr(m0, fn), Qf)
        rec.event('query_forms')
        rec.check(np.allclose(got, refQ, rtol=1e-9, atol=1e-12), 'predictions depend on the form of the query', form=a,
                  problem=p.describe())
    rec.sample({'case': case, 'forms': list(xf), 'y_forms': list(yf), 'tree': view.describe(m0, 200)})
