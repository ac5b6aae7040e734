"""C05: prediction is a row-wise function: leaf posterior, normalised, independent of batch and call history."""
import numpy as np
import pandas as pd
from scipy.sparse import csr_matrix, csc_matrix

from mon import gen, view

RULE = ('random models x query rows (training rows, jitter, far away, on and next to thresholds) x batch compositions '
        '(whole, permuted, subsets, repeated, one by one, single 1-d sample) and formats; non-trivial = tree with a '
        'split; distinct by (case, query row)')
MINIMUM = {'scattered': 2000, 'wide_problems': 10, 'rows_on_planes': 2000, 'exact_ties': 300, 'large_batches': 8, 'rows': 20000, 'split_trees': 200, 'batches': 1500, 'hyper_trees': 50, 'changed_queries': 1000}
ASSUMPTIONS = ['query rows within 1e-9 (relative) of a hyperplane are not judged, unless all numbers are exact']


def plan(tier, seed):
    f = 12 if tier == 'quick' else 60
    return gen.plan(seed, [(130 * f, {'mt': 'PC'}), (110 * f, {'mt': 'PR'}), (60 * f, {'mt': 'HC'}), (60 * f, {'mt': 'HR'}),
                           (15 * f, {'mt': 'HC', 'plane': 1}), (15 * f, {'mt': 'HR', 'plane': 1})] + [(n, {'mt': mt, t: 1}) for mt in ('PC', 'PR', 'HC', 'HR') for t, n in (('large', 3), ('wide', 5))])


def on_planes(r, mt):
    d = int(r.integers(2, 5))
    p = gen.problem(r, mt, xkind='grid', d=d, n=int(r.choice([6, 20, 60])), optimizer=gen.Fixed([[0.] * d]))
    p.X = p.X * float(r.choice([1, 2, 2, -2]))
    N = [s * row for row in np.eye(d) for s in (1., -1.)]
    p.params['optimizer'] = gen.Fixed([N[j].tolist() for j in r.permutation(len(N))])
    return p


def run(case, rec):
    r = gen.rng(case)
    if case.get('plane'):
        p = on_planes(r, case['mt'])
    elif case.get('wide'):
        p = gen.wide(r, case['mt'])
        rec.event('wide_problems')
    else:
        p = gen.problem(r, case['mt'], **({'optimizer': gen.make_optimizer(r, case['mt'] == 'HC', name=r.choice(
            ['random', 'quasi']))} if case['mt'][0] == 'H' else {}))
    m = p.model()
    rec.api('fit', m.fit, p.X, p.y)
    root = view.tree(m, p.X)
    leaves = root.leaves()
    info = dict(problem=p.describe())
    Q = gen.queries(r, p.X, root)
    if case.get('large'):
        m_ = int(r.choice([1025, 4097, 10001, 65537]))
        Q = np.vstack([Q, Q[r.integers(0, len(Q), m_)] + r.normal(0, .1, (m_, Q.shape[1])) * np.abs(p.X).max(axis=0)])
        rec.event('large_batches')
    if case.get('plane'):
        on = []
        for v in root.splits()[:20]:
            q = p.X[r.integers(0, len(p.X), 5)].copy()
            j = int(np.argmax(np.abs(v.normal)))
            q[:, j] = v.origin[j]
            on.append(q)
        Q = np.vstack([Q[np.all(Q == np.floor(Q), axis=1) & np.all(np.abs(Q) < 1e6, axis=1)]] + on)
    where, near = view.route(root, Q)
    if case.get('plane'):
        # everything is exactly representable: rows on a plane belong to its front side
        rec.event('rows_on_planes', int(near.sum()))
        near[:] = False
    Q, where = Q[~near], where[~near]
    nq = len(Q)
    rec.event('rows', nq)
    if p.hyper:
        rec.event('hyper_trees')
    if len(leaves) > 1:
        rec.event('split_trees')
        for i in range(min(nq, 1000)):
            rec.nontrivial((case['i'], i))
    post = np.array([np.asarray(v.node.posterior_, dtype=float) for v in leaves])
    fns = [('predict', m.predict)]
    if p.kind == 'cls':
        fns.append(('predict_proba', m.predict_proba))
    for name, fn in fns:
        ref = rec.api(name, fn, Q)
        rec.check(isinstance(ref, np.ndarray) and len(ref) == nq and ref.ndim == (2 if name == 'predict_proba' else 1),
                  'wrong shape of the result', shape=np.shape(ref), **info)
        if name == 'predict_proba':
            rec.check(ref.shape == (nq, p.k), 'wrong number of classes', shape=ref.shape, **info)
            rec.check(np.all(ref >= 0) and np.all(np.abs(ref.sum(axis=1) - 1) < 1e-9), 'class probabilities are not a '
                      'distribution', got=ref[:5], **info)
            rec.check(np.all(ref > 0), 'a class with positive prior has probability 0', **info)
            e = (post / post.sum(axis=1, keepdims=True))[where]
            pred = rec.api('predict', m.predict, Q)
            rec.check(np.array_equal(ref[np.arange(nq), pred.astype(int)], ref.max(axis=1)),
                      'predict is not the most probable class of predict_proba', **info)
        elif p.kind == 'cls':
            rec.check(set(np.unique(ref)) <= set(range(p.k)), 'predicted something that is not a class', got=np.unique(ref), **info)
            e = post.argmax(axis=1)[where].astype(float)
            tie = np.sort(post, axis=1)
            if p.k > 1:
                # the first of exactly equal ones; nearly equal ones are not judged
                gap = tie[:, -1] - tie[:, -2]
                close = (post.max(axis=1, keepdims=True) - post <= 1e-9 * post.max(axis=1, keepdims=True)) & (post != post.max(axis=1, keepdims=True))
                ok = ~close.any(axis=1)[where]
                rec.event('exact_ties', int((gap == 0)[where].sum()))
                ref_ = np.where(ok, ref, e)
                rec.check(np.array_equal(ref_, e), 'predict is not the most probable class of the leaf', **info)
            e = ref
        else:
            rec.check(np.all(np.isfinite(ref)), 'predicted value is not finite', got=ref[:10], **info)
            e = post[:, 0][where]
        rec.check(np.allclose(ref, e, rtol=1e-9, atol=1e-12 * (1 + np.abs(e).max())), name + ' does not return the posterior '
                  'of the leaf the row falls into', rows=np.flatnonzero(~np.all(np.isclose(np.atleast_2d(ref.T), np.atleast_2d(e.T),
                                                                                          rtol=1e-9), axis=0))[:10], **info)
        # batches
        perm = r.permutation(nq)
        sub = r.integers(0, nq, int(r.integers(1, nq)))
        dup = np.repeat(r.integers(0, nq, 3), 7)
        batches = {'permuted': (Q[perm], perm), 'subset': (Q[sub], sub), 'repeated': (Q[dup], dup), 'again': (Q, slice(None)),
                   'csr': (csr_matrix(Q), slice(None)), 'csc': (csc_matrix(Q), slice(None)),
                   'csr subset': (csr_matrix(Q[sub]), sub), 'csc single': (csc_matrix(Q[:1]), slice(0, 1)),
                   'csr single': (csr_matrix(Q[:1]), slice(0, 1)),
                   'fortran': (np.asfortranarray(Q), slice(None)), 'list': (Q.tolist(), slice(None)),
                   'strided': (np.repeat(Q, 2, axis=0)[::2], slice(None)), 'negative stride': (Q[::-1], slice(None, None, -1))}
        for b, (data, idx) in batches.items():
            rec.event('batches')
            got = rec.api(name + ' on batch ' + b, fn, data)
            rec.check(np.array_equal(got, ref[idx]), 'the prediction of a row depends on the batch it is in', batch=b,
                      fn=name, **info)
        # a few rows among many empty ones, and one of another magnitude
        some = r.integers(0, nq, 3)
        Z = np.zeros((int(r.choice([30, 300, 1500])) * Q.shape[1], Q.shape[1]))
        at = r.permutation(len(Z))[:4]
        Z[at[:3]] = Q[some]
        if not p.hyper:
            Z[at[3], r.integers(Q.shape[1])] = float(r.choice([1., -1.])) * 10. ** r.integers(0, 15) * (1 + np.abs(Q).max())
        zero = rec.api(name + ' of an empty row', fn, np.zeros((1, Q.shape[1])))
        for b, data in (('csr', csr_matrix(Z)), ('csc', csc_matrix(Z)), ('array', Z)):
            rec.event('scattered')
            got = rec.api(name + ' on scattered rows, ' + b, fn, data)
            empty = np.ones(len(Z), dtype=bool)
            empty[at] = False
            rec.check(np.array_equal(got[at[:3]], ref[some]) and bool(np.all(got[empty] == zero)), 'the prediction of a row depends on the batch it is in',
                      batch='scattered among empty rows', form=b, rows=len(Z), fn=name, **info)
        # the same object with other contents
        for b, make in (('array', np.array), ('csr', csr_matrix), ('frame', lambda Z: pd.DataFrame(Z.copy()))):
            q = make(Q)
            rec.api(name + ' before a change', fn, q)
            if b == 'array':
                q[:] = q[::-1].copy()
            elif b == 'frame':
                q.iloc[:, :] = Q[::-1]
            else:
                back = csr_matrix(Q[::-1])
                if len(back.data) != len(q.data):
                    continue
                q.data[:], q.indices[:], q.indptr[:] = back.data, back.indices, back.indptr
            rec.event('changed_queries')
            got = rec.api(name + ' after a change', fn, q)
            rec.check(np.array_equal(got, ref[::-1]), 'the prediction of a row depends on what the same object contained in an earlier call',
                      form=b, fn=name, rows=nq, **info)
        for i in r.integers(0, nq, 6):
            rec.event('batches')
            one = rec.api(name + ' one row', fn, Q[i:i + 1])
            flat = rec.api(name + ' one sample', fn, Q[i])
            rec.check(np.array_equal(one, ref[i:i + 1]) and np.array_equal(flat, ref[i:i + 1]),
                      'the prediction of a row alone differs from its prediction in a batch', row=Q[i], fn=name, **info)
    for nothing in (np.zeros((0, p.X.shape[1])), csr_matrix((0, p.X.shape[1])), csc_matrix((0, p.X.shape[1]))):
        empty = rec.api('predict no rows', m.predict, nothing)
        rec.check(np.shape(empty) == (0,), 'prediction for no rows', got=empty, **info)
        if p.kind == 'cls':
            empty = rec.api('predict_proba no rows', m.predict_proba, nothing)
            rec.check(np.shape(empty) == (0, p.k), 'probabilities for no rows', shape=np.shape(empty), **info)
        if not p.hyper:
            rec.check(len(rec.api('prediction_paths no rows', m.prediction_paths, nothing)) == 0, 'paths for no rows', **info)
        rec.event('empty_batches')
    rec.sample({'case': case, 'queries': nq, 'leaves': len(leaves), 'tree': view.describe(m, 200)})
