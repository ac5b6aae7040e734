"""C07: prediction paths list exactly the decisions that lead each row to its leaf."""
import numpy as np
import pandas as pd
from scipy.sparse import csr_matrix, csc_matrix

from mon import gen, view

RULE = ('random (mostly deep) perpendicular trees x query rows in several formats and orders; each returned step is '
        'compared with the independent walk; non-trivial = path with at least 2 steps; distinct by (case, row)')
MINIMUM = {'wide_problems': 10, 'paths': 10000, 'paths_len_ge_3': 2000, 'empty_paths': 20, 'large_batches': 4}


def plan(tier, seed):
    f = 12 if tier == 'quick' else 60
    return gen.plan(seed, [(120 * f, {'mt': 'PC'}), (120 * f, {'mt': 'PR'}), (60 * f, {'mt': 'PC', 'how': 'deep'}),
                           (60 * f, {'mt': 'PR', 'how': 'deep'}),
                           (2 * f, {'mt': 'PC', 'large': 1}), (2 * f, {'mt': 'PR', 'large': 1}),
                           (f, {'mt': 'PC', 'wide': 1}), (f, {'mt': 'PR', 'wide': 1})])


def name_form(names, r):
    """the same names in any kind of sequence"""
    d = len(names)
    return [list(names), tuple(names), np.array(names), np.array(names, dtype=object), pd.Index(names), pd.Series(names), pd.Series(names, index=r.permutation(d)),
            pd.Series(['left out'] + list(names)).iloc[1:], pd.Series(names, index=['i{}'.format(j) for j in range(d)]),
            pd.Series(names, index=-1 - np.arange(d)), pd.DataFrame(columns=names).columns][int(r.integers(11))]


def run(case, rec):
    r = gen.rng(case)
    kw = {}
    if case.get('how'):
        kw = dict(how='deep', n=int(r.choice([60, 120, 250])), d=int(r.integers(2, 5)), pp=float(r.choice([.99, .9999])),
                  xkind=r.choice(['cont', 'grid', 'int', 'mixed', 'sparse']))
    if case.get('large'):
        return large(case, rec, r)
    if case.get('wide'):
        p = gen.wide(r, case['mt'])
        rec.event('wide_problems')
    else:
        p = gen.problem(r, case['mt'], **kw)
    m = p.model()
    d = p.X.shape[1]
    names = ['x{}'.format(j) for j in range(d)]
    form = r.choice(['plain', 'names', 'frame'])
    if form == 'plain':
        rec.api('fit', m.fit, p.X, p.y)
    elif form == 'names':
        names = ['feature {}'.format(chr(65 + j)) for j in range(d)]
        rec.api('fit', m.fit, p.X, p.y, feature_names=name_form(names, r))
    else:
        names = ['col{}'.format(j * 3) for j in range(d)]
        rec.api('fit', m.fit, pd.DataFrame(p.X, columns=names), p.y)
    root = view.tree(m)
    Q = gen.queries(r, p.X, root)
    Q = Q[r.permutation(len(Q))]
    info = dict(problem=p.describe())
    expected = [walk(root, q) for q in Q]
    for what, data, idx in (('dense', Q, range(len(Q))), ('csr', csr_matrix(Q), range(len(Q))),
                            ('csc', csc_matrix(Q), range(len(Q))), ('frame', pd.DataFrame(Q), range(len(Q))),
                            ('list', Q.tolist(), range(len(Q))),
                            ('reversed', Q[::-1], range(len(Q) - 1, -1, -1)), ('one', Q[3:4], [3]), ('sample', Q[5], [5]),
                            ('few', Q[[7, 2, 2, 11]], [7, 2, 2, 11])):
        paths = rec.api('prediction_paths ' + what, m.prediction_paths, data)
        if not rec.check(len(paths) == len(idx), 'not one path per row', form=what, **info):
            continue
        for path, i in zip(paths, idx):
            e = expected[i]
            rec.event('paths')
            if what == 'dense':
                if len(e) >= 2:
                    rec.nontrivial((case['i'], i))
                rec.event('paths_len_ge_3', len(e) >= 3)
                rec.event('empty_paths', len(e) == 0)
            got = [tuple(s) for s in path]
            ok = len(got) == len(e) and all(len(g) == 4 and g[0] == s[0] and str(g[1]) == names[g[0]] and g[2] == s[1] and bool(g[3]) == s[2]
                                            for g, s in zip(got, e))
            if not rec.check(ok, 'the path of a row is not the sequence of decisions that leads it to its leaf',
                             form=what, row=Q[i], got=got, expected=e, **info):
                break
    rec.sample({'case': case, 'path': [list(map(str, s)) for s in paths[0]], 'tree': view.describe(m, 200)})


def large(case, rec, r):
    """as many rows as fit into one call (sizes around the limits of index types): every row gets the path of its values"""
    p = gen.problem(r, case['mt'], n=60, d=2, pp=.99, xkind=str(r.choice(['cont', 'grid', 'int'])), how='deep')
    m = p.model()
    rec.api('fit', m.fit, p.X, p.y)
    root = view.tree(m)
    few = gen.queries(r, p.X, root)
    n = int(r.choice([255, 257, 4097, 32769, 65535, 65536, 65537, 70001, 100003]))
    idx = r.integers(0, len(few), n)
    expected = [walk(root, q) for q in few]
    Q = few[idx]
    how = str(r.choice(['dense', 'frame', 'csr', 'fortran']))
    data = {'dense': Q, 'frame': pd.DataFrame(Q), 'csr': csr_matrix(Q), 'fortran': np.asfortranarray(Q)}[how]
    paths = rec.api('prediction_paths', m.prediction_paths, data)
    rec.event('large_batches')
    info = dict(rows=n, form=how, problem=p.describe())
    if not rec.check(len(paths) == n, 'not one path per row', **info):
        return
    for i, path in enumerate(paths):
        e = expected[idx[i]]
        rec.event('paths')
        rec.event('paths_len_ge_3', len(e) >= 3)
        if not rec.check(len(path) == len(e) and all((g[0], g[2], bool(g[3])) == s for g, s in zip(path, e)),
                         'the path of a row is not the sequence of decisions that leads it to its leaf', row=Q[i], index=i, got=path, expected=e, **info):
            return
    small = rec.api('predict', m.predict, few)
    got = rec.api('predict', m.predict, data)
    rec.check(np.array_equal(np.asarray(got), np.asarray(small)[idx]), 'a large batch is predicted differently from its rows in a small one', **info)
    if p.kind == 'cls':
        rec.check(np.array_equal(m.predict_proba(data), m.predict_proba(few)[idx]), 'a large batch gets other probabilities than its rows in a small one', **info)
    rec.nontrivial((case['i'], n))


def walk(root, q):
    v, out = root, []
    while not v.leaf:
        right = not q[v.dim] < v.value
        out.append((v.dim, v.value, right))
        v = v.right if right else v.left
    return out
