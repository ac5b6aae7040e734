"""C04: a training row is predicted from the very leaf that counted it during training; leaves partition the
training rows."""
import copy

import numpy as np
from scipy.sparse import csr_matrix, csc_matrix

from mon import gen, view

RULE = ('random and adversarial data (ties, adjacent floats, offsets, sparse formats, hyperplanes through duplicates); '
        'leaves of a copy are tagged and the tags predicted for the training rows are compared with the counts and '
        'class counts the leaves collected in training; non-trivial = tree with a split; distinct by case')
MINIMUM = {'wide_problems': 10, 'split_trees': 300, 'leaves': 2000, 'rows': 20000, 'hyper_leaves': 300, 'tag_audits': 200}


def plan(tier, seed):
    f = 6 if tier == 'quick' else 60
    out = []
    for mt, n in (('PC', 120), ('PR', 120), ('HC', 70), ('HR', 70)):
        out += [(n * f, {'mt': mt}), (n // 3 * f, {'mt': mt, 'adv': 1}), (n // 4 * f, {'mt': mt, 'prune': 1})]
    out += [(1 * f, {'mt': 'PC', 'huge': 1}), (1 * f, {'mt': 'PR', 'huge': 1}), (1, {'mt': 'HC', 'huge': 1}), (1, {'mt': 'HR', 'huge': 1})]
    out += [(f, {'mt': mt, 'wide': 1}) for mt in gen.MODELS]
    return gen.plan(seed, out)


def adversarial_X(r):
    """neighbouring floats, huge magnitudes, tiny differences, signed zeros"""
    n, d = int(r.integers(4, 40)), int(r.integers(1, 4))
    X = np.empty((n, d))
    for j in range(d):
        base = float(r.choice([1., -1., 1e300, -1e300, 1e-300, 5e-324, 1e16, 0.1, 1 / 3]))
        c = [base]
        for _ in range(int(r.integers(1, 6))):
            c.append(np.nextafter(c[-1], np.inf))
        c += [0., -0., -base]
        X[:, j] = r.choice(c, n)
    return X


def run(case, rec):
    r = gen.rng(case)
    hyper = case['mt'][0] == 'H'
    kw = {}
    if case.get('adv'):
        X = adversarial_X(r)
        if hyper:
            X = gen.make_X(r, 'dup', int(r.integers(4, 60)), int(r.integers(2, 9))) * 10. ** r.integers(-3, 9) \
                + float(r.choice([0, 0, 1e3, 1e6]))
        kw['X'] = X
        kw['pp'] = .9999
    if case.get('huge') and hyper:
        kw = dict(X=gen.make_X(r, 'cont', int(r.integers(65500, 66000)), 3), pp=1e-6, how='oblique' if case['mt'] == 'HC' else 'step',
                  optimizer=gen.ho.RandomHyperplaneOptimizer(8, 1))
    elif case.get('huge'):
        kw = dict(X=gen.make_X(r, r.choice(['cont', 'sparse']), int(r.integers(65500, 66000)), 2), pp=.9,
                  how='xor' if case['mt'] == 'PC' else 'step')
    if case.get('wide'):
        p = gen.wide(r, case['mt'], prune=bool(case.get('prune')))
        rec.event('wide_problems')
    else:
        p = gen.problem(r, case['mt'], prune=bool(case.get('prune')), **kw)
    m = p.model()
    form = r.choice(['dense', 'dense', 'fortran', 'csr', 'csc'])
    X = {'dense': p.X, 'fortran': np.asfortranarray(p.X), 'csr': csr_matrix(p.X), 'csc': csc_matrix(p.X)}[form]
    rec.event('form_' + str(form))
    rec.api('fit', m.fit, X, p.y)
    root = view.tree(m, p.X)
    leaves = root.leaves()
    info = dict(form=str(form), problem=p.describe())
    n = len(p.X)
    rec.event('rows', n)
    rec.event('leaves', len(leaves))
    if hyper:
        rec.event('hyper_leaves', len(leaves))
    if len(leaves) > 1:
        rec.event('split_trees')
        rec.nontrivial(case['i'])
    # conservation
    for v in root:
        rec.check(v.node.n_data_ == len(v.rows), 'a node counts other rows than those its split sends there',
                  path=v.path, counted=v.node.n_data_, reached=len(v.rows), **info)
        if not v.leaf:
            rec.check(v.node.n_data_ == v.left.node.n_data_ + v.right.node.n_data_ and v.left.node.n_data_ > 0
                      and v.right.node.n_data_ > 0, 'the children of a split do not partition its rows',
                      path=v.path, n=v.node.n_data_, left=v.left.node.n_data_, right=v.right.node.n_data_, **info)
    rec.check(sum(v.node.n_data_ for v in leaves) == n, 'the leaves do not partition the training rows', **info)
    # prediction reaches the leaf that counted the row: class counts / counts out of the leaf's own statistics
    raw = None
    if p.kind == 'cls' and p.delta == 0 and not hyper:
        proba = rec.api('predict_proba', m.predict_proba, X)
        for group in groups(proba):
            # all leaves sharing these probabilities together must have counted these rows
            mine = [v for v in leaves if np.allclose(np.asarray(v.node.posterior_, float) / np.sum(v.node.posterior_),
                                                     proba[group[0]], rtol=1e-12, atol=0)]
            rec.event('count_audits')
            rec.check(sum(v.node.n_data_ for v in mine) == len(group), 'rows are predicted from a leaf that did not '
                      'count them', group=group[:20], counted=[v.node.n_data_ for v in mine], **info)
    # tag the leaves of a copy
    tagged = copy.deepcopy(m)
    tleaves = view.tree(tagged).leaves()
    k = len(p.prior)
    if p.kind == 'cls' and k < 2:
        return
    for t, v in enumerate(tleaves):
        w = (t + 1.) / (len(tleaves) + 1)
        v.node.posterior_ = np.r_[w, 1 - w, np.zeros(k - 2)] if p.kind == 'cls' else (float(t), 1., 1., 1.)
    if p.kind == 'cls':
        tags = rec.api('predict_proba', tagged.predict_proba, X)[:, 0] * (len(tleaves) + 1) - 1
    else:
        tags = rec.api('predict', tagged.predict, X)
    rounded = np.round(tags).astype(int)
    if np.abs(tags - rounded).max() > 1e-6 or rounded.min() < 0 or rounded.max() >= len(tleaves):
        rec.event('tags_not_observable')
        return
    rec.event('tag_audits')
    counted = np.array([v.node.n_data_ for v in leaves])
    routed = np.bincount(rounded, minlength=len(leaves))
    rec.check(np.array_equal(counted, routed), 'prediction routes training rows to other leaves than training did',
              counted=counted, routed=routed, **info)
    where, _ = view.route(root, p.X)
    rec.check(np.array_equal(where, rounded), 'prediction routes rows differently from the splits of the tree',
              rows=np.flatnonzero(where != rounded)[:10], **info)
    # class counts of each leaf
    if p.kind == 'cls' and p.delta == 0:
        for t, v in enumerate(leaves):
            c = np.array([(p.y[rounded == t] == i).sum() for i in range(k)])
            rec.check(np.allclose(np.asarray(v.node.posterior_, float) - p.prior, c, rtol=0, atol=1e-6 + 1e-9 * n),
                      'the class counts of a leaf are not those of the rows predicted from it',
                      leaf=t, counts=c, posterior=np.asarray(v.node.posterior_, float), **info)
    rec.sample({'case': case, 'form': str(form), 'leaf_counts': counted, 'tree': view.describe(m, 200)})


def groups(proba):
    d = {}
    for i, row in enumerate(proba):
        d.setdefault(np.round(row, 13).tobytes(), []).append(i)
    return list(d.values())
