"""C16: numerically hostile but legal data does not break the tree."""
import numpy as np
from scipy.sparse import csr_matrix

from mon import gen, oracle, view
from mon.checks import c01, c04

RULE = ('data with large common offsets, outliers, neighbouring and extreme floats, extreme priors and partition priors, '
        'row counts around 2^16: audited against the extended-precision reference; non-trivial = audited node or '
        'offset pair of a tree with a split; distinct by (case, node)')
MINIMUM = {'nodes': 3000, 'offset_pairs': 150, 'convex_rows': 5000, 'boundary_fits': 3, 'extreme_priors': 100,
           'tiny_partition_priors': 60, 'splits_below_float_range': 25, 'depth_ge_90': 4, 'weak_priors': 200, 'weak_splits': 120}
ASSUMPTIONS = ['squares of targets and products of features do not overflow']


def plan(tier, seed):
    f = 5 if tier == 'quick' else 40
    return gen.plan(seed, [(120 * f, {'what': 'offset', 'mt': 'PR'}), (40 * f, {'what': 'offset', 'mt': 'HR'}),
                           (80 * f, {'what': 'outlier', 'mt': 'PR'}), (60 * f, {'what': 'floats', 'mt': 'PC'}),
                           (60 * f, {'what': 'floats', 'mt': 'PR'}), (60 * f, {'what': 'prior', 'mt': 'PC'}),
                           (60 * f, {'what': 'prior', 'mt': 'PR'}), (20 * f, {'what': 'prior', 'mt': 'HC'}),
                           (20 * f, {'what': 'prior', 'mt': 'HR'}), (40 * f, {'what': 'hyperscale', 'mt': 'HC'}),
                           (40 * f, {'what': 'hyperscale', 'mt': 'HR'}), (30 * f, {'what': 'peel', 'mt': 'PR'}), (40 * f, {'what': 'weak', 'mt': 'PR'}), (10 * f, {'what': 'weak', 'mt': 'HR'}),
                           (30 * f, {'what': 'peel', 'mt': 'PC'}),
                           (6 * f, {'what': 'partition', 'mt': 'PC'}), (6 * f, {'what': 'partition', 'mt': 'PR'}),
                           (3 * f, {'what': 'partition', 'mt': 'HC'}), (3 * f, {'what': 'partition', 'mt': 'HR'})] +
                    [(1 if tier == 'quick' else 6, {'what': 'boundary', 'mt': mt, 'n': n}) for mt in ('PC', 'PR')
                     for n in (65535, 65536, 65537, 131072 + 3)] +
                    [(2 if tier == 'quick' else 10, {'what': 'deep', 'mt': mt}) for mt in ('PC', 'PR', 'HC')] +
                    [(1, {'what': 'known', 'mt': 'PC'})])


def run(case, rec):
    r = gen.rng(case)
    globals()['do_' + case['what']](case, rec, r)


def convex(rec, p, m, info):
    """posterior mean of a leaf lies between the prior mean and its targets"""
    y = p.y.astype(float)
    root = view.tree(m, p.X, p.kind, y, p.prior, p.delta)
    pred = rec.api('predict', m.predict, p.X)
    rec.check(np.all(np.isfinite(pred)), 'prediction is not finite', **info)
    for v in root.leaves():
        if len(v.rows) == 0:
            rec.violation('empty leaf', **info)
            continue
        rec.event('convex_rows', len(v.rows))
        mu = float(v.prior[0])
        lo, hi = min(mu, y[v.rows].min()), max(mu, y[v.rows].max())
        s = 1e-12 * max(abs(float(p.prior[0])), np.abs(y).max())
        rec.check(np.all(pred[v.rows] >= lo - s) and np.all(pred[v.rows] <= hi + s), 'a predicted value is outside of the '
                  'range of the prior mean and the targets of its leaf', path=v.path, lo=lo, hi=hi, pred=pred[v.rows][:5], **info)
        post = np.asarray(v.node.posterior_, dtype=float)
        rec.check(np.all(np.isfinite(post)) and np.all(post[1:] > 0), 'posterior is not proper', path=v.path, posterior=post, **info)


def do_offset(case, rec, r):
    """an exactly representable offset of targets and prior mean shifts predictions and changes nothing else"""
    hyper = case['mt'][0] == 'H'
    kw = {'optimizer': gen.make_optimizer(r, False, name='random'), 'xkind': 'cont'} if hyper else {'xkind': r.choice(['cont', 'mixed', 'offset'])}
    X = gen.make_X(r, kw.pop('xkind'), int(r.choice([10, 40, 150])))
    y = np.round(gen.make_y_reg(r, X, r.choice(['step', 'stairs', 'noise', 'xor', 'deep'])) * 64) / 64
    p = gen.problem(r, case['mt'], X=X, y=y, prune=False, delta=0., allow_none_prior=False, **kw)
    n0 = float(r.choice([.5, 1., 4.]))
    mu = float(np.round(y.mean() * 64) / 64)
    prior = [mu, n0, n0 / 2, max(1 / 1024, float(np.round(n0 / 2 * y.var() * .05 * 1024) / 1024))]
    a = p.model(prior=prior)
    rec.api('fit', a.fit, X, y)
    off = float(2. ** r.integers(10, 40) * r.choice([-1, 1]))
    p2 = [mu + off] + prior[1:]
    if not np.array_equal((y + off) - (mu + off), y - mu):
        return
    b = p.model(prior=p2)
    rec.api('fit with offset', b.fit, X, y + off)
    A, B = view.tree(a, X), view.tree(b, X)
    info = dict(offset=off, prior=prior, problem=p.describe())
    rec.event('offset_pairs')
    if not A.leaf:
        rec.nontrivial((case['i'], 'offset'))
    same = len(list(A)) == len(list(B)) and all(u.leaf == v.leaf and np.array_equal(u.rows, v.rows) for u, v in zip(A, B))
    rec.check(same, 'a common offset of the targets and the prior changes the tree', without=view.describe(a), with_offset=view.describe(b), **info)
    if same:
        pa, pb = a.predict(X), b.predict(X)
        rec.check(np.abs(pb - off - pa).max() <= 4 * np.spacing(abs(off) + np.abs(pa).max()), 'a common offset loses precision '
                  'of the predictions', worst=np.abs(pb - off - pa).max(), **info)
        for u, v in zip(A, B):
            rec.event('nodes')
            rec.check(np.allclose(np.asarray(u.node.posterior_, float)[1:], np.asarray(v.node.posterior_, float)[1:], rtol=1e-9),
                      'a common offset changes posteriors', path=u.path, **info)


def do_outlier(case, rec, r):
    X = gen.make_X(r, r.choice(['cont', 'grid', 'mixed']))
    y = gen.make_y_reg(r, X, r.choice(['step', 'stairs', 'noise']))
    for _ in range(int(r.integers(1, 3))):
        y[r.integers(len(y))] = float(r.choice([1e4, -1e6, 1e8, 1e-12]))
    p = gen.problem(r, 'PR', X=X, y=y, prune=False)
    m = p.model()
    rec.api('fit', m.fit, p.X, p.y)
    convex(rec, p, m, dict(problem=p.describe()))
    c01.audit(rec, case, p, m)


def do_floats(case, rec, r):
    X = c04.adversarial_X(r)
    p = gen.problem(r, case['mt'], X=X, prune=False, pp=float(r.choice([.9, .9999])))
    m = p.model()
    rec.api('fit', m.fit, csr_matrix(X) if r.random() < .3 else X, p.y)
    info = dict(problem=p.describe())
    for v in view.tree(m, X):
        rec.event('nodes')
        if v.leaf:
            continue
        rec.nontrivial((case['i'], v.path))
        rec.check(v.left.node.n_data_ == len(v.left.rows) and v.right.node.n_data_ == len(v.right.rows)
                  and len(v.left.rows) and len(v.right.rows), 'the split value does not separate the rows it was made for', path=v.path,
                  value=v.value, values=np.unique(X[v.rows, v.dim]), **info)
        rec.check(np.isfinite(v.value), 'split value is not finite', path=v.path, **info)
        u = np.unique(X[v.rows, v.dim])
        below, above = u[u < v.value], u[u >= v.value]
        if len(below) and len(above):
            mid = float((oracle.LD(below[-1]) + oracle.LD(above[0])) / 2)
            rec.check(abs(v.value - mid) <= 2 * np.spacing(max(abs(below[-1]), abs(above[0]))), 'the split value is not midway',
                      value=v.value, mid=mid, **info)
    if p.kind == 'reg':
        convex(rec, p, m, info)


def do_prior(case, rec, r):
    mt = case['mt']
    kw = {'optimizer': gen.make_optimizer(r, mt == 'HC', name='random'), 'xkind': 'cont'} if mt[0] == 'H' else {}
    p = gen.problem(r, mt, prune=False, pp=float(r.choice([1e-9, 1e-3, .5, .999999, 1 - 1e-12])), **kw)
    if p.kind == 'cls':
        p.prior = 10. ** r.uniform(-6, 6, p.k) if r.random() < .5 else np.full(p.k, 10. ** r.uniform(-8, 8))
    else:
        s = float(np.std(p.y)) or 1.
        p.prior = np.array([float(np.mean(p.y)) + s * float(r.choice([0, 1, -20.])), 10. ** r.uniform(-6, 4), 10. ** r.uniform(-3, 4),
                            s * s * 10. ** r.uniform(-8, 4)])
    p.params['prior'] = p.prior.tolist()
    rec.event('extreme_priors')
    m = p.model()
    rec.api('fit', m.fit, p.X, p.y)
    info = dict(problem=p.describe())
    if p.kind == 'cls':
        pr = rec.api('predict_proba', m.predict_proba, p.X)
        rec.check(np.all(np.isfinite(pr)) and np.all(pr > 0) and np.abs(pr.sum(axis=1) - 1).max() < 1e-9, 'probabilities', got=pr[:5], **info)
    else:
        convex(rec, p, m, info)
    fi = rec.api('feature_importance', m.feature_importance)
    rec.check(np.all(np.isfinite(fi)) and np.all(fi >= 0) and (m.is_leaf() or abs(fi.sum() - 1) < 1e-6 or not fi.any() and m.get_n_leaves() == 2), 'feature importance', got=fi, **info)
    if mt[0] == 'P':
        c01.audit(rec, case, p, m)


def do_weak(case, rec, r):
    """a prior so weak that it says nothing, and targets far away from its mean"""
    hyper = case['mt'][0] == 'H'
    n, d = gen.sometimes(r, [20, 60, 150, 400], [1500, 3000], .06), int(r.integers(1, 4)) + hyper
    X = gen.make_X(r, 'cont' if hyper else str(r.choice(['cont', 'grid', 'mixed'])), n, d)
    step = float(r.choice([.3, 1., 3., 30.]))
    y = step * np.floor(gen._rank(X[:, 0]) * int(r.integers(1, 5))) + r.normal(0, float(r.choice([.01, 1.])), n)
    if r.random() < .2:
        y[r.integers(n)] += 1e6
    if r.random() < .3:
        y = y * 10. ** r.integers(-6, 7)
    y = y + float(r.choice([0, 1e2, -1e4, 1e6, -1e9, 1e12])) * (np.abs(y).max() if r.random() < .2 else 1.)
    kw = {'optimizer': gen.make_optimizer(r, False, name='random')} if hyper else {}
    # (delta > 0: the rounded posterior of a parent is the prior of its children, so that they cannot be more exact than that)
    p = gen.problem(r, case['mt'], X=X, y=y, prune=False, delta=0., pp=float(r.choice([.1, .9, .99])), allow_none_prior=False, **kw)
    kappa = 10. ** r.uniform(-15, -2)
    p.prior = np.array([float(r.choice([0., 1., y[0]])), kappa, float(r.choice([kappa, 1e-3, .5, 1.])), float(r.choice([1e-6, 1.])) * (float(y.std()) or 1.) ** 2])
    p.params['prior'] = p.prior.tolist()
    rec.event('weak_priors')
    m = p.model()
    rec.api('fit', m.fit, X, y)
    rec.event('weak_splits', m.get_n_leaves() - 1)
    info = dict(problem=p.describe())
    convex(rec, p, m, info)
    root = view.tree(m, X, 'reg', y, p.prior, p.delta)
    for v in root:
        yn = y[v.rows]
        want = np.asarray(oracle.posterior('reg', v.prior, yn), dtype=float)
        got = np.asarray(v.node.posterior_, dtype=float)
        near = abs(got[0] - want[0]) <= 1e-14 * max(abs(p.prior[0]), np.abs(yn).max()) * np.sqrt(len(yn)) + 1e-11 * yn.std() and np.allclose(got[1:], want[1:], rtol=1e-7)
        if not rec.check(near, 'the posterior under a weak prior is not the one of the rows', path=v.path, got=got, expected=want, **info):
            return
    if not hyper:
        c01.audit(rec, case, p, m)


def do_hyperscale(case, rec, r):
    """hyperplanes far from the origin, badly scaled, many duplicates: rows stay on the side that counted them"""
    mt = case['mt']
    X = gen.make_X(r, r.choice(['cont', 'dup', 'int', 'grid']), int(r.choice([10, 40, 80])), int(r.integers(2, 9)))
    X = X * 10. ** float(r.choice([-100, -12, 0, 0, 8, 100])) * (1 if r.random() < .5 else 10. ** r.uniform(-6, 6, X.shape[1]))
    if r.random() < .5:
        X = X + np.abs(X).max() * float(r.choice([1, 1e3, 1e6, 1e9]))
    p = gen.problem(r, mt, X=X, prune=False, pp=.9999, optimizer=gen.make_optimizer(r, mt == 'HC', name=r.choice(['random', 'quasi'])))
    m = p.model()
    rec.api('fit', m.fit, X, p.y)
    info = dict(problem=p.describe())
    distinct = {}
    for v in view.tree(m, X):
        rec.event('nodes')
        rec.event('hyper_nodes')
        rec.check(v.node.n_data_ == len(v.rows), 'a hyperplane does not separate the rows it was made for', path=v.path,
                  counted=v.node.n_data_, reached=len(v.rows), **info)
        if v.leaf:
            for row in map(bytes, X[v.rows]):
                rec.check(distinct.setdefault(row, v.path) == v.path, 'identical rows end up in different leaves', **info)
        else:
            rec.nontrivial((case['i'], v.path))
    if p.kind == 'reg':
        convex(rec, p, m, info)


def do_peel(case, rec, r):
    """long one-sided trees"""
    n = int(r.integers(20, 70))
    X = np.arange(n, dtype=float).reshape(-1, 1)
    if r.random() < .5:
        X = np.c_[X, r.normal(0, 1, n)]
    if case['mt'] == 'PR':
        y = 1.7 ** np.arange(n) * (1 + .01 * r.normal(0, 1, n))
        p = gen.problem(r, 'PR', X=X, y=y, prune=False, pp=1 - 1e-9, delta=0. if n > 28 else None)
        p.prior = np.array([0., 1., .5, 1e-6])
        p.params['prior'] = p.prior.tolist()
    else:
        y = np.arange(n) % 2
        p = gen.problem(r, 'PC', X=X, y=y, k=2, prune=False, pp=1 - 1e-9)
        p.prior = np.array([.01, .01])
        p.params['prior'] = p.prior.tolist()
    m = p.model()
    rec.api('fit', m.fit, p.X, p.y)
    rec.event('peel_depth_ge_10', m.get_depth() >= 10)
    rec.api('str', str, m)
    rec.api('paths', m.prediction_paths, p.X)
    c01.audit(rec, case, p, m)


def alternating(n):
    """the deepest tree there is: each split separates one row"""
    X = np.arange(n, dtype=float)[:, None]
    y = np.arange(n) % 2
    return X, y


def do_deep(case, rec, r):
    """trees a few hundred levels deep work in all respects"""
    n = int(r.integers(100, 200))
    X, y = alternating(n)
    kw = {}
    if case['mt'] == 'PR':
        # for values: all of the same leaf evidence, so that each split separates one row
        y = 1.05 ** np.arange(n) * (1 + .01 * r.normal(0, 1, n))
        p = gen.problem(r, 'PR', X=X, y=y, prune=False, pp=1 - 1e-9, delta=0.)
        p.prior = np.array([0., 1., .5, 1e-9])
    else:
        if case['mt'] == 'HC':
            kw = {'optimizer': gen.make_optimizer(r, True, name='random')}
        p = gen.problem(r, case['mt'], X=X, y=y, k=2, prune=False, pp=1 - 1e-9, delta=0., **kw)
        p.prior = np.array([.01, .01])
    p.params['prior'] = p.prior.tolist()
    m = p.model()
    rec.api('fit', m.fit, p.X, p.y)
    depth = rec.api('depth', m.get_depth)
    rec.event('depth_ge_90', depth >= 90)
    info = dict(n=n, depth=depth)
    text = rec.api('str', str, m)
    rec.check(len(text.splitlines()) >= 2 * m.get_n_leaves() - 1, 'the text of a deep tree is incomplete', **info)
    if case['mt'][0] == 'P':
        paths = rec.api('paths', m.prediction_paths, p.X)
        rec.check(max(map(len, paths)) == depth, 'the paths of a deep tree are not as long as the tree is deep', longest=max(map(len, paths)), **info)
    pred = rec.api('predict', m.predict, p.X)
    if p.kind == 'cls':
        rec.check(np.array_equal(pred, y), 'a deep tree does not predict its training rows', **info)
    fi = rec.api('feature_importance', m.feature_importance)
    rec.check(abs(fi.sum() - 1) < 1e-9, 'feature importance of a deep tree', got=fi, **info)
    for v in view.tree(m, p.X):
        rec.event('nodes')
        rec.check(v.node.n_data_ == len(v.rows), 'rows are lost or duplicated', path=len(v.path), **info)
        if not v.leaf:
            rec.nontrivial((case['i'], v.path))


def do_known(case, rec, r):
    """listed finding: trees of more than about 960 levels exceed the recursion limit of Python"""
    X, y = alternating(1500)
    from bayesian_decision_tree.classification import PerpendicularClassificationTree
    m = PerpendicularClassificationTree(1 - 1e-9, [.01, .01])
    try:
        m.fit(X, y)
        ok = np.array_equal(m.predict(X), y)
    except RecursionError:
        rec.known.append('recursion-limit')
        return
    rec.check(ok, 'a very deep tree does not predict its training rows', depth=m.get_depth())


def do_partition(case, rec, r):
    """splits that pay off although their prior probability, pp**(1 + level), is no longer a floating point number"""
    mt = case['mt']
    n = int(r.integers(1500, 5000))
    blocks = int(r.choice([4, 4, 5, 6, 8]))
    hyper = mt[0] == 'H'
    X = np.arange(n, dtype=float)[:, None] * float(r.choice([1, .01, 1e3]))
    block = np.arange(n) * blocks // n
    if hyper:
        pass    # (one feature: the same decisions as those of a perpendicular tree)
    elif r.random() < .5:
        X = np.c_[r.normal(0, 1, (n, int(r.integers(1, 3)))), X]
    if mt[1] == 'C':
        y, k = block % 2, 2
        if r.random() < .5:
            k = int(r.integers(3, blocks)) if blocks > 4 else 3
            y = block % k
    else:
        y, k = float(r.choice([1., 100.])) * (block if r.random() < .5 else block % 2) + r.choice([0, 1e-3]) * r.normal(0, 1, n), None
    order = r.permutation(n)
    X, y = X[order], y[order]
    pp = float(10. ** -float(r.choice([60, 100, 120, 150, 165, 200, 250, 300])))
    p = gen.problem(r, mt, X=X, y=y, k=k, prune=False, pp=pp, delta=0.)
    p.prior = np.ones(k) * float(r.choice([.1, 1.])) if k else np.array([float(y.mean()), 1., .5, .5e-6 * max(1., y.var())])
    p.params['prior'] = p.prior.tolist()
    m = p.model()
    rec.api('fit', m.fit, X, y)
    rec.event('tiny_partition_priors')
    # level at which the power leaves the range of floats
    rec.event('splits_below_float_range', sum((1 + v.depth) * np.log10(pp) < -324 for v in view.tree(m).splits()))
    if hyper:
        # normal +-1, so that the split is that of a feature
        for v in view.tree(m, X, p.kind, p.y.astype(float), p.prior, p.delta):
            rec.event('nodes')
            yn, Xn = p.y[v.rows].astype(float), X[v.rows]
            if len(v.rows) <= 1 or np.all(yn == yn[0]):
                continue
            cuts = oracle.perpendicular_cuts(p.kind, Xn, yn, v.prior, p.pp, v.depth, p.precision)
            no = oracle.log_no_split(p.kind, yn, v.prior, p.pp, v.depth)
            best = cuts[0][4].max() if cuts else -np.inf
            tol = oracle.tolerance(p.kind, yn, v.prior, no) + oracle.tolerance(p.kind, yn, v.prior, best)
            info = dict(path=v.path, no_split=no, best=best, pp=pp, n=n, blocks=blocks)
            if v.leaf:
                rec.check(best <= no + tol, 'a better split exists at a leaf of a tree with a tiny partition prior', **info)
            else:
                rec.nontrivial((case['i'], v.path))
                rec.check(best >= no - tol, 'a node of a tree with a tiny partition prior was split although not splitting is more probable', **info)
    else:
        c01.audit(rec, case, p, m)


def do_boundary(case, rec, r):
    """row counts around 2^16, where row numbers need a wider type"""
    n = case['n']
    d = 2
    X = r.normal(0, 1, (n, d))
    if case['mt'] == 'PC':
        y = ((X[:, 0] > .3) ^ (X[:, 1] > -.2)).astype(int)
        p = gen.problem(r, 'PC', X=X, y=y, k=2, prune=False, pp=.9, delta=0.)
    else:
        y = np.where(X[:, 0] > .3, 5., 0.) + np.where(X[:, 1] > -.2, 1., 0.)
        p = gen.problem(r, 'PR', X=X, y=y, prune=False, pp=.9, delta=0.)
        p.prior = np.array([2., 1., .5, .01])
        p.params['prior'] = p.prior.tolist()
    m = p.model()
    rec.api('fit', m.fit, X, p.y)
    rec.event('boundary_fits')
    info = dict(n=n, tree=view.describe(m))
    root = view.tree(m, X)
    for v in root:
        rec.event('nodes')
        rec.check(v.node.n_data_ == len(v.rows), 'rows are lost or duplicated', path=v.path, counted=v.node.n_data_, reached=len(v.rows), **info)
    pred = rec.api('predict', m.predict, X)
    if case['mt'] == 'PC':
        rec.check((pred != y).sum() <= 1e-3 * n, 'a noise-free rule is not learned', wrong=int((pred != y).sum()), **info)
    else:
        rec.check((np.abs(pred - y) > .05).sum() <= 1e-3 * n, 'a noise-free rule is not learned', wrong=int((np.abs(pred - y) > .05).sum()), **info)
    for v in root.splits():
        u = X[v.rows, v.dim]
        lo, hi = u[u < v.value].max(), u[u >= v.value].min()
        rec.check(abs(v.value - (lo + hi) / 2) <= 1e-12, 'the split value is not midway', path=v.path, **info)
        rec.nontrivial((case['i'], v.path))
