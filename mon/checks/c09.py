"""C09: pruning never changes predictions and removes exactly the splits that do not matter."""
import numpy as np

from mon import gen, view

RULE = ('the same random problem is fitted with and without pruning; the pruned tree is compared with the reference '
        'bottom-up collapse of the unpruned one and both are queried; non-trivial = pruning removed a split; distinct by case')
MINIMUM = {'pairs': 600, 'pairs_collapsed': 150, 'collapsed_hyper': 25, 'collapsed_regression': 20, 'cascades': 30, 'collapsed_deep': 8}


def plan(tier, seed):
    f = 4 if tier == 'quick' else 60
    return gen.plan(seed, [(220 * f, {'mt': 'PC'}), (60 * f, {'mt': 'PR'}), (80 * f, {'mt': 'PR', 'sym': 1}),
                           (90 * f, {'mt': 'HC'}), (30 * f, {'mt': 'HR'}), (40 * f, {'mt': 'HR', 'sym': 1}),
                           (60 * f, {'mt': 'PC', 'imb': 1}), (40 * f, {'mt': 'HC', 'imb': 1}), (12 * f, {'mt': 'PC', 'chain': 1})])


def symmetric(r):
    """regression: regions that differ in variance but have exactly the same mean"""
    n = int(r.choice([10, 20, 40]))
    d = int(r.integers(1, 4))
    X = r.normal(0, 1, (n, d))
    g = np.digitize(X[:, 0], np.sort(r.normal(0, .7, int(r.integers(1, 4)))))
    a = (2. ** r.integers(-4, 5, 5))[g]
    shift = (16. * (r.random(5) < .2))[g]
    X = np.repeat(X, 2, axis=0)     # each point carries +a and -a, so that every cut has mean 0 on both sides
    y = np.c_[shift + a, shift - a].ravel()
    order = r.permutation(2 * n)
    X, y = X[order], y[order]
    if r.random() < .5:
        X = np.round(X, 1)
    return X, y


def chain(r):
    """blocks of pure classes are split off one after the other; only far down there is something to prune"""
    w, blocks, m = int(r.integers(3, 6)), int(r.integers(20, 70)), int(r.integers(2, 5))
    y = np.repeat(np.arange(blocks) % 2, w)
    X = np.repeat(np.arange(blocks), w) * 1.
    for i in range(m):
        t = int(r.integers(8, 14))
        X, y = np.r_[X, np.full(t, blocks + i)], np.r_[y, (np.arange(t) < (.45 if i % 2 else .1) * t).astype(int)]
    order = r.permutation(len(y))
    X = np.c_[X, np.zeros(len(y))] if r.random() < .3 else X[:, None]
    return X[order] * r.choice([1., -1., .1]), y[order]


def run(case, rec):
    r = gen.rng(case)
    mt = case['mt']
    kw = {}
    if mt[0] == 'H':
        kw['optimizer'] = gen.make_optimizer(r, mt == 'HC', name=r.choice(['random', 'quasi']))
    if case.get('sym'):
        kw['X'], kw['y'] = symmetric(r)
        kw['pp'] = .999
    if case.get('imb'):
        kw.update(how='imbalance', n=int(r.choice([60, 150, 300])), pp=float(r.choice([.9, .99, .9999])))
    if case.get('chain'):
        kw['X'], kw['y'] = chain(r)
        kw['pp'] = float(r.choice([.9999, 1 - 1e-9]))
    p = gen.problem(r, mt, prune=False, **kw)
    if case.get('sym'):
        p.params['prior'] = [0, float(r.choice([.25, 1, 2])), 1., float(r.choice([.01, .25, 4]))]
    info = dict(problem=p.describe())
    u, q = p.model(prune=False), p.model(prune=True)
    rec.api('fit unpruned', u.fit, p.X, p.y)
    rec.api('fit pruned', q.fit, p.X, p.y)
    rec.event('pairs')
    U, P = view.tree(u), view.tree(q)
    keep = {}
    value = {id(v): leaf_value(p, v) for v in U}

    def collapse(v):
        if not v.leaf:
            collapse(v.left)
            collapse(v.right)
        keep[id(v)] = not v.leaf and not (not keep[id(v.left)] and not keep[id(v.right)]
                                           and value[id(v.left)] == value[id(v.right)] == value[id(v)])
    collapse(U)
    removed = sum(1 for v in U if not v.leaf and not keep[id(v)])
    if removed:
        rec.event('pairs_collapsed')
        rec.nontrivial(case['i'])
        rec.event('collapsed_hyper', p.hyper)
        rec.event('collapsed_regression', p.kind == 'reg')
        rec.event('cascades', removed > 1)
        rec.event('collapsed_deep', any(not v.leaf and not keep[id(v)] and v.depth > 15 for v in U))
        for limit in (20, 30, 40, 50):
            rec.event('collapsed_below_%d' % limit, any(not v.leaf and not keep[id(v)] and v.depth > limit for v in U))
    # structure
    stack = [(U, P)]
    while stack:
        a, b = stack.pop()
        if keep[id(a)] != (not b.leaf):
            rec.check(False, 'pruning kept a split that does not change predictions' if not keep[id(a)] else
                      'pruning removed a split that changes predictions (or stopped short)', path=a.path, unpruned=view.describe(u),
                      pruned=view.describe(q), **info)
            break
        rec.check(a.node.n_data_ == b.node.n_data_, 'pruning changed the row count of a node', path=a.path, **info)
        rec.check(np.array_equal(np.asarray(a.node.posterior_, float), np.asarray(b.node.posterior_, float)),
                  'pruning changed the posterior of a node', path=a.path, **info)
        if not b.leaf:
            rec.check(same_split(a, b), 'pruning changed a split', path=a.path, **info)
            stack += [(a.left, b.left), (a.right, b.right)]
    # predictions
    Q = np.vstack([p.X, gen.queries(r, p.X, U)])
    if p.hyper:
        Q = Q[~view.route(U, Q)[1]]
    pu, pq = rec.api('predict', u.predict, Q), rec.api('predict', q.predict, Q)
    rec.check(np.array_equal(pu, pq), 'pruning changed predictions', rows=np.flatnonzero(pu != pq)[:10], unpruned=view.describe(u),
              pruned=view.describe(q), **info)
    rec.check(q.get_n_leaves() == u.get_n_leaves() - removed, 'wrong number of leaves after pruning', **info)
    rec.check(q.get_n_leaves() == len(P.leaves()) and q.get_depth() == max(v.depth for v in P),
              'depth / number of leaves do not describe the pruned tree', **info)
    rec.api('str', str, q)
    rec.api('feature_importance', q.feature_importance)
    if p.kind == 'cls':
        pr = rec.api('predict_proba', q.predict_proba, Q)
        rec.check(np.all(np.abs(pr.sum(axis=1) - 1) < 1e-9), 'probabilities of the pruned tree', **info)
    rec.sample({'case': case, 'removed': removed, 'leaves': u.get_n_leaves()})


def same_split(a, b):
    if a.normal is None:
        return (a.dim, a.value, str(a.name)) == (b.dim, b.value, str(b.name))
    scale = 1 + np.abs(a.origin).max()
    return np.allclose(a.normal, b.normal, rtol=1e-9, atol=1e-9) and np.allclose(a.origin, b.origin, rtol=1e-9, atol=1e-9 * scale)


def leaf_value(p, v):
    post = np.asarray(v.node.posterior_, dtype=float)
    return int(np.argmax(post)) if p.kind == 'cls' else float(post[0])
