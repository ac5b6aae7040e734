"""C03: every node carries the conjugate posterior of its own rows under its (strengthened) prior, and leaves
predict from it."""
import numpy as np

from mon import gen, oracle, view

RULE = ('random data x priors (list/tuple/array/int/asymmetric/default) x delta in {0, .1, .5, 1, random}; the prior '
        'chain and posteriors are recomputed for every node; non-trivial = node below a split with delta > 0, or a '
        'leaf; distinct by (case, path)')
MINIMUM = {'wide_problems': 10, 'nodes': 3000, 'strengthened_nodes': 800, 'untrained_leaves': 200, 'proba_rows': 5000, 'value_rows': 3000,
           'hyper_nodes': 300, 'blocks': 200}


def plan(tier, seed):
    f = 10 if tier == 'quick' else 60
    out = []
    for mt, n in (('PC', 150), ('PR', 150), ('HC', 60), ('HR', 60)):
        out += [(n * f, {'mt': mt}), (n // 3 * f, {'mt': mt, 'delta': 1}), (n // 5 * f, {'mt': mt, 'prune': 1})]
        out += [(4 * f, {'mt': mt, 'blocks': 1}), (2, {'mt': mt, 'blocks': 2})]
    out += [(f, {'mt': mt, 'wide': 1}) for mt in gen.MODELS]
    return gen.plan(seed, out)


def close(a, b, rel=1e-9, scale=0.):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= rel * (np.abs(b) + scale) + 1e-300))


def reg_scale(prior, y):
    """absolute error scale of [mu, kappa, alpha, beta] in double precision"""
    s = np.max(np.abs(y - float(prior[0]))) if len(y) else 0.
    return np.array([abs(float(prior[0])) + s, 0, 0, 1e-3 * len(y) * s * s])


def run(case, rec):
    r = gen.rng(case)
    delta = None
    if case.get('delta'):
        delta = float(r.choice([.1, .25, .5, .9, 1., r.random()]))
    kw = {}
    if case['mt'][0] == 'H':
        kw['optimizer'] = gen.make_optimizer(r, case['mt'] == 'HC', name=r.choice(['random', 'quasi']))
    if case.get('blocks'):
        # pure nodes (and roots) whose numbers of rows are at the ends of the ranges of integer types
        some = [1, 127, 128, 129, 255, 256, 256, 257, 258, 512] if case['blocks'] == 1 else [1, 300, 65535, 65536, 65537]
        sizes = r.choice(some, int(r.integers(1, 4) if case['blocks'] == 1 else 2))
        label = r.permutation(len(sizes))
        b = np.repeat(np.arange(len(sizes)), sizes)
        kw.update(X=np.column_stack([b + r.uniform(0, .3, len(b)) for _ in range(int(r.integers(1, 3)))]),
                  y=label[b] if case['mt'][1] == 'C' else label[b] * 3. + r.choice([0, .01]) * r.normal(0, 1, len(b)))
        if case['mt'][1] == 'C':
            kw['k'] = len(sizes)
        rec.event('blocks', len(sizes))
    if case.get('wide'):
        p = gen.wide(r, case['mt'], delta=delta, prune=bool(case.get('prune')))
        rec.event('wide_problems')
    else:
        p = gen.problem(r, case['mt'], delta=delta, prune=bool(case.get('prune')), **kw)
    m = p.model()
    rec.api('fit', m.fit, p.X, p.y)
    y = p.y.astype(float)
    root = view.tree(m, p.X, p.kind, y, p.prior, p.delta)
    where, _ = view.route(root, p.X)
    leaves = root.leaves()
    for v in root:
        rec.event('nodes')
        if p.hyper:
            rec.event('hyper_nodes')
        yn = y[v.rows]
        info = dict(path=v.path, rows=len(v.rows), problem=p.describe())
        if p.delta > 0 and v.depth > 0:
            rec.event('strengthened_nodes')
        if v.leaf and v.depth > 0 and (len(yn) == 1 or np.all(yn == yn[0])):
            rec.event('untrained_leaves')
        if v.leaf or (p.delta > 0 and v.depth > 0):
            rec.nontrivial((case['i'], v.path))
        rec.check(v.node.n_data_ == len(v.rows), 'a node counts other rows than those that reach it',
                  counted=v.node.n_data_, **info)
        if len(v.rows) == 0:
            return
        scale = reg_scale(v.prior, yn) if p.kind == 'reg' else 0.
        root_scale = reg_scale(p.prior, y) if p.kind == 'reg' else 0.
        if v.depth > 0 and v.node.prior is not None:
            rec.check(close(v.node.prior, v.prior, 1e-9, root_scale), 'the prior of a node is not the (strengthened) prior '
                      'inherited from its parent', prior=v.node.prior, expected=np.asarray(v.prior, float), **info)
        rec.check(close(v.node.posterior_, v.post, 1e-9, scale + root_scale), 'the posterior of a node is not the '
                  'conjugate posterior of its rows', posterior=np.asarray(v.node.posterior_, float),
                  expected=np.asarray(v.post, float), **info)
    # what users see
    pred = rec.api('predict', m.predict, p.X)
    if p.kind == 'cls':
        proba = rec.api('predict_proba', m.predict_proba, p.X)
        expected = np.array([np.asarray(v.post, float) / np.sum(v.post) for v in leaves])[where]
        rec.event('proba_rows', len(p.X))
        rec.check(close(proba, expected, 1e-9), 'predicted probabilities are not the normalised posterior of the leaf',
                  got=proba, expected=expected, problem=p.describe())
        top = expected.max(axis=1)
        got = expected[np.arange(len(p.X)), pred.astype(int)]
        rec.check(np.all(got >= top * (1 - 1e-9)), 'the predicted class is not the most probable one',
                  pred=pred, expected=expected, problem=p.describe())
    else:
        expected = np.array([float(v.post[0]) for v in leaves])[where]
        rec.event('value_rows', len(p.X))
        rec.check(close(pred, expected, 1e-9, reg_scale(p.prior, y)[0]), 'the predicted value is not the posterior mean '
                  'of the leaf', got=pred, expected=expected, problem=p.describe())
    raw = getattr(m, '_get_raw_leaf_data', None)
    if raw is not None:
        raw = rec.api('raw leaf data', raw, p.X)
        rec.event('raw_rows', len(p.X))
        e = np.array([[np.asarray(v.prior, float), np.asarray(v.post, float)] for v in leaves])[where]
        s = reg_scale(p.prior, y) if p.kind == 'reg' else 0.
        if p.params['prior'] is not None:
            rec.check(close(raw, e, 1e-8, s), 'the raw leaf data is not [prior, posterior] of the leaf',
                      got=raw[:5], expected=e[:5], problem=p.describe())
        else:
            rec.check(close(raw[:, 1], e[:, 1], 1e-8, s), 'the raw leaf data does not contain the posterior',
                      got=raw[:5], expected=e[:5], problem=p.describe())
    rec.sample({'case': case, 'prior': p.params['prior'], 'delta': p.delta, 'tree': view.describe(m, 300)})
