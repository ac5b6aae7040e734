"""C19: the defaults: weak prior of 1% pseudo-observations, shared by all nodes, and documented default parameters."""
import inspect

import numpy as np
from scipy.sparse import csr_matrix

from mon import gen, oracle, view

RULE = ('models with and without an explicit prior on 1..3000 rows (around multiples of 100) are compared with the documented '
        'default prior given explicitly; non-trivial = tree with a split; distinct by case')
MINIMUM = {'default_fits': 300, 'split_trees': 100, 'n_at_boundary': 40, 'child_priors': 300}
DEFAULTS = {'partition_prior': .99, 'prior': None, 'prune': False, 'split_precision': 0.0, 'level': 0, 'optimizer': None}


def plan(tier, seed):
    f = 1 if tier == 'quick' else 30
    return gen.plan(seed, [(120 * f, {'mt': 'PC'}), (120 * f, {'mt': 'PR'}), (50 * f, {'mt': 'HC'}), (50 * f, {'mt': 'HR'})])


def run(case, rec):
    r = gen.rng(case)
    mt = case['mt']
    hyper = mt[0] == 'H'
    kind = 'cls' if mt[1] == 'C' else 'reg'
    cls = gen.MODELS[mt]
    # default construction
    P = cls().get_params()
    for k, v in DEFAULTS.items():
        if k in P:
            rec.check(P[k] == v and type(P[k]) is type(v), 'the default of {} is not the documented one'.format(k), got=P[k])
    rec.check(not P['delta'], 'the default of delta is not 0', got=P['delta'])
    order = [k for k in inspect.signature(cls.__init__).parameters if k != 'self']
    rec.check(order[:4] == ['partition_prior', 'prior', 'delta', 'prune'], 'order of the constructor arguments', got=order)
    pos = cls(.5, [1, 1] if kind == 'cls' else [0, 1, 1, 1], .25, True)
    rec.check((pos.partition_prior, pos.delta, pos.prune) == (.5, .25, True) and list(pos.prior)[:2] == ([1, 1] if kind == 'cls' else [0, 1]),
              'positional arguments', got=str(pos.get_params()))
    # default prior
    n = int(r.choice([1, 2, 3, 20, 50, 98, 99, 100, 101, 150, 199, 200, 201, 299, 300, 999, 1000, 1001, 2500]))
    if r.random() < .02:
        n = int(r.choice([9999, 10000, 25600]))
    if hyper:
        n = min(n, 301)
    if n in (99, 100, 101, 199, 200, 201, 299, 300, 301, 999, 1000, 1001):
        rec.event('n_at_boundary')
    d = gen.sometimes(r, [1, 2, 3], [9, 12])
    X = gen.make_X(r, 'cont', n, d)
    kw = {}
    if hyper:
        kw['optimizer'] = gen.make_optimizer(r, kind == 'cls', name=r.choice(['random', 'quasi']))
    p = gen.problem(r, mt, X=X, k=min(n, int(r.integers(1, 5))) if kind == 'cls' else None, **kw)
    y = p.y.astype(float)
    ref = oracle.default_prior(kind, n, p.k)
    p.prior = ref
    info = dict(n=n, problem=dict(p.describe(), X='cont'))
    m = p.model(prior=None)
    Xf = csr_matrix(X) if r.random() < .3 else X
    rec.api('fit with the default prior', m.fit, Xf, p.y)
    rec.event('default_fits')
    e = p.model(prior=ref.tolist())
    rec.api('fit with the explicit default prior', e.fit, X, p.y)
    sm, se = view.signature(m), view.signature(e)
    if len(sm) > 1:
        rec.event('split_trees')
        rec.nontrivial(case['i'])
    rec.check(view.same(sm, se), 'the default prior is not the documented one', default=view.describe(m), explicit=view.describe(e), **info)
    rec.check(np.allclose(m.predict(X), e.predict(X), rtol=1e-9, atol=1e-12), 'default prior: predictions', **info)
    rec.check(m.get_params()['prior'] is None, 'training replaces the default prior parameter', **info)
    rec.check(np.allclose(m.feature_importance(), e.feature_importance(), atol=1e-7), 'default prior: importances', **info)
    root = view.tree(m, X, kind, y, ref, p.delta)
    for v in root:
        if v.depth > 0 and v.node.prior is not None:
            rec.event('child_priors')
            rec.check(np.allclose(np.asarray(v.node.prior, float), np.asarray(v.prior, float), rtol=1e-9,
                                  atol=1e-9 * (1 + np.abs(y).max())), 'a child does not inherit the default prior of the root',
                      path=v.path, got=np.asarray(v.node.prior, float), expected=np.asarray(v.prior, float), **info)
    if root.leaf:
        post = np.asarray(oracle.posterior(kind, ref, y), dtype=float)
        if kind == 'cls':
            rec.check(np.allclose(m.predict_proba(X[:1])[0], post / post.sum(), rtol=1e-9), 'default prior: probabilities', **info)
        else:
            rec.check(np.allclose(m.predict(X[:1])[0], post[0], rtol=1e-9, atol=1e-12 * (1 + np.abs(y).max())), 'default prior: value', **info)
    raw = getattr(m, '_get_raw_leaf_data', None)
    if raw is not None:
        R = rec.api('raw leaf data', raw, X)
        rec.check(np.shape(R) == (n, 2, len(ref)) and np.all(np.isfinite(R)), 'raw leaf data', shape=np.shape(R), **info)
        if root.leaf:
            rec.check(np.allclose(R[:, 0], ref), 'raw leaf data does not contain the default prior', got=R[0], expected=ref, **info)
    # the default prior belongs to the data of each fit
    other = n * 3 + 100
    X2 = gen.make_X(r, 'cont', min(other, 400), d)
    y2 = gen.make_y_cls(r, X2, p.k)[0] if kind == 'cls' else gen.make_y_reg(r, X2)
    if kind == 'reg' or len(np.unique(y2)) == p.k:
        m.fit(X2, y2)
        f = p.model(prior=None).fit(X2, y2)
        rec.check(view.same(view.signature(m), view.signature(f)), 'the default prior of an earlier fit is kept', **info)
        m.fit(X, p.y)
        rec.check(view.same(view.signature(m), sm), 'the default prior of an earlier fit is kept', **info)
    # full default model
    z = cls() if not hyper or n <= 20 and d <= 2 else cls(optimizer=p.params['optimizer'])
    rec.api('fit default model', z.fit, X, p.y)
    w = cls(partition_prior=.99, prior=ref.tolist(), delta=0, prune=False, split_precision=0., **({'optimizer': z.optimizer} if hyper else {})).fit(X, p.y)
    rec.event('default_models')
    rec.check(view.same(view.signature(z), view.signature(w)), 'a default model is not one with the documented default parameters', **info)
    rec.sample({'case': case, 'n': n, 'default prior': ref, 'tree': view.describe(m, 200)})
