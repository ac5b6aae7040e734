"""C08: feature importance = normalised evidence gains of the splits, attributed to the features they use."""
import numpy as np

from mon import gen, oracle, view
from mon.checks import c02

RULE = ('random models; the evidence gain of every split is recomputed from the rows reaching it; non-trivial = tree '
        'with at least two splits; distinct by case')
MINIMUM = {'wide_problems': 10, 'trees_with_splits': 300, 'trees_without_splits': 50, 'splits': 1500, 'hyper_trees_judged': 80, 'pruned_trees': 60, 'trees_without_gain': 5}


def plan(tier, seed):
    f = 7 if tier == 'quick' else 60
    return gen.plan(seed, [(150 * f, {'mt': 'PC'}), (150 * f, {'mt': 'PR'}), (80 * f, {'mt': 'HC'}), (80 * f, {'mt': 'HR'}),
                           (6 * f, {'mt': 'HC', 'tie': 1}), (2 * f, {'mt': 'PC', 'tie': 1})] + [(f, {'mt': mt, 'wide': 1}) for mt in gen.MODELS])


def run(case, rec):
    r = gen.rng(case)
    kw = {}
    if case['mt'][0] == 'H':
        kw['optimizer'] = gen.make_optimizer(r, case['mt'] == 'HC', name=r.choice(['random', 'quasi']))
    if case.get('tie'):
        # a split exactly as probable as not splitting: one class, two groups of equal rows, partition prior 1/2
        n = int(r.integers(2, 30))
        X = r.integers(0, 2, (n, 1)).astype(float) * r.choice([1., -3., .1])
        kw.update(X=X, y=np.zeros(n, dtype=int), k=1, pp=float(r.choice([.5, .5, .3, .75])))
    if case.get('wide'):
        p = gen.wide(r, case['mt'])
        rec.event('wide_problems')
    else:
        p = gen.problem(r, case['mt'], **kw)
    m = p.model()
    rec.api('fit', m.fit, p.X, p.y)
    y = p.y.astype(float)
    d = p.X.shape[1]
    info = dict(problem=p.describe())
    fi = rec.api('feature_importance', m.feature_importance)
    again = rec.api('feature_importance', m.feature_importance)
    rec.check(np.all(np.isfinite(fi)) and np.all(fi >= 0), 'importances are not finite or negative', got=fi, tree=view.describe(m), **info)
    rec.check(np.array_equal(fi, again), 'feature importance changes from call to call', **info)
    rec.check(np.shape(fi) == (d,), 'not one importance per feature', shape=np.shape(fi), **info)
    root = view.tree(m, p.X, p.kind, y, p.prior, p.delta)
    splits = root.splits()
    if not splits:
        rec.event('trees_without_splits')
        rec.check(np.array_equal(fi, np.zeros(d)), 'importance without a split is not 0', got=fi, **info)
        return
    rec.event('trees_with_splits')
    rec.event('pruned_trees', p.params['prune'])
    rec.event('splits', len(splits))
    if len(splits) > 1:
        rec.nontrivial(case['i'])
    total, e, err = 0., np.zeros(d), 0.
    for v in splits:
        Xn, yn = p.X[v.rows], y[v.rows]
        no = oracle.log_no_split(p.kind, yn, v.prior, p.pp, v.depth)
        if v.normal is None:
            cut = [c for c in oracle.perpendicular_cuts(p.kind, Xn, yn, v.prior, p.pp, v.depth) if c[0] == v.dim]
            at = np.flatnonzero(cut[0][1] == np.sum(Xn[:, v.dim] < v.value)) if cut else []
            if len(at) == 0:
                rec.event('not_judged')
                return
            lp, w = cut[0][4][at[0]], np.eye(d)[v.dim]
        else:
            c = c02.candidate(p, v.normal, Xn, yn, v, d, unit=True)
            if c is None or c[0] is None:
                rec.event('not_judged')
                return
            at = np.flatnonzero(c[2] == (oracle.project(Xn, v.normal, v.origin) < 0).sum())
            if len(at) == 0:
                rec.event('not_judged')
                return
            lp, w = c[0][at[0]], np.abs(v.normal)
        e += (lp - no) * w
        total += lp - no
        err += oracle.tolerance(p.kind, yn, v.prior, no) + oracle.tolerance(p.kind, yn, v.prior, lp)
    if e.sum() < 1e-6:
        # (nearly) nothing gained: a share of it, or nothing, but no nonsense
        rec.check(np.all(fi == 0) or abs(fi.sum() - 1) < 1e-9, 'importances of a tree that gains nothing', got=fi, **info)
        rec.event('trees_without_gain')
        return
    if p.hyper:
        rec.event('hyper_trees_judged')
    rec.check(abs(fi.sum() - 1) < 1e-9 and np.all(fi >= 0), 'importances are not a distribution', got=fi, **info)
    rec.check(np.all(np.abs(fi - e / e.sum()) <= 1e-8 + 4 * err / e.sum()), 'importances are not the normalised evidence '
              'gains of the splits', got=fi, expected=e / e.sum(), **info)
    if not p.hyper:
        used = {v.dim for v in splits}
        rec.check(all((fi[j] == 0) == (j not in used) or e[j] < 1e-6 for j in range(d)),
                  'an unused feature has importance (or a used one has none)', got=fi, used=sorted(used), **info)
    rec.sample({'case': case, 'importance': fi, 'gains': e, 'splits': len(splits)})
