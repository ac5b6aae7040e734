"""C22: the two families of trees agree where their hypotheses coincide."""
import numpy as np
from scipy.sparse import csr_matrix

from mon import gen, oracle, view

RULE = ('one-feature problems (all optimizers), problems where the optimizer proposes the coordinate axes only (any sign, order '
        'and length), and rotated problems with the rotated axes; both trees are walked in parallel until a decision is tied; '
        'non-trivial = a compared split; distinct by (case, node)')
MINIMUM = {'compared_splits': 1500, 'compared_leaves': 1500, 'one_feature': 150, 'axes': 150, 'rotated': 80, 'predictions': 8000}


def plan(tier, seed):
    f = 16 if tier == 'quick' else 50
    return gen.plan(seed, [(50 * f, {'k': k, 't': t}) for k in ('one', 'axes') for t in 'CR'] +
                    [(30 * f, {'k': 'rotated', 't': t}) for t in 'CR'])


def run(case, rec):
    r = gen.rng(case)
    kind = 'cls' if case['t'] == 'C' else 'reg'
    xkind = str(r.choice(['cont', 'grid', 'int', 'dup']))
    d = 1 if case['k'] == 'one' else gen.sometimes(r, [2, 3, 4], [6, 9])
    n = gen.sometimes(r, [5, 12, 30, 60, 100], [260, 400])
    if case['k'] == 'rotated':
        # values on a grid wide enough to survive the rounding of a rotation
        xkind = str(r.choice(['cont', 'int']))
    X = gen.make_X(r, xkind, n, d)
    p = gen.problem(r, 'P' + case['t'], X=X)
    y = p.y.astype(float)
    params = dict(p.params)
    H = X
    R = np.eye(d)
    if case['k'] == 'one':
        opt = gen.make_optimizer(r, kind == 'cls') if r.random() < .8 else None
        rec.event('one_feature')
    else:
        if case['k'] == 'rotated':
            R = np.linalg.qr(r.normal(0, 1, (d, d)))[0]
            H = X @ R
            rec.event('rotated')
        else:
            rec.event('axes')
        normals = [R[j] * r.choice([-1., 1.]) * 10. ** r.integers(-3, 4) for j in r.permutation(d)]
        opt = gen.Fixed(normals)
    P = p.model()
    Hm = gen.MODELS['H' + case['t']](**dict(params, optimizer=opt))
    P.fit(X, p.y)
    sparse = r.random() < .25
    rec.api('fit hyperplane tree', Hm.fit, csr_matrix(H) if sparse else H, p.y)
    info = dict(problem=p.describe(), rotation=R)
    a = view.tree(P, X, kind, y, p.prior, p.delta)
    b = view.tree(Hm, H, kind, y, p.prior, p.delta)
    todo = [(a, b)]
    complete = True
    while todo:
        u, w = todo.pop()
        if not np.array_equal(np.sort(u.rows), np.sort(w.rows)):
            rec.violation('the same decision splits the rows differently', path=u.path, perpendicular=u.rows, hyperplane=w.rows, **info)
            continue
        yr = y[u.rows]
        trivial = u.depth > 0 and (len(u.rows) < 2 or len(np.unique(yr)) < 2)   # not trained further
        if not trivial and _tied(kind, X[u.rows], yr, u.prior, p.pp, u.depth):
            rec.event('tied')
            complete = False
            continue
        rec.check(u.leaf == w.leaf, 'one of the trees splits, the other does not', path=u.path, perpendicular_leaf=u.leaf,
                  hyperplane_leaf=w.leaf, **info)
        if u.leaf != w.leaf:
            complete = False
            break
        rec.check(np.allclose(np.asarray(u.node.posterior_, float), np.asarray(w.node.posterior_, float), rtol=1e-9, atol=1e-9)
                  and u.node.n_data_ == w.node.n_data_, 'posteriors', path=u.path, perpendicular=u.node.posterior_,
                  hyperplane=w.node.posterior_, **info)
        if u.leaf:
            rec.event('compared_leaves')
            continue
        rec.event('compared_splits')
        rec.nontrivial((case['i'], u.path))
        # the plane is the perpendicular split: same axis, same position
        axis = R[u.dim]
        c = float(w.normal @ axis)
        rec.check(abs(abs(c) - 1) < 1e-9, 'the plane has another orientation', path=u.path, normal=w.normal, axis=axis, **info)
        at = float(w.origin @ axis)
        rec.check(abs(at - u.value) <= 1e-9 * (1 + np.abs(X).max()), 'the plane is somewhere else', path=u.path, plane=at,
                  split_value=u.value, **info)
        todo += [(u.left, w.left), (u.right, w.right)] if c > 0 else [(u.left, w.right), (u.right, w.left)]
    if complete:
        rec.event('complete')
        Q = gen.queries(r, X, None, 30)
        HQ = Q @ R
        near = view.route(b, HQ)[1]
        for v in a.splits():
            near |= np.abs(Q[:, v.dim] - v.value) <= 1e-7 * (1 + np.abs(Q).max(axis=1))
        rec.event('predictions', (~near).sum())
        u, w = P.predict(Q)[~near], Hm.predict(HQ)[~near]
        rec.check(np.allclose(u, w, rtol=1e-9, atol=1e-9), 'predictions', perpendicular=u, hyperplane=w, **info)
        if kind == 'cls' and (~near).any():
            rec.check(np.allclose(P.predict_proba(Q[~near]), Hm.predict_proba(HQ[~near]), rtol=1e-9), 'probabilities', **info)
        rec.check((P.get_depth(), P.get_n_leaves()) == (Hm.get_depth(), Hm.get_n_leaves()), 'depth or number of leaves', **info)
        if case['k'] != 'rotated':
            rec.check(np.allclose(P.feature_importance(), Hm.feature_importance(), atol=1e-6), 'feature importance',
                      perpendicular=P.feature_importance(), hyperplane=Hm.feature_importance(), **info)
    rec.sample({'case': case, 'n': n, 'd': d, 'tree': view.describe(P, 200), 'complete': complete})


def _tied(kind, X, y, prior, pp, level):
    lp0 = oracle.log_no_split(kind, y, prior, pp, level)
    tol = oracle.tolerance(kind, y, prior, lp0) * 4 + 1e-9
    lps = [lp0]
    for cut in oracle.perpendicular_cuts(kind, X, y, prior, pp, level):
        lps += cut[4].tolist()
    lps = np.sort(lps)
    return len(lps) > 1 and lps[-1] - lps[-2] <= tol
