"""C15: what is learned does not depend on row order, feature order, units or names of classes."""
import numpy as np
import pandas as pd

from mon import gen, oracle, view
from mon.checks import c02

RULE = ('each random problem is fitted again after a transformation that must not matter (row permutation, increasing '
        'feature maps, feature permutation, reflection, class renaming, affine target change, power-of-two scaling and '
        'translation for hyperplanes); trees are compared through the training rows in each node; problems with tied '
        'decisions are skipped; non-trivial = comparison of trees with a split; distinct by (case, transformation)')
MINIMUM = {'compared_splits': 1500, 'hyper_compared_splits': 100}
ASSUMPTIONS = ['problems where two different decisions are equally probable up to rounding are not judged']


def plan(tier, seed):
    f = 4 if tier == 'quick' else 90
    return gen.plan(seed, [(320 * f, {'mt': 'PC'}), (320 * f, {'mt': 'PR'}), (90 * f, {'mt': 'HC'}), (90 * f, {'mt': 'HR'}),
                           (12 * f, {'mt': 'PC', 'corr': 1}), (12 * f, {'mt': 'PR', 'corr': 1}),
                           (3 * f, {'mt': 'PC', 'crowd': 1}), (4 * f, {'mt': 'PC', 'many': 1}), (4 * f, {'mt': 'PR', 'many': 1})])


def tied(p, root, y):
    """True if some decision in this tree could flip by rounding"""
    for v in root:
        yn, Xn = y[v.rows], p.X[v.rows]
        if v.depth > 0 and (len(yn) < 2 or np.all(yn == yn[0])):
            continue
        cuts = oracle.perpendicular_cuts(p.kind, Xn, yn, v.prior, p.pp, v.depth)
        no = oracle.log_no_split(p.kind, yn, v.prior, p.pp, v.depth)
        best = max((c[4].max() for c in cuts), default=-np.inf)
        tol = 1e-7 + 10 * (oracle.tolerance(p.kind, yn, v.prior, no) + oracle.tolerance(p.kind, yn, v.prior, best))
        if abs(best - no) <= tol:
            return True
        if best > no:
            parts = set()
            for c in cuts:
                for i in np.flatnonzero(c[4] >= best - tol):
                    left = Xn[:, c[0]] <= c[2][i]
                    parts.add((c[0], c[1][i]) if left[0] else (c[0], c[1][i], 'r'))
            if len(parts) > 1:
                return True
    return False


def tied_hyper(p, root, y, spy):
    logs = {c02._key(gen.dense(log['X']), log['y']): log for log in spy.nodes}
    d = p.X.shape[1]
    for v in root:
        yn, Xn = y[v.rows], p.X[v.rows]
        if v.depth > 0 and (len(yn) < 2 or np.all(yn == yn[0])):
            continue
        if d == 1:
            normals = [np.ones(1)]
        else:
            log = logs.get(c02._key(Xn, yn))
            if log is None:
                return True
            normals = [e[0] for e in log['evals']]
        no = oracle.log_no_split(p.kind, yn, v.prior, p.pp, v.depth)
        best, cuts = no, []
        for a in normals:
            pr = oracle.project(Xn, _normal(p, a, d))
            order = np.argsort(pr, kind='stable')
            c = c02.candidate(p, a, Xn, yn, v, d)
            if c is None:
                return True
            if c[0] is None:
                continue
            cuts.append((order, c[0], c[2]))
            best = max(best, c[0].max())
        tol = 1e-7 + 10 * (oracle.tolerance(p.kind, yn, v.prior, no) + oracle.tolerance(p.kind, yn, v.prior, best))
        if any(abs(c[1].max() - no) <= tol for c in cuts):
            return True
        if best > no + tol:
            parts = set()
            for order, lps, pos in cuts:
                for i in np.flatnonzero(lps >= best - tol):
                    parts.add(tuple(sorted(order[:pos[i]])))
            if len(parts) > 1:
                return True
    return False


def _normal(p, arg, d):
    if p.params['optimizer'].search_space_is_unit_hypercube and d > 1:
        return c02.hypercube_to_hypersphere_surface(arg, half_hypersphere=True)
    return arg / np.linalg.norm(arg)


def compare(rec, what, a, b, rows=None, dims=None, swap=None, post=None, tol=1e-7, **info):
    """a: view of the reference tree, b: of the transformed one.  rows: original row of each transformed row,
    dims: original feature of each transformed feature, swap: transformed features with exchanged sides"""
    stack = [(a, b)]
    n = 0
    while stack:
        u, v = stack.pop()
        n += 1
        r2 = v.rows if rows is None else rows[v.rows]
        if not rec.check(u.leaf == v.leaf and np.array_equal(np.sort(u.rows), np.sort(r2)), what + ' changes the tree',
                         path=u.path, rows=u.rows, other=r2, **info):
            return n
        pu = np.asarray(u.node.posterior_, dtype=float)
        pv = np.asarray(v.node.posterior_, dtype=float)
        if post is not None:
            pu = post(pu)
        if not rec.check(np.allclose(pu, pv, rtol=tol, atol=tol), what + ' changes a posterior', path=u.path, expected=pu, got=pv, **info):
            return n
        if not u.leaf:
            flip = False
            if u.normal is None:
                d2 = v.dim if dims is None else dims[v.dim]
                if not rec.check(u.dim == d2, what + ' changes the split feature', path=u.path, expected=u.dim, got=d2, **info):
                    return n
                flip = swap is not None and v.dim in swap
            stack.append((u.left, v.right if flip else v.left))
            stack.append((u.right, v.left if flip else v.right))
    return n


def run(case, rec):
    r = gen.rng(case)
    mt = case['mt']
    hyper = mt[0] == 'H'
    kw = {}
    if hyper:
        kw['optimizer'] = gen.make_optimizer(r, mt == 'HC', name=r.choice(['random', 'quasi']))
        kw['xkind'] = 'cont'
        kw['d'] = gen.sometimes(r, [1, 2, 3, 4], [9, 12, 20])
        kw['n'] = gen.sometimes(r, [6, 15, 30, 60, 120, 200], [260, 400])
    else:
        kw['xkind'] = r.choice(['cont', 'cont', 'offset', 'scale', 'mixed', 'sparse', 'grid', 'dup'])
    if case.get('crowd'):
        X, y, k = gen.crowd(r)
        kw = dict(X=X, y=y, k=k)
    if case.get('many'):
        # many rows, close together compared with their distance from 0, and a clear rule
        n, d = int(r.choice([1025, 2049, 2500, 4097, 5000])), int(r.choice([1, 2, 3]))
        X = r.normal(0, 1, (n, d)) * 10. ** r.integers(-3, 3) + r.choice([0, 1e3, -1e6, 1e9])
        kw = dict(X=X, pp=float(r.choice([1e-3, .1, .5])), how=str(r.choice(['axis', 'stairs', 'xor'] if mt == 'PC' else ['step', 'stairs', 'xor'])))
        if mt == 'PC':
            kw['k'] = int(r.choice([2, 3]))
    p = gen.correlated(r, mt, int(r.integers(200, 1500))) if case.get('corr') else gen.problem(r, mt, prune=bool(r.random() < .2), **kw)
    spy = gen.Spy(p.params['optimizer']) if hyper else None
    m = p.model(optimizer=spy) if hyper else p.model()
    rec.api('fit', m.fit, p.X, p.y)
    rec.event('many_rows', bool(case.get('many')))
    y = p.y.astype(float)
    root = view.tree(m, p.X, p.kind, y, p.prior, p.delta)
    n, d = p.X.shape
    info = dict(problem=p.describe())
    full = view.tree(p.model(prune=False).fit(p.X, p.y), p.X, p.kind, y, p.prior, p.delta) if p.params['prune'] else root
    if not hyper and tied(p, full, y):
        rec.event('skipped_tied')
        return
    if hyper and tied_hyper(p, full, y, spy):
        rec.event('skipped_tied_hyper')
        return
    if p.params['prune'] and p.kind == 'reg':
        return   # pruning compares values for equality
    prior = p.params['prior']
    has_split = not root.leaf
    fn = 'predict_proba' if p.kind == 'cls' else 'predict'
    Q = p.X[r.integers(0, n, 30)]
    ref = getattr(m, fn)(Q)
    scale = 1 + np.abs(ref).max()

    def fit(X, yy, **override):
        t = p.model(**override)
        return rec.api('fit transformed', t.fit, X, yy)

    def judge(what, t, X2, Q2, expect=None, **args):
        b = view.tree(t, X2)
        k = compare(rec, what, root, b, **args, **info)
        rec.event('compared_nodes', k)
        rec.event('t_' + what.replace(' ', '_'))
        if has_split:
            rec.event('compared_splits', len(root.splits()))
            rec.event('hyper_compared_splits', len(root.splits()) if hyper else 0)
            rec.nontrivial((case['i'], what))
        got = rec.api('predict', getattr(t, fn), Q2)
        e = ref if expect is None else expect
        rec.check(len(Q2) == 0 or np.allclose(got, e, rtol=1e-7, atol=1e-8 * (1 + np.abs(e).max(initial=0))), what + ' changes predictions', expected=e[:5], got=got[:5], **info)

    # names of features, also those of other columns of a data frame
    cols = ['c{}'.format(j) for j in range(d)]
    names = [cols, [cols[j] for j in r.permutation(d)], cols[::-1], ['same'] * d, list(range(d)), cols[:1] + ['other'] * (d - 1)][int(r.integers(6))]
    if r.random() < .6:
        frame = pd.DataFrame(p.X, columns=cols if r.random() < .7 else r.permutation(d))
        t = p.model()
        rec.api('fit renamed', t.fit, frame, p.y, feature_names=names if r.random() < .8 else None)
        judge('renaming features', t, p.X, pd.DataFrame(Q, columns=frame.columns if r.random() < .7 else cols[::-1]))
    else:
        t = p.model()
        rec.api('fit renamed', t.fit, p.X, p.y, feature_names=names)
        judge('renaming features', t, p.X, Q)
    perm = r.permutation(n)
    judge('row permutation', fit(p.X[perm], p.y[perm]), p.X[perm], Q, rows=perm)
    if hyper:
        s = 2. ** int(r.integers(-20, 21))
        judge('scaling of all features', fit(p.X * s, p.y), p.X * s, Q * s)
        c = np.round(r.normal(0, 3, d))
        judge('translation', fit(p.X + c, p.y), p.X + c, Q + c)
    else:
        # increasing maps (exact monotonicity on the values that occur is verified)
        X2, Q2 = p.X.copy(), Q.copy()
        for j in range(d):
            f = [lambda v: v * 3.7 + 11, lambda v: np.arcsinh(v), lambda v: v ** 3, lambda v: v / 7, np.arctan,
                 lambda v: np.searchsorted(np.unique(p.X[:, j]), v).astype(float)][r.integers(6)]
            u = np.unique(p.X[:, j])
            if np.all(np.diff(f(u)) > 0) and np.all(np.isfinite(f(u))):
                X2[:, j], Q2[:, j] = f(p.X[:, j]), f(Q[:, j])
        judge('increasing feature map', fit(X2, p.y), X2, Q2)
        if d > 1:
            dp = r.permutation(d)
            t = fit(p.X[:, dp], p.y)
            judge('feature permutation', t, p.X[:, dp], Q[:, dp], dims=dp)
            rec.check(np.allclose(t.feature_importance(), m.feature_importance()[dp], atol=1e-6), 'feature permutation changes importances',
                      **info)
        flip = set(np.flatnonzero(r.random(d) < .6).tolist()) or {0}
        sg = np.array([-1. if j in flip else 1. for j in range(d)])
        off = np.ones(len(Q), dtype=bool)
        for v in root.splits():
            off &= ~np.isclose(Q[:, v.dim], v.value, rtol=1e-12, atol=0)
        judge('reflection', fit(p.X * sg, p.y), p.X * sg, Q[off] * sg, swap=flip, expect=ref[off])
    if p.kind == 'cls' and p.k > 1:
        names = r.permutation(p.k)
        pr = None if prior is None else np.asarray(prior, dtype=float)[np.argsort(names)]
        if not p.params['prune']:
            judge('renaming classes', fit(p.X, names[p.y], prior=pr), p.X, Q, expect=ref[:, np.argsort(names)],
                  post=lambda q: q[np.argsort(names)])
    if p.kind == 'reg' and prior is not None:
        a, b = float(r.choice([2., -1., .5, 3.7, -1e3, 1e-3])), float(r.choice([0., 10., -3.3, 1e4]))
        pr = [a * prior[0] + b, float(prior[1]), float(prior[2]), a * a * prior[3]]
        s = abs(a) + abs(b)
        rel = 1e-7 * max(1., np.abs(a * y + b).max() / max(abs(a) * y.std(), 1e-300)) if y.std() > 0 else 1e-7
        if rel < 1e-4:
            judge('affine change of the target', fit(p.X, a * y + b, prior=pr), p.X, Q, expect=a * ref + b,
                  post=lambda q: np.array([a * q[0] + b, q[1], q[2], a * a * q[3]]), tol=max(rel, 1e-7))
    rec.sample({'case': case, 'leaves': len(root.leaves())})

