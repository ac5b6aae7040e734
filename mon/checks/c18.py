"""C18: split_precision: values closer than the precision are never separated by a cut of their own."""
import numpy as np
from scipy.sparse import csr_matrix

from mon import gen, oracle, view
from mon.checks import c01, c02

RULE = ('random data with gaps on both sides of the precision; perpendicular trees are audited node by node against the '
        'reference that only admits gaps above the precision, hyperplane trees by the gap at the chosen plane and by '
        'recomputing every evaluated orientation; non-trivial = node with a gap that the precision forbids; distinct by (case, node)')
MINIMUM = {'split_nodes': 400, 'forbidden_gap_nodes': 600, 'hyper_gaps': 150, 'too_coarse': 40, 'equal_gap_nodes': 60, 'equal_gap_nodes_hyper': 20, 'other_units': 300}
ASSUMPTIONS = ['a gap equal to the precision is only judged where differences and projections are exact (dyadic values, axes)']


def plan(tier, seed):
    f = 8 if tier == 'quick' else 60
    return gen.plan(seed, [(120 * f, {'mt': 'PC'}), (120 * f, {'mt': 'PR'}), (70 * f, {'mt': 'HC'}), (70 * f, {'mt': 'HR'})])


def run(case, rec):
    r = gen.rng(case)
    mt = case['mt']
    hyper = mt[0] == 'H'
    n, d = gen.sometimes(r, [10, 30, 80], [260, 300]), gen.sometimes(r, [1, 2, 3], [9, 12, 20])
    kind = r.choice(['grid', 'exact', 'clusters', 'cont', 'mixed'])
    precision = float(r.choice([.05, .25, 1., 2.5]))
    if kind == 'grid':
        X = r.integers(0, 12, (n, d)) * precision * float(r.choice([.4, .75, 1.5]))
    elif kind == 'exact':
        # values and gaps without rounding, many of the gaps equal to the precision
        precision = float(r.choice([.125, .25, 1., 2.]))
        X = r.integers(0, 14, (n, d)) * precision * float(r.choice([.5, 1., 1.]))
        X[r.random(n) < .3] *= 2
    elif kind == 'clusters':
        X = r.integers(0, 4, (n, d)) * 4 * precision + r.uniform(0, .4 * precision, (n, d))
    elif kind == 'cont':
        X = r.normal(0, 1, (n, d)) * precision * float(r.choice([1, 10, 40]))
    else:
        X = r.integers(0, 5, (n, d)) * precision * 1.3 + r.choice([0, .2 * precision], (n, d))
    if r.random() < .3:
        # other units (by powers of two: still exact), or far from zero
        if hyper or r.random() < .5:
            unit = 2. ** int(r.choice([-30, -12, 10, 14, 25]))
            X, precision = X * unit, precision * unit
        else:
            X = X + float(r.choice([2. ** 14, -2. ** 14, 2. ** 17, -2. ** 20]))
            X[:, r.integers(0, d)] -= 2. ** 14
        rec.event('other_units')
    kw = {}
    if hyper:
        kw['optimizer'] = gen.make_optimizer(r, mt == 'HC', name=r.choice(['random', 'quasi'])) if kind != 'exact' else gen.Fixed(np.eye(d)[r.permutation(d)])
    p = gen.problem(r, mt, X=X, prune=False, precision=precision, **kw)
    gaps = np.concatenate([np.diff(np.sort(X[:, j])) for j in range(d)])
    exact = kind == 'exact'
    if not hyper and not exact and np.any(np.abs(gaps - precision) < 1e-9 * (1 + np.abs(X).max())):
        rec.event('skipped_equal')
        return
    info = dict(problem=p.describe())
    m = p.model()
    rec.api('fit', m.fit, csr_matrix(X) if r.random() < .3 else X, p.y)
    y = p.y.astype(float)
    root = view.tree(m, X, p.kind, y, p.prior, p.delta)
    for v in root:
        Xn = X[v.rows]
        if not hyper:
            g = np.concatenate([np.diff(np.sort(Xn[:, j])) for j in range(d)])
            if np.any((g > 0) & (g <= precision)):
                rec.event('forbidden_gap_nodes')
                rec.nontrivial((case['i'], v.path))
        if exact and any(np.any(np.diff(np.sort(Xn[:, j])) == precision) for j in range(d)):
            rec.event('equal_gap_nodes_hyper' if hyper else 'equal_gap_nodes')
            rec.nontrivial((case['i'], v.path, 'equal'))
        if v.leaf:
            continue
        if not hyper:
            left = Xn[:, v.dim] < v.value
            gap = Xn[~left, v.dim].min() - Xn[left, v.dim].max() if left.any() and not left.all() else -1.
            rec.check(gap > (precision if exact else precision * (1 - 1e-9)), 'a split separates values that are closer than the split precision', gap=gap, precision=precision,
                      path=v.path, **info)
        else:
            pr = oracle.project(Xn, v.normal, v.origin)
            left = pr < 0
            gap = float(pr[~left].min() - pr[left].max()) if left.any() and not left.all() else -1.
            rec.event('hyper_gaps')
            s = np.sort(oracle.project(Xn, v.normal)).astype(float)
            if np.any((np.diff(s) > 1e-12) & (np.diff(s) <= precision)):
                rec.event('forbidden_gap_nodes')
                rec.nontrivial((case['i'], v.path))
            rec.check(gap > (precision if exact else precision * (1 - 1e-9) - 1e-10 * np.abs(Xn).max()), 'a hyperplane separates rows that are closer than the split precision',
                      gap=gap, precision=precision, path=v.path, **info)
    if not hyper:
        c01.audit(rec, case, p, m)
    elif not exact:
        spy = gen.Spy(p.params['optimizer'])
        q = rec.api('fit', p.model(optimizer=spy).fit, X, p.y)
        logs = c02.collections.defaultdict(list)
        for log in spy.nodes:
            logs[c02._key(gen.dense(log['X']), log['y'])].append(log)
        for v in view.tree(q, X, p.kind, y, p.prior, p.delta):
            c02.node(rec, case, p, v, y, logs)
    # a precision beyond the range of the data: nothing can be split
    w = p.model(split_precision=float((X.max() - X.min()) * np.sqrt(d) * 1.1 + 1e-3))
    rec.api('fit', w.fit, X, p.y)
    rec.event('too_coarse')
    rec.check(w.get_n_leaves() == 1, 'a split although all rows are closer than the split precision', tree=view.describe(w), **info)
    # all gaps above the precision: no effect
    pos = gaps[gaps > 0]
    if not hyper and len(pos) and len(view.tree(p.model(split_precision=0.).fit(X, p.y)).leaves()) > 1:
        a = p.model(split_precision=float(pos.min()) * .5).fit(X, p.y)
        b = p.model(split_precision=0.).fit(X, p.y)
        rec.event('too_fine')
        rec.check(view.same(view.signature(a), view.signature(b)), 'a precision below all gaps changes the tree', **info)
    rec.sample({'case': case, 'precision': precision, 'kind': str(kind), 'leaves': len(root.leaves())})
