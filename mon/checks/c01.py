"""C01: every node of a perpendicular tree is the Bayes-optimal greedy decision."""
import numpy as np

from mon import gen, oracle, view

RULE = ('random data sets (12 kinds of features, 8-10 kinds of targets) x random priors/partition priors/delta; '
        'non-trivial = the node has at least two rows with different targets and at least one admissible cut; '
        'distinct by (case, node path)')
MINIMUM = {'crowds': 10, 'split_nodes': 200, 'leaf_nodes_with_cuts': 200, 'depth_ge_3': 20}
ASSUMPTIONS = ['decisions closer than the rounding tolerance of the evidence are not judged',
               'features and targets finite; partition prior in (0, 1)']


def plan(tier, seed):
    f = 9 if tier == 'quick' else 100
    return gen.plan(seed, [(260 * f, {'mt': 'PC'}), (260 * f, {'mt': 'PR'}),
                           (40 * f, {'mt': 'PC', 'how': 'deep'}), (40 * f, {'mt': 'PR', 'how': 'deep'}),
                           (3 * f, {'mt': 'PC', 'crowd': 1}), (20 * f, {'mt': 'PC', 'big': 1}), (20 * f, {'mt': 'PR', 'big': 1}),
                           (2 if tier == 'quick' else 12, {'mt': 'PC', 'huge': 1}),
                           (2 if tier == 'quick' else 12, {'mt': 'PR', 'huge': 1})])


def run(case, rec):
    r = gen.rng(case)
    kw = {}
    if case.get('how') == 'deep':
        kw = dict(xkind=r.choice(['cont', 'grid', 'int', 'mixed']), n=int(r.choice([120, 250])), how='deep',
                  d=int(r.integers(2, 5)), pp=float(r.choice([.99, .9999])))
    if case.get('crowd'):
        X, y, k = gen.crowd(r)
        kw = dict(X=X, y=y, k=k)
        rec.event('crowds')
    if case.get('big'):
        kw = dict(xkind=r.choice(['cont', 'mixed', 'sparse']), n=int(r.integers(800, 2000)))
    if case.get('huge'):
        n = int(r.choice([65534, 65535, 65536, 65537, 70000]))
        X = gen.make_X(r, 'cont', n, 2)
        kw = dict(X=X, how='xor' if case['mt'] == 'PC' else 'step', pp=.9)
        if case['mt'] == 'PC':
            kw['k'] = 2
    if case.get('big') and r.random() < .6:
        p = gen.correlated(r, case['mt'], int(r.integers(300, 2000)))
    else:
        p = gen.problem(r, case['mt'], prune=False, **kw)
    m = p.model()
    rec.api('fit', m.fit, p.X, p.y)
    audit(rec, case, p, m, max_nodes=12 if case.get('huge') else None)


def audit(rec, case, p, m, max_nodes=None):
    root = view.tree(m, p.X, p.kind, p.y.astype(float), p.prior, p.delta)
    y = p.y.astype(float)
    depth = 0
    for i, v in enumerate(root):
        if max_nodes and i >= max_nodes:
            break
        depth = max(depth, v.depth)
        yn, Xn = y[v.rows], p.X[v.rows]
        rec.event('nodes')
        where = dict(path=v.path, n=len(v.rows))
        if len(v.rows) == 0:
            rec.violation('a node without training data', problem=p.describe(), **where)
            return
        trivial = len(v.rows) == 1 or np.all(yn == yn[0])
        cuts = oracle.perpendicular_cuts(p.kind, Xn, yn, v.prior, p.pp, v.depth, p.precision)
        no = oracle.log_no_split(p.kind, yn, v.prior, p.pp, v.depth)
        best = max((c[4].max() for c in cuts), default=-np.inf)
        tol = oracle.tolerance(p.kind, yn, v.prior, no) + oracle.tolerance(p.kind, yn, v.prior, best)
        if cuts and not trivial:
            rec.nontrivial((case['i'], v.path))
        if v.leaf:
            if trivial:
                rec.event('pure_or_single_leaves')
                continue
            rec.event('leaf_nodes_with_cuts' if cuts else 'leaf_nodes_without_cuts')
            rec.check(best <= no + tol, 'a better split exists at a leaf', no_split=no, best=best, tol=tol,
                      problem=p.describe(), **where)
            continue
        rec.event('split_nodes')
        if v.depth > 0:
            rec.check(not trivial, 'a pure or single-row node below the root was split', problem=p.describe(), **where)
        mine = [c for c in cuts if c[0] == v.dim]
        k = int(np.sum(Xn[:, v.dim] < v.value)) if 0 <= v.dim < p.X.shape[1] else 0
        hit = np.flatnonzero(mine[0][1] == k) if mine else []
        if not rec.check(len(hit) == 1, 'the split does not separate the data at an admissible position',
                         dim=v.dim, value=v.value, left=k, problem=p.describe(), **where):
            return
        h = hit[0]
        lp, lo, hi = mine[0][4][h], mine[0][2][h], mine[0][3][h]
        rec.check(lp >= best - tol, 'the chosen split is not the most probable one', dim=v.dim, value=v.value,
                  chosen=lp, best=best, tol=tol, problem=p.describe(), **where)
        rec.check(lp >= no - tol, 'the node was split although not splitting is more probable',
                  chosen=lp, no_split=no, tol=tol, problem=p.describe(), **where)
        mid = float((oracle.LD(lo) + oracle.LD(hi)) / 2)
        slack = 2 * np.spacing(max(abs(lo), abs(hi)))
        rec.check(abs(v.value - mid) <= slack and lo < v.value <= hi,
                  'the split value is not midway between the neighbouring values', lo=lo, hi=hi, value=v.value,
                  problem=p.describe(), **where)
    if depth >= 3:
        rec.event('depth_ge_3')
    rec.event('depth_{}'.format(min(depth, 8)))
    rec.sample({'case': case, 'n': p.X.shape, 'tree': view.describe(m, 300)})
