"""C24: a larger partition prior only ever adds splits."""
import numpy as np

from mon import gen, oracle, view
from mon.checks import c02

RULE = ('each random problem is trained with an increasing ladder of partition priors; consecutive trees are walked in parallel: '
        'every split of the tree with the smaller partition prior must be there in the next one, unless tied; non-trivial = '
        'a compared split; distinct by (case, rung, node)')
MINIMUM = {'compared_splits': 4000, 'hyper_compared_splits': 300, 'rungs': 2500, 'rungs_growing': 400, 'rungs_equal': 200, 'ordered_scores': 1000, 'compared_improbable': 100}
ASSUMPTIONS = ['optimizers whose proposals do not depend on the reported values (random, quasi-random, two-point, fixed)',
               'nodes where two different decisions are equally probable up to rounding are not compared further']
LADDER = [1e-6, .01, .1, .3, .5, .7, .8, .9, .95, .99, .995, .999, .9999, .999999]


def plan(tier, seed):
    f = 2 if tier == 'quick' else 30
    return gen.plan(seed, [(200 * f, {'mt': 'PC'}), (200 * f, {'mt': 'PR'}), (70 * f, {'mt': 'HC'}), (70 * f, {'mt': 'HR'}),
                           (20 * f, {'mt': 'PC', 'strong': 1}), (20 * f, {'mt': 'PR', 'strong': 1})])


def run(case, rec):
    r = gen.rng(case)
    mt = case['mt']
    hyper = mt[0] == 'H'
    kw = dict(how='deep' if r.random() < .4 else None)
    if hyper:
        name = str(r.choice(['random', 'quasi', 'two', 'fixed'] if mt == 'HC' else ['random', 'quasi', 'fixed']))
        kw.update(d=gen.sometimes(r, [2, 3, 4], [9, 12, 20]), xkind=str(r.choice(['cont', 'int', 'dup', 'sparse'])))
        kw['optimizer'] = gen.Fixed([v.tolist() for v in r.normal(0, 1, (12, kw['d']))]) if name == 'fixed' else \
            gen.make_optimizer(r, mt == 'HC', name=name)
    if case.get('strong'):
        # rules so clear that they are found against the smallest partition priors, several levels down
        blocks, w = int(r.integers(4, 17)), int(r.integers(20, 90))
        y = np.repeat(np.arange(blocks) % int(r.integers(2, 4)), w)
        X = np.c_[np.arange(len(y)) + r.random(), r.normal(0, 1, (len(y), int(r.integers(0, 3))))]
        order = r.permutation(len(y))
        kw = dict(X=X[order], y=y[order] if mt == 'PC' else y[order] * 5. + r.normal(0, .1, len(y)))
    p = gen.problem(r, mt, prune=False, **kw)
    y = p.y.astype(float)
    pps = sorted(r.choice(LADDER, 5, replace=False)) if r.random() < .7 else sorted(float(v) for v in r.uniform(.05, .995, 5))
    if case.get('strong'):
        pps = sorted(10. ** r.uniform(-5.5, -1, 5))
    last = None
    for pp in pps:
        pp = float(pp)
        spy = gen.Spy(p.params['optimizer']) if hyper else None
        m = p.model(partition_prior=pp, **({'optimizer': spy} if hyper else {}))
        rec.api('fit', m.fit, p.X, p.y)
        root = view.tree(m, p.X, p.kind, y, p.prior, p.delta)
        if last is not None:
            rec.event('rungs')
            compare(rec, case, p, y, last, (pp, m, root), hyper, spy)
        last = (pp, m, root)
    rec.sample({'case': case, 'partition_priors': pps, 'leaves': last[1].get_n_leaves(), 'n': p.X.shape})


def compare(rec, case, p, y, small, large, hyper, spy):
    pp1, m1, a = small
    pp2, m2, b = large
    info = dict(smaller=pp1, larger=pp2, problem=p.describe())
    logs = {c02._key(gen.dense(log['X']), log['y']): log for log in spy.nodes} if hyper else None
    todo = [(a, b)]
    tied = False
    while todo:
        u, w = todo.pop()
        same_rows = np.array_equal(np.sort(u.rows), np.sort(w.rows))
        if not rec.check(same_rows, 'the same split holds other rows', path=u.path, **info):
            return
        if u.leaf:
            continue
        if w.leaf or not same_split(p, u, w):
            if ambiguous(p, y, u, pp1, pp2, hyper, logs):
                rec.event('ties')
                tied = True
                continue
            rec.violation('a split disappears' if w.leaf else 'a split changes when the partition prior grows', path=u.path,
                          tree=view.describe(m1), larger_tree=view.describe(m2), **info)
            return
        rec.event('compared_splits')
        rec.event('hyper_compared_splits', hyper)
        rec.nontrivial((case['i'], pp2, u.path))
        rec.event('compared_improbable', (1 + u.depth) * np.log(pp1) < np.log(1e-12))
        flip = hyper and set(u.left.rows.tolist()) != set(w.left.rows.tolist())
        todo += [(u.left, w.right), (u.right, w.left)] if flip else [(u.left, w.left), (u.right, w.right)]
    n1, n2 = m1.get_n_leaves(), m2.get_n_leaves()
    rec.event('rungs_growing' if n2 > n1 else 'rungs_equal')
    if not tied:
        rec.check(n2 >= n1 and m2.get_depth() >= m1.get_depth(), 'a tree shrinks when the partition prior grows', leaves=(n1, n2),
                  depth=(m1.get_depth(), m2.get_depth()), **info)
        # the importance of a tree that only gains splits: total gain grows
        if not p.hyper and n1 > 1 and n2 == n1:
            rec.event('ordered_scores')
            f1, f2 = m1.predict(p.X), m2.predict(p.X)
            rec.check(np.allclose(f1, f2, rtol=1e-9, atol=1e-9), 'equal trees predict differently', **info)


def same_split(p, u, w):
    lu, lw = set(u.left.rows.tolist()), set(w.left.rows.tolist())
    return lu == lw or (p.hyper and lu == set(w.right.rows.tolist()))


def ambiguous(p, y, u, pp1, pp2, hyper, logs):
    """the decision of this node is tied under one of the partition priors"""
    X, yn = p.X[u.rows], y[u.rows]
    for pp in (pp1, pp2):
        no = oracle.log_no_split(p.kind, yn, u.prior, pp, u.depth)
        options = []
        if not hyper or X.shape[1] == 1:
            for c in oracle.perpendicular_cuts(p.kind, X, yn, u.prior, pp, u.depth):
                for i, lp in enumerate(c[4]):
                    options.append((lp, frozenset(np.flatnonzero(X[:, c[0]] <= c[2][i]).tolist())))
        else:
            log = logs.get(c02._key(X, yn))
            if log is None:
                return True
            old, p.pp = p.pp, pp
            try:
                for arg, _ in log['evals']:
                    c = c02.candidate(p, arg, X, yn, u, X.shape[1])
                    if c is None:
                        return True
                    if c[0] is None:
                        continue
                    order = np.argsort(oracle.project(X, normal(p, arg)), kind='stable')
                    for lp, k in zip(c[0], c[2]):
                        options.append((lp, frozenset(order[:k].tolist())))
            finally:
                p.pp = old
        if not options:
            return False
        best = max(o[0] for o in options)
        tol = 4 * (oracle.tolerance(p.kind, yn, u.prior, no) + oracle.tolerance(p.kind, yn, u.prior, best)) + 1e-8
        if abs(best - no) <= tol:
            return True
        everything = frozenset(range(len(yn)))
        # planes are compared as partitions: either side first
        if len({min(o[1], everything - o[1], key=sorted) if hyper else o[1] for o in options if o[0] >= best - tol}) > 1:
            return True
    return False


def normal(p, arg):
    a = c02.hypercube_to_hypersphere_surface(arg, half_hypersphere=True) if p.params['optimizer'].search_space_is_unit_hypercube else \
        np.array(arg, dtype=float)
    a = np.nan_to_num(a)
    return a / (np.linalg.norm(a) or 1)
