"""C02: hyperplane trees judge every orientation by its best cut, keep the best one, and only split if that
beats not splitting."""
import collections

import numpy as np

from mon import gen, oracle, view
from bayesian_decision_tree.utils import hypercube_to_hypersphere_surface

RULE = ('random data x all optimizers (spied on at the optimizer boundary: each evaluated orientation and the value '
        'returned for it are recorded and recomputed); non-trivial = an orientation with at least one admissible cut, '
        'distinct by (case, node, evaluation)')
MINIMUM = {'evaluations_judged': 3000, 'split_nodes': 150, 'leaf_nodes': 100, 'ties_judged': 20, 'depth_ge_2': 20}
ASSUMPTIONS = ['orientations along which two different rows nearly coincide (gap below 1e-11 of the data scale) are '
               'not judged', 'optimizers are observed through the documented optimizer interface']


def plan(tier, seed):
    f = 1 if tier == 'quick' else 25
    return gen.plan(seed, [(220 * f, {'mt': 'HC'}), (220 * f, {'mt': 'HR'}),
                           (60 * f, {'mt': 'HC', 'fixed': 1}), (60 * f, {'mt': 'HR', 'fixed': 1}),
                           (200 * f, {'mt': 'HC', 'ties': 1}),
                           (40 * f, {'mt': 'HC', 'd': 1}), (40 * f, {'mt': 'HR', 'd': 1}),
                           (40 * f, {'mt': 'HC', 'precision': 1}), (40 * f, {'mt': 'HR', 'precision': 1}),
                           (1, {'mt': 'HC', 'large': 66000}), (1, {'mt': 'HR', 'large': 66000}), (3, {'mt': 'HC', 'large': 2500}), (3, {'mt': 'HR', 'large': 2500}),
                           (3 * f, {'mt': 'HC', 'default': 1}), (3 * f, {'mt': 'HR', 'default': 1})])


def make(case, r):
    kw = {}
    if case.get('d'):
        kw['d'] = 1
        kw['xkind'] = r.choice(['cont', 'grid', 'dup', 'int', 'sparse'])
    if case.get('precision'):
        kw['precision'] = float(r.choice([.05, .5, 1.]))
        kw['xkind'] = r.choice(['cont', 'int', 'dup'])
    if case.get('ties') and case['mt'] == 'HC':
        kw.update(k=2, n=int(r.integers(5, 60)), d=int(r.integers(2, 7)))
    if case.get('large'):
        # (few nodes: a clear rule and a small partition prior)
        kw.update(n=case['large'] - int(r.integers(0, 300)), d=int(r.integers(2, 4)), xkind='cont', how='oblique' if case['mt'] == 'HC' else 'step', pp=1e-6,
                  optimizer=gen.make_optimizer(r, True, name='random'))
        kw['optimizer'].n_mc = 8
    if case.get('default'):
        kw.update(n=15, d=2, xkind='cont')
    if case.get('fixed'):
        kw['xkind'] = r.choice(['grid', 'cont', 'int', 'dup'])
        kw['d'] = int(r.integers(2, 5))
        d = kw['d']
        N = r.normal(0, 1, (int(r.integers(1, 6)), d))
        extra = [np.eye(d)[r.integers(d)], -np.eye(d)[r.integers(d)], np.zeros(d), np.full(d, np.nan), 1e5 * np.ones(d),
                 np.r_[np.nan, np.ones(d - 1)]]
        N = list(N) + [extra[j] for j in r.integers(0, len(extra), 4)] + [-N[0], N[0] * 3]
        kw['optimizer'] = gen.Fixed([v.tolist() for v in N])
    p = gen.problem(r, case['mt'], prune=False, **kw)
    if case.get('ties'):
        tied(r, p)
    return p


def tied(r, p):
    """two well separated groups of rows that (almost) any orientation of the optimizer tells apart by the same cut"""
    n, d = len(p.y), p.X.shape[1]
    if n < 4:
        return
    k = int(r.integers(2, n - 1))
    X = r.random((n, d))
    if r.random() < .7:
        # counts, mostly zero in one group and some features
        X = np.floor(X * 2)
        X[:k] = r.random((k, d)) < (r.random(d) if r.random() < .3 else r.random((k, 1)) ** 2)
        near = r.random() < .7
        if near:
            X[k:] = X[k:, :1]
        X[:2], X[k:k+2] = [[0], [1]], [[0], [1]]
        X[k:] += r.integers(3, 7, 1 if near else d)
    else:
        X[k:] += r.integers(3, 9, d) if r.random() < .3 else 2 + r.random()
    classes = np.unique(p.y)
    if len(classes) > 1:
        p.y = np.r_[np.full(k, classes[0]), np.full(n - k, classes[1])].astype(p.y.dtype)
    order = r.permutation(n)
    p.X, p.y = X[order], p.y[order]
    N = [row for row in np.eye(d)]
    if r.random() < .5:
        N += [r.random(d) + .1 for _ in range(3)]
    p.params['optimizer'] = gen.Fixed([N[j].tolist() for j in r.permutation(len(N))])


def run(case, rec):
    r = gen.rng(case)
    p = make(case, r)
    inner = p.params['optimizer']
    if case.get('default'):
        from scipy.optimize._differentialevolution import DifferentialEvolutionSolver
        p.params['optimizer'] = None
        m = p.model()
        rec.api('fit', m.fit, p.X, p.y)
        m2 = p.model(optimizer=gen.ho.ScipyOptimizer(DifferentialEvolutionSolver, 666)).fit(p.X, p.y)
        rec.check(view.same(view.signature(m), view.signature(m2)), 'the default optimizer is not the documented differential '
                  'evolution', problem=p.describe())
        rec.event('default_optimizer_fits')
        return
    spy = gen.Spy(inner)
    X = p.X
    if r.random() < (.6 if case.get('ties') else .2):
        from scipy.sparse import csr_matrix, csc_matrix
        X = (csr_matrix if r.random() < .5 else csc_matrix)(X)
        rec.event('sparse_fits')
    m = p.model(optimizer=spy)
    rec.api('fit', m.fit, X, p.y)
    y = p.y.astype(float)
    root = view.tree(m, p.X, p.kind, y, p.prior, p.delta)
    logs = collections.defaultdict(list)
    for log in spy.nodes:
        logs[_key(gen.dense(log['X']), log['y'])].append(log)
    depth = 0
    for v in root:
        depth = max(depth, v.depth)
        node(rec, case, p, v, y, logs)
    if depth >= 2:
        rec.event('depth_ge_2')
    rec.sample({'case': case, 'optimizer': str(inner)[:100], 'n': p.X.shape, 'tree': view.describe(m, 300)})


def _key(X, y):
    return tuple(sorted(zip(map(bytes, np.ascontiguousarray(X + 0.)), np.asarray(y, dtype=float).tolist())))


def node(rec, case, p, v, y, logs):
    rec.event('nodes')
    Xn, yn = p.X[v.rows], y[v.rows]
    d = Xn.shape[1]
    info = dict(path=v.path, n=len(v.rows), problem=p.describe())
    trivial = len(v.rows) <= 1 or np.all(yn == yn[0])
    if len(v.rows) == 0:
        rec.violation('a node without training data', **info)
        return
    if v.depth > 0 and trivial:
        rec.check(v.leaf, 'a pure or single-row node below the root was split', **info)
        return
    if d == 1:
        evals = [(np.ones(1), None)]
    else:
        log = logs[_key(Xn, yn)]
        if not log:
            rec.violation('a node with several rows and different targets was never optimized', **info)
            return
        log = log.pop(0)
        if len(log['evals']) == 0 and (trivial or 'TwoPoint' in str(type(p.params['optimizer']))):
            return
        evals = log['evals']
        rec.check(len(evals) > 0, 'the optimizer made no evaluation', **info)
    no = oracle.log_no_split(p.kind, yn, v.prior, p.pp, v.depth)
    tol = oracle.tolerance(p.kind, yn, v.prior, no)
    best, unclear = -np.inf, False
    groups = []
    judged = set(range(len(evals)))
    if len(evals) > 130:
        by_value = np.argsort([e[1] for e in evals], kind='stable')
        judged = set(range(40)) | set(by_value[:20].tolist()) | set(range(0, len(evals), max(1, len(evals)//60)))
    for j, (arg, value) in enumerate(evals):
        if j not in judged:
            # only what was reported to the optimizer
            rec.event('evaluations_not_recomputed')
            unclear = True
            if -value > no:
                best = max(best, -value)
            continue
        c = candidate(p, arg, Xn, yn, v, d)
        if c is None:
            rec.event('evaluations_not_judged')
            unclear = True
            continue
        lps, dist, n_left = c
        if lps is None:
            rec.event('evaluations_without_cut')
            if value is not None:
                rec.check(not -value > no + tol, 'an orientation without admissible cut was reported as better '
                          'than not splitting', arg=arg, value=value, no_split=no, **info)
            continue
        top = lps.max()
        rec.event('evaluations_judged')
        rec.nontrivial((case['i'], v.path, j))
        t = tol + oracle.tolerance(p.kind, yn, v.prior, top)
        if value is not None:
            rec.check(abs(-value - top) <= t, 'the value reported for an orientation is not the negative log '
                      'probability of its best cut', arg=arg, value=value, expected=-top, **info)
        best = max(best, top)
        groups.append((top, t, dist))
    tolb = tol + oracle.tolerance(p.kind, yn, v.prior, best)
    if v.leaf:
        rec.event('leaf_nodes')
        rec.check(best <= no + tolb, 'a leaf although an evaluated orientation is better than not splitting',
                  best=best, no_split=no, **info)
        return
    rec.event('split_nodes')
    rec.check(abs(np.linalg.norm(v.normal) - 1) < 1e-9, 'the hyperplane normal is not a unit vector', normal=v.normal, **info)
    # the cut the node ended up with
    pr = oracle.project(Xn, v.normal, v.origin)
    left = pr < 0
    if not rec.check(left.any() and not left.all(), 'the hyperplane does not separate the data', **info):
        return
    lo, hi = pr[left].max(), pr[~left].min()
    scale = np.abs(Xn).max(axis=0) @ np.abs(v.normal) + 1e-300
    rec.check(abs(lo + hi) <= 1e-10 * scale, 'the hyperplane is not midway between the rows it separates',
              below=float(lo), above=float(hi), **info)
    c = candidate(p, v.normal, Xn, yn, v, d, unit=True)
    if c is None or c[0] is None:
        if c is not None:
            rec.violation('the node was split although there is no admissible cut', **info)
        rec.event('splits_not_judged')
        return
    lps, _, n_left = c
    at = np.flatnonzero(n_left == left.sum())
    if not rec.check(len(at) == 1, 'the hyperplane does not cut at an admissible position', **info):
        return
    mine = lps[at[0]]
    rec.check(mine >= no - tolb, 'split although not splitting is more probable', chosen=mine, no_split=no, **info)
    rec.check(mine >= best - tolb, 'a better orientation was evaluated than the one that was kept',
              chosen=mine, best=best, **info)
    # ties: largest total distance (only if everything was judged, and the tie is exact by construction)
    if p.kind == 'cls' and not unclear:
        tied = [g for g in groups if abs(g[0] - best) <= 1e-12 * (1 + abs(best)) and g[2] is not None]
        certain = [g for g in tied if _same_cut(g[2], left, yn, v)]
        if len(tied) > 1 and len(certain) > 1:
            total = float(np.abs(pr).sum())
            rec.event('ties_judged')
            most = max(g[2][1] for g in certain)
            rec.check(total >= most * (1 - 1e-9), 'among equally probable orientations not the one with the largest '
                      'total distance was kept', total=total, best=most, **info)


def _same_cut(dist, left, yn, v):
    """same partition with the same orientation and number of admissible cuts as the kept split: exact tie"""
    mask, total, n_cuts, kept_cuts = dist
    return n_cuts == kept_cuts(v) and np.array_equal(mask, left)


def candidate(p, arg, Xn, yn, v, d, unit=None):
    """(log probabilities of all admissible cuts, tie information, left sizes) of one orientation; None if the
    orientation is ambiguous; (None, ...) if there is no admissible cut"""
    arg = np.array(arg, dtype=float)
    if unit is None:
        unit = not p.params['optimizer'].search_space_is_unit_hypercube or d == 1
    normal = arg if unit else hypercube_to_hypersphere_surface(arg, half_hypersphere=True)
    normal = np.nan_to_num(normal)
    if np.all(normal == 0):
        normal = np.eye(d)[0]
    normal = normal / np.linalg.norm(normal)
    pr = oracle.project(Xn, normal)
    order = np.argsort(pr, kind='stable')
    s = pr[order]
    gaps = np.diff(s)
    scale = np.abs(Xn).max(axis=0) @ np.abs(normal) + 1e-300
    doubtful = (gaps > 0) & (gaps < 1e-11 * scale)
    if p.precision:
        doubtful &= gaps > p.precision - 1e-11 * scale
        doubtful |= np.abs(gaps - p.precision) < 1e-11 * scale
    if np.any(doubtful):
        return None
    pos = 1 + np.flatnonzero(gaps > max(p.precision, 0))
    if len(pos) == 0:
        return None, None, None
    lps = oracle.log_cuts(p.kind, yn[order], v.prior, p.pp, v.depth, pos, d)
    dist = None
    top = lps.max()
    if np.sum(lps >= top - 1e-9 * (1 + abs(top))) == 1:
        i = int(np.argmax(lps))
        mid = (s[pos[i] - 1] + s[pos[i]]) / 2
        mask = np.zeros(len(yn), dtype=bool)
        mask[order[:pos[i]]] = True
        dist = (mask, float(np.abs(pr - mid).sum()), len(pos), lambda w: _n_cuts(p, w, Xn))
    return lps, dist, pos


def _n_cuts(p, v, Xn):
    s = np.sort(oracle.project(Xn, v.normal))
    return int(np.sum(np.diff(s) > max(p.precision, 1e-11 * (np.abs(Xn).max(axis=0) @ np.abs(v.normal)))))
