"""Workload generators: data sets, parameters and models, all from the seed of the case."""
import numpy as np

from mon import core  # noqa: F401  (puts /repo on sys.path)
from bayesian_decision_tree.classification import PerpendicularClassificationTree, HyperplaneClassificationTree
from bayesian_decision_tree.regression import PerpendicularRegressionTree, HyperplaneRegressionTree
from bayesian_decision_tree import hyperplane_optimization as ho

MODELS = {'PC': PerpendicularClassificationTree, 'PR': PerpendicularRegressionTree,
          'HC': HyperplaneClassificationTree, 'HR': HyperplaneRegressionTree}

X_KINDS = ['cont', 'grid', 'dup', 'const', 'sparse', 'binary', 'offset', 'scale', 'wide', 'tiny', 'mixed', 'int']
X_HYPER = ['cont', 'grid', 'dup', 'const', 'sparse', 'scale', 'wide', 'tiny', 'int']


def rng(case, salt=0):
    return np.random.default_rng([int(case.get('seed', 0)), int(case.get('i', 0)), salt])


def make_X(r, kind, n=None, d=None, big=False):
    if kind == 'wide':
        n = n or int(r.integers(3, 12))
        d = d or int(r.integers(n, n + 8))
    elif kind == 'tiny':
        n = n or int(r.integers(1, 5))
        d = d or int(r.integers(1, 4))
    if n is None and d is None and big and r.random() < .03:
        # sizes around powers of two (types of indices), many features
        n, d = [(int(r.choice([255, 256, 257, 258, 300, 513, 1000])), int(r.choice([1, 2, 3]))),
                (int(r.choice([10, 20, 40])), int(r.choice([12, 40, 130, 257, 300]))),
                (int(r.choice([1500, 2049, 2100, 4200])), int(r.choice([1, 2])))][int(r.choice([0, 0, 0, 1, 1, 1, 2]))]
    n = n or int(r.choice([6, 15, 30, 60, 120, 200]))
    d = d or int(r.choice([1, 2, 3, 4, 6]))
    X = r.normal(0, 1, (n, d))
    if kind == 'grid':
        X = r.integers(0, int(r.integers(2, 9)), (n, d)).astype(float)
    elif kind == 'dup':
        base = r.normal(0, 1, (max(1, n // 4), d))
        X = base[r.integers(0, len(base), n)]
    elif kind == 'const':
        X[:, r.integers(0, d)] = r.choice([0., 3.7, -1e5])
        if d > 2:
            X[:, r.integers(0, d)] = 0
    elif kind == 'sparse':
        X = X * (r.random((n, d)) < r.choice([.1, .3, .6]))
    elif kind == 'binary':
        X = (r.random((n, d)) < .5).astype(float)
    elif kind == 'offset':
        X = X * r.choice([1e-3, 1, 10]) + r.choice([1e3, -1e6, 1e9])
    elif kind == 'scale':
        X = X * 10. ** r.uniform(-6, 6, d)
    elif kind == 'mixed':
        for j in range(d):
            if j % 3 == 0:
                X[:, j] = r.integers(0, 4, n)
            elif j % 3 == 1:
                X[:, j] = np.round(X[:, j], 1)
    elif kind == 'int':
        X = r.integers(-50, 51, (n, d)).astype(float)
    return np.ascontiguousarray(X)


def _rank(v):
    """position in [0, 1) of each value among the distinct values"""
    u, inv = np.unique(v, return_inverse=True)
    return inv / max(1, len(u))


def _fix_classes(r, y, k):
    """every class 0..k-1 has to occur"""
    y = np.asarray(y, dtype=int) % k
    n = len(y)
    missing = [c for c in range(k) if not np.any(y == c)]
    spots = r.permutation(n)
    for c in missing:
        for s in spots:
            if np.sum(y == y[s]) > 1:
                y[s] = c
                break
    return y


def make_y_cls(r, X, k=None, how=None):
    n, d = X.shape
    if k is None:
        k = int(r.choice([1, 2, 2, 2, 3, 3, 4, 6])) if r.random() < .95 else int(r.choice([8, 11, 13, 30]))
    k = min(k, n)
    how = how or r.choice(['axis', 'stairs', 'xor', 'oblique', 'noise', 'blobs', 'imbalance', 'deep'])
    if how == 'axis':
        y = (_rank(X[:, r.integers(d)]) * k).astype(int)
    elif how == 'stairs':
        y = (_rank(X[:, r.integers(d)]) * int(r.integers(3, 12))).astype(int)
    elif how == 'xor':
        a, b = r.integers(d), r.integers(d)
        y = (_rank(X[:, a]) > .5).astype(int) + (_rank(X[:, b]) > r.uniform(.3, .7)).astype(int) * (1 if k == 2 else 2)
    elif how == 'oblique':
        p = X @ (r.normal(0, 1, d) / (np.abs(X).max(axis=0) + 1e-9))
        y = (_rank(p) * k).astype(int)
    elif how == 'blobs':
        c = X[r.integers(0, n, 2 * k)]
        s = np.abs(X).max(axis=0) + 1e-9
        y = np.argmin((((X[:, None, :] - c[None]) / s) ** 2).sum(axis=2), axis=1)
    elif how == 'imbalance':
        p = .05 + .4 * (_rank(X[:, r.integers(d)]) > .5) * (r.random() < .8)
        y = (r.random(n) < p).astype(int) * int(r.integers(1, k + 1))
    elif how == 'deep':
        a = r.permutation(d)[:3]
        y = sum((_rank(X[:, j]) * 4).astype(int) * (m + 1) for m, j in enumerate(a))
    else:
        y = r.integers(0, k, n)
    y = _fix_classes(r, y, k)
    if r.random() < .4:
        flip = r.random(n) < r.choice([.05, .2])
        y = _fix_classes(r, np.where(flip, r.integers(0, k, n), y), k)
    return y, k


def make_y_reg(r, X, how=None):
    n, d = X.shape
    how = how or r.choice(['step', 'stairs', 'linear', 'noise', 'int', 'offset', 'const', 'xor', 'hetero', 'deep'])
    a, b = r.integers(d), r.integers(d)
    if how == 'step':
        y = np.where(_rank(X[:, a]) > r.uniform(.2, .8), 3., -1.) + r.normal(0, .3, n)
    elif how == 'stairs':
        y = np.floor(_rank(X[:, a]) * int(r.integers(3, 9))) * r.choice([1., -2.5, 40.]) + r.normal(0, .1, n)
    elif how == 'linear':
        y = X @ (r.normal(0, 1, d) / (np.abs(X).max(axis=0) + 1e-9)) + r.normal(0, .05, n)
    elif how == 'int':
        y = np.floor(_rank(X[:, a]) * 4) * 2 - np.floor(_rank(X[:, b]) * 3)
    elif how == 'offset':
        y = np.where(_rank(X[:, a]) > .5, 1., 0.) + r.normal(0, .1, n) + r.choice([1e3, -1e4])
    elif how == 'const':
        y = np.full(n, float(r.choice([0., 2.5, -7.])))
    elif how == 'xor':
        y = np.where((_rank(X[:, a]) > .5) != (_rank(X[:, b]) > .5), 1., -1.) + r.normal(0, .2, n)
    elif how == 'hetero':
        y = r.normal(0, 1, n) * np.where(_rank(X[:, a]) > .5, 10., .1)
    elif how == 'deep':
        y = sum(np.floor(_rank(X[:, j]) * 4) * 4. ** m for m, j in enumerate(r.permutation(d)[:3])) + r.normal(0, .05, n)
    else:
        y = r.normal(0, 1, n)
    return np.asarray(y, dtype=float)


def make_prior_cls(r, k, allow_none=True):
    """(prior for the constructor, reference values or None for the default)"""
    c = r.integers(0, 7 if allow_none else 6)
    if c == 0:
        v = np.ones(k)
    elif c == 1:
        v = np.full(k, r.choice([.05, .5, 3., 30.]))
    elif c == 2:
        v = r.uniform(.1, 4, k)
    elif c == 3:
        v = r.integers(1, 6, k).astype(float)
        p = [int(x) for x in v]
        return (p if r.random() < .5 else tuple(p)), v
    elif c == 4:
        v = r.integers(1, 4, k).astype(float)
        return v.astype(int), v
    elif c == 5:
        v = np.ones(k) * .1
        v[r.integers(k)] = 5.
    else:
        return None, None
    form = r.integers(3)
    return (v.tolist() if form == 0 else tuple(v.tolist()) if form == 1 else v.copy()), v


def make_prior_reg(r, y, allow_none=True):
    if allow_none and r.random() < .15:
        return None, None
    sd = float(np.std(y)) or 1.
    mu = float(np.mean(y)) if r.random() < .5 else float(np.mean(y) + sd * r.normal()) if r.random() < .7 else 0.
    n0 = float(r.choice([.1, 1., 1., 5., 20.]))
    alpha = n0 / 2 if r.random() < .6 else float(r.uniform(.2, 3))
    beta = alpha * (sd * float(r.choice([.05, .1, .3, 1.]))) ** 2
    v = np.array([mu, n0, alpha, beta])
    if r.random() < .15:
        v = np.array([int(round(mu)), 1, 1, max(1, int(round(beta)))], dtype=float)
        p = [int(x) for x in v]
        return (p if r.random() < .5 else tuple(p) if r.random() < .5 else np.array(p)), v
    form = r.integers(3)
    return (v.tolist() if form == 0 else tuple(v.tolist()) if form == 1 else v.copy()), v


def make_optimizer(r, cls=True, cheap=True, name=None):
    names = ['random', 'quasi', 'sa', 'de', 'gd'] + (['two'] if cls else [])
    name = name or r.choice(names, p=np.array([4, 3, 1, 1, 1] + ([3] if cls else [])) / (13. if cls else 10.))
    s = int(r.integers(0, 1000)) if r.random() < .75 else 0   # 0 is a seed like any other
    if name == 'random':
        return ho.RandomHyperplaneOptimizer(int(r.choice([5, 20, 60])), s)
    if name == 'quasi':
        return ho.QuasiRandomHyperplaneOptimizer(int(r.choice([5, 20, 60])))
    if name == 'two':
        return ho.RandomTwoPointOptimizer(int(r.choice([5, 20, 60])), s)
    if name == 'sa':
        return ho.SimulatedAnnealingOptimizer(10, 5, .95, s)
    if name == 'gd':
        return ho.GradientDescentOptimizer(8, 2)
    from scipy.optimize._differentialevolution import DifferentialEvolutionSolver
    return ho.ScipyOptimizer(DifferentialEvolutionSolver, s, maxiter=3, popsize=4)


class Problem:
    """model type, constructor parameters and data of one case"""
    def __init__(self, mt, params, X, y, k, prior, pp, delta, precision):
        self.mt, self.params, self.X, self.y, self.k = mt, params, X, y, k
        self.kind = 'cls' if mt[1] == 'C' else 'reg'
        self.hyper = mt[0] == 'H'
        self.prior = prior            # reference prior of the root
        self.pp, self.delta, self.precision = pp, delta, precision

    def model(self, **override):
        p = dict(self.params)
        p.update(override)
        return MODELS[self.mt](**p)

    def describe(self):
        return {'model': self.mt, 'params': {k: v if not hasattr(v, 'solve') else str(v) for k, v in self.params.items()},
                'X': self.X, 'y': self.y}


def problem(r, mt, xkind=None, n=None, d=None, delta=None, prune=None, precision=0., y=None, X=None, k=None,
            pp=None, how=None, optimizer=None, allow_none_prior=True):
    kind = 'cls' if mt[1] == 'C' else 'reg'
    hyper = mt[0] == 'H'
    if X is None:
        if hyper and n is None and d is None and r.random() < .025:
            # many rows or many features
            n, d = [(int(r.choice([257, 300, 520, 700])), int(r.choice([2, 3]))), (int(r.choice([10, 20, 40])), int(r.choice([9, 12, 24, 40, 70])))][
                int(r.integers(2))]
            if optimizer is None:
                optimizer = make_optimizer(r, kind == 'cls', name=r.choice(['random', 'quasi'] + (['two'] if kind == 'cls' else [])))
        X = make_X(r, xkind or r.choice(X_HYPER if hyper else X_KINDS), n, d, big=not hyper)
    if y is None:
        if kind == 'cls':
            y, k = make_y_cls(r, X, k, how)
        else:
            y = make_y_reg(r, X, how)
    elif kind == 'cls' and k is None:
        k = int(np.max(y)) + 1
    prior, ref = make_prior_cls(r, k, allow_none_prior) if kind == 'cls' else make_prior_reg(r, y, allow_none_prior)
    if ref is None:
        from mon import oracle
        ref = oracle.default_prior(kind, len(X), k)
    if pp is None:
        pp = float(r.choice([.1, .5, .9, .99, .99, .999, .9999]))
    if delta is None:
        delta = float(r.choice([0., 0., .1, .5, 1.])) if r.random() < .8 else round(float(r.uniform(0, 1)), 3)
    params = {'partition_prior': pp, 'prior': prior, 'delta': delta,
              'prune': bool(r.random() < .3) if prune is None else prune, 'split_precision': precision}
    if delta == 0. and r.random() < .5:
        params.pop('delta')
    if hyper:
        params['optimizer'] = optimizer if optimizer is not None else make_optimizer(r, kind == 'cls')
    return Problem(mt, params, X, y, k, ref, pp, delta, precision)


def wide(r, mt, **kw):
    """as many classes or features as narrow index types cannot count, where the last ones matter; hyperplane trees: few rows, many features"""
    if mt[1] == 'C' and r.random() < .5:
        k = int(r.choice([129, 140, 200, 257, 300]))
        n, d = 2 * k, int(r.integers(1, 3))
        X = r.normal(0, 1, (n, d))
        X[:, 0] = np.arange(n) + r.uniform(0, .5, n)
        y = (np.arange(n) // 2)
        o = r.permutation(n)
        X, y = X[o], y[o]
        if mt[0] == 'H':
            kw.setdefault('optimizer', Fixed(np.eye(d).tolist()))
        p = problem(r, mt, X=X, y=y, k=k, pp=.999, **kw)
        v = float(r.choice([.001, .01]))
        p.params['prior'], p.prior = [v] * k, np.full(k, v)
        return p
    n, d = int(r.choice([12, 24, 40])), int(r.choice([257, 260, 300, 330, 520]))
    X = r.normal(0, 1, (n, d))
    last = r.permutation(np.arange(256, d))[:2] if r.random() < .8 else np.arange(d - 1, d)
    s = sum(2 ** i * (_rank(X[:, j]) > .5) for i, j in enumerate(last))
    if mt[0] == 'H':
        kw.setdefault('optimizer', Fixed([np.eye(d)[j].tolist() for j in last]))
    if mt[1] == 'C':
        return problem(r, mt, X=X, y=s % 2, k=2, **kw)
    return problem(r, mt, X=X, y=s * 3. + r.normal(0, .05, n), **kw)


def crowd(r):
    """(X, y, k): many classes of one row each that no split can tell apart, and two large ones anywhere among the numbers"""
    k = int(r.choice([9, 17, 34, 66, 130, 258]))
    big = r.permutation(k)[:2] if r.random() < .4 else np.array([k - 1, int(r.integers(k - 1))])
    n = int(r.choice([100, 260, 300, 600]))
    small = np.setdiff1d(np.arange(k), big)
    x = np.r_[np.full(len(small), float(r.choice([-50., 2 * n]))), np.arange(n) + r.uniform(0, .5, n)]
    y = np.r_[small, np.where(np.arange(n) < n * r.uniform(.3, .7), big[0], big[1])]
    noise = np.flatnonzero(r.random(n) < r.choice([0, .1])) + len(small)
    y[noise] = big[r.integers(0, 2, len(noise))]
    X = np.column_stack([x] + [r.normal(0, 1, len(x))] * int(r.integers(0, 2)))
    if X.shape[1] > 1:
        X[:len(small), 1] = 0
    o = r.permutation(len(y))
    return X[o], y[o], k


def correlated(r, mt, n):
    """many rows whose features are measurements of one hidden quantity, of different quality and in any order"""
    d = int(r.integers(2, 7))
    z = r.normal(0, 1, n)
    noise = r.choice([0, .01, .03, .1, .3, 1., 3.], d)
    X = z[:, None] * r.choice([-1, 1], d) + r.normal(0, 1, (n, d)) * noise
    bad = r.random((n, d)) < r.choice([0, .05, .2], d)
    X = np.where(bad, r.normal(0, 1, (n, d)), X) * 10. ** r.integers(-3, 4, d)
    if mt[1] == 'C':
        k = int(r.choice([2, 2, 3, 5]))
        y = (_rank(z) * k).astype(int)
        y = _fix_classes(r, np.where(r.random(n) < r.choice([0, .05, .2]), r.integers(0, k, n), y), k)
        return problem(r, mt, X=X, y=y, k=k, prune=False)
    y = np.floor(_rank(z) * int(r.integers(2, 9))) * float(r.choice([1., 10.])) + r.normal(0, float(r.choice([.01, .1, 1.])), n)
    return problem(r, mt, X=X, y=y, prune=False)


def sometimes(r, usual, rare, p=.03):
    """one of the usual sizes, rarely a large one"""
    return int(r.choice(rare if r.random() < p else usual))


def queries(r, X, root=None, m=40):
    """rows to predict: training rows, jittered rows, far away rows, and rows on / next to the thresholds"""
    n, d = X.shape
    out = [X[r.integers(0, n, m)], X[r.integers(0, n, m)] + r.normal(0, .3, (m, d)) * (np.abs(X).max(axis=0) + 1e-12),
           r.normal(0, 1, (m // 4, d)) * 1e12, np.zeros((1, d))]
    if root is not None:
        for v in root.splits()[:20]:
            if v.normal is None:
                q = X[r.integers(0, n, 3)].copy()
                q[:, v.dim] = [v.value, np.nextafter(v.value, np.inf), np.nextafter(v.value, -np.inf)]
                out.append(q)
    return np.vstack(out)


class Spy(ho.HyperplaneOptimizer):
    """Wraps an optimizer and records, per node, the data it was given and every evaluation it made."""
    def __init__(self, inner):
        super().__init__(inner.search_space_is_unit_hypercube)
        self.inner = inner
        self.nodes = []

    def solve(self, optimization_function):
        log = {'X': optimization_function.X, 'y': np.array(optimization_function.y), 'evals': []}
        self.nodes.append(log)
        self.inner.solve(_SpyFunction(optimization_function, log['evals']))


class _SpyFunction:
    def __init__(self, function, log):
        self._function, self._log = function, log

    def compute(self, arg, *args, **kwargs):
        before = np.array(arg, dtype=np.float64, copy=True)
        value = self._function.compute(arg, *args, **kwargs)
        self._log.append((before, float(value)))
        return value

    def __getattr__(self, name):
        return getattr(self._function, name)


class Fixed(ho.HyperplaneOptimizer):
    """evaluates the given normals"""
    def __init__(self, normals):
        super().__init__(search_space_is_unit_hypercube=False)
        self.normals = normals

    def solve(self, optimization_function):
        for v in self.normals:
            optimization_function.compute(np.array(v, dtype=np.float64))


def dense(X):
    return X.toarray() if hasattr(X, 'toarray') else np.asarray(X)


def plan(seed, groups):
    """groups: list of (count, dict) -> cases"""
    out, i = [], 0
    for count, base in groups:
        for _ in range(count):
            c = {'seed': seed, 'i': i}
            c.update(base)
            out.append(c)
            i += 1
    return out
