"""C17: optimizers stay in the search space, respect their budget, terminate, and are seeded."""
import sys
import types

import numpy as np
from scipy.optimize._differentialevolution import DifferentialEvolutionSolver
from scipy.sparse import csr_matrix

from mon import gen, oracle, view
from bayesian_decision_tree import hyperplane_optimization as ho

RULE = ('every optimizer x random data (ties, constant features, one class, few rows) with a spy between optimizer and '
        'objective; every search point, its value and the number of evaluations are judged; non-trivial = evaluation at '
        'a node with at least one admissible cut; distinct by (case, node, evaluation)')
MINIMUM = {'class_counts': 8, 'evaluations': 20000, 'nodes': 800, 'scipy_calls': 20, 'sa': 30, 'gd': 30, 'de': 20, 'two': 40, 'random': 60, 'quasi': 60,
           'custom_objectives': 100, 'large_budgets': 60}
CASE_LIMIT = 100
TIMEOUT_IS_VIOLATION = True
ASSUMPTIONS = ['optuna is not installed: a stand-in that records what it is asked is used for OptunaOptimizer',
               'no termination within 100 s of CPU time counts as not terminating (typical: < 1 s)']


def plan(tier, seed):
    f = 2 if tier == 'quick' else 25
    out = []
    for o, n in (('random', 45), ('quasi', 45), ('two', 45), ('sa', 24), ('gd', 24), ('de', 16)):
        out += [(n * f, {'mt': 'HC', 'opt': o})]
        if o != 'two':
            out += [(n * f, {'mt': 'HR', 'opt': o})]
    out += [(25 * f, {'opt': o, 'objective': 1, 'mt': 'HC'}) for o in ('random', 'quasi', 'two', 'sa', 'gd', 'de')]
    out += [(20 * f, {'opt': 'two', 'mt': 'HR', 'negative': 1}), (10 * f, {'opt': 'scipy', 'mt': 'HC'}), (10 * f, {'opt': 'optuna', 'mt': 'HC'}),
            (14 * f, {'opt': 'random', 'big': 1}), (14 * f, {'opt': 'quasi', 'big': 1}), (14 * f, {'opt': 'two', 'big': 1})]
    return gen.plan(seed, out)


class Objective:
    """stand-in for the objective: keeps what the optimizer asks"""
    search_space_is_unit_hypercube = True

    def __init__(self, X, y, f):
        self.X, self.y, self.f, self.args, self.values = X, y, f, [], []

    def compute(self, a):
        self.args.append(np.array(a, dtype=float, copy=True))
        v = float(self.f(np.asarray(a, dtype=float)))
        self.values.append(v)
        return v


def legal(rec, o, args, d, info):
    for a in args:
        if o.search_space_is_unit_hypercube:
            ok = a.shape == (d - 1,) and np.all(a >= 0) and np.all(a <= 1)
        else:
            ok = a.shape == (d,) and np.all(np.isfinite(a))
        if not rec.check(bool(ok), 'the optimizer leaves its search space', point=a, d=d, **info):
            return


def budget(rec, name, o, n_evals, d, y, info):
    single = len(set(np.asarray(y).tolist())) <= 1
    if name in ('random',):
        rec.check(n_evals == o.n_mc, 'not the requested number of evaluations', got=n_evals, expected=o.n_mc, **info)
    elif name == 'two':
        rec.check(n_evals == (0 if single else o.n_mc), 'not the requested number of evaluations', got=n_evals, expected=o.n_mc, **info)
    elif name == 'quasi':
        rec.check(n_evals == o.n, 'not the requested number of evaluations', got=n_evals, expected=o.n, **info)
    elif name == 'sa':
        rec.check(n_evals >= o.n_scan and (n_evals - o.n_scan) % o.n_keep == 0 and n_evals >= o.n_scan + 40 * o.n_keep, 'simulated annealing does not make its scan and '
                  'its evolution steps', got=n_evals, **info)
    elif name == 'gd':
        rec.check(n_evals >= o.n_init, 'gradient descent does not make its initial evaluations', got=n_evals, **info)
    elif name == 'de':
        kw = o.extra_solver_kwargs
        pop = max(5, kw['popsize'] * (d - 1))
        rec.check(pop <= n_evals <= pop * (kw['maxiter'] + 1) + 15 * 400 * d, 'differential evolution budget', got=n_evals, **info)


def sequence(rec, name, o, args, X, y, d, info):
    """the search points are those the documentation promises"""
    if name == 'quasi':
        from bayesian_decision_tree.utils import r2_series_generator
        g = r2_series_generator(d - 1)
        e = np.array([next(g) for _ in range(len(args))])
        rec.check(np.allclose(np.array(args), e, atol=1e-12), 'not the quasi-random sequence', **info)
    elif name == 'two':
        X = gen.dense(X)
        diffs = set()
        for i in range(len(X)):
            for j in range(len(X)):
                if y[i] != y[j]:
                    diffs.add((X[i] - X[j] + 0.).tobytes())
        for a in args:
            ok = (a + 0.).tobytes() in diffs
            if not rec.check(ok and (a[0] >= 0), 'a search point does not connect two rows of different classes', point=a, **info):
                return
        if len(args) >= 20 and len(np.unique(X, axis=0)) > 4:
            rec.check(len({a.tobytes() for a in args}) > 1, 'always the same two points', **info)


def variety(rec, name, args, info):
    if name in ('random', 'quasi', 'sa', 'gd', 'de') and len(args) >= 5:
        rec.check(len({a.tobytes() for a in args}) >= min(5, len(args)), 'the optimizer does not explore', **info)


def run(case, rec):
    r = gen.rng(case)
    if case['opt'] == 'scipy':
        return scipy_calls(case, rec, r)
    if case['opt'] == 'optuna':
        return optuna(case, rec, r)
    if case.get('big'):
        return large_budget(case, rec, r)
    if case.get('negative'):
        return negative(case, rec, r)
    if case.get('objective'):
        return objective(case, rec, r)
    name, mt = case['opt'], case['mt']
    o = gen.make_optimizer(r, mt == 'HC', name=name)
    if name == 'sa':
        o = ho.SimulatedAnnealingOptimizer(int(r.choice([4, 10])), int(r.choice([2, 4])), float(r.choice([.5, .9, .95])), int(r.integers(1000)))
    if name == 'gd':
        o = ho.GradientDescentOptimizer(int(r.choice([1, 3, 8])), int(r.choice([1, 2, 3])))
    small = name in ('sa', 'gd', 'de')
    p = gen.problem(r, mt, xkind=r.choice(gen.X_HYPER), n=int(r.choice([2, 6, 20, 40])) if small else gen.sometimes(r, [6, 15, 30, 60, 120, 200], [300, 700]), d=gen.sometimes(r, [2, 3, 4], [5, 7] if small else [8, 11, 16, 30], .06),
                    prune=False, optimizer=o)
    X = csr_matrix(p.X) if r.random() < .25 else p.X
    spy = gen.Spy(o)
    m = p.model(optimizer=spy)
    rec.api('fit', m.fit, X, p.y)
    info = dict(optimizer=str(o), problem=p.describe())
    d = p.X.shape[1]
    rec.event(name)
    for i, log in enumerate(spy.nodes):
        args = [a for a, _ in log['evals']]
        rec.event('nodes')
        rec.event('evaluations', len(args))
        values = np.array([v for _, v in log['evals']])
        rec.check(np.all(np.isfinite(values)), 'the objective is not finite', values=values[:10], **info)
        if len(np.unique(values)) > 1:
            for j in range(len(args)):
                rec.nontrivial((case['i'], i, j))
        legal(rec, o, args, d, info)
        budget(rec, name, o, len(args), d, log['y'], info)
        sequence(rec, name, o, args, log['X'], log['y'], d, info)
        if len(np.unique(values)) > 3:
            variety(rec, name, args, info)
    # never worse than not splitting
    y = p.y.astype(float)
    for v in view.tree(m, p.X, p.kind, y, p.prior, p.delta).splits():
        yn = y[v.rows]
        no = oracle.log_no_split(p.kind, yn, v.prior, p.pp, v.depth)
        pr = np.sort(oracle.project(p.X[v.rows], v.normal))
        scale = np.abs(p.X[v.rows]).max(axis=0) @ np.abs(v.normal)
        gaps = np.diff(pr)
        if np.any((gaps > 0) & (gaps < 1e-11 * scale)):
            continue
        pos = 1 + np.flatnonzero(gaps > 0)
        left = oracle.project(p.X[v.rows], v.normal, v.origin) < 0
        lp = oracle.log_cuts(p.kind, np.r_[yn[left], yn[~left]], v.prior, p.pp, v.depth, np.array([left.sum()]), d) - np.log(len(pos)) \
            if 0 < left.sum() < len(left) else np.array([-np.inf])
        rec.event('splits')
        rec.check(lp[0] >= no - 2 * oracle.tolerance(p.kind, yn, v.prior, no), 'a split that is less probable than not splitting', split=lp[0],
                  no_split=no, path=v.path, **info)
    # seeds
    if name in ('random', 'two', 'sa') and spy.nodes and len(spy.nodes[0]['evals']) >= 5 and len(np.unique(p.X, axis=0)) > 8 and len(np.unique(p.y)) > 1:
        def first(seed):
            import copy
            q = copy.deepcopy(o)
            q.seed = seed
            s = gen.Spy(q)
            p.model(optimizer=s).fit(p.X, p.y)
            return np.array([a for a, _ in s.nodes[0]['evals'][:5]])
        a, b, c = first(o.seed), first(o.seed), first(o.seed + 1)
        rec.event('seed_pairs')
        rec.check(np.array_equal(a, b), 'the same seed gives different search points', **info)
        rec.check(not np.array_equal(a, c), 'the seed has no effect', **info)
    rec.check(type(o).__name__ in str(o) and repr(o) == str(o), 'the text of an optimizer does not name it', **info)
    import inspect
    for k in inspect.signature(type(o)).parameters:
        if k not in ('extra_solver_kwargs', 'kwargs', 'args'):
            rec.check('{}={}'.format(k, getattr(o, k)) in str(o), 'the text of an optimizer does not show its settings', setting=k, **info)
    rec.sample({'case': case, 'optimizer': str(o), 'evaluations': [len(s['evals']) for s in spy.nodes][:10]})


def objective(case, rec, r):
    """arbitrary smooth, flat, stepped and spiky objectives"""
    name = case['opt']
    d = int(r.integers(2, 5))
    n = 12
    X = r.normal(0, 1, (n, d))
    y = np.arange(n) % int(r.integers(2, 4))
    if name == 'two' and r.random() < .3:
        y = y * int(r.integers(1, 4))      # classes without rows in this node
    o = gen.make_optimizer(r, True, name=name)
    c = r.random(8)
    shape = r.choice(['smooth', 'flat', 'steps', 'edge', 'spike', 'linear', 'negative', 'two values'])
    f = {'smooth': lambda a: np.sum((a - c[:len(a)]) ** 2), 'flat': lambda a: 3.25, 'steps': lambda a: np.floor(5 * np.sum(a)),
         'edge': lambda a: -np.sum(a), 'spike': lambda a: -1. / (1e-9 + np.sum(np.abs(a - c[:len(a)]))), 'linear': lambda a: a[0] * 1e6,
         'negative': lambda a: -1e9 - np.cos(20 * a[0]), 'two values': lambda a: float(a[0] > .5)}[shape]
    F = Objective(X, y, f)
    rec.api('solve ' + name + ' ' + str(shape), o.solve, F)
    rec.event('custom_objectives')
    rec.event('evaluations', len(F.args))
    info = dict(optimizer=str(o), shape=str(shape))
    legal(rec, o, F.args, d, info)
    budget(rec, name, o, len(F.args), d, y, info)
    sequence(rec, name, o, F.args, X, y, d, info)
    if shape != 'flat':
        variety(rec, name, F.args, info)
    for j in range(len(F.args)):
        rec.nontrivial((case['i'], j))
    # local / evolutionary search improves on its own first guesses
    if shape in ('smooth', 'edge') and name in ('sa', 'gd'):
        k = o.n_scan if name == 'sa' else o.n_init
        rec.event('improvements')
        rec.check(min(F.values) < min(F.values[:k]), 'the search never improves on its first random guesses', best=min(F.values), first=min(F.values[:k]), **info)
    again = Objective(X, y, f)
    o.solve(again)
    rec.check(len(again.args) == len(F.args) and all(np.array_equal(a, b) for a, b in zip(again.args, F.args)), 'a second search with the same optimizer '
              'differs', **info)
    rec.check(np.array_equal(F.X, X) and len(F.y) == n, 'the optimizer changes the data', **info)


def large_budget(case, rec, r):
    """budgets of any size (also the default ones), in any dimension"""
    name = case['opt']
    n = int(r.choice([1, 2, 100, 127, 129, 255, 256, 257, 511, 513, 999, 1000, 1001, 1023, 1025, 2047, 3001, 4097, 10001])) if r.random() < .7 else int(r.integers(1, 3000))
    d = int(r.choice([2, 3, 5, 9, 17, 40]))
    X = r.normal(0, 1, (int(r.choice([8, 30])), d))
    y = np.arange(len(X)) % 3
    if name == 'two' and r.random() < .6:
        # many classes: points of every one of them are picked
        k = int(r.choice([20, 33, 65, 129]))
        X, y, n = r.normal(0, 1, (k + 7, d)), np.r_[np.arange(k), r.integers(0, k, 7)], 25 * k
    seed = int(r.integers(1000))
    o = {'random': lambda: ho.RandomHyperplaneOptimizer(n, seed), 'quasi': lambda: ho.QuasiRandomHyperplaneOptimizer(n),
         'two': lambda: ho.RandomTwoPointOptimizer(n, seed)}[name]()
    w = r.normal(0, 1, d)
    F = Objective(X, y, (lambda a: float(np.sum(a * w[:len(a)]))) if r.random() < .5 else (lambda a: 1.))
    rec.api('solve', o.solve, F)
    info = dict(optimizer=str(o))
    rec.event('large_budgets')
    rec.event('evaluations', len(F.args))
    legal(rec, o, F.args, d, info)
    budget(rec, name, o, len(F.args), d, y, info)
    sequence(rec, name, o, F.args, X, y, d, info)
    rec.nontrivial((case['i'], 'large'))
    if name == 'two' and y.max() > 3:
        D = np.array(F.args)
        seen, w1 = set(), r.normal(0, 1, d)
        proj = X @ w1
        at = {}
        for i in range(len(X)):
            for j in range(len(X)):
                at[round(abs(proj[j] - proj[i]), 7)] = (int(y[i]), int(y[j]))
        for v in np.abs(D @ w1):
            for q in (v - 1e-7, v, v + 1e-7):
                seen.update(at.get(round(q, 7), ()))
        rec.event('class_counts')
        rec.check(len(seen) == y.max() + 1, 'no point of some class is ever picked', classes=int(y.max()) + 1, never=sorted(set(range(int(y.max()) + 1)) - seen)[:10], **info)
    if name == 'random':
        # all of them different, and spread over every coordinate
        A = np.array(F.args).reshape(len(F.args), -1)
        rec.check(len(np.unique(A, axis=0)) == len(A), 'the same random search point twice', **info)
        if len(A) >= 200:
            rec.check(np.all(A.min(axis=0) < .15) and np.all(A.max(axis=0) > .85), 'the random search points do not cover the cube', **info)


def negative(case, rec, r):
    """picking two classes is impossible for regression targets: refuse, do not hang"""
    n, d = int(r.integers(2, 20)), int(r.integers(2, 4))
    X = r.normal(0, 1, (n, d))
    how = r.choice(['negative', 'fraction', 'both', 'all negative'])
    y = np.arange(n).astype(float)
    if how == 'negative':
        y[0] = -1
    elif how == 'fraction':
        y = y + .5
    elif how == 'both':
        y = r.normal(0, 3, n)
    else:
        y = -y - 1
    m = gen.HyperplaneRegressionTree(.9, [0, 1, 1, 1], optimizer=ho.RandomTwoPointOptimizer(5, int(r.integers(100))))
    rec.event('refused')
    rec.expect_error('two points of different classes of {} targets'.format(how), (TypeError, ValueError), m.fit, X, y)
    rec.nontrivial((case['i'],))


def scipy_calls(case, rec, r):
    """what the scipy wrapper hands to the solver"""
    calls = []

    class Fake:
        def __init__(self, func, bounds, seed=None, **kw):
            self.func, self.bounds = func, np.asarray(bounds)
            calls.append({'bounds': np.asarray(bounds), 'seed': seed, 'kw': kw, 'solved': 0})

        def solve(self):
            calls[-1]['solved'] += 1
            for u in r.random((7, len(self.bounds))):
                v = self.func(u)
                calls[-1].setdefault('values', []).append(v)

    kw = {'alpha': 3, 'beta': 'x'} if r.random() < .5 else {}
    seed = int(r.integers(1000)) if r.random() < .7 else 0
    p = gen.problem(r, r.choice(['HC', 'HR']), xkind='cont', d=int(r.integers(2, 7)), n=20, prune=False,
                    optimizer=ho.ScipyOptimizer(Fake, seed, **kw))
    spy = gen.Spy(p.params['optimizer'])
    m = p.model(optimizer=spy)
    rec.api('fit', m.fit, p.X, p.y)
    info = dict(problem=p.describe())
    d = p.X.shape[1]
    rec.check(len(calls) == len(spy.nodes) and len(calls) > 0, 'one solver per node', **info)
    for c in calls:
        rec.event('scipy_calls')
        rec.check(c['bounds'].shape == (d - 1, 2) and np.all(c['bounds'][:, 0] == 0) and np.all(c['bounds'][:, 1] == 1), 'bounds are not the unit cube',
                  bounds=c['bounds'], **info)
        rec.check(c['seed'] == seed and c['kw'] == kw and c['solved'] == 1, 'seed or options do not reach the solver', got=str(c), **info)
        rec.check(all(np.isscalar(v) and np.isfinite(v) for v in c['values']), 'objective values', **info)
    # real solver options
    o = ho.ScipyOptimizer(DifferentialEvolutionSolver, seed, maxiter=2, popsize=3, polish=bool(r.random() < .5))
    s = gen.Spy(o)
    rec.api('fit', p.model(optimizer=s).fit, p.X, p.y)
    for log in s.nodes:
        legal(rec, o, [a for a, _ in log['evals']], d, info)
        rec.event('evaluations', len(log['evals']))


def optuna(case, rec, r):
    """stand-in for optuna: records the trials"""
    trials = []

    class Trial:
        def __init__(self):
            self.params = {}

        def suggest_uniform(self, name, low, high):
            v = float(r.uniform(low, high))
            self.params[name] = (v, low, high)
            return v
        suggest_float = suggest_uniform

    class Study:
        def optimize(self, objective, n_trials=None, **kw):
            for _ in range(n_trials):
                t = Trial()
                v = objective(t)
                trials.append((t.params, v))

    settings = {}
    mods = {'optuna': types.ModuleType('optuna'), 'optuna.logging': types.ModuleType('optuna.logging'), 'optuna.samplers': types.ModuleType('optuna.samplers')}
    mods['optuna'].create_study = lambda **kw: (settings.update(kw), Study())[1]
    mods['optuna.logging'].set_verbosity = lambda v: None
    mods['optuna.samplers'].TPESampler = lambda seed=None, **kw: ('tpe', seed)
    mods['optuna'].logging, mods['optuna'].samplers = mods['optuna.logging'], mods['optuna.samplers']
    saved = {k: sys.modules.get(k) for k in mods}
    sys.modules.update(mods)
    try:
        n = int(r.integers(3, 15))
        o = ho.OptunaOptimizer(n, int(r.integers(100)))
        p = gen.problem(r, r.choice(['HC', 'HR']), xkind='cont', d=int(r.integers(2, 5)), n=20, prune=False, optimizer=o)
        spy = gen.Spy(o)
        m = p.model(optimizer=spy)
        rec.api('fit', m.fit, p.X, p.y)
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    info = dict(problem=p.describe())
    d = p.X.shape[1]
    rec.event('optuna_trials', len(trials))
    rec.check(settings.get('direction', 'minimize') == 'minimize' and settings.get('sampler') == ('tpe', o.seed), 'the study does not minimize with the given seed',
              got=str(settings), **info)
    for log in spy.nodes:
        rec.check(len(log['evals']) == n, 'not the requested number of evaluations', got=len(log['evals']), expected=n, **info)
        legal(rec, o, [a for a, _ in log['evals']], d, info)
    for params, v in trials:
        rec.check(len(params) == d - 1 and all(lo == 0 and hi == 1 for _, lo, hi in params.values()), 'the trial does not span the unit cube', got=str(params), **info)
