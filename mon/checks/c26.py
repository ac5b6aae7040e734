"""C26: guided optimizers (differential evolution, simulated annealing, gradient descent) search where their observations
point; unguided ones cover all orientations."""
import numpy as np
from scipy.optimize._differentialevolution import DifferentialEvolutionSolver
from scipy.stats import beta, kstest

from mon import gen
from mon.checks.c17 import Objective
from bayesian_decision_tree import hyperplane_optimization as ho

RULE = ('the sequence of proposals and reported values of every guided optimizer is recorded, on real nodes and on smooth, rugged, '
        'stepped and flat objectives, and judged by an online specification (near which observation is a proposal, when does the '
        'search stop, where does it end); non-trivial = a judged round of a search, distinct by (case, round)')
MINIMUM = {'sa_rounds': 20000, 'sa_proposals': 60000, 'gd_started': 150, 'bowls': 250, 'bowls_gd': 80, 'bowls_de': 40, 'bowls_sa': 80,
           'real_nodes': 100, 'coverage': 40, 'first_guesses': 60, 'projections': 60}
CASE_LIMIT = 150
ASSUMPTIONS = ['differential evolution is that of scipy; the monitor only judges where it ends', 'gradient descent is stopped after '
               '40000 evaluations; what it found until then is judged']


class Enough(Exception):
    pass


class Bounded(Objective):
    """gives up after many evaluations (gradient descent creeps in the last digits); what was found until then is judged"""
    limit = 40000

    def compute(self, a):
        if len(self.args) >= self.limit:
            raise Enough()
        return super().compute(a)


def plan(tier, seed):
    f = 1 if tier == 'quick' else 20
    return gen.plan(seed, [(120 * f, {'opt': 'sa', 'shape': 'any'}), (110 * f, {'opt': 'sa', 'shape': 'bowl'}),
                           (120 * f, {'opt': 'gd', 'shape': 'bowl'}), (60 * f, {'opt': 'gd', 'shape': 'any'}),
                           (60 * f, {'opt': 'de', 'shape': 'bowl'}), (40 * f, {'opt': 'sa', 'real': 1}), (30 * f, {'opt': 'gd', 'real': 1}),
                           (15 * f, {'opt': 'random', 'cover': 1}), (15 * f, {'opt': 'quasi', 'cover': 1}), (10 * f, {'opt': 'two', 'cover': 1}),
                           (8 * f, {'opt': 'sa', 'cover': 1}), (2, {'opt': 'gd', 'cover': 1}), (8 * f, {'opt': 'de', 'cover': 1})])


def make(r, name, d, n_scan=None):
    seed = int(r.integers(0, 10000))
    if name == 'sa':
        return ho.SimulatedAnnealingOptimizer(n_scan or int(r.choice([3, 4, 10, 25])), int(r.choice([1, 2, 3, 5])),
                                              float(r.choice([.5, .8, .9, .95, .99])), seed)
    if name == 'gd':
        return ho.GradientDescentOptimizer(n_scan or int(r.choice([1, 3, 8, 15])), int(r.choice([1, 2, 3])))
    return ho.ScipyOptimizer(DifferentialEvolutionSolver, seed)


def annealing(rec, case, o, args, values, info):
    """every proposal after the scan is a perturbation (of the current spread) of one of the n_keep best observations"""
    args, values = np.asarray(args), np.asarray(values)
    n, keep = o.n_scan, o.n_keep
    if len(args) < n or (len(args) - n) % keep:
        rec.violation('the search does not consist of a scan and rounds', got=len(args), **info)
        return
    rounds = (len(args) - n) // keep
    spread = 1.
    best, last = values[:n].min(), 0
    stop = max(1, rounds - 1)
    for k in range(rounds):
        a, b = n + k * keep, n + (k + 1) * keep
        rec.event('sa_rounds')
        rec.nontrivial((case['i'], k))
        # the n_keep lowest values observed before this round
        levels = np.unique(values[:a])[:keep]
        kept = np.flatnonzero(np.isin(values[:a], levels))
        top = np.flatnonzero(values[:a] == levels[0])
        near_top = False
        for j in range(a, b):
            rec.event('sa_proposals')
            # an observation of this round may replace an earlier one with the same value
            now = np.r_[kept, a + np.flatnonzero(np.isin(values[a:j], levels))] if j > a else kept
            dist = np.abs(args[now] - args[j]).max(axis=1)
            if not rec.check(dist.min() <= spread * (1 + 1e-9) + 1e-12, 'a proposal of simulated annealing is farther from all kept candidates than '
                             'the current spread', distance=float(dist.min()), spread=spread, round=k, **info):
                return
            near_top |= bool(np.abs(args[np.r_[top, a + np.flatnonzero(values[a:j] == levels[0])].astype(int)] - args[j]).max(axis=1).min()
                             <= spread * (1 + 1e-9) + 1e-12)
        if not rec.check(near_top, 'the best candidate so far is not pursued', round=k, spread=spread, **info):
            return
        if values[a:b].min() < best:
            best, last = values[a:b].min(), k + 1
        spread *= o.spread_factor
    idle = rounds - last
    rec.check(20 <= idle <= 120, 'simulated annealing stops too early or too late after the last improvement', idle=idle, rounds=rounds, **info)


def descent(rec, case, o, args, values, shape, info):
    args, values = np.asarray(args), np.asarray(values)
    n = o.n_init
    if not rec.check(len(args) >= n, 'no initial guesses', **info):
        return
    rest, rv = args[n:], values[n:]
    rec.nontrivial((case['i'], 0))
    if shape == 'flat':
        rec.check(len(args) < n + 3 * 20 * o.n_keep + 1, 'gradient descent on a flat objective does not give up', got=len(args), **info)
        return
    # each of the best guesses is followed up: its gradient is probed by small steps along the axes
    order = np.argsort(values[:n], kind='stable')
    starts = order[:o.n_keep]
    if len(np.unique(values[:n])) < n:
        return
    for s in starts:
        diff = rest - args[s]
        axis = np.sum(diff != 0, axis=1) <= 1
        rec.event('gd_started')
        if not rec.check(bool(np.any(axis & (np.abs(diff).max(axis=1) <= .11))), 'one of the best initial guesses is not followed up', start=args[s], **info):
            return


def run(case, rec):
    r = gen.rng(case)
    if case.get('cover'):
        return cover(case, rec, r)
    if case.get('real'):
        return real(case, rec, r)
    name, shape = case['opt'], case['shape']
    d = int(r.integers(2, 6))
    X, y = r.normal(0, 1, (7, d)), np.arange(7) % 2
    o = make(r, name, d)
    c, w = r.uniform(.15, .85, d - 1), r.uniform(.5, 2, d - 1)
    scale, base = 10. ** r.uniform(-2, 2), float(r.choice([0, 0, 5, -5]))
    if shape == 'bowl':
        if name == 'gd':
            scale, base = 10. ** r.uniform(-1, .5), 0.
            if r.random() < .3:
                # so flat that the steps have to grow by orders of magnitude
                scale = 10. ** r.uniform(-7, -1)
                rec.event('gd_flat_bowls')
        if name == 'sa':
            o = ho.SimulatedAnnealingOptimizer(int(r.choice([4, 10, 25])), int(r.choice([2, 3, 5])), float(r.choice([.9, .95])), o.seed)
        kind = 'bowl'
        f = lambda a: base + scale * float(np.sum(w * (a - c) ** 2))
    else:
        kind = str(r.choice(['rugged', 'steps', 'flat', 'edge', 'noise', 'two bowls']))
        c2 = r.uniform(0, 1, d - 1)
        f = {'rugged': lambda a: scale * float(np.sum((a - c) ** 2) + .05 * np.sum(np.cos(40 * a))),
             'steps': lambda a: float(np.floor(6 * np.sum(np.abs(a - c)))), 'flat': lambda a: base,
             'edge': lambda a: -scale * float(np.sum(w * a)), 'noise': lambda a: float(np.sin(1e4 * np.sum(a * w))),
             'two bowls': lambda a: float(min(np.sum((a - c) ** 2), .01 + 2 * np.sum((a - c2) ** 2)))}[kind]
    F = (Bounded if name == 'gd' else Objective)(X, y, f)

    def solve():
        try:
            o.solve(F)
        except Enough:
            rec.event('gd_stopped')
    rec.api('solve ' + name + ' ' + kind, solve)
    info = dict(optimizer=str(o), shape=kind, d=d)
    if name == 'sa':
        annealing(rec, case, o, F.args, F.values, info)
    elif name == 'gd':
        descent(rec, case, o, F.args, F.values, kind, info)
    best = int(np.argmin(F.values))
    if kind == 'bowl':
        rec.event('bowls')
        rec.event('bowls_' + name)
        off = float(np.abs(F.args[best] - c).max())
        if name == 'sa':
            first = float(np.abs(F.args[int(np.argmin(F.values[:o.n_scan]))] - c).max())
            rec.event('sa_improved', int(off < .5 * first))
            rec.check(off <= {2: .15, 3: .3, 4: .4, 5: .5}[d], 'simulated annealing ends far from the bottom of a bowl', off=off, **info)
        else:
            rec.check(off <= 1e-3, 'the search does not reach the bottom of a smooth bowl', off=off, best=F.values[best], bottom=base, **info)
    rec.sample({'case': case, 'optimizer': str(o), 'evaluations': len(F.args), 'best': F.values[best]})


def real(case, rec, r):
    """the same specification on the nodes of real trees"""
    mt = str(r.choice(['HC', 'HR']))
    d = int(r.integers(2, 5))
    o = make(r, case['opt'], d)
    if case['opt'] == 'sa':
        o = ho.SimulatedAnnealingOptimizer(int(r.choice([3, 8])), int(r.choice([1, 2, 3])), float(r.choice([.5, .8, .95])), o.seed)
    p = gen.problem(r, mt, xkind=str(r.choice(['cont', 'int', 'dup', 'grid'])), n=int(r.choice([8, 20, 40])), d=d, prune=False, optimizer=o)
    spy = gen.Spy(o)
    m = p.model(optimizer=spy)
    rec.api('fit', m.fit, p.X, p.y)
    info = dict(optimizer=str(o), problem=p.describe())
    for log in spy.nodes:
        rec.event('real_nodes')
        args, values = [a for a, _ in log['evals']], [v for _, v in log['evals']]
        if case['opt'] == 'sa':
            annealing(rec, case, o, args, values, info)
        else:
            descent(rec, case, o, args, values, 'flat' if len(set(values)) == 1 else 'real', info)
    rec.sample({'case': case, 'optimizer': str(o), 'evaluations': [len(s['evals']) for s in spy.nodes][:10]})


def cover(case, rec, r):
    """first guesses and unguided proposals cover the whole search space evenly"""
    name = case['opt']
    d = int(r.integers(2, 7) if name not in ('random', 'two') else r.choice([2, 3, 5, 8, 10, 16, 30]))
    n = 400 if name != 'random' else 3000
    X, y = r.normal(0, 1, (60, d)), np.arange(60) % 2
    if name == 'random':
        o = ho.RandomHyperplaneOptimizer(n, int(r.integers(10000)))
    elif name == 'quasi':
        o = ho.QuasiRandomHyperplaneOptimizer(n)
    elif name == 'two':
        o = ho.RandomTwoPointOptimizer(n, int(r.integers(10000)))
    elif name == 'de':
        o = ho.ScipyOptimizer(DifferentialEvolutionSolver, int(r.integers(10000)), maxiter=1, polish=False)
    else:
        o = make(r, name, d, n)
    F = Objective(X, y, lambda a: float(np.sum(np.sin(1e3 * a))) if name != 'de' else float(np.sum(a)))
    rec.api('solve ' + name, o.solve, F)
    info = dict(optimizer=str(o), d=d)
    rec.event('coverage')
    if name in ('quasi', 'sa', 'gd', 'de'):
        A = np.array(F.args[:n] if name != 'de' else F.args[:15 * (d - 1)])
        rec.event('first_guesses', len(A))
        limit = 1.63 / np.sqrt(len(A)) * 2
        for j in range(A.shape[1]):
            t = kstest(A[:, j], 'uniform').statistic
            rec.nontrivial((case['i'], j))
            rec.check(t < limit, 'proposals do not cover the search space evenly', coordinate=j, statistic=t, limit=limit, **info)
        rec.check(len(np.unique(A, axis=0)) == len(A), 'repeated first guesses', **info)
        if A.shape[1] > 1 and len(A) >= 100:
            cc = np.corrcoef(A.T) - np.eye(A.shape[1])
            rec.check(np.abs(cc).max() < .3, 'coordinates of the proposals depend on each other', correlation=np.abs(cc).max(), **info)
    elif name == 'random':
        A = np.array(F.args)
        A = A / np.linalg.norm(A, axis=1)[:, None]
        rec.nontrivial((case['i'], 0))
        # isotropic: mean 0, second moments 1/d
        rec.check(np.abs(A.mean(axis=0)).max() < 5 / np.sqrt(n * d), 'orientations prefer a direction', mean=A.mean(axis=0), **info)
        M = A.T @ A / n - np.eye(d) / d
        rec.check(np.abs(M).max() < 6 / np.sqrt(n) / d + .02, 'orientations are not isotropic', moments=M, **info)
        rec.check(len(np.unique(A, axis=0)) == n, 'repeated orientations', **info)
        # projections of uniform orientations onto any direction follow a beta distribution
        for j, w in enumerate(np.vstack([np.eye(d), np.linalg.qr(r.normal(0, 1, (d, d)))[0][:3], np.ones((1, d)) / np.sqrt(d)])):
            t = kstest((A @ w + 1) / 2, beta((d - 1) / 2, (d - 1) / 2).cdf).statistic
            rec.event('projections')
            rec.check(t < 3 / np.sqrt(n), 'orientations are not uniform on the sphere', direction=w, statistic=t, **info)
        k = A ** 4
        e = 3 / (d * (d + 2))
        sd = np.sqrt(105 / (d * (d + 2) * (d + 4) * (d + 6)) - e * e)
        rec.check(abs(k.mean() - e) < 6 * sd / np.sqrt(n), 'orientations avoid or prefer the axes', fourth_moment=k.mean(), expected=e, **info)
    else:
        # each row is picked about as often as the others of its class
        A = np.array(F.args)
        keys = {}
        for i in np.flatnonzero(y == 0):
            for j in np.flatnonzero(y == 1):
                v = X[j] - X[i]
                keys[(v if v[0] >= 0 else -v).tobytes()] = (i, j)
        count = np.zeros(60)
        for a in A:
            ij = keys.get(a.tobytes())
            if not rec.check(ij is not None, 'a proposal does not connect two rows of different classes', point=a, **info):
                return
            count[list(ij)] += 1
        rec.nontrivial((case['i'], 0))
        # expectation 400/30 = 13.3 per row
        rec.check(count.min() >= 1 and count.max() <= 40, 'rows are not picked evenly', least=count.min(), most=count.max(), **info)
