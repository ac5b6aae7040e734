"""C14: orientations are generated uniformly: the map from the cube to the (half) sphere and the R2 sequence."""
import itertools

import numpy as np
from scipy import stats

from mon import gen
from bayesian_decision_tree.utils import hypercube_to_hypersphere_surface, r2_series_generator

RULE = ('cube points (uniform, Sobol, grids with corners and edges, single points, empty and large batches) x dimension '
        '1..9 x half/full; norms, hemisphere, and the distribution of projections on random directions are tested; '
        'non-trivial = batch of at least 1000 points; distinct by (case, batch)')
MINIMUM = {'points': 500000, 'batches': 100, 'distribution_tests': 1500, 'r2_points': 20000, 'edge_points': 2000, 'large_batches': 100, 'r2_long': 10}
CASE_LIMIT = 120
TIMEOUT_IS_VIOLATION = True
P_LIMIT = 1e-12


def plan(tier, seed):
    f = 4 if tier == 'quick' else 12
    out = [(3 * f, {'dim': d, 'half': h}) for d in range(1, 10) for h in (0, 1) if not (d == 0 and h == 0)]
    out += [(f, {'r2': d}) for d in list(range(1, 12)) + [20, 37, 50, 99, 150]]
    return gen.plan(seed, out)


def run(case, rec):
    r = gen.rng(case)
    if case.get('r2'):
        return r2(case, rec, r)
    d, half = case['dim'], bool(case['half'])
    D = d + 1

    def f(U):
        before = U.tobytes()
        S = rec.api('map', hypercube_to_hypersphere_surface, U, half_hypersphere=half)
        rec.check(U.tobytes() == before, 'the map modifies its input')
        return S

    # edges: every combination of 0, 1/2, 1 (or random ones of them), rounding extremes
    E = np.array(list(itertools.product([0., .5, 1.], repeat=d))) if d <= 5 else r.choice([0., .5, 1., np.nextafter(1, 0), 5e-324],
                                                                                       (400, d))
    E = np.vstack([E, r.choice([0., 1., np.nextafter(1, 0), 1e-300, 1e-17, .25], (200, d))])
    # faces of the cube: some coordinates at (or next to) the boundary, the others anywhere
    F = r.random((1500, d))
    E = np.vstack([E, np.where(r.random((1500, d)) < r.random((1500, 1)), r.choice([0., 1., 1., np.nextafter(1, 0), 1 - 1e-15], (1500, d)), F)])
    S = f(E)
    rec.event('edge_points', len(E))
    valid(rec, S, len(E), D, half, 'edges')
    # single points and batches agree
    U = r.random((20, d))
    S = f(U)
    for u, s in zip(U, S):
        one = f(u)
        rec.check(np.shape(one) == (D,), 'a single point does not give a single point', shape=np.shape(one))
        rec.check(np.allclose(one, s, atol=1e-14), 'a point maps differently alone than in a batch', u=u, alone=one, batch=s)
        rec.check(np.allclose(f(u[None])[0], s, atol=1e-14), 'batch of one')
    perm = r.permutation(20)
    rec.check(np.allclose(f(U[perm]), S[perm], atol=1e-14), 'the map depends on the order of the batch')
    # continuity / injectivity in the interior
    U = np.clip(U, .01, .99)
    S = f(U)
    H = f(U + 1e-9 * (U < .5) - 1e-9 * (U >= .5))
    rec.check(np.abs(H - S).max() < 1e-3, 'the map is not continuous')
    # distribution
    for name, U in (('uniform', r.random((20000, d))), ('sobol', stats.qmc.Sobol(d, seed=int(r.integers(1 << 30))).random(1 << 14))):
        S = f(U)
        rec.event('points', len(S))
        rec.event('batches')
        rec.nontrivial((case['i'], name))
        valid(rec, S, len(S), D, half, name)
        uniform(rec, r, S, D, half, name, U)
    # a large batch, each point as in a small one
    n = int(r.choice([32769, 65536, 65537, 70001, 100003]))
    U = r.random((n, d))
    S = f(U)
    rec.event('large_batches')
    valid(rec, S, n, D, half, 'large')
    if S.shape == (n, D):
        where = r.permutation(n)[:3000]
        rec.check(np.allclose(S[where], f(U[where]), atol=1e-14), 'a point maps differently in a large batch than in a small one', rows=n)
        rec.check(np.allclose(S[-50:], f(U[-50:]), atol=1e-14), 'a point maps differently at the end of a large batch', rows=n)
    # the tree's use: directions up to sign, so that half sphere + mirrored = full sphere
    for bad in (np.full(d, 1.5), np.full(d, -.5)):
        rec.expect_error('outside the cube', (AssertionError, ValueError), hypercube_to_hypersphere_surface, bad, half_hypersphere=half)
    rec.sample({'case': case, 'point': U[0], 'image': S[0]})


def valid(rec, S, n, D, half, name):
    if not rec.check(S.shape == (n, D), 'wrong shape', shape=S.shape, expected=(n, D)):
        return
    rec.check(np.all(np.isfinite(S)), 'not finite', batch=name)
    rec.check(np.abs(np.linalg.norm(S, axis=1) - 1).max() < 1e-9, 'a point is not on the unit sphere', batch=name,
              norm=np.linalg.norm(S, axis=1)[:5])
    if half:
        rec.check(S[:, 0].min() >= -1e-12, 'a point is not on the half sphere (first coordinate)', batch=name, x0=S[:, 0].min())


def ks(rec, values, cdf, what, **info):
    rec.event('distribution_tests')
    p = stats.kstest(values, cdf).pvalue
    rec.check(p > P_LIMIT, 'not uniform on the sphere: ' + what, p=p, **info)


def uniform(rec, r, S, D, half, name, U):
    n = len(S)
    info = dict(batch=name, D=D, half=half)
    beta = stats.beta(.5, (D - 1) / 2).cdf
    directions = np.vstack([np.eye(D), r.normal(0, 1, (12, D))])
    directions /= np.linalg.norm(directions, axis=1)[:, None]
    for a in directions:
        ks(rec, (S @ a) ** 2, beta, 'projection', direction=a, **info)
    # signs are fair, and independent of the size (half sphere: of all coordinates but the first)
    T = S if not half else S[:, 1:]
    for j in range(T.shape[1]):
        rec.event('distribution_tests')
        p = stats.binomtest(int((T[:, j] > 0).sum()), n).pvalue
        rec.check(p > P_LIMIT, 'not uniform on the sphere: sign', p=p, coordinate=j, **info)
        if half:
            # sign given the hemisphere coordinate
            big = S[:, 0] > np.median(S[:, 0])
            p = stats.binomtest(int((T[big, j] > 0).sum()), int(big.sum())).pvalue
            rec.check(p > P_LIMIT, 'not uniform on the sphere: conditional sign', p=p, coordinate=j, **info)
    for i in range(T.shape[1]):
        for j in range(i):
            rec.event('distribution_tests')
            p = stats.binomtest(int((T[:, i] * T[:, j] > 0).sum()), n).pvalue
            rec.check(p > P_LIMIT, 'not uniform on the sphere: quadrants', p=p, i=i, j=j, **info)
    # full sphere: random half spaces hold half of the points
    if not half:
        for a in directions:
            p = stats.binomtest(int((S @ a > 0).sum()), n).pvalue
            rec.event('distribution_tests')
            rec.check(p > P_LIMIT, 'not uniform on the sphere: half spaces', p=p, **info)
    # pairs of coordinates: squared radius in a plane ~ Beta(1, (D-2)/2)
    if D > 2:
        for _ in range(4):
            Qm = np.linalg.qr(r.normal(0, 1, (D, 2)))[0]
            ks(rec, ((S @ Qm) ** 2).sum(axis=1), stats.beta(1, (D - 2) / 2).cdf, 'plane', **info)
    # pairwise distances of directions up to sign: (s . t)^2 ~ Beta(1/2, (D-1)/2) for independent points
    if name == 'uniform':
        ks(rec, (S[: n // 2] * S[n // 2: n // 2 * 2]).sum(axis=1) ** 2, beta, 'pairs', **info)


def r2(case, rec, r):
    d = case['r2']
    g = rec.api('r2', r2_series_generator, d)
    n = 70000 if d <= 3 else 20000 if d <= 11 else 3000
    P = np.array([rec.api('next', next, g) for _ in range(n)])
    rec.event('r2_points', n)
    rec.nontrivial((case['i'], 'r2', d))
    if not rec.check(P.shape == (n, d), 'wrong shape', shape=P.shape):
        return
    rec.check(P.min() >= 0 and P.max() < 1, 'a quasi-random point is not in the unit cube')
    # documented construction: 0.5 + i * alpha mod 1, alpha_j = phi^-j, phi^(d+1) = phi + 1
    from scipy.optimize import brentq
    phi = brentq(lambda x: x ** (d + 1) - x - 1, 1, 2, xtol=1e-15)
    alpha = phi ** -np.arange(1., d + 1)
    e = .5 + np.arange(1, n + 1)[:, None] * alpha[None]
    diff = np.abs(P - e % 1)
    rec.event('r2_long', n > 65536)
    diff = np.minimum(diff, 1 - diff)
    rec.check(diff.max() < 1e-9, 'not the R2 sequence', worst=diff.max(), d=d)
    again = r2_series_generator(d)
    two = r2_series_generator(d)
    A = []
    for i in range(50):
        A.append(next(again))
        if i % 3 == 0:
            next(two)
    rec.check(np.array_equal(np.array(A), P[:50]), 'the sequence is not reproducible or not independent of others')
    keep = P[0].copy()
    x = next(r2_series_generator(d))
    x *= 0
    rec.check(np.array_equal(next(r2_series_generator(d)), keep), 'shared state')
    # evenness per coordinate: discrepancy far below random
    if d <= 6:
        P, n = P[:2000], 2000
        for j in range(d):
            s = np.sort(P[:, j])
            disc = np.abs(s - (np.arange(n) + .5) / n).max()
            rec.event('distribution_tests')
            rec.check(disc < .05, 'uneven quasi-random sequence', d=d, j=j, disc=disc)
    rec.expect_error('no dimension', ValueError, lambda: next(r2_series_generator(0)))
