"""Reference model: the Bayesian quantities a tree must be built from, written from the papers the
project cites (Dirichlet-multinomial and Normal-gamma evidence) and evaluated in extended precision.
Nothing in here imports the code under test.
"""
import numpy as np
from scipy.special import gammaln

LD = np.longdouble
EPS = np.finfo(np.float64).eps


# ---------------------------------------------------------------- priors and posteriors
def default_prior(kind, n, n_classes):
    c = max(1, n // 100)
    return np.full(n_classes, float(c)) if kind == 'cls' else np.array([0., c, c / 2, c / 2])


def posterior(kind, prior, y, delta=1.):
    """Conjugate posterior; each observation counts as delta observations."""
    y = np.asarray(y, dtype=np.float64)
    if kind == 'cls':
        k = np.array([(y == i).sum() for i in range(len(prior))], dtype=np.float64)
        return np.asarray(prior, dtype=np.float64) + delta * k
    mu, kappa, alpha, beta = [LD(p) for p in prior]
    yl = y.astype(LD) - mu
    n = len(y)
    if n == 0 or delta == 0:
        return np.array([mu, kappa, alpha, beta], dtype=LD)
    m = yl.sum() / n
    ss = ((yl - m) ** 2).sum()
    w = LD(delta) * n
    return np.array([mu + w * m / (kappa + w), kappa + w, alpha + w / 2,
                     beta + LD(delta) * ss / 2 + kappa * w * m ** 2 / (2 * (kappa + w))], dtype=LD)


# ---------------------------------------------------------------- evidence
def _betaln(a):
    return gammaln(a).sum(axis=-1) - gammaln(a.sum(axis=-1))


def _lml_cls(prior, k):
    prior = np.asarray(prior, dtype=np.float64)
    return _betaln(prior + k) - _betaln(prior)


def _lml_reg_seq(prior, y):
    """Evidence of all prefixes y[:1], y[:2], ..., y[:n], numerically safe: relative to the first target, and the sum of
    squared deviations as a sum of non-negative updates."""
    mu = LD(prior[0])
    yl = np.asarray(y, dtype=np.float64).astype(LD)
    c = yl[0]
    z = yl - c
    n = np.arange(1, len(y) + 1)
    mean = z.cumsum() / n
    before = np.concatenate([[LD(0)], mean[:-1]])
    ss = np.maximum((z - before) * (z - mean), 0).cumsum()
    m = c - mu + mean   # mean relative to mu
    _, kappa, alpha, beta = [LD(p) for p in prior]
    kn = kappa + n
    an = alpha + LD(1) * n / 2
    bn = beta + ss / 2 + kappa * n * m * m / (2 * kn)
    g = gammaln(np.asarray(an, dtype=np.float64)) - gammaln(float(alpha))
    return np.asarray(g + alpha * np.log(beta) - an * np.log(bn)
                      + (np.log(kappa) - np.log(kn)) / 2 - LD(1) * n / 2 * LD(np.log(2 * np.pi)), dtype=np.float64)


def log_no_split(kind, y, prior, pp, level):
    lp = np.log(-np.expm1((1 + level) * np.log(pp)))
    if kind == 'cls':
        k = np.array([(np.asarray(y) == i).sum() for i in range(len(prior))])
        return float(lp + _lml_cls(prior, k))
    return float(lp + _lml_reg_seq(prior, y)[-1])


def log_cuts(kind, y_sorted, prior, pp, level, positions, n_dim):
    """log p of every split of the sorted targets at the given positions (left size)."""
    positions = np.asarray(positions)
    lp = (1 + level) * np.log(pp) - np.log(len(positions)) - np.log(n_dim)
    y_sorted = np.asarray(y_sorted, dtype=np.float64)
    if kind == 'cls':
        onehot = y_sorted[:, None] == np.arange(len(prior))[None, :]
        cum = onehot.cumsum(axis=0)
        k1 = cum[positions - 1]
        k2 = cum[-1] - k1
        return lp + _lml_cls(prior, k1) + _lml_cls(prior, k2)
    left = _lml_reg_seq(prior, y_sorted)
    right = _lml_reg_seq(prior, y_sorted[::-1])
    n = len(y_sorted)
    return lp + left[positions - 1] + right[n - positions - 1]


def tolerance(kind, y, prior, lp):
    """How much a correct double precision evaluation may deviate."""
    n = len(y)
    lp = abs(float(lp)) if np.isfinite(lp) else 0.
    if kind == 'cls':
        total = float(np.sum(prior)) + n
        return 1e-9 * (1 + lp) + 1e-13 * abs(gammaln(total))
    mu, kappa, alpha, beta = [float(p) for p in prior]
    an = alpha + n / 2
    s2 = float(np.max(np.abs(np.asarray(y) - mu))) ** 2 * n
    size = abs(an * np.log(beta + s2)) + abs(an * np.log(beta)) + abs(gammaln(an))
    return 1e-9 * (1 + lp) + 1e-13 * size + 16 * EPS * n * n


# ---------------------------------------------------------------- perpendicular splits
def admissible(sorted_values, precision=0.):
    """positions (left sizes) between sorted values that differ by more than the precision."""
    return 1 + np.flatnonzero(np.diff(sorted_values) > precision)


def perpendicular_cuts(kind, X, y, prior, pp, level, precision=0.):
    """All axis-parallel cuts: list of (dim, positions, lo, hi, logp)."""
    out = []
    n_dim = X.shape[1]
    for dim in range(n_dim):
        order = np.argsort(X[:, dim], kind='stable')
        xs = X[order, dim]
        pos = admissible(xs, precision)
        if len(pos) == 0:
            continue
        lp = log_cuts(kind, y[order], prior, pp, level, pos, n_dim)
        out.append((dim, pos, xs[pos - 1], xs[pos], lp))
    return out


# ---------------------------------------------------------------- projections
def project(X, normal, origin=None):
    """(X - origin) . normal in extended precision; identical rows give identical values."""
    X = np.asarray(X, dtype=np.float64)
    p = np.zeros(len(X), dtype=LD)
    for j in range(X.shape[1]):
        c = X[:, j].astype(LD)
        if origin is not None:
            c = c - LD(origin[j])
        p = p + c * LD(normal[j])
    return p
