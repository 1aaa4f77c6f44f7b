"""Statistical oracles with negligible false-alarm probability (alpha = 1e-9 per test)."""
import contextlib

import numpy as np
from scipy import stats

ALPHA = 1e-9


def gof(counts, p):
    """p-value of observed category counts against probabilities p (exact for impossible categories)."""
    counts, p = np.asarray(counts, float), np.asarray(p, float)
    n = counts.sum()
    if n == 0:
        return 1.
    if np.any(counts[p <= 0] > 0):
        return 0.
    keep = p > 0
    c, e = counts[keep], p[keep] / p[keep].sum() * n
    # merge the small categories
    small = e < 8
    if small.any():
        c = np.r_[c[~small], c[small].sum()]
        e = np.r_[e[~small], e[small].sum()]
    if len(c) < 2:
        return 1.
    if e.min() < 8:       # the merged rest is still small: use an exact binomial on it
        i = int(np.argmin(e))
        pv = stats.binomtest(int(c[i]), int(n), min(1., e[i] / n)).pvalue
        rest = np.delete(c, i), np.delete(e, i)
        if len(rest[0]) < 2:
            return pv
        c, e = rest
        e = e * c.sum() / e.sum()
        return min(pv, stats.chisquare(c, e).pvalue) if c.sum() else pv
    return stats.chisquare(c, e * c.sum() / e.sum()).pvalue


def binom(k, n, p):
    if n == 0:
        return 1.
    if p <= 0:
        return 1. if k == 0 else 0.
    if p >= 1:
        return 1. if k == n else 0.
    return stats.binomtest(int(k), int(n), float(p)).pvalue


def rand_pdf(rng, n, zeros=.3, degenerate=.1):
    """A random distribution, with exact zeros, spikes and tiny probabilities."""
    if n == 1 or rng.random() < degenerate:
        p = np.zeros(n)
        p[rng.integers(n)] = 1.
        return p
    p = rng.dirichlet(np.full(n, rng.choice([.1, 1., 10.])))
    p[rng.random(n) < zeros] = 0
    if p.sum() <= 1e-9:
        p = np.full(n, 1.)
    return p / p.sum()


@contextlib.contextmanager
def fixed_draws(value):
    """The generator of numpy gives this value of [0, 1) for every uniform draw."""
    def uniform(low=0., high=1., size=None):
        one = low + (high - low) * value
        return one if size is None and np.ndim(one) == 0 else np.broadcast_to(one, np.shape(one) if size is None else size).copy()

    def random(size=None):
        return uniform(size=size)

    def rand(*shape):
        return uniform(size=shape) if shape else value
    new = dict(uniform=uniform, random=random, random_sample=random, rand=rand)
    keep = {k: getattr(np.random, k) for k in new}
    try:
        for k, f in new.items():
            setattr(np.random, k, f)
        yield
    finally:
        for k, f in keep.items():
            setattr(np.random, k, f)
