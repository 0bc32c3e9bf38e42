"""Exact / distribution-free oracles for resampling results."""
import numpy as np
from scipy import stats


def slack(p, reps, z=7.0):
    return z * np.sqrt(max(p * (1 - p), 0) / reps) + 3.0 / reps


def median_cdf_bounds(x, c):
    """Bounds on P(M <= c) and P(M < c), M = median of len(x) draws with
    replacement from x.  Returns (lo of P(M<=c), hi of P(M<c)), such that
    lo <= P(M<=c) and P(M<c) <= hi."""
    x = np.sort(np.asarray(x, dtype=float))
    n = len(x)
    tol = 1e-9 * max(1.0, np.abs(x).max())
    le = np.searchsorted(x, c + tol, side='right') / n      # P(draw <= c)
    lt = np.searchsorted(x, c - tol, side='left') / n       # P(draw < c)
    # order statistics of the sample: k-th smallest <= c  <=>  at least k draws <= c
    k_low = (n + 1) // 2            # lower middle (== middle for odd n)
    k_up = n // 2 + 1               # upper middle
    # M <= c is implied by upper middle <= c ; M < c implies lower middle < c
    lo = stats.binom.sf(k_up - 1, n, le)
    hi = stats.binom.sf(k_low - 1, n, lt)
    return lo, hi, stats.binom.sf(k_low - 1, n, le), stats.binom.sf(k_up - 1, n, lt)


def median_percentile_ok(x, c, p, reps):
    """Is c a believable p-quantile (0..1) of the bootstrap median of x?"""
    lo, hi, lo_opt, hi_opt = median_cdf_bounds(x, c)
    s = slack(p, reps)
    # P(M<=c) >= p - s must be possible; P(M<c) <= p + s must be possible
    return (lo_opt >= p - s) and (hi_opt <= p + s)
