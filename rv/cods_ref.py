"""Reference decomposition: degradation, season and soiling of a daily performance signal.

Written from the published description of the CODS algorithm (Skomedal & Deceglie 2020) and the
documented parameters, on plain arrays; only the numerical libraries (STL, lowess, Theil-Sen) and the
year-on-year rate (property C06) are shared with the code under observation.
"""
import bisect

import numpy as np
import pandas as pd
from scipy.stats import theilslopes
from statsmodels.nonparametric.smoothers_lowess import lowess
from statsmodels.tsa.seasonal import STL


def fill(x, forward=True):
    s = pd.Series(x)
    return (s.ffill() if forward else s.bfill()).to_numpy()


def rmed(x, w, forward=True):
    """Centred rolling median of the filled series; NaN where the window is incomplete."""
    y = fill(x, forward)
    h = w // 2
    out = np.full(len(y), np.nan)
    if len(y) >= w:
        v = np.lib.stride_tricks.sliding_window_view(y, w)
        out[h:len(y) - h] = np.median(v, axis=1)      # NaN propagates
    return out


def ends(x):
    return pd.Series(x).ffill().bfill().to_numpy()


def steps(x):
    return np.concatenate([[np.nan], np.diff(x)])


def detect(x, forward, tuner):
    d = steps(rmed(x, 9, forward))
    a = np.abs(d[~np.isnan(d)])
    q1, q3 = np.quantile(a, [0.25, 0.75]) if len(a) else (np.nan, np.nan)
    with np.errstate(invalid='ignore'):
        return d > q3 + tuner * (q3 - q1), d


def detect_dust(x):
    d = steps(rmed(x, 9, True))
    a = np.abs(d[~np.isnan(d)])
    lo, hi = np.quantile(a, [0.01, 0.99]) if len(a) else (np.nan, np.nan)
    with np.errstate(invalid='ignore'):
        return [int(i) for i in np.flatnonzero(d < lo - 5 * (hi - lo))]


def collapse(flags, metric, f):
    """One event per cluster: the day of largest metric within f days of a run of flagged days.

    Runs touching the last day considered (f days before the end) end the search, as does a run
    starting on the first one once another has been collapsed."""
    n = len(flags)
    live = np.array(flags, dtype=bool)
    live[:f] = False
    live[n - f:] = False
    out = np.zeros(n, dtype=bool)
    first = True
    while True:
        k = np.flatnonzero(live)
        if len(k) == 0:
            break
        a = int(k[0])
        if a == f and not first:
            break
        b = a
        while b < n - f and live[b]:
            b += 1
        if b == n - f:                      # the run reaches the end
            break
        b -= 1
        lo, hi = max(a - f, 0), min(b + f, n - 1)
        m = metric[lo:hi + 1]
        if np.isnan(m).all():
            raise ValueError('undefined')
        best = lo + int(np.nanargmax(m))
        out[lo:hi + 1] = False
        live[lo:hi + 1] = False
        out[best] = True
        first = False
    return out


class Filter:
    """Constant-velocity Kalman filter with level jumps, and its Rauch-Tung-Striebel smoother."""
    F = np.array([[1., 1.], [0., 1.]])

    def __init__(self, z, noise, r, level_std, rate_std, start):
        self.z, self.r = z, r
        self.q = noise ** 2 * np.array([[.25, .5], [.5, 1.]])
        self.p = np.diag([level_std ** 2, rate_std ** 2])
        self.x = np.array(start, dtype=float)

    def forward(self, med7, ce, dust):
        n = len(self.z)
        X, P = np.zeros((n, 2)), np.zeros((n, 2, 2))
        x, p = self.x, self.p
        for i in range(n):
            jump = 0.0
            if 7 < i < n - 7 and (i in ce or i in dust):
                w = med7[i - 5:i + 6]
                d = np.diff(w)
                k = int(np.argmax(d))
                if k == 4 or i not in ce:
                    jump = w[8] - (x[0] + x[1])
                    if not abs(jump) > np.sqrt(self.r) / 2:
                        jump = 0.0
                        if i in ce:
                            ce.remove(i)
                else:                        # misplaced: move it to the largest rise nearby
                    ce.remove(i)
                    if d[k] > 0 and i + k - 4 not in ce:
                        bisect.insort(ce, i + k - 4)
            x = self.F @ x + np.array([jump, 0.0])
            p = self.F @ p @ self.F.T + self.q
            if not np.isnan(self.z[i]):
                g = p[:, 0] / (p[0, 0] + self.r)
                x = x + g * (self.z[i] - x[0])
                a = np.eye(2) - np.outer(g, [1., 0.])
                p = a @ p @ a.T + self.r * np.outer(g, g)
            X[i], P[i] = x, p
        return X, P

    def smooth(self, X, P, cuts):
        for a, b in zip(cuts[:-1], cuts[1:]):
            for k in range(b - 2, a - 1, -1):
                pp = self.F @ P[k] @ self.F.T + self.q
                g = P[k] @ self.F.T @ np.linalg.inv(pp)
                X[k] = X[k] + g @ (X[k + 1] - self.F @ X[k])
                P[k] = P[k] + g @ (P[k + 1] - pp) @ g.T


def soiling(z, events, noise, pruning, prune_rounds, perfect, renorm, clip):
    n = len(z)
    if events.sum() > 4:
        ce = [int(i) for i in np.flatnonzero(events)]
    else:
        e, d = detect(z, True, 0.5)
        ce = [int(i) for i in np.flatnonzero(collapse(e, d, 5))]
    dust = detect_dust(z)
    r = np.nanvar(ends(rmed(z, 13)) - z, ddof=1)
    med7 = ends(rmed(z, 7))
    t = theilslopes(fill(z, False)[:14])
    start = [t[1], t[0]]

    def run(level_std, rate_std):
        f = Filter(z, noise, r, level_std, rate_std, start)
        X, P = f.forward(med7, ce, dust)
        last = P[-1].copy()
        f.smooth(X, P, sorted(ce + dust + [0, n - 1]))
        return X, last[0, 0], last[1, 1]
    X, ls, rs = run(0.05, 0.005)
    sr = np.full(n, np.nan)
    rates = np.full(n, np.nan)
    for _ in range(prune_rounds):
        old = list(ce)
        if ce:
            s7 = np.full(n, np.nan)
            s7[:n - 6] = np.median(np.lib.stride_tricks.sliding_window_view(X[:, 0], 7), axis=1)
            after = s7[ce]
            if not np.isnan(after).any():
                q1, q3 = np.quantile(after, [0.25, 0.75])
                ce = [c for c, v in zip(ce, after) if not v < q1 - pruning * (q3 - q1)]
        fast = X[:, 1] > 0.0005
        if fast.sum() > 1:
            ce = sorted(ce + [int(i) for i in np.flatnonzero(collapse(fast, X[:, 1], 4))])
        done = ce == old
        if not done:
            X, ls, rs = run(ls, rs)
        level = X[:, 0]
        if not perfect:
            sr = level.copy()
        elif not ce:
            sr = np.ones(n)
        else:
            ref = np.full(n, np.nan)
            ref[ce] = level[ce]
            ref = fill(ref)
            sr = level / ref
            sr[:ce[0] + 1] = level[:ce[0] + 1] * np.nanmean(1 / ref)
        if renorm is not None:
            sr = sr / (np.quantile(sr[ce], renorm) if ce else np.nan)
        if clip:
            sr = np.minimum(sr, 1)
        rates = X[:, 1].copy()
        rates[steps(sr) == 0] = 0
        if done:
            break
    flag = np.zeros(n, dtype=bool)
    flag[ce] = True
    return sr, rates, flag


def season(x, index):
    s = pd.Series(x).interpolate('linear').to_numpy()
    fit = STL(np.log(s), period=365, seasonal=999999, seasonal_deg=0, trend_deg=0, robust=True, low_pass_jump=30,
              seasonal_jump=30, trend_jump=365).fit()
    n = len(x)
    y = lowess(np.exp(np.asarray(fit.seasonal)), index.asi8.astype(float), is_sorted=True, delta=30, frac=180 / n,
               return_sorted=False)
    cut = min(180, int((n - 365) / 2))
    y = y.copy()
    y[:cut] = np.nan
    y[n - cut:] = np.nan
    doy = index.dayofyear
    med = pd.Series(y).groupby(np.asarray(doy)).median()
    out = med.reindex(doy).to_numpy().copy()
    out[doy == 366] = np.nan                # known finding C19 day-366
    return out, np.exp(np.asarray(fit.trend))


def rmse(y, m):
    return np.sqrt(np.nanmean((m - y) ** 2))


def decompose(pi, yoy, order=('SR', 'SC', 'Rd'), degradation_method='YoY', max_iterations=18, cleaning_sensitivity=.5,
              convergence_criterion=5e-3, pruning_iterations=1, clean_pruning_sensitivity=.6, soiling_significance=.75,
              process_noise=1e-4, renormalize_SR=None, ffill=True, clip_soiling=True):
    index = pi.index
    y = pi.to_numpy(dtype=float)
    n = len(y)
    order = list(order)
    if degradation_method == 'STL':
        order = [c for c in order if c != 'Rd']
    k = len(order)
    one = np.ones(n)
    comp = dict(SR=one, SC=one, Rd=one)
    rate = 0
    shift = 1.0
    resid = y
    err = [rmse(y, one)]
    e, d = detect(y, ffill, cleaning_sensitivity)
    events = collapse(e, d, 5)
    last = None
    perfect = True
    changed = None
    ic = 0
    while ic < max_iterations:
        step = order[ic % k]
        ic += 1
        if step == 'SR':
            if ic > 2 and last is not None:
                cleaning_sensitivity *= 1.2
                clean_pruning_sensitivity /= 1.1
                e, d = detect(resid, ffill, cleaning_sensitivity)
                events = last[2] | collapse(e, d, 5)
            last = soiling(y / comp['Rd'] / comp['SC'] / shift, events, process_noise, clean_pruning_sensitivity,
                           pruning_iterations, perfect, renormalize_SR, clip_soiling)
            comp['SR'] = last[0]
        elif step == 'SC':
            comp['SC'], trend = season(y / comp['SR'], index)
            if degradation_method == 'STL':
                comp['Rd'] = trend / trend[0]
                rate = yoy(pd.Series(comp['Rd'], index))
        else:
            rate = yoy(pd.Series(y / comp['SC'] / comp['SR'], index))
            comp['Rd'] = 1 + np.arange(n) * rate / 100 / 365.0
        model = comp['Rd'] * comp['SC'] * comp['SR']
        resid = y / model
        shift = np.nanmean(resid)
        err.append(rmse(y, model * shift))
        if ic < k:
            continue
        gain = (err[-k - 1] - err[-1]) / err[-k - 1]
        if perfect:
            if ic >= max_iterations / 2 or gain < convergence_criterion:
                perfect = False
                p = (ic - 1) % k            # the step just made; continue with the one before it first
                order = [order[(i + k - 1 - p) % k] for i in range(k)]
                changed = ic
        elif ic >= max_iterations or (ic >= changed + k and gain < convergence_criterion):
            break
    return dict(soiling_ratio=comp['SR'], seasonal_component=comp['SC'], degradation_trend=comp['Rd'],
                soiling_rates=last[1], cleaning_events=last[2].astype(float), total_model=model * shift,
                degradation=rate, RMSE=err[-1], iterations=ic)
