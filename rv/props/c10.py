"""C10: the window filters flag exactly the outliers their rule describes."""
import numpy as np
import pandas as pd

from rv import env, gen
from rv.gen import chance, pick

rdtools = env.load()
F = rdtools.filtering
PROPERTY = 'C10'
RULE = ('aggregated series (daily, weekly, irregular, holes, NaN, steps, spikes, plateaus) x window '
        '(duration or count) x threshold through two_way_window, hampel and directional_tukey, each '
        'judged by a brute-force window computation; distinct by (filter, sampling, window, '
        'threshold, nan)')
ASSUMPTIONS = ['increasing unique timestamps; points within 1e-12 of a computed threshold are not '
               'judged']
REQUIRED = {'points_judged': 20000, 'outliers': 500, 'kept': 10000, 'short_windows': 200,
            'nan_points': 500}


def make(rng):
    n = int(pick(rng, [3, 6, 20, 60, 150]))
    kind = pick(rng, ['daily', 'daily', 'weekly', 'irregular', 'holes', '12h'])
    zone = gen.tz(rng)
    st = gen.start_ts(rng, zone)
    step = {'daily': 1.0, 'weekly': 7.0, 'irregular': 1.0, 'holes': 1.0, '12h': 0.5}[kind]
    off = np.arange(n) * step
    if kind == 'irregular':
        off = np.cumsum(rng.choice([0.25, 0.5, 1, 1, 2, 3.5], size=n))
    if kind == 'holes':
        d = np.ones(n)
        d[rng.integers(0, n, 3)] += rng.integers(3, 20, 3)
        off = np.cumsum(d)
    idx = gen.rel_index(st, (off * 86400).astype('int64') * 10**9)
    base = float(pick(rng, [1.0, 0.85, 300.0]))
    x = base * (1 + 0.1 * np.sin(np.arange(n) / 20) + rng.normal(0, 0.01, n))
    if chance(rng, 0.6):
        k = rng.random(n) < 0.08
        x[k] *= rng.uniform(0.3, 1.6, k.sum())
    if chance(rng, 0.2):
        x[n // 2:] *= 0.8
    if chance(rng, 0.15):
        x = np.round(x / base, 1) * base
    nan = pick(rng, [0, 0, 0.1, 0.4])
    x[rng.random(n) < nan] = np.nan
    if np.isnan(x).all():
        x[:] = base
    return pd.Series(x, index=idx), kind, nan


def window(t, i, period, direction, n):
    """Positions of the closed window looking back / ahead from i."""
    if isinstance(period, int):
        return range(max(0, i - period), i + 1) if direction < 0 else \
            range(i, min(n, i + period + 1))
    if direction < 0:
        a = np.searchsorted(t, t[i] - period.value, side='left')
        return range(a, i + 1)
    b = np.searchsorted(t, t[i] + period.value, side='right')
    return range(i, b)


def medians(s, period, direction):
    t, x = s.index.asi8, s.to_numpy(dtype=float)
    out = np.full(len(x), np.nan)
    short = 0
    for i in range(len(x)):
        w = x[list(window(t, i, period, direction, len(x)))]
        w = w[~np.isnan(w)]
        if len(w) >= 5:
            out[i] = np.median(w)
        else:
            short += 1
    return out, short


PERIODS = [None, None, pd.Timedelta('7D'), pd.Timedelta('14D'), pd.Timedelta('30D'),
           pd.Timedelta('4D'), 7, 12]


def record(mon, x, want):
    mon.ev('points_judged', len(x))
    mon.ev('kept', int(want.sum()))
    mon.ev('outliers', int((~want).sum()))
    mon.ev('nan_points', int(np.isnan(x).sum()))


def two_way(rng, mon):
    s, kind, nan = make(rng)
    period = pick(rng, PERIODS)
    thr = float(pick(rng, [0.03, 0.03, 0.01, 0.1, 0.5]))
    kw = {}
    if period is not None:
        kw['roll_period'] = period
    if thr != 0.03:
        kw['outlier_threshold'] = thr
    got = mon.call(F.two_way_window_filter, s, **kw)
    p = period if period is not None else pd.Timedelta('7D')
    x = s.to_numpy() / np.nanquantile(s.to_numpy(), 0.99)
    z = pd.Series(x, index=s.index)
    b, s1 = medians(z, p, -1)
    f, s2 = medians(z, p, +1)
    d = np.minimum(np.nan_to_num(np.abs(x - b)), np.nan_to_num(np.abs(x - f)))
    want = d < thr
    skip = np.abs(d - thr) < 1e-12
    ctx = dict(series=s, kw=kw)
    mon.ok(not got.index.duplicated().any(), 'index of the mask', **ctx)
    mon.mask(got, pd.Series(want, index=s.index), 'two_way_window_filter', skip=skip, **ctx)
    record(mon, s.to_numpy(), want)
    mon.ev('short_windows', s1 + s2)
    mon.sig('2way', kind, str(period), thr, nan, bool((~want).any()))
    mon.note(filter='two_way_window', dropped=int((~want).sum()), **ctx)


def centred(t, i, k, n):
    if isinstance(k, int):
        o = (k - 1) // 2
        return range(max(0, i + o - k + 1), min(n, i + o + 1))
    h = pd.Timedelta(k).value // 2
    a = np.searchsorted(t, t[i] - h, side='right')
    b = np.searchsorted(t, t[i] + h, side='right')
    return range(a, b)


def rolling_centred_median(t, x, k):
    out = np.full(len(x), np.nan)
    for i in range(len(x)):
        w = x[list(centred(t, i, k, len(x)))]
        w = w[~np.isnan(w)]
        if len(w):
            out[i] = np.median(w)
    return out


def hampel(rng, mon):
    s, kind, nan = make(rng)
    k = pick(rng, ['14d', '14d', '7d', '30d', 7, 14, '4d'])
    t0 = pick(rng, [3, 3, 1, 2.5, 0, 10])
    kw = {}
    if k != '14d':
        kw['k'] = k
    if t0 != 3:
        kw['t0'] = t0
    got = mon.call(F.hampel_filter, s, **kw)
    t, x = s.index.asi8, s.to_numpy()
    med = rolling_centred_median(t, x, k)
    diff = np.abs(med - x)
    mad = rolling_centred_median(t, diff, k)
    thr = t0 * 1.4826 * mad
    with np.errstate(all='ignore'):
        want = diff <= thr
    skip = (np.abs(diff - thr) < 1e-12 * np.maximum(1, np.abs(x))) & ~((diff == 0) & (thr == 0))
    ctx = dict(series=s, kw=kw)
    mon.mask(got, pd.Series(want, index=s.index), 'hampel_filter', skip=skip, **ctx)
    record(mon, x, want)
    mon.sig('hampel', kind, str(k), t0, nan, bool((~want).any()))


def fence(d, k):
    v = d[~np.isnan(d)]
    if len(v) == 0:
        return np.nan, np.nan
    a, b = np.quantile(v, 0.25), np.quantile(v, 0.75)
    return a - k * (b - a), b + k * (b - a)


def tukey(rng, mon):
    s, kind, nan = make(rng)
    period = pick(rng, PERIODS)
    k = pick(rng, [1.5, 1.5, 0.5, 3, 1, 6])
    kw = {}
    if period is not None:
        kw['roll_period'] = period
    if k != 1.5:
        kw['k'] = k
    got = mon.call(F.directional_tukey_filter, s, **kw)
    p = period if period is not None else pd.Timedelta('7D')
    x = s.to_numpy()
    b, s1 = medians(s, p, -1)
    f, s2 = medians(s, p, +1)
    db, df = x - b, x - f
    lb, ub = fence(db, k)
    lf, uf = fence(df, k)
    with np.errstate(all='ignore'):
        want = ((df > lf) & (df < uf)) | ((db > lb) & (db < ub))
        e = 1e-12 * np.maximum(1, np.nanmax(np.abs(x)))
        skip = (np.abs(df - lf) < e) | (np.abs(df - uf) < e) | (np.abs(db - lb) < e) | \
            (np.abs(db - ub) < e)
    ctx = dict(series=s, kw=kw)
    mon.mask(got, pd.Series(want, index=s.index), 'directional_tukey_filter', skip=skip, **ctx)
    record(mon, x, want)
    mon.ev('short_windows', s1 + s2)
    mon.sig('tukey', kind, str(period), k, nan, bool((~want).any()))


WORKLOADS = [(two_way, 4000, 30000), (hampel, 4000, 30000), (tukey, 4000, 30000)]
