"""Daily performance scenarios with soiling, and an independent reading of the SRR interval criteria."""
import numpy as np
import pandas as pd
from scipy import stats

from rv.gen import pick, chance

TZS = [None, None, 'UTC', 'US/Mountain', 'Europe/Berlin', 'Australia/Sydney', 'Asia/Kolkata']


def days(rng, n, zone):
    y = int(rng.integers(2010, 2022))
    d0 = pd.Timestamp(y, int(rng.integers(1, 13)), int(rng.integers(1, 29)))
    return pd.date_range(d0, periods=n, freq='D', tz=zone)


def scenario(rng, n=None, zone='pick', hostile=True):
    """(pm, insolation, precipitation) with a description."""
    if n is None:
        n = int(pick(rng, [40, 75, 120, 200, 365, 400, 500, 800]))
    if zone == 'pick':
        zone = pick(rng, TZS)
    idx = days(rng, n, zone)
    sr = np.ones(n)
    clean = np.zeros(n, bool)
    level, i = 1.0, 0
    style = pick(rng, ['regular', 'irregular', 'irregular', 'none', 'short'])
    mean_len = {'regular': 30, 'irregular': 35, 'none': 10**6, 'short': 9}[style]
    while i < n:
        ln = mean_len if style in ('regular', 'none') else int(rng.integers(3, 2 * mean_len))
        rate = float(pick(rng, [-0.004, -0.002, -0.001, 0.0, -0.003])) * rng.uniform(0.6, 1.4)
        if chance(rng, 0.08):
            rate = 0.002
        m = min(ln, n - i)
        sr[i:i + m] = level + rate * np.arange(m)
        if chance(rng, 0.12) and m > 8:
            k = int(rng.integers(3, m - 2))
            sr[i + k:i + m] -= rng.uniform(0.02, 0.15)
        end = sr[i + m - 1]
        level = 1.0 if chance(rng, 0.6) else rng.uniform(min(end, 0.999), 1.0)
        if i > 0:
            clean[i] = True
        i += m
    season = 1 + float(pick(rng, [0, 0, 0.02, 0.05])) * np.sin(np.arange(n) * 2 * np.pi / 365)
    deg = 1 + float(pick(rng, [0, -0.01, -0.03])) * np.arange(n) / 365
    noise = float(pick(rng, [0.0005, 0.002, 0.006, 0.02]))
    x = float(pick(rng, [1, 1, 0.8, 4.2, 100.0])) * sr * season * deg * (1 + rng.normal(0, noise, n))
    if hostile:
        x[rng.random(n) < float(pick(rng, [0, 0, 0.03, 0.15]))] = np.nan
        for _ in range(int(pick(rng, [0, 0, 1, 2, 3]))):
            k = int(rng.integers(0, n))
            x[k:k + int(pick(rng, [2, 5, 6, 7, 8, 12, 13, 14, 15, 20, 40]))] = np.nan
        if chance(rng, 0.15):
            x[rng.random(n) < 0.03] = 0.0
        if chance(rng, 0.1):
            x[rng.random(n) < 0.01] *= -1
        if chance(rng, 0.2):
            x[:int(rng.integers(1, 5))] = np.nan
        if chance(rng, 0.2):
            x[-int(rng.integers(1, 5)):] = np.nan
    pm = pd.Series(x, index=idx, name=pick(rng, [None, 'pm', 'energy_Wh', 'date']))
    ins = rng.uniform(1, 8, n) * float(pick(rng, [1, 1, 1000.0]))
    insol = pd.Series(ins, index=idx)
    if hostile and chance(rng, 0.15):
        insol[rng.random(n) < 0.05] = np.nan
    if hostile and chance(rng, 0.1):
        lo, hi = idx[0] - pd.DateOffset(days=3), idx[-1] + pd.DateOffset(days=5)
        wide = pd.date_range(lo, hi, freq='D')
        insol = insol.reindex(wide).fillna(3.0)
    elif hostile and chance(rng, 0.1):
        # the insolation record starts later and ends earlier
        insol = insol.iloc[int(rng.integers(0, n // 5)):n - int(rng.integers(0, n // 5))]
    rain = np.where(rng.random(n) < float(pick(rng, [0.01, 0.04, 0.1])), rng.exponential(3.0, n), 0.0)
    for k in np.flatnonzero(clean):
        if chance(rng, 0.6):
            j = int(np.clip(k + int(rng.integers(-2, 3)), 0, n - 1))
            rain[j] += rng.uniform(0.005, 10)
    precip = pd.Series(rain, index=idx)
    if hostile and chance(rng, 0.1):
        precip[rng.random(n) < 0.05] = np.nan
    if hostile and chance(rng, 0.1):
        precip = precip.iloc[int(rng.integers(0, n // 5)):n - int(rng.integers(0, n // 5))]
    return pm, insol, precip


def params(rng):
    p = {}
    if chance(rng, 0.5):
        p['day_scale'] = int(pick(rng, [13, 7, 5, 3, 9, 21, 14, 6]))
    if chance(rng, 0.4):
        p['clean_threshold'] = pick(rng, ['infer', 0.005, 0.01, 0.03])
    if chance(rng, 0.3):
        p['trim'] = True
    if chance(rng, 0.5):
        p['clean_criterion'] = pick(rng, ['shift', 'precip_and_shift', 'precip_or_shift', 'precip'])
    if chance(rng, 0.3):
        p['precip_threshold'] = float(pick(rng, [0.01, 0.0, 1.0, 5.0]))
    if chance(rng, 0.4):
        p['min_interval_length'] = int(pick(rng, [2, 4, 7, 14, 28]))
    if chance(rng, 0.3):
        p['recenter'] = False
    if chance(rng, 0.4):
        p['max_relative_slope_error'] = float(pick(rng, [500.0, 100.0, 50.0, 20.0, 1e6]))
    if chance(rng, 0.4):
        p['max_negative_step'] = float(pick(rng, [0.05, 0.01, 0.005, 0.3]))
    if chance(rng, 0.3):
        p['outlier_factor'] = float(pick(rng, [1.5, 0.5, 3.0, 6.0]))
    return p


class Tie(Exception):
    """A decision of the criteria hangs on the last bit."""


def renorm_candidates(pm):
    v = pm.dropna()
    start = v.index[0]
    out = []
    for stop in (start + pd.Timedelta('364d'), start + pd.DateOffset(days=364)):
        r = float(np.median(v[(v.index >= start) & (v.index <= stop)].to_numpy()))
        if r not in out:
            out.append(r)
    return out


def runs(pm, precip, renorm, day_scale=13, clean_threshold='infer', clean_criterion='shift',
         precip_threshold=0.01, outlier_factor=1.5, exact=False):
    """Interval partition: (index, pi, delta, list of (first, last) positions)."""
    ok = np.flatnonzero(~np.isnan(pm.to_numpy(float)))
    a, b = ok[0], ok[-1]
    idx = pm.index[a:b + 1]
    pi = pm.to_numpy(float)[a:b + 1] / renorm
    n = len(pi)
    have = ~np.isnan(pi)
    cut = np.zeros(n, bool)
    pos = np.flatnonzero(have)
    for i, j in zip(pos[:-1], pos[1:]):
        if j - i - 1 > day_scale:
            cut[i] = cut[j] = True
    # values carried over short holes only
    carried = np.full(n, np.nan)
    last = None
    for i in range(n):
        if have[i]:
            last = i
        if last is not None and i - last <= day_scale:
            carried[i] = pi[last]
    ahead = (day_scale - 1) // 2
    back = day_scale - 1 - ahead
    med = np.full(n, np.nan)
    for i in range(back, n - ahead):
        w = carried[i - back:i + ahead + 1]
        if not np.isnan(w).any():
            med[i] = np.median(w)
    delta = np.full(n, np.nan)
    delta[1:] = np.diff(med)
    if clean_threshold == 'infer':
        d = np.abs(delta[~np.isnan(delta)])
        thr = np.nan
        if len(d):
            q1, q3 = np.percentile(d, [25, 75])
            thr = q3 + outlier_factor * (q3 - q1)
    else:
        thr = clean_threshold
    if not np.isnan(thr) and 'shift' in clean_criterion and not exact:
        gap = np.abs(delta - thr)
        if np.nanmin(gap, initial=np.inf) < 1e-12 * max(1.0, np.nanmax(np.abs(carried))):
            raise Tie()
    with np.errstate(invalid='ignore'):
        shift = delta > thr
    rain = np.zeros(n, bool)
    if precip is not None:
        pr = precip.reindex(idx).to_numpy(float)
        with np.errstate(invalid='ignore'):
            rain = pr > precip_threshold
    if clean_criterion == 'precip_and_shift':
        near = rain.copy()
        near[1:] |= rain[:-1]
        near[:-1] |= rain[1:]
        event = shift & near
    elif clean_criterion == 'precip_or_shift':
        event = shift | rain
    elif clean_criterion == 'precip':
        event = rain
    else:
        event = shift
    event = event | cut
    starts = sorted({0} | set(np.flatnonzero(event).tolist()))
    ends = [s - 1 for s in starts[1:]] + [n - 1]
    return idx, pi, delta, list(zip(starts, ends)), event


def reference(pm, precip, renorm, trim=False, max_relative_slope_error=500.0, max_negative_step=0.05,
              min_interval_length=7, exact=False, **kw):
    kw = {k: v for k, v in kw.items() if k != 'recenter'}
    idx, pi, delta, parts, event = runs(pm, precip, renorm, exact=exact, **kw)
    if trim:
        parts = parts[1:-1]
    out = []
    for s, e in parts:
        k = np.arange(s, e + 1)
        with np.errstate(invalid='ignore'):
            good = k[pi[k] > 0]
        use = good if len(good) else k
        step = np.where(np.isnan(delta[use]), 0.0, delta[use]).min()
        vals = np.where(np.isnan(pi[use]), 0.0, pi[use])
        row = dict(s=s, e=e, start=idx[s], end=idx[e], length=e - s, rate=0.0, low=0.0, high=0.0,
                   a=vals.mean(), b=vals.mean(), valid=False)
        if len(good) > min_interval_length:
            y, x = pi[good], good.astype(float)
            slope, icpt, lo, hi = stats.theilslopes(y, x, 0.95, method='separate')
            # the fit, from its definition
            dx = x[:, None] - x[None, :]
            dy = y[:, None] - y[None, :]
            up = dx > 0
            slope = float(np.median(dy[up] / dx[up]))
            icpt = float(np.median(y) - slope * np.median(x))
            hi = min(0.0, hi)
            row.update(rate=slope, low=lo, high=hi, a=icpt + slope * s, b=icpt + slope * e, valid=True)
            scale = max(1.0, np.abs(y).max())
            if abs(slope) < 1e-13 * scale and slope != 0:
                raise Tie()
            err = np.inf if slope == 0 and hi != lo else (np.nan if slope == 0 else (hi - lo) / abs(slope))
            lim = max_relative_slope_error / 100.0
            if np.isfinite(err) and abs(err - lim) < 1e-9 * lim:
                raise Tie()
            if abs(step + max_negative_step) < 1e-12 and not exact:
                raise Tie()
            if slope > 0 or err >= lim or step <= -max_negative_step:
                row.update(rate=0.0, low=0.0, high=0.0, valid=False)
        out.append(row)
    return idx, pi, out, event
