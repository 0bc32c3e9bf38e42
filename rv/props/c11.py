"""C11: clipping filters follow their published rules on every input."""
import numpy as np
import pandas as pd
import xgboost

from rv import core, env, gen
from rv.gen import chance, pick
from rv.props.c01 import lerp

rdtools = env.load()
F = rdtools.filtering
PROPERTY = 'C11'
RULE = ('synthetic multi-day AC power with clipped, unclipped, cloudy, frozen, partly missing and '
        'night-time stretches at 1-60 min sampling x mounting type x cutoffs, each mask judged by an '
        'independent re-statement of the rule and by scale invariance; distinct by (filter, '
        'sampling, mounting, cutoff, clipped?, gaps, zone)')
ASSUMPTIONS = ['sorted, duplicate-free power series; xgboost: days on which the model decision '
               'changes under a 1e-12 feature perturbation are not judged']
REQUIRED = {'points_judged': 100000, 'clipped_points': 2000, 'logic': 100, 'xgboost': 40,
            'high_frequency': 20, 'scaled_runs': 50, 'refusals_observed': 40}

_model = None


def model():
    global _model
    if _model is None:
        import os
        _model = xgboost.XGBClassifier()
        _model.load_model(os.path.join(core.REPO, 'rdtools', 'models', 'xgboost_clipping_model.json'))
    return _model


def make_power(rng, freqs):
    f = int(pick(rng, freqs))
    days = int(pick(rng, [1, 2, 3, 6] if f >= 5 else [1, 2, 3]))
    per = 1440 // f
    n = days * per
    zone = pick(rng, ['UTC', 'US/Mountain', 'Asia/Kolkata', 'Etc/GMT+7', 'Australia/Sydney', None])
    st = pd.Timestamp(pick(rng, ['2020-06-01', '2019-10-04', '2020-03-07', '2021-12-30', '2020-02-28']))
    st = st.tz_localize(zone) if zone else st
    if chance(rng, 0.3):
        st = st + pd.Timedelta(minutes=int(rng.integers(0, 600)))
    idx = gen.rel_index(st, np.arange(n) * f * 60 * 10**9)
    local = idx.hour + idx.minute / 60.0
    sun = np.clip(np.sin((local - 6) / 12 * np.pi), 0, None)
    day = ((idx.tz_localize(None) if zone else idx).normalize()
           - (idx[0].tz_localize(None) if zone else idx[0]).normalize()).days.to_numpy()
    amp = rng.uniform(0.6, 1.4, day.max() + 1)
    x = sun.to_numpy() * amp[day]
    if chance(rng, 0.5):
        x = x * (1 - (rng.random(n) < 0.15) * rng.uniform(0, 0.7, n))
    lim = float(pick(rng, [0.8, 0.7, 0.95, 0.5, 5.0]))
    x = np.minimum(x, lim)
    noise = float(pick(rng, [0, 0, 1e-4, 1e-3, 5e-3]))
    x = x * (1 + rng.normal(0, noise, n))
    if chance(rng, 0.25):
        d = int(rng.integers(0, day.max() + 1))
        x[day == d] = float(pick(rng, [0.3, 0.8, 0.0]))           # frozen day
    if chance(rng, 0.3):
        x[day == int(rng.integers(0, day.max() + 1))] *= float(pick(rng, [0.05, 0.09, 0.2]))  # dull day
    if chance(rng, 0.2):
        x = np.where(x > 0, x, -0.002)                             # night consumption
    if chance(rng, 0.4):
        x[rng.random(n) < 0.05] = np.nan
    if chance(rng, 0.15):
        a = int(rng.integers(0, n))
        x[a:a + per // 4] = np.nan
    x = x * float(pick(rng, [1.0, 250.0, 5000.0]))
    s = pd.Series(x, index=idx, name=pick(rng, [None, 'value', 'power', 'datetime']))
    gaps = pick(rng, ['none', 'none', 'drop', 'hole', 'noon'])
    if gaps == 'noon':
        # only the middle of the day is recorded: small daily spread
        s = s[np.abs(local.to_numpy() - 12) < float(rng.uniform(1.5, 5))]
    if gaps == 'drop':
        s = s[rng.random(n) < 0.93]
    elif gaps == 'hole':
        a = int(rng.integers(1, n - 2))
        s = pd.concat([s.iloc[:a], s.iloc[a + int(rng.integers(2, per // 2 + 3)):]])
    if f >= 20 and days > 1 and chance(rng, 0.25 if f == 60 else 0.08):
        # the record continues a week, a month, a year, ... later
        later = pd.Timedelta(days=int(pick(rng, [7, 28, 30, 31, 365, 365, 366])))
        m = s.index[0].normalize() + pd.Timedelta(days=int(rng.integers(1, days)), hours=3)
        s = pd.concat([s[s.index < m], s[s.index >= m].set_axis(s.index[s.index >= m] + later)])
        s = s[~s.index.duplicated()].sort_index()
        gaps = 'later'
    if len(s) <= 14 or s.notna().sum() < 8:
        return make_power(rng, freqs)
    if chance(rng, 0.3):
        s.index.name = pick(rng, ['time', 'date', 'value2'])
    return s, f, gaps


def days_of(idx):
    """Calendar-day number of each stamp, in the zone of the index."""
    nv = idx.tz_localize(None) if idx.tz is not None else idx
    return (nv.normalize().asi8 // (86400 * 10**9))


def by_day(d, x, fn):
    """Per-point value of fn over the points of the same day (NaN ignored)."""
    out = np.full(len(x), np.nan)
    for k in np.unique(d):
        m = d == k
        v = x[m]
        v = v[~np.isnan(v)]
        if len(v):
            out[m] = fn(v)
    return out


def mode_step_minutes(idx):
    st = np.diff(idx.asi8) / 60e9
    v, c = np.unique(st, return_counts=True)
    return v[np.argmax(c)]


def rq(v, q):
    """robust quantile of an array that may contain NaN"""
    filled = np.nan_to_num(v)
    small = np.quantile(filled, q) / 1000
    k = v[filled > small]
    return np.quantile(k, q) if len(k) else np.nan


def forward_range(x, r):
    out = np.full(len(x), np.nan)
    for i in range(len(x) - r + 1):
        w = x[i:i + r]
        if not np.isnan(w).any():
            a, b = w.max(), w.min()
            out[i] = (a - b) / ((a + b) / 2) * 100
    return out


def logic_reference(s, mounting, cutoff, roll):
    idx = s.index
    orig = s.to_numpy(dtype=float)
    f0 = f = mode_step_minutes(idx)
    d = days_of(idx)
    ratio = by_day(d, orig, lambda v: (np.std(v, ddof=1) if len(v) > 1 else np.nan) / v.mean())
    x = orig.copy()
    x[ratio < 0.1] = np.nan
    cleaned = x.copy()
    if f >= 10:
        ns = int(round(f * 60e9))
        span = idx.asi8[-1] - idx.asi8[0]
        grid = gen.rel_index(idx[0], np.arange(span // ns + 1, dtype='int64') * ns)
        ok = ~np.isnan(x)
        med = np.median(np.diff(idx.asi8[ok])) if ok.sum() > 1 else np.nan
        y = lerp(idx.asi8, x, grid.asi8, 2 * med) if ok.any() else np.full(len(grid), np.nan)
    else:
        q = 15 * 60 * 10**9
        base = idx[0].normalize().value
        k = (idx.asi8 - base) // q
        grid = gen.rel_index(idx[0].normalize(), np.arange(k.min(), k.max() + 1) * q)
        y = np.full(len(grid), np.nan)
        for j in range(len(grid)):
            v = x[k == k.min() + j]
            v = v[~np.isnan(v)]
            if len(v):
                y[j] = np.median(v)
        f = 15
    if roll is None:
        roll = 5 if (mounting == 'single_axis_tracking' and f < 30) else 3
    gd = days_of(grid)
    top = by_day(gd, y, np.max)
    y = np.where(y < 0.1 * top, np.nan, y)
    near = np.abs(y - 0.1 * top) < 1e-9 * np.abs(top)
    rng_ = forward_range(y, roll)
    flat = rng_ < cutoff
    edge = (np.abs(rng_ - cutoff) < 1e-6).any() or near.any()
    clip = np.array([i >= roll - 1 and flat[i - roll + 1:i + 1].any() for i in range(len(y))])
    pos = np.searchsorted(grid.asi8, idx.asi8, side='right') - 1
    c = np.where(pos >= 0, clip[np.clip(pos, 0, None)], False)
    cp = np.where(c, orig, np.nan)
    # a day containing only missing clipped power has no limits
    if f0 < 10:
        hi = day_rq(d, cp, 0.99)
        lo = day_rq(d, cp, 0.075)
    else:
        hi, lo = by_day(d, cp, np.max), by_day(d, cp, np.min)
    with np.errstate(all='ignore'):
        diff = (hi - lo) / hi
        fin = ((lo <= orig) & (orig <= hi) & (diff <= 0.025)) | \
              ((orig <= hi * 1.0025) & (orig >= hi * 0.9975) & (diff > 0.025)) | \
              ((orig <= lo * 1.0025) & (orig >= lo * 0.9975) & (diff > 0.025))
        edge = edge or (np.abs(diff - 0.025) < 1e-9).any()
    sel = orig[fin]
    qa = rq(cleaned, 0.99)
    qb = rq(sel, 0.99) if len(sel) else np.nan
    with np.errstate(all='ignore'):
        pd_ = abs((qa - qb) / ((qa + qb) / 2))
        if pd_ < 0.005 and len(sel) / len(orig) * 100 > 4:
            fin = fin | (cleaned >= qa)
        edge = edge or abs(pd_ - 0.005) < 1e-9
    return ~fin, edge


def day_rq(d, x, q):
    out = np.full(len(x), np.nan)
    for k in np.unique(d):
        m = d == k
        out[m] = rq(x[m], q)
    return out


def logic(rng, mon):
    s, f, gaps = make_power(rng, [1, 2, 3, 5, 9, 10, 12, 15, 15, 20, 30, 30, 60])
    mounting = pick(rng, ['fixed', 'fixed', 'single_axis_tracking'])
    cutoff = float(pick(rng, [0.2, 0.2, 0.4, 0.05, 1.0]))
    roll = pick(rng, [None, None, None, 2, 4, 6])
    kw = {}
    if mounting != 'fixed' or chance(rng, 0.3):
        kw['mounting_type'] = mounting
    if cutoff != 0.2:
        kw['rolling_range_max_cutoff'] = cutoff
    if roll is not None:
        kw['roll_periods'] = roll
    want, edge = logic_reference(s, mounting, cutoff, roll)
    ctx = dict(power=s, kw=kw, f=f)
    if chance(rng, 0.4):
        got = mon.call(F.clip_filter, s, **({'model': 'logic'} if chance(rng, 0.5) else {}), **kw)
    else:
        got = mon.call(F.logic_clip_filter, s, **kw)
    mon.ev('logic')
    mon.ev('high_frequency', f < 10)
    if edge:
        mon.ev('knife_edge_skipped')
        return
    mon.mask(got, pd.Series(want, index=s.index), 'logic_clip_filter', **ctx)
    mon.ev('points_judged', len(s))
    mon.ev('clipped_points', int((~want).sum()))
    if chance(rng, 0.3):
        c = float(pick(rng, [0.5, 4.0, 1024.0]))
        again = mon.call(F.logic_clip_filter, s * c, **kw)
        mon.mask(again, pd.Series(want, index=s.index), 'clipping mask depends on the power unit',
                 scale=c, **ctx)
        mon.ev('scaled_runs')
    mon.sig('logic', f, mounting, cutoff, roll, bool((~want).any()), gaps, str(s.index.tz))
    mon.note(sampling_min=f, clipped=int((~want).sum()), **ctx)


def centred(x, w, fn):
    o = (w - 1) // 2
    out = np.full(len(x), np.nan)
    for i in range(len(x)):
        a, b = i + o - w + 1, i + o + 1
        if a >= 0 and b <= len(x):
            v = x[a:b]
            if not np.isnan(v).any():
                out[i] = fn(v)
    return out


def features(idx, x, freq):
    sc = (x - np.nanmin(x)) / (np.nanmax(x) - np.nanmin(x))
    w = 5 if freq < 10 else (3 if freq < 60 else 2)
    ra = centred(sc, w, np.mean)
    nan = [np.nan]
    bw = np.concatenate([nan, np.diff(sc)])
    fw = np.concatenate([np.diff(sc), nan])
    bra = np.concatenate([nan, np.diff(ra)])
    fra = np.concatenate([np.diff(ra), nan])
    # the forward derivative of a one-step shifted series has no first value
    fw[0] = np.nan
    fra[0] = np.nan
    d = days_of(idx)
    top = by_day(d, sc, np.max)
    return dict(first_order_derivative_backward=bw, first_order_derivative_forward=fw,
                first_order_derivative_backward_rolling_avg=bra,
                first_order_derivative_forward_rolling_avg=fra, scaled_value=sc,
                rolling_average=ra, daily_max=top, percent_daily_max=sc / (top + 0.00001),
                deriv_max=forward_range(sc, w),
                deriv_backward_rolling_stdev=centred(bw, w, lambda v: np.std(v, ddof=1)),
                deriv_backward_rolling_mean=centred(bw, w, np.mean),
                deriv_backward_rolling_median=centred(bw, w, np.median),
                deriv_backward_rolling_min=centred(bw, w, np.min),
                deriv_backward_rolling_max=centred(bw, w, np.max))


COLS = ['first_order_derivative_backward', 'first_order_derivative_forward',
        'first_order_derivative_backward_rolling_avg', 'first_order_derivative_forward_rolling_avg',
        'sampling_frequency', 'mounting_config_bool', 'scaled_value', 'rolling_average', 'daily_max',
        'percent_daily_max', 'deriv_max', 'deriv_backward_rolling_stdev',
        'deriv_backward_rolling_mean', 'deriv_backward_rolling_median',
        'deriv_backward_rolling_min', 'deriv_backward_rolling_max']


def xgb_reference(s, mounting, eps, prng):
    idx = s.index
    x = s.to_numpy(dtype=float)
    f = int(mode_step_minutes(idx))
    ns = f * 60 * 10**9
    span = idx.asi8[-1] - idx.asi8[0]
    grid = gen.rel_index(idx[0], np.arange(span // ns + 1, dtype='int64') * ns)
    ok = ~np.isnan(x)
    y = lerp(idx.asi8, x, grid.asi8, 2 * np.median(np.diff(idx.asi8[ok])))
    sf = f
    if f < 5:
        q = 300 * 10**9
        base = grid[0].normalize().value
        k = (grid.asi8 - base) // q
        g2 = gen.rel_index(grid[0].normalize(), np.arange(k.min(), k.max() + 1) * q)
        y2 = np.full(len(g2), np.nan)
        for j in range(len(g2)):
            v = y[k == k.min() + j]
            v = v[~np.isnan(v)]
            if len(v):
                y2[j] = v.mean()
        grid, y, sf = g2, y2, 5
    with np.errstate(all='ignore'):
        ft = features(grid, y, f)
    ft['sampling_frequency'] = np.full(len(grid), float(sf))
    ft['mounting_config_bool'] = np.full(len(grid), 1.0 if mounting == 'single_axis_tracking' else 0.0)
    m = np.column_stack([ft[c] for c in COLS])
    use = ~np.isnan(m).any(axis=1)
    m = m[use]
    if eps:
        m = m * (1 + prng.uniform(-eps, eps, m.shape)) + prng.uniform(-eps, eps, m.shape) * (m != 0)
    pred = model().predict(pd.DataFrame(m, columns=COLS)).astype(bool) if len(m) else np.array([], bool)
    gt = grid.asi8[use]
    pos = np.searchsorted(gt, idx.asi8, side='right') - 1
    p = np.array([pos[i] >= 0 and bool(pred[pos[i]]) for i in range(len(idx))])
    sc = (x - np.nanmin(x)) / (np.nanmax(x) - np.nanmin(x))
    d = days_of(idx)
    pct = sc / (by_day(d, sc, np.max) + 0.00001)
    cl = np.where(p, sc, np.nan)
    hi, lo = by_day(d, cl, np.max), by_day(d, cl, np.min)
    with np.errstate(all='ignore'):
        if f < 5:
            cut = np.fmax(lo, hi * 0.96)
            fin = (cut <= sc) & (pct >= 0.9) & (sc <= hi * 1.0025) & (sc >= 0.1)
        else:
            fin = (lo <= sc) & (pct >= 0.95) & (sc <= hi * 1.0025) & (sc >= 0.1)
    return ~fin, d


def xgb(rng, mon):
    s, f, gaps = make_power(rng, [1, 3, 4, 5, 9, 10, 12, 15, 15, 30, 60, 60])
    if len(s) > 1500:
        s = s.iloc[:1500]
    if s.max() == s.min():
        return
    mounting = pick(rng, ['fixed', 'single_axis_tracking'])
    want, d = xgb_reference(s, mounting, 0, None)
    fragile = np.zeros(len(s), bool)
    for k in range(2):
        alt, _ = xgb_reference(s, mounting, 1e-12, rng)
        bad = np.unique(d[alt != want])
        fragile |= np.isin(d, bad)
    ctx = dict(power=s, mounting=mounting, f=f)
    kw = {} if mounting == 'fixed' and chance(rng, 0.5) else {'mounting_type': mounting}
    if chance(rng, 0.4):
        got = mon.call(F.clip_filter, s, model='xgboost', **kw)
    else:
        got = mon.call(F.xgboost_clip_filter, s, **kw)
    mon.ev('fragile_points', int(fragile.sum()))
    mon.mask(got, pd.Series(want, index=s.index), 'xgboost_clip_filter', skip=fragile, **ctx)
    mon.ev('xgboost')
    mon.ev('points_judged', len(s))
    mon.ev('clipped_points', int((~want).sum()))
    mon.sig('xgb', f, mounting, bool((~want).any()), gaps, str(s.index.tz))


def refusals(rng, mon):
    s, f, gaps = make_power(rng, [15, 30])
    fn = pick(rng, [F.logic_clip_filter, F.xgboost_clip_filter])
    mon.raises(TypeError, 'series without times must be refused', fn, s.reset_index(drop=True))
    mon.raises(ValueError, 'unknown mounting must be refused', fn, s,
               mounting_type=pick(rng, ['tracker', '', 'Fixed', None]))
    mon.raises(IndexError, 'unsorted series must be refused', fn, s.iloc[::-1])
    k = int(rng.integers(1, len(s) - 3))
    o = np.arange(len(s))
    o[[k, k + 1]] = o[[k + 1, k]]
    mon.raises(IndexError, 'unsorted series must be refused', fn, s.iloc[o])
    mon.raises(Exception, 'ten readings or fewer must be refused', fn,
               s.iloc[:int(rng.integers(1, 11))])
    t = pd.date_range('2020-06-01 09:00', periods=11, freq='30min', tz='UTC')
    v = pd.Series(np.minimum(np.sin(np.linspace(0.5, 2.4, 11)), float(rng.uniform(0.6, 0.9))), index=t)
    want, edge = logic_reference(v, 'fixed', 0.2, None)
    got = mon.call(F.logic_clip_filter, v)
    if not edge:
        mon.mask(got, pd.Series(want, index=t), 'eleven readings', power=v)
    mon.ok(mon.call(F.xgboost_clip_filter, v).index.equals(t), 'eleven readings suffice', power=v)


WORKLOADS = [(logic, 1800, 18000), (xgb, 600, 4000), (refusals, 40, 300)]
