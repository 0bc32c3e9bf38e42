"""Generator and reference model for the availability analysis (C20, C21)."""
import numpy as np
import pandas as pd

from rv.gen import pick, chance, tz


def times(rng, n, minutes, zone):
    start = pd.Timestamp(pick(rng, ['2019-01-01', '2020-02-25', '2021-03-20', '2019-10-25', '2018-12-20', '2019-06-28 12:00']))
    if zone is not None:
        start = start.tz_localize(zone)
    idx = pd.date_range(start, periods=n, freq='%dmin' % minutes)
    if chance(rng, 0.4):
        idx = pd.DatetimeIndex(idx, freq=None)
    return idx


def daylight(rng, n, minutes):
    """Non-negative production shape; the night may lie anywhere on the clock, or be absent."""
    h = np.arange(n) * minutes / 60.0
    noon = pick(rng, [12.0, 12.0, 12.5, 0.0, 6.0, 19.3])
    length = pick(rng, [9.0, 12.0, 15.5])
    x = np.cos((h - noon) / 24 * 2 * np.pi)
    s = np.clip(x - np.cos(length / 2 / 24 * 2 * np.pi), 0, None)
    s = s / s.max()
    if chance(rng, 0.06):
        s = 0.2 + 0.8 * s             # midnight sun
    day = (h // 24).astype(int)
    s = s * rng.uniform(0.3, 1.0, day.max() + 1)[day]
    if chance(rng, 0.5):
        s = s * np.where(s > 0, rng.uniform(0.7, 1.0, n), 1)
    return s


def subsystem(power_system, power_sub, low_threshold=None, relative_sizes=None, limit=None):
    """Subsystem loss, its decision ties, and the online mask, from the published method."""
    cols = list(power_sub.columns)
    p = np.nan_to_num(power_sub.to_numpy(float), nan=0.0)
    P = power_system.to_numpy(float)
    P = np.where(P < 0, 0.0, P)
    n, k = p.shape
    if low_threshold is None:
        thr = np.quantile(p, 0.99, axis=0) / 1000.0
    elif isinstance(low_threshold, pd.Series):
        thr = np.array([float(low_threshold[c]) for c in cols])
    else:
        thr = np.full(k, float(low_threshold))
    on = p > thr
    if relative_sizes is None:
        rs = np.full(k, np.nan)
        acc = [[] for _ in cols]
        for i in range(n):
            live = np.flatnonzero(on[i])
            if len(live):
                m = p[i, live].mean()
                for j in live:
                    acc[j].append(p[i, j] / m)
        for j in range(k):
            if acc[j]:
                rs[j] = np.median(acc[j])
    else:
        rs = np.array([float(relative_sizes[c]) for c in cols])
    frac = rs / np.nansum(rs)
    loss = np.zeros(n)
    tie = np.zeros(n, bool)
    share = np.zeros(n)              # largest share that can be missing
    lim = None
    if limit is not None:
        lim = limit.to_numpy(float) if isinstance(limit, pd.Series) else np.full(n, float(limit))
    for i in range(n):
        live = np.flatnonzero(on[i])
        down = np.flatnonzero(~on[i])
        if len(live) == 0 or len(down) == 0 or np.isnan(P[i]):
            share[i] = 0.0
            continue
        full = np.mean(p[i, live] / rs[live]) * k
        with np.errstate(all='ignore'):
            f = P[i] / full
        fr = frac[down]
        fr = fr[~np.isnan(fr)]
        small = fr.min() if len(fr) else 1.0
        margin = (1 - f) - 0.75 * small
        if abs(margin) < 1e-9:
            tie[i] = True
        lowest = np.nansum(frac[live])
        share[i] = 1 - lowest
        if margin > 0:
            fo = min(max(f, lowest), 1.0)
            loss[i] = (1 - fo) / fo * P[i]
    if lim is not None:
        with np.errstate(invalid='ignore'):
            over = loss + P > lim
            tie |= np.abs(loss + P - lim) < 1e-9 * np.maximum(1, np.abs(lim))
        # staying within the limit is continuous across the tie
        loss = np.where(over, np.maximum(lim - P, 0), loss)
    loss = np.where(np.isnan(loss), 0.0, loss)
    return dict(loss=loss, tie=tie, online=on, thr=thr, rs=rs, frac=frac, share=share, P=P)


def interval_energy(p, hours):
    """Right-labelled energy of each interval; the first interval, and those without both ends, are unknown."""
    p = np.asarray(p, float)
    e = np.full(len(p), np.nan)
    ok = ~np.isnan(p)
    e[1:] = np.where(ok[1:] & ok[:-1], p[1:] * hours, np.nan)
    return e


def nsum(x):
    return float(np.nansum(x)) if len(x) else 0.0


def error_model(P, E, loss_sub, hours):
    with np.errstate(invalid='ignore'):
        normal = (loss_sub == 0) & (P > 0) & (E > 0)
    scale = E[normal].sum() / P[normal].sum()
    Er = E / scale
    eexp = interval_energy(Er, hours)
    eact = interval_energy(P, hours)
    a, x = eact[normal], eexp[normal]
    m = int(normal.sum())
    errors = {}
    L = 2
    while m >= 2 * L:
        wa = np.lib.stride_tricks.sliding_window_view(a, L).sum(axis=1)
        wx = np.lib.stride_tricks.sliding_window_view(x, L).sum(axis=1)
        r = wa / wx - 1
        errors[L] = r[~np.isnan(r)]
        L *= 2
    return normal, scale, Er, eexp, errors


def window_quantile(errors, q):
    ls = np.array(sorted(errors), float)
    v = np.array([np.quantile(errors[int(L)], q) if len(errors[int(L)]) else np.nan for L in ls])
    return ls, v


def outages(online, E):
    """Maximal runs in which the nearest daylight samples around say 'no subsystem reports'."""
    n = len(E)
    off = ~online.any(axis=1)
    day = np.nan_to_num(E, nan=0.0) > 0
    out = np.zeros(n, bool)
    prev = False
    for i in range(n):
        if day[i]:
            prev = bool(off[i])
        out[i] |= prev
    nxt = False
    for i in range(n - 1, -1, -1):
        if day[i]:
            nxt = bool(off[i])
        out[i] |= nxt
    runs, i = [], 0
    while i < n:
        if out[i]:
            j = i
            while j + 1 < n and out[j + 1]:
                j += 1
            runs.append((i, j))
            i = j + 1
        else:
            i += 1
    return runs


def system(rng_free, P, E, cum, sub, hours, quantiles):
    """Reference for outage_info, loss_system, corrected meter."""
    normal, scale, Er, eexp, errors = error_model(P, E, sub['loss'], hours)
    lq = window_quantile(errors, quantiles[0])
    uq = window_quantile(errors, quantiles[1])
    n = len(E)
    rows = []
    lost = np.zeros(n)
    corr = cum.copy()
    eraw = interval_energy(E, hours)
    tie = False
    for a, b in outages(sub['online'], E):
        seg = slice(a, b + 1)
        nday = int((np.nan_to_num(Er[seg], nan=0.0) > 0).sum())
        exp = nsum(eexp[seg])
        lo = float(np.interp(nday, *lq))
        up = float(np.interp(nday, *uq))
        es = cum[a - 1] if a > 0 else np.nan
        ee = cum[b]
        act = ee - es
        if abs(act + 0.05 * exp) <= 1e-7 * max(1, abs(exp)):
            tie = True
        if act < -0.05 * exp:
            act = np.nan
        cl, cu = (1 + lo) * exp, (1 + up) * exp
        if abs(act - cl) <= 1e-7 * max(1, abs(exp), abs(es) * 1e-6):
            tie = True
        if np.isnan(act):
            kind, loss = 'unknown', np.nan
        elif act < cl:
            kind, loss = 'real', exp - act
        else:
            kind, loss = 'comms', 0.0
        rows.append(dict(a=a, b=b, intervals=b - a + 1, daylight_intervals=nday, error_lower=lo, error_upper=up,
                         energy_expected=exp, energy_start=es, energy_end=ee, energy_actual=act, ci_lower=cl, ci_upper=cu,
                         type=kind, loss=loss))
        tot = nsum(eraw[seg])
        with np.errstate(all='ignore'):
            lost[seg] = E[seg] * loss / tot
            part = eraw[seg]
            c = np.cumsum(np.nan_to_num(part, nan=0.0))
            c[np.isnan(part)] = np.nan
            corr[seg] = es + c * act / tot
    return dict(rows=rows, lost=lost, corr=corr, normal=normal, scale=scale, Er=Er, eexp=eexp, errors=errors, tie=tie)
