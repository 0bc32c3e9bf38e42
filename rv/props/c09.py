"""C09: pointwise filters keep exactly the points inside their stated bounds."""
import numpy as np
import pandas as pd
import pvlib

from rv import env, gen
from rv.gen import chance, pick

rdtools = env.load()
F = rdtools.filtering
PROPERTY = 'C09'
RULE = ('random series with values on, just inside and just outside the bounds, NaN and infinities, '
        'random and special bounds, any index, through each pointwise filter; distinct by (filter, '
        'bounds class, dtype class, zone)')
ASSUMPTIONS = ['quantile-derived limits: points within 1e-9 of a computed limit are not judged '
               'unless the limit is a data value']
REQUIRED = {'points_judged': 50000, 'kept': 5000, 'dropped': 5000, 'on_boundary': 1000,
            'nan_points': 1000, 'hour_angle_points': 3000, 'refusals_observed': 20}


def rand_index(rng, n):
    kind = pick(rng, ['dt', 'dt', 'dt', 'int', 'dup', 'unsorted'])
    zone = gen.tz(rng)
    if kind == 'int':
        return pd.RangeIndex(n), 'int'
    idx = gen.rel_index(gen.start_ts(rng, zone), np.arange(n) * 900 * 10**9)
    if kind == 'unsorted':
        idx = idx[rng.permutation(n)]
    if kind == 'dup' and n > 3:
        idx = idx[np.sort(rng.integers(0, n, n))]
    return idx, kind


def values_around(rng, n, lo, hi):
    lo_ = lo if lo is not None and np.isfinite(lo) else -1.0
    hi_ = hi if hi is not None and np.isfinite(hi) else lo_ + 100.0
    span = max(abs(hi_ - lo_), 1.0)
    special = [lo_, hi_, np.nextafter(lo_, np.inf), np.nextafter(lo_, -np.inf),
               np.nextafter(hi_, np.inf), np.nextafter(hi_, -np.inf), np.nan, np.inf, -np.inf, 0.0,
               (lo_ + hi_) / 2]
    x = rng.uniform(lo_ - 0.5 * span, hi_ + 0.5 * span, n)
    k = rng.random(n) < 0.4
    x[k] = rng.choice(special, size=k.sum())
    return x


def bounds(mon, got, x, want, idx, what, ctx, skip=None):
    mon.mask(got, pd.Series(want, index=idx), what, skip=skip, **ctx)
    mon.ev('points_judged', len(x))
    mon.ev('kept', int(np.sum(want)))
    mon.ev('dropped', int(len(x) - np.sum(want)))
    mon.ev('nan_points', int(np.isnan(x).sum()))


def limits(rng, mon):
    n = int(pick(rng, [1, 5, 60, 200]))
    idx, ik = rand_index(rng, n)
    which = pick(rng, ['normalized', 'poa', 'tcell'])
    if which == 'normalized':
        lo, hi = pick(rng, [(0.01, None), (0.01, None), (None, None), (0.25, 1.5), (None, 1.2),
                            (0.0, None), (-1.0, 0.0), (None, 0), (-1.0, 2.0), (0, 1), (0.5, 0.5)])
        x = values_around(rng, n, lo, hi)
        s = pd.Series(x, index=idx)
        if (lo, hi) == (0.01, None) and chance(rng, 0.5):
            got = mon.call(F.normalized_filter, s)
        elif chance(rng, 0.5):
            got = mon.call(F.normalized_filter, s, lo, hi)
        else:
            got = mon.call(F.normalized_filter, s, energy_normalized_low=lo,
                           energy_normalized_high=hi)
        a = -np.inf if lo is None else lo
        b = np.inf if hi is None else hi
    else:
        fn = F.poa_filter if which == 'poa' else F.tcell_filter
        dflt = (200, 1200) if which == 'poa' else (-50, 110)
        names = ('poa_global_low', 'poa_global_high') if which == 'poa' else \
            ('temperature_cell_low', 'temperature_cell_high')
        lo, hi = pick(rng, [dflt, dflt, (0, 10), (dflt[0], 50), (0.0, dflt[1]), (300, 250)])
        x = values_around(rng, n, float(lo), float(hi))
        s = pd.Series(x, index=idx)
        if chance(rng, 0.3):
            x = np.round(np.nan_to_num(x, posinf=1e6, neginf=-1e6))
            s = pd.Series(x.astype('int64'), index=idx)
        if (lo, hi) == dflt and chance(rng, 0.5):
            got = mon.call(fn, s)
        elif chance(rng, 0.5):
            got = mon.call(fn, s, lo, hi)
        else:
            got = mon.call(fn, s, **dict(zip(names, (lo, hi))))
        a, b = lo, hi
    want = np.array([bool(v > a and v < b) for v in x])
    bounds(mon, got, x, want, idx, which + '_filter keeps exactly the open interval',
           dict(series=s, low=lo, high=hi))
    mon.ev('on_boundary', int(((x == a) | (x == b)).sum()))
    mon.sig(which, lo, hi, ik, str(s.dtype), n)
    mon.note(filter=which, low=lo, high=hi, series=s)


def csi(rng, mon):
    n = int(pick(rng, [1, 5, 60, 200]))
    idx, ik = rand_index(rng, n)
    if ik == 'dup':
        idx = pd.RangeIndex(n)
    thr = float(pick(rng, [0.15, 0.15, 0.25, 0.5, 0.0, 0.125, 1.0]))
    cs = rng.choice([0.0, 100.0, 512.0, 1000.0, np.nan, 37.5], size=n, p=[.1, .3, .2, .2, .05, .15])
    ratio = rng.choice([1 - thr, 1 + thr, 1.0, 0.0, 2.0, np.nan, 1.05, 0.9, 1 - thr - 1e-6,
                        1 + thr + 1e-6, 1 - thr + 1e-6, 1 + thr - 1e-6, -1.0], size=n)
    m = cs * ratio
    m[(cs == 0) & (rng.random(n) < 0.5)] = 5.0
    meas, clear = pd.Series(m, index=idx), pd.Series(cs, index=idx)
    with np.errstate(all='ignore'):
        c = m / cs
    want = np.array([bool(v >= 1 - thr and v <= 1 + thr) for v in c])
    exact = thr in (0.25, 0.5, 0.0, 0.125, 1.0)
    skip = None if exact else (np.abs(np.abs(c - 1) - thr) < 1e-12)
    if chance(rng, 0.4):
        got = mon.call(F.clearsky_filter, meas, clear, model='csi',
                       **({} if thr == 0.15 else {'threshold': thr}))
    elif thr == 0.15:
        got = mon.call(F.csi_filter, meas, clear)
    else:
        got = mon.call(F.csi_filter, meas, clear, thr)
    bounds(mon, got, np.where(np.isnan(c), np.nan, c), want, idx,
           'csi_filter keeps clear-sky indices within the threshold', dict(meas=meas, clear=clear,
                                                                         thr=thr), skip)
    mon.ev('on_boundary', int((np.abs(c - 1) == thr).sum()))
    mon.sig('csi', thr, ik, n)


def quantiles(rng, mon):
    n = int(pick(rng, [2, 11, 60, 201]))
    idx, ik = rand_index(rng, n)
    if chance(rng, 0.5):
        x = rng.uniform(0, 1000, n)
    else:
        x = rng.integers(0, 12, n).astype(float)
    x[rng.random(n) < pick(rng, [0, 0.2])] = np.nan
    if np.isnan(x).all():
        x[:] = 1.0
    s = pd.Series(x, index=idx)
    if chance(rng, 0.5):
        q = float(pick(rng, [0.1, 0.1, 0.0, 0.5, 0.25, 0.9, 1.0]))
        v = np.sort(x[~np.isnan(x)])
        pos = q * (len(v) - 1)
        i = int(np.floor(pos + 1e-12))
        lim = v[i] if abs(pos - round(pos)) < 1e-9 else v[i] + (pos - i) * (v[min(i + 1, len(v) - 1)] - v[i])
        want = np.nan_to_num(x, nan=-1e9) >= lim
        got = mon.call(F.insolation_filter, s, q) if q != 0.1 or chance(rng, 0.5) else \
            mon.call(F.insolation_filter, s)
        onv = abs(pos - round(pos)) < 1e-9 or v[i] == v[min(i + 1, len(v) - 1)]
        skip = None if (q in (0.0, 0.5, 0.25, 1.0) and onv) else \
            (np.abs(x - lim) < 1e-9 * max(1, abs(lim)))
        bounds(mon, got, x, want, idx, 'insolation_filter keeps points at or above the quantile',
               dict(series=s, q=q), skip)
        mon.ev('on_boundary', int((x == lim).sum()))
        mon.sig('insol', q, ik, n)
    else:
        q = float(pick(rng, [0.98, 0.98, 0.5, 0.9, 1.0]))
        if q == 1.0 and np.nanmax(x) > 0:
            top = np.nanmax(x)
            x[(rng.random(n) < 0.2) & (x != top)] = top * 0.99
            s = pd.Series(x, index=idx)
            mon.ev('on_boundary', int((x == top * 0.99).sum()))
        filled = np.nan_to_num(x)
        small = np.quantile(filled, q) / 1000
        keep = x[filled > small]
        lim = np.quantile(keep, q) * 0.99 if len(keep) else np.nan
        want = np.array([bool(v < lim) for v in x])
        if chance(rng, 0.5):
            got = mon.call(F.quantile_clip_filter, s, q) if q != 0.98 else \
                mon.call(F.quantile_clip_filter, s)
        else:
            got = mon.call(F.clip_filter, s, model='quantile', **({'quantile': q} if q != 0.98 else {}))
        bounds(mon, got, x, want, idx, 'quantile_clip_filter keeps points below 99% of the quantile',
               dict(series=s, q=q),
               None if q == 1.0 else np.abs(x - lim) < 1e-9 * max(1, abs(lim)))
        mon.sig('qclip', q, ik, n)


def hour_angle(rng, mon):
    """The filter depends on the instants only, never on the zone they are written in."""
    n = int(pick(rng, [24, 48, 150]))
    lat = float(pick(rng, [0, 40, -35, 65, -80]))
    lon = float(pick(rng, [0, -105, 178, -179.5, 90, 151, 180, -180, rng.uniform(-180, 180)]))
    lo, hi = pick(rng, [(-30, 30), (-30, 30), (-90, 0), (-15, 75), (-180, 180), (0, 0.5), (-170, -100),
                        (100, 175)])
    zone = gen.tz(rng, True)
    step = int(pick(rng, [900, 1800, 3600, 5400]))
    st = gen.start_ts(rng, None).tz_localize('UTC')
    st = max(st, pd.Timestamp('1999-01-01', tz='UTC')) + pd.Timedelta(seconds=int(rng.integers(0, 86400)))
    utc = gen.rel_index(st, np.arange(n) * step * 10**9)
    idx = utc.tz_convert(zone)
    if chance(rng, 0.15):
        idx = utc.tz_localize(None)         # pvlib reads naive times as UTC
    s = pd.Series(rng.normal(size=n), index=idx)
    if chance(rng, 0.3):
        s[rng.random(n) < 0.2] = np.nan
    eot = pvlib.solarposition.get_solarposition(utc, lat, lon)['equation_of_time'].to_numpy()
    hours = (utc.asi8 % (86400 * 10**9)) / 3600e9
    ha = 15 * (hours - 12) + lon + eot / 4
    ha = (ha + 180) % 360 - 180
    want = (ha >= lo) & (ha <= hi)
    skip = (np.abs(ha - lo) < 1e-6) | (np.abs(ha - hi) < 1e-6) | (np.abs(np.abs(ha) - 180) < 1e-6)
    kw = {} if (lo, hi) == (-30, 30) and chance(rng, 0.5) else dict(min_hour_angle=lo, max_hour_angle=hi)
    got = mon.call(F.hour_angle_filter, s, lat, lon, **kw)
    mon.mask(got, pd.Series(want, index=idx), 'hour_angle_filter keeps the solar hour-angle window',
             skip=skip, lat=lat, lon=lon, lo=lo, hi=hi, zone=str(idx.tz))
    mon.ev('hour_angle_points', n)
    mon.ev('kept', int(want.sum()))
    mon.sig('ha', lat, round(lon), lo, hi, str(idx.tz))


def dispatch(rng, mon):
    n = 50
    idx = pd.date_range('2020-01-01', periods=n, freq='15min', tz='UTC')
    s = pd.Series(rng.uniform(1, 100, n), index=idx)
    mon.raises(ValueError, 'unknown clearsky model must be refused', F.clearsky_filter, s, s,
               model=pick(rng, ['CSI', '', 'reno', None]))
    mon.raises(ValueError, 'unknown clip model must be refused', F.clip_filter, s,
               model=pick(rng, ['Quantile', '', 'ml', None, 0.98]))


WORKLOADS = [(limits, 8000, 60000), (csi, 5000, 30000), (quantiles, 5000, 30000),
             (hour_angle, 2000, 12000), (dispatch, 20, 200)]
