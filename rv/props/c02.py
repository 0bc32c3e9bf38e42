"""C02: interpolate never invents data."""
import warnings

import numpy as np
import pandas as pd

from rv import env, gen
from rv.gen import MIN, chance, pick
from rv.props.c01 import lerp

rdtools = env.load()
PROPERTY = 'C02'
RULE = ('random series/frames (irregular steps, NaN runs, DST zones) x target (grid string, offset, '
        'shifted, finer, coarser, overhanging, unsorted, other-zone index) x max_timedelta; '
        'non-trivial when at least one finite and the target is not the input index; distinct by '
        '(style, target kind, zones, container, nan/gap classes)')
ASSUMPTIONS = ['strictly increasing input timestamps, unique target timestamps, ns resolution']
REQUIRED = {'finite_points': 1000, 'nan_points': 1000, 'in_gap_points': 200, 'exact_hits': 200,
            'overhang_points': 100, 'warnings_expected': 10, 'refusals_observed': 20,
            'frames': 50, 'long_series': 60}


def make_series(rng, n=None):
    style = pick(rng, ['regular', 'drop', 'blocks', 'jitter', 'mixed'])
    n = n or int(pick(rng, [2, 3, 4, 6, 12, 40, 120]))
    step = pick(rng, [1, 5, 15, 60, 24 * 60]) * MIN
    zone = gen.tz(rng)
    st = gen.start_ts(rng, zone)
    if chance(rng, 0.3):
        st = st + pd.Timedelta(seconds=int(rng.integers(0, 5000)))
    off = gen.irregular_offsets(rng, n, step, style)
    if n > 500:
        # sampling that changes on the way: the later part decides the median
        k = int(len(off) * rng.uniform(0.15, 0.45))
        d = np.diff(off)
        d[k:] *= int(pick(rng, [2, 3, 5]))
        off = np.concatenate([[0], np.cumsum(d)])
    return style, step, st, off


def column(rng, n):
    v = gen.sprinkle_nan(rng, gen.power_values(rng, n))
    if np.isnan(v).sum() > n - 2:
        v = gen.power_values(rng, n)
    return v


def max_ns_of(ts, v, max_td):
    ok = ~np.isnan(v)
    gaps = np.diff(ts[ok]).astype(float)
    if max_td is not None:
        return max_td.total_seconds() * 1e9, gaps
    return 2 * float(np.median(gaps)), gaps


def make_target(rng, idx, step):
    """Returns (argument, DatetimeIndex the result must have, kind)."""
    kind = pick(rng, ['freq', 'offset', 'same', 'shift', 'fine', 'coarse', 'over', 'unsorted',
                      'mixed', 'sparse', 'one'])
    zone = idx.tz
    ts = idx.asi8
    span = int(ts[-1] - ts[0])
    if kind in ('freq', 'offset'):
        ns = int(pick(rng, [step, step // 2, step * 2, step // 3, 7 * MIN]))
        while span / ns > 1500:
            ns *= 2
        arg = '%dns' % ns
        want = gen.rel_index(idx[0], np.arange(span // ns + 1, dtype='int64') * ns)
        if kind == 'offset':
            arg = pd.tseries.frequencies.to_offset(arg)
        return arg, want, kind
    if kind == 'same':
        t = ts.copy()
    elif kind == 'shift':
        t = ts + int(rng.integers(-step, step))
    elif kind == 'fine':
        t = np.linspace(ts[0], ts[-1], 300).astype('int64')
    elif kind == 'coarse':
        t = ts[::3]
    elif kind == 'over':
        t = np.arange(ts[0] - 5 * step, ts[-1] + 5 * step, max(1, (span + 10 * step) // 200))
    elif kind == 'unsorted':
        t = rng.permutation(np.unique(np.concatenate(
            [ts, rng.integers(ts[0] - step, ts[-1] + step, 30)])))
    elif kind == 'mixed':
        t = np.unique(np.concatenate([ts, (ts[1:] + ts[:-1]) // 2, ts + 1, ts - 1]))
    elif kind == 'sparse':
        t = np.sort(rng.integers(ts[0] - step, ts[-1] + step, 5))
    else:
        t = rng.integers(ts[0], ts[-1], 1)
    t = pd.unique(t)
    out = pd.DatetimeIndex(t.astype('int64').astype('datetime64[ns]'))
    if zone is not None:
        other = gen.tz(rng, True) if chance(rng, 0.4) else zone
        out = out.tz_localize('UTC').tz_convert(other)
    return out, out, kind


def judge(mon, got, want_idx, idx, v, max_td, **ctx):
    ts = idx.asi8
    max_ns, gaps = max_ns_of(ts, v, max_td)
    tt = want_idx.asi8
    w = lerp(ts, v, tt, max_ns)
    scale = np.nanmax(np.abs(v))
    mon.series(got, pd.Series(w, index=want_idx), 'interpolated value',
               rtol=1e-7, atol=1e-7 * scale + 1e-12, **ctx)
    ok = ~np.isnan(v)
    tv = ts[ok]
    hit = np.isin(tt, tv)
    mon.ev('finite_points', int((~np.isnan(w)).sum()))
    mon.ev('nan_points', int(np.isnan(w).sum()))
    mon.ev('exact_hits', int(hit.sum()))
    inside = (tt > tv[0]) & (tt < tv[-1])
    mon.ev('in_gap_points', int((inside & np.isnan(w)).sum()))
    mon.ev('overhang_points', int((~inside & ~hit).sum()))
    return int((~np.isnan(w)).sum()), bool((inside & np.isnan(w)).any())


def pick_max(rng, ts, v):
    ok = ~np.isnan(v)
    gaps = np.diff(ts[ok])
    return pick(rng, [None, None, pd.Timedelta(int(pick(rng, gaps.tolist())), unit='ns'),
                      pd.Timedelta(int(2 * np.median(gaps)), unit='ns'),
                      pd.Timedelta(int(gaps.max()), unit='ns'),
                      pd.Timedelta(int(max(1, gaps.min() - 10**9)), unit='ns'),
                      pd.Timedelta('10min')])


def series_case(rng, mon, n=None):
    style, step, st, off = make_series(rng, n)
    idx = gen.rel_index(st, off)
    v = column(rng, len(idx))
    s = pd.Series(v, index=idx, name=pick(rng, [None, 'x', 'data', 'timestamp', 5]))
    if chance(rng, 0.1) and not s.isna().any() and (s % 1 == 0).all():
        s = s.astype('int64')
    max_td = pick_max(rng, idx.asi8, v)
    arg, want_idx, kind = make_target(rng, idx, step)
    thr = pick(rng, [0.1, 0.1, 0.0, 0.25, 0.5, 1.0])
    kw = {} if thr == 0.1 else {'warning_threshold': thr}
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        got = mon.call(rdtools.interpolate, s, arg, max_td, **kw)
    ctx = dict(series=s, target=str(arg)[:300], max_timedelta=str(max_td), threshold=thr)
    nf, gap = judge(mon, got, want_idx, idx, v, max_td, **ctx)
    mon.eq(got.name, s.name, 'name of the interpolated series')
    # data-loss warning
    max_ns, gaps = max_ns_of(idx.asi8, v, max_td)
    frac = (gaps > max_ns).sum() / (~np.isnan(v)).sum()
    warned = any('xcluded' in str(r.message) for r in rec)
    if abs(frac - thr) > 1e-12:
        mon.eq(warned, bool(frac > thr), 'warning about excluded data', fraction=frac, **ctx)
        mon.ev('warnings_expected', int(frac > thr))
    if nf and kind != 'same':
        mon.sig('s', style, kind, str(idx.tz), str(want_idx.tz), gap, bool(np.isnan(v).any()),
                max_td is None)
    mon.note(**ctx)


def long_case(rng, mon):
    series_case(rng, mon, n=int(rng.integers(800, 4000)))
    mon.ev('long_series')


def frame_case(rng, mon):
    style, step, st, off = make_series(rng)
    idx = gen.rel_index(st, off)
    cols = {}
    for c in pick(rng, [['a'], ['a', 'b'], ['b', 'a', 'c'], ['data', 'timestamp']]):
        cols[c] = column(rng, len(idx))
    df = pd.DataFrame(cols, index=idx)
    gaps = np.diff(idx.asi8)
    max_td = pick(rng, [None, None, pd.Timedelta(int(np.median(gaps)), unit='ns'),
                        pd.Timedelta(int(gaps.max()), unit='ns')])
    arg, want_idx, kind = make_target(rng, idx, step)
    got = mon.call(rdtools.interpolate, df, arg, max_td)
    mon.ok(isinstance(got, pd.DataFrame), 'frame in, frame out')
    mon.eq(list(got.columns), list(df.columns), 'columns of the interpolated frame')
    for c in df.columns:
        nf, gap = judge(mon, got[c], want_idx, idx, cols[c], max_td, frame=df, col=c,
                        target=str(arg)[:300], max_timedelta=str(max_td))
    mon.ev('frames')
    mon.sig('df', style, kind, str(idx.tz), str(want_idx.tz), len(cols), max_td is None)


def refuse_case(rng, mon):
    style, step, st, off = make_series(rng)
    idx = gen.rel_index(st, off)
    s = pd.Series(column(rng, len(idx)), index=idx)
    if idx.tz is None:
        tgt = idx.tz_localize(pick(rng, gen.TZS[1:]), ambiguous=True, nonexistent='shift_forward')
    else:
        tgt = idx.tz_convert('UTC').tz_localize(None)
    obj = s if chance(rng, 0.5) else s.to_frame('a')
    mon.raises(ValueError, 'mixing zone-aware and naive times must be refused',
               rdtools.interpolate, obj, tgt)


WORKLOADS = [(series_case, 5000, 60000), (frame_case, 1200, 12000), (refuse_case, 60, 600), (long_case, 120, 1200)]
