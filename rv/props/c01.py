"""C01: energy_from_power integrates exactly what was measured."""
import numpy as np
import pandas as pd

from rv import env, gen
from rv.gen import MIN, chance, pick

rdtools = env.load()
PROPERTY = 'C01'
RULE = ('random power series (regular, dropped, blocky, jittered, mixed steps; NaN runs at '
        'start/middle/end; naive, UTC and DST zones) x target frequency (coarser, equal, finer, '
        'default, calendar) x max_timedelta x labelling; a case is non-trivial when the oracle '
        'saw at least one finite output interval; distinct by (style, power_type, regime, zone, '
        'gap classes present)')
ASSUMPTIONS = ['timestamps strictly increasing with nanosecond resolution, target interval a fixed duration, a day or a month start']
REQUIRED = {'finite_intervals': 1000, 'nan_intervals': 100, 'regime_coarse': 50,
            'regime_fine': 50, 'instantaneous': 50, 'right_labeled': 50, 'gap_in_bin': 20,
            'refusals_observed': 5, 'subsecond': 50, 'long_series': 60}
H = 3600.0 * 1e9


# ------------------------------------------------------------- the oracle
def integrate(ts, vals, start, edges, max_ns, kind):
    """Integral (unit*h) over each (edges[k], edges[k+1]] of the signal known
    from valid samples; NaN where nothing in the interval is known."""
    ok = ~np.isnan(vals)
    t, v = ts[ok], vals[ok]
    out = np.full(len(edges) - 1, np.nan)
    gap_seen = 0
    for i in range(1, len(t)):
        a, b = int(t[i - 1]), int(t[i])
        if b - a > max_ns:
            gap_seen += 1
            continue
        # split (a, b] over the bins
        k = int(np.searchsorted(edges, a, side='right')) - 1
        while k < len(edges) - 1 and edges[k] < b:
            lo, hi = max(a, int(edges[k])), min(b, int(edges[k + 1]))
            if hi > lo:
                if kind == 'right_labeled':
                    e = v[i] * ((hi - lo) / H)
                else:
                    slope = (v[i] - v[i - 1]) / (b - a)
                    mid = v[i - 1] + slope * ((lo - a) + (hi - a)) / 2.0
                    e = mid * ((hi - lo) / H)
                out[k] = e if np.isnan(out[k]) else out[k] + e
            k += 1
    return out, gap_seen


def lerp(ts, vals, targets, max_ns):
    """Linear interpolation onto targets, NaN in gaps > max and outside."""
    ok = ~np.isnan(vals)
    t, v = ts[ok], vals[ok]
    out = np.full(len(targets), np.nan)
    for j, x in enumerate(targets):
        i = int(np.searchsorted(t, x, side='left'))
        if i < len(t) and t[i] == x:
            out[j] = v[i]
        elif 0 < i < len(t) and t[i] - t[i - 1] <= max_ns:
            w = (x - t[i - 1]) / (t[i] - t[i - 1])
            out[j] = v[i - 1] + w * (v[i] - v[i - 1])
    return out


def label_times(index, freq, coarse):
    """Right labels: start + k*freq until the data are covered (or, when the
    data are first interpolated, as long as the label is inside the data)."""
    a, b = index[0], index[-1]
    off = pd.tseries.frequencies.to_offset(freq)
    if isinstance(off, pd.offsets.Day) and a.tz is not None:
        naive = a.tz_localize(None)
        out = [a]
        while out[-1] < b:
            naive = naive + pd.Timedelta(days=off.n)
            out.append(naive.tz_localize(a.tz))
    else:
        out = [a]
        n = off.nanos
        base = a.value
        k = -(-(b.value - base) // n)
        idx = gen.rel_index(a, np.arange(k + 1, dtype='int64') * n)
        out = list(idx)
    idx = pd.DatetimeIndex(out)
    if not coarse:
        idx = idx[idx <= b]
    return idx


def model(power, freq, max_td, kind):
    ts = power.index.asi8
    vals = power.to_numpy(dtype=float)
    steps = np.diff(ts).astype(float)
    med = float(np.median(steps))
    off = pd.tseries.frequencies.to_offset(freq if freq is not None else '%dns' % int(med))
    max_ns = med if max_td is None else max_td.total_seconds() * 1e9
    coarse = off.nanos > med
    labels = label_times(power.index, off, coarse)
    edges = labels.asi8
    if coarse:
        e, gaps = integrate(ts, vals, ts[0], edges, max_ns, kind)
    else:
        y = lerp(ts, vals, edges, max_ns)
        e, gaps = integrate(edges, y, ts[0], edges, max_ns, kind)
    # labels inside a hole of the time index
    for k, L in enumerate(edges[1:]):
        i = int(np.searchsorted(ts, L, side='left'))
        if 0 < i < len(ts) and ts[i] - ts[i - 1] > max_ns:
            e[k] = np.nan
    return pd.Series(e, index=labels[1:]), coarse, gaps, med, off.nanos


STEPS = [1, 5, 10, 15, 30, 60, 180]


def make_power(rng, nmax=160):
    style = pick(rng, ['regular', 'regular', 'drop', 'blocks', 'jitter', 'mixed'])
    n = int(pick(rng, [2, 3, 4, 5, 8, 20, 60, nmax]))
    step = pick(rng, STEPS) * MIN
    if chance(rng, 0.05):
        step = 24 * 60 * MIN
    elif chance(rng, 0.06):
        step = int(pick(rng, [250, 500, 1500, 20])) * 10**6
    zone = gen.tz(rng)
    st = gen.start_ts(rng, zone)
    if chance(rng, 0.4):
        st = st + pd.Timedelta(seconds=int(rng.integers(0, 7200)))
    off = gen.irregular_offsets(rng, n, step, style)
    n = len(off)
    vals = gen.power_values(rng, n)
    vals = gen.sprinkle_nan(rng, vals, lead=pick(rng, [0, 0, 0, 1, 2]) if n > 6 else 0,
                            trail=pick(rng, [0, 0, 0, 1, 2]) if n > 6 else 0)
    if np.isnan(vals).sum() > n - 2 and chance(rng, 0.7):
        vals[:] = 1.5
    if chance(rng, 0.01):
        vals[:] = np.nan
    elif n > 100 and chance(rng, 0.3):
        # a very long outage, short enough for a generous max_timedelta
        k = int(rng.integers(1, n - 90))
        vals[k:k + int(rng.integers(40, 88))] = np.nan
    idx = gen.rel_index(st, off)
    p = pd.Series(vals, index=idx, name=pick(rng, [None, 'power', 'energy_Wh', 3]))
    if chance(rng, 0.15) and not p.isna().any() and (p % 1 == 0).all():
        p = p.astype('int64')
    return p, style, step


def pick_args(rng, p, step):
    ts = p.index.asi8
    med = float(np.median(np.diff(ts)))
    freqs = [None, '1h', '2h', '15min', '30min', '45min', '6h', '1D', '2D', '5min', '100s', '7min',
             '%dns' % int(med), '%dns' % int(2 * med), '%dns' % max(1, int(med) // 2),
             '%dns' % int(3 * med)]
    freq = pick(rng, freqs)
    span = ts[-1] - ts[0]
    if freq is not None:
        ns = pd.tseries.frequencies.to_offset(freq).nanos
        if span / ns > 3000:
            freq = None
        elif isinstance(pd.tseries.frequencies.to_offset(freq), pd.offsets.Day) \
                and p.index.tz is not None and p.index[0] != p.index[0].normalize():
            freq = '24h'
    if freq is not None and chance(rng, 0.3):
        freq = pd.tseries.frequencies.to_offset(freq)
    md = pick(rng, [None, None, med, 2 * med, 3 * med, 0.5 * med, 12 * med, 1.5 * med, 200 * med, 70 * med])
    max_td = None if md is None else pd.Timedelta(int(round(md / 1e6)), unit='ms')
    if max_td is not None and max_td <= pd.Timedelta(0):
        max_td = None
    if chance(rng, 0.2):
        # exactly one of the gaps present
        max_td = pd.Timedelta(int(pick(rng, np.diff(ts).tolist())), unit='ns')
    return freq, max_td


def random_series(rng, mon):
    p, style, step = make_power(rng)
    freq, max_td = pick_args(rng, p, step)
    kind = pick(rng, ['right_labeled', 'right_labeled', 'instantaneous'])
    want, coarse, gaps, med, fns = model(p, freq, max_td, kind)
    kw = dict(target_frequency=freq, max_timedelta=max_td)
    if kind == 'instantaneous' or chance(rng, 0.5):
        kw['power_type'] = kind
    got = mon.call(rdtools.energy_from_power, p, **kw)
    ctx = dict(power=p, freq=str(freq), max_timedelta=str(max_td), power_type=kind)
    scale = np.nanmax(np.abs(np.append(p.to_numpy(dtype=float), 1.0))) * fns / H
    mon.series(got, want, 'energy differs from the integral of the measured power',
               rtol=1e-7, atol=1e-9 * max(1.0, scale) + (scale * 1000 / min(step, fns) if min(step, fns) < 10**10 else 0), **ctx)
    mon.eq(got.name, 'energy_Wh', 'result name')
    nfin = int(want.notna().sum())
    mon.ev('finite_intervals', nfin)
    mon.ev('nan_intervals', int(want.isna().sum()))
    mon.ev('regime_coarse' if coarse else 'regime_fine')
    mon.ev(kind)
    if gaps and coarse:
        mon.ev('gap_in_bin')
    mon.ev('subsecond', step < 10**9)
    if nfin:
        mon.sig(style, kind, coarse, str(p.index.tz), gaps > 0, bool(p.isna().any()),
                max_td is None, freq is None)
    mon.note(**ctx)


def long_series(rng, mon):
    """Thousands of readings whose sampling changes on the way: every reading counts, not the first ones."""
    a, b = [int(x) for x in rng.choice([5, 10, 15, 30, 60], 2, replace=False)]
    n1 = int(rng.integers(600, 1500))
    n2 = int(n1 * rng.uniform(1.1, 2.5))
    steps = np.concatenate([np.full(n1, a), np.full(n2, b)]).astype('int64') * MIN
    if chance(rng, 0.5):
        k = rng.integers(0, len(steps), 20)
        steps[k] *= rng.integers(2, 9, 20)
    off = np.concatenate([[0], np.cumsum(steps)])
    v = gen.sprinkle_nan(rng, gen.power_values(rng, len(off)), p=pick(rng, [0, 0.03]), lead=0)
    st = gen.start_ts(rng, gen.tz(rng))
    p = pd.Series(v, index=gen.rel_index(st, off))
    if chance(rng, 0.5):
        p.iloc[int(len(p) * 0.7):] = 1e3 * p.iloc[int(len(p) * 0.7):]
    freq = pick(rng, [None, '1h', '2h', '%dmin' % b, '%dmin' % (2 * max(a, b))])
    mult = pick(rng, [None, None, 1, 3])
    max_td = None if mult is None else pd.Timedelta(mult * b * MIN, unit='ns')
    kind = pick(rng, ['right_labeled', 'instantaneous'])
    want, coarse, gaps, med, fns = model(p, freq, max_td, kind)
    got = mon.call(rdtools.energy_from_power, p, freq, max_td, kind)
    scale = np.nanmax(np.abs(np.append(v, 1.0))) * 1e3 * fns / H
    mon.series(got, want, 'energy differs from the integral of the measured power', rtol=1e-7, atol=1e-9 * max(1.0, scale),
               freq=str(freq), max_timedelta=str(max_td), power_type=kind, steps=(a, b), counts=(n1, n2))
    mon.ev('finite_intervals', int(want.notna().sum()))
    mon.ev('long_series')
    mon.sig('long', a, b, str(freq), mult, kind)


def calendar_months(rng, mon):
    """Month-start targets, data starting exactly at a month start."""
    zone = gen.tz(rng)
    st = pd.Timestamp('%d-%02d-01' % (rng.integers(2015, 2022), rng.integers(1, 13)))
    st = st.tz_localize(zone) if zone else st
    step = pick(rng, [60, 180, 360, 720]) * MIN
    n = int(rng.integers(30 * 24 * 60 * MIN // step, 120 * 24 * 60 * MIN // step))
    style = pick(rng, ['regular', 'drop', 'blocks'])
    off = gen.irregular_offsets(rng, n, step, style)
    vals = gen.sprinkle_nan(rng, gen.power_values(rng, len(off)), lead=0)
    p = pd.Series(vals, index=gen.rel_index(st, off))
    kind = pick(rng, ['right_labeled', 'instantaneous'])
    steps = np.diff(off).astype(float)
    med = float(np.median(steps))
    mult = pick(rng, [None, 1, 2, 4])
    max_td = None if mult is None else pd.Timedelta(int(mult * med), unit='ns')
    max_ns = med if mult is None else mult * med
    if max_td is not None and p.index[-1] < st + pd.DateOffset(months=2):
        return
    if p.index[-1] < st + pd.DateOffset(months=2):
        return
    labels = [st]
    while labels[-1] < p.index[-1]:
        labels.append(st + pd.DateOffset(months=len(labels)))
    labels = pd.DatetimeIndex(labels)
    e, gaps = integrate(p.index.asi8, vals, st.value, labels.asi8, max_ns, kind)
    ts = p.index.asi8
    for k, L in enumerate(labels.asi8[1:]):
        i = int(np.searchsorted(ts, L, side='left'))
        if 0 < i < len(ts) and ts[i] - ts[i - 1] > max_ns:
            e[k] = np.nan
    want = pd.Series(e, index=labels[1:])
    got = mon.call(rdtools.energy_from_power, p, 'MS', max_td, kind)
    extra = got[got.index > want.index[-1]]
    mon.ok(extra.isna().all(), 'energy reported after the end of the data', extra=extra)
    got = got[got.index <= want.index[-1]]
    mon.series(got, want, 'monthly energy differs from the integral of the measured power',
               rtol=1e-7, atol=1e-6 * max(1, np.nanmax(np.abs(vals))), power=p,
               max_timedelta=str(max_td), power_type=kind)
    mon.ev('finite_intervals', int(want.notna().sum()))
    mon.ev('calendar_months', len(want))
    mon.sig('MS', style, kind, str(zone), gaps > 0)


def single_sample(rng, mon):
    zone = gen.tz(rng)
    st = gen.start_ts(rng, zone)
    freq = pick(rng, ['15min', '1h', '1D', '30s', '2h', '500ms', '1500ms'])
    ns = pd.tseries.frequencies.to_offset(freq).nanos
    v = float(pick(rng, [0.0, 1.0, 123.456, -5.0, np.nan, 1e9]))
    with_freq = chance(rng, 0.5)
    idx = pd.date_range(st, periods=1, freq=freq) if with_freq else pd.DatetimeIndex([st])
    p = pd.Series([v], index=idx)
    tf = pick(rng, [None, '1h', '5min', freq])
    if tf is None and not with_freq:
        mon.raises(ValueError, 'single sample of unknown duration must be refused',
                   rdtools.energy_from_power, p)
    else:
        want = v * pd.tseries.frequencies.to_offset(tf if tf is not None else freq).nanos / H
        got = mon.call(rdtools.energy_from_power, p, tf)
        mon.series(got, pd.Series([want], index=idx), 'single-sample energy', power=p, freq=tf)
        mon.eq(got.name, 'energy_Wh', 'result name')
        mon.ev('finite_intervals', 1)
        mon.sig('single', str(tf), with_freq, ns)
    mon.raises(ValueError, 'instantaneous single sample must be refused',
               rdtools.energy_from_power, p, tf, power_type='instantaneous')
    q = pd.Series([1.0, 2.0], index=[0, 1])
    mon.raises(ValueError, 'non-datetime index must be refused', rdtools.energy_from_power, q)
    r = pd.Series([1.0, 2.0, 3.0], index=pd.date_range(st, periods=3, freq='1h'))
    mon.raises(ValueError, 'unknown power_type must be refused', rdtools.energy_from_power, r,
               power_type=pick(rng, ['left', 'right-labeled', 'inst', '']))


WORKLOADS = [(random_series, 9000, 80000), (calendar_months, 300, 3000), (single_sample, 60, 600),
             (long_series, 120, 1200)]
