"""C05: aggregation_insol is the insolation-weighted mean of the points in each calendar bin."""
import numpy as np
import pandas as pd

from rv import env, gen
from rv.gen import MIN, chance, pick

rdtools = env.load()
PROPERTY = 'C05'
RULE = ('random normalized energy / insolation pairs (NaN in either, zero and all-zero weights, '
        'gaps, DST zones, irregular steps) x aggregation frequency; non-trivial when at least one '
        'finite bin with two or more points was compared; distinct by (frequency, style, zone, nan '
        'class, weights class)')
ASSUMPTIONS = ['insolation and normalized energy share one increasing DatetimeIndex']
REQUIRED = {'finite_bins': 2000, 'empty_bins': 100, 'nan_energy_bins': 200, 'zero_weight_bins': 50,
            'quantiles': 100, 'many_values': 20}

FREQS = ['D', 'D', 'D', '2D', '7D', '12h', '6h', '1h', 'W', 'W-WED', 'MS', 'ME', 'YS', 'QS', '36h',
         '90min', pd.offsets.Day(), pd.offsets.MonthBegin()]


def bins(idx, freq):
    """(labels of the points, all labels of the result), computed from the calendar."""
    off = pd.tseries.frequencies.to_offset(freq)
    tz = idx.tz
    naive = idx.tz_localize(None) if tz is not None else idx
    day0 = naive[0].normalize()

    def loc(lst):
        out = pd.DatetimeIndex(lst)
        return out.tz_localize(tz) if tz is not None else out
    if isinstance(off, pd.offsets.Day):
        k = (naive.normalize() - day0).days // off.n
        lab = day0 + pd.to_timedelta(k * off.n, unit='D')
        alll = [day0 + pd.Timedelta(days=int(j) * off.n) for j in range(int(k.max()) + 1)]
        return loc(lab), loc(alll)
    if isinstance(off, pd.offsets.Tick):
        base = idx[0].normalize()
        k = (idx.asi8 - base.value) // off.nanos
        lab = gen.rel_index(base, k * off.nanos)
        alll = gen.rel_index(base, np.arange(k.min(), k.max() + 1) * off.nanos)
        return lab, alll
    nd = naive.normalize()
    if isinstance(off, pd.offsets.Week):
        back = (off.weekday - nd.weekday) % 7
        lab = nd + pd.to_timedelta(back, unit='D')
        a, b = lab.min(), lab.max()
        alll = [a + pd.Timedelta(days=7 * j) for j in range((b - a).days // 7 + 1)]
        return loc(lab), loc(alll)
    if isinstance(off, pd.offsets.MonthBegin):
        lab = pd.DatetimeIndex([d.replace(day=1) for d in nd])
        alll = pd.DatetimeIndex(sorted(set(
            pd.Timestamp(year=m // 12, month=m % 12 + 1, day=1)
            for m in range(lab.min().year * 12 + lab.min().month - 1,
                           lab.max().year * 12 + lab.max().month))))
        return loc(lab), loc(alll)
    if isinstance(off, pd.offsets.MonthEnd):
        lab = pd.DatetimeIndex([d.replace(day=d.days_in_month) for d in nd])
        alll = []
        for m in range(lab.min().year * 12 + lab.min().month - 1,
                       lab.max().year * 12 + lab.max().month):
            d = pd.Timestamp(year=m // 12, month=m % 12 + 1, day=1)
            alll.append(d.replace(day=d.days_in_month))
        return loc(lab), loc(alll)
    if isinstance(off, pd.offsets.QuarterBegin):
        # 'QS' = QS-JAN
        lab = pd.DatetimeIndex([d.replace(month=(d.month - 1) // 3 * 3 + 1, day=1) for d in nd])
        alll = [pd.Timestamp(year=q // 4, month=q % 4 * 3 + 1, day=1)
                for q in range(lab.min().year * 4 + (lab.min().month - 1) // 3,
                               lab.max().year * 4 + (lab.max().month - 1) // 3 + 1)]
        return loc(lab), loc(alll)
    if isinstance(off, pd.offsets.YearBegin):
        lab = pd.DatetimeIndex([d.replace(month=1, day=1) for d in nd])
        alll = [pd.Timestamp(year=y, month=1, day=1)
                for y in range(lab.min().year, lab.max().year + 1)]
        return loc(lab), loc(alll)
    raise NotImplementedError(freq)


def reference(e, w, freq):
    lab, alll = bins(e.index, freq)
    num = dict.fromkeys(alll.asi8.tolist(), 0.0)
    den = dict.fromkeys(alll.asi8.tolist(), 0.0)
    cnt = dict.fromkeys(alll.asi8.tolist(), 0)
    for L, a, b in zip(lab.asi8.tolist(), e.to_numpy(dtype=float), w.to_numpy(dtype=float)):
        if not (np.isnan(a) or np.isnan(b)):
            num[L] += a * b
            den[L] += b
            cnt[L] += 1
    out = [num[k] / den[k] if den[k] != 0 else np.nan for k in alll.asi8.tolist()]
    return pd.Series(out, index=alll), [cnt[k] for k in alll.asi8.tolist()], lab


def aggregate(rng, mon):
    style = pick(rng, ['regular', 'drop', 'blocks', 'jitter', 'mixed'])
    freq = pick(rng, FREQS)
    off = pd.tseries.frequencies.to_offset(freq)
    long = not isinstance(off, pd.offsets.Tick) or off.nanos >= 86400 * 10**9
    step = (pick(rng, [120, 360, 1440]) if long else pick(rng, [15, 30, 60])) * MIN
    n = int(pick(rng, [1, 2, 20, 120, 300])) if chance(rng, 0.98) else 3000
    zone = gen.tz(rng)
    offs = gen.irregular_offsets(rng, max(n, 2), step, style)[:n]
    st = gen.start_ts(rng, zone)
    if chance(rng, 0.5):
        st = st + pd.Timedelta(minutes=int(rng.integers(0, 1440)))
    idx = gen.rel_index(st, offs)
    n = len(idx)
    e = rng.normal(1, 0.3, n)
    w = rng.uniform(0, 1000, n)
    wc = pick(rng, ['plain', 'zeros', 'allzero', 'int', 'night'])
    if wc == 'zeros':
        w[rng.random(n) < 0.6] = 0
    elif wc == 'allzero':
        w[:] = 0
    elif wc == 'night':
        # pyranometer offset at night
        k = rng.random(n) < 0.4
        w[k] = -rng.uniform(0, 4, k.sum())
    elif wc == 'int':
        w = w.astype(int)
    nc = pick(rng, ['none', 'energy', 'insol', 'both', 'day'])
    if nc in ('energy', 'both'):
        e[rng.random(n) < 0.3] = np.nan
    if nc in ('insol', 'both'):
        w = np.array(w, dtype=float)
        w[rng.random(n) < 0.3] = np.nan
    if nc == 'day':
        k = int(rng.integers(0, n))
        e[k:k + 30] = np.nan
    e, w = pd.Series(e, index=idx), pd.Series(w, index=idx)
    want, cnt, lab = reference(e, w, freq)
    got = mon.call(rdtools.aggregation_insol, e, w, freq) if freq != 'D' or chance(rng, 0.5) \
        else mon.call(rdtools.aggregation_insol, e, w)
    ctx = dict(energy=e, insolation=w, freq=str(freq), zone=str(zone))
    skip = None
    if wc == 'night':
        # weights that cancel: the quotient is ill-conditioned
        tot = np.array([np.nansum(np.abs(w.to_numpy()[lab.asi8 == k])) for k in want.index.asi8])
        net = np.array([np.nansum(w.to_numpy()[(lab.asi8 == k) & e.notna().to_numpy()]) for k in want.index.asi8])
        skip = (np.abs(net) < 1e-3 * tot)
        mon.ev('negative_insolation')
    mon.series(got, want, 'insolation-weighted mean', rtol=1e-9, atol=1e-10, skip=skip, **ctx)
    fin = want.notna()
    mon.ev('finite_bins', int(fin.sum()))
    mon.ev('empty_bins', int(sum(c == 0 for c in cnt)))
    mon.ev('zero_weight_bins', int(((~fin.values) & (np.array(cnt) > 0)).sum()))
    if e.isna().any():
        mon.ev('nan_energy_bins', int(fin.sum()))
    if (fin.values & (np.array(cnt) > 1)).any():
        mon.sig(str(freq), style, str(zone), nc, wc)
    mon.note(**ctx)


def robust(rng, mon):
    """robust_quantile/median/mean ignore NaN and near-zero values."""
    U = rdtools.utilities
    n = int(pick(rng, [1, 2, 5, 30, 200, 200, 3000]))
    pos = rng.uniform(10, 100, n)
    x = pos.copy()
    k = pick(rng, [0, 0, 1, n // 3, 2 * n // 5, n, 3 * n])
    kinds = pick(rng, [[np.nan, 0.0, 1e-4, 1e-3], [0.0], [np.nan], [np.nan, 0.005, 0.02, 0.09], [0.0, 0.01, 0.03]])
    junk = np.concatenate([rng.choice(kinds, size=k), pos])
    if chance(rng, 0.05):
        junk = np.zeros(n) if chance(rng, 0.5) else np.full(n, np.nan)
    junk = rng.permutation(junk) if n < 1000 or chance(rng, 0.3) else np.sort(junk)[::int(pick(rng, [1, -1]))]
    mon.ev('many_values', n > 1000)
    scale = float(pick(rng, [1, 1, 1e-4, 1e-2, 1e6]))
    junk = junk * scale
    q = float(pick(rng, [0.99, 0.95, 0.9, 0.98, 0.5, 0.3]))
    filled = np.nan_to_num(junk)
    small = np.quantile(filled, q) / 1000
    if chance(rng, 0.3) and small > 0:
        # values right at the edge of what counts as zero (too low to move the quantile)
        j = np.flatnonzero(filled < np.quantile(filled, q) * 0.01)
        if len(j):
            junk[j[0]] = small * float(pick(rng, [0.9997, 1.0004, 0.995, 1.006]))
            filled = np.nan_to_num(junk)
            small = np.quantile(filled, q) / 1000
            mon.ev('edge_of_zero')
    s = pd.Series(junk)
    keep = junk[np.nan_to_num(junk) > small]
    if (np.abs(filled - small) < 1e-9 * small).any() and small > 0:
        return
    if len(keep) == 0:
        for f, a in ((U.robust_quantile, (s, q)), (U.robust_median, (s, q)), (U.robust_mean, (s, q))):
            mon.ok(np.isnan(mon.call(f, *a)), 'no value is left: missing', x=s, q=q)
        mon.ev('nothing_left')
        return
    ctx = dict(x=s, q=q)
    mon.close(mon.call(U.robust_quantile, s, q), np.quantile(keep, q), 'robust_quantile', atol=0, **ctx)
    mon.close(mon.call(U.robust_median, s, q), np.median(keep), 'robust_median', atol=0, **ctx)
    mon.close(mon.call(U.robust_mean, s, q), np.mean(keep), 'robust_mean', atol=0, **ctx)
    if not ((filled > small) & (filled < 9.99 * scale)).any() and small > 2e-3 * scale and kinds[1:2] == [0.0] \
            and np.quantile(filled, 0.99) > 5 * scale and (junk > 9.99 * scale).any():
        # junk must make no difference at all
        mon.close(mon.call(U.robust_median, s), scale * np.median(pos), 'robust_median with junk', **ctx)
        mon.close(mon.call(U.robust_mean, s), scale * np.mean(pos), 'robust_mean with junk', **ctx)
        mon.close(mon.call(U.robust_quantile, s, q), scale * np.quantile(pos, q),
                  'robust_quantile with junk', **ctx)
        mon.ev('quantiles')
    mon.sig('robust', n, k, q)


WORKLOADS = [(aggregate, 9000, 100000), (robust, 1500, 15000)]
