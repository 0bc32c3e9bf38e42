"""C06: year-on-year degradation is the median of the year-apart slopes."""
import numpy as np
import pandas as pd

from rv import env, gen
from rv.gen import chance, pick

rdtools = env.load()
PROPERTY = 'C06'
RULE = ('2-5 year series (daily, 2-day, weekly, monthly, irregular, holes, NaN, leap years, DST zones, '
        'any row order) x recenter x uncertainty method; non-trivial when at least 5 slopes were '
        'compared against an independent pairing; distinct by (sampling, zone, nan, holes, recenter, '
        'order, leap)')
ASSUMPTIONS = ['unique timestamps; when two points of the previous year map to the same calendar day '
               '(28 and 29 February) either may be used']
REQUIRED = {'slopes_compared': 20000, 'points_judged': 20000, 'refused_short': 30,
            'refused_no_pairs': 5, 'tie_rows': 5, 'usage_0': 50, 'usage_1': 50, 'usage_2': 50,
            'inexact_matches': 50}
YEAR = pd.DateOffset(years=1)
D8 = 8 * 86400 * 10**9
Y365 = 365 * 86400 * 10**9


def robust_median(v):
    filled = np.nan_to_num(v)
    small = np.quantile(filled, 0.99) / 1000
    k = v[filled > small]
    return np.median(k) if len(k) else np.nan


def first_year_median(s):
    t = s.index
    k = t <= t[0] + pd.Timedelta('364d')
    return robust_median(s.to_numpy(dtype=float)[k])


def pairs(s):
    """For each sorted row i: list of candidate rows j one year earlier."""
    t = s.index.asi8
    sh = np.array([(x + YEAR).value for x in s.index], dtype='int64')
    order = np.argsort(sh, kind='stable')
    shs = sh[order]
    out = []
    for i in range(len(t)):
        k = np.searchsorted(shs, t[i], side='right') - 1
        if k < 0 or t[i] - shs[k] > D8:
            out.append([])
            continue
        cand = [int(order[k])]
        while k > 0 and shs[k - 1] == shs[k]:
            k -= 1
            cand.append(int(order[k]))
        out.append(cand)
    return out, sh


def reference(s, recenter):
    """Returns renorm and, per row, the admissible slopes {value: source row}."""
    s = s.sort_index()
    v = s.to_numpy(dtype=float)
    renorm = first_year_median(s) if recenter else 1.0
    e = v / renorm
    t = s.index.asi8
    cand, sh = pairs(s)
    slopes = []
    for i, c in enumerate(cand):
        opts = []
        for j in c:
            y = 100.0 * (e[i] - e[j]) / ((t[i] - t[j]) / Y365)
            opts.append((y, j))
        slopes.append(opts)
    return s, renorm, slopes, cand


KINDS = ['daily', 'daily', 'daily', '2D', 'weekly', 'monthly', 'month_end', 'irregular', 'holes',
         'sparse_weekly']


def make_series(rng, years=None):
    kind = pick(rng, KINDS)
    zone = gen.tz(rng)
    y0 = int(pick(rng, [2011, 2012, 2014, 2015, 2016, 2019, 2020]))
    st = pd.Timestamp(year=y0, month=int(rng.integers(1, 13)), day=int(rng.integers(1, 29)))
    if chance(rng, 0.3):
        st = pd.Timestamp('2016-02-%d' % rng.integers(25, 30))
    if chance(rng, 0.1):
        st = st + pd.Timedelta(hours=12)
    years = years if years is not None else float(pick(rng, [2.02, 2.5, 3.1, 4.3]))
    days = int(365.25 * years) + 3
    if kind in ('daily', 'irregular', 'holes'):
        idx = pd.date_range(st, periods=days, freq='D')
    elif kind == '2D':
        idx = pd.date_range(st, periods=days // 2, freq='2D')
    elif kind in ('weekly', 'sparse_weekly'):
        idx = pd.date_range(st, periods=days // 7 + 1, freq=pick(rng, ['W', '7D', 'W-THU']))
    elif kind == 'monthly':
        idx = pd.date_range(st, periods=days // 30 + 1, freq='MS')
    else:
        idx = pd.date_range(st, periods=days // 30 + 1, freq='ME')
    full = idx
    if kind == 'irregular':
        keep = rng.random(len(idx)) < 0.7
        keep[[0, -1]] = True
        idx = idx[keep]
    elif kind == 'holes':
        keep = np.ones(len(idx), bool)
        for _ in range(int(rng.integers(1, 5))):
            a = int(rng.integers(1, len(idx) - 40))
            keep[a:a + int(rng.integers(2, 60))] = False
        keep[[0, -1]] = True
        idx = idx[keep]
    elif kind == 'sparse_weekly':
        keep = rng.random(len(idx)) < 0.85
        keep[[0, -1]] = True
        idx = idx[keep]
    if zone is not None:
        idx = idx.tz_localize(zone, ambiguous=True, nonexistent='shift_forward')
        full = full.tz_localize(zone, ambiguous=True, nonexistent='shift_forward')
    n = len(idx)
    tt = (idx.asi8 - idx.asi8[0]) / Y365
    rd = float(pick(rng, [-0.005, -0.02, 0.0, 0.01]))
    v = float(pick(rng, [1.0, 0.8, 37.0])) * (1 + rd * tt) * (1 + rng.normal(0, pick(
        rng, [0.0, 0.01, 0.05]), n)) * (1 + 0.05 * np.cos(2 * np.pi * tt))
    nan = pick(rng, [0, 0, 0.05, 0.3])
    v[rng.random(n) < nan] = np.nan
    if chance(rng, 0.2):
        v[rng.random(n) < 0.05] = 0.0
    s = pd.Series(v, index=idx, name=pick(rng, [None, 'energy', 'dt', 'x']))
    return s, kind, nan, full


def judge_point_estimate(mon, rd_pct, info, s0, recenter, ctx):
    s, renorm, slopes, cand = reference(s0, recenter)
    tie_rows = [i for i, c in enumerate(cand) if len(c) > 1]
    mon.ev('tie_rows', len(tie_rows))
    mon.close(info['renormalizing_factor'], renorm, 'renormalizing factor', **ctx)
    yoy = info['YoY_values']
    pos = {t: i for i, t in enumerate(s.index.asi8.tolist())}
    seen = {}
    mon.ok(yoy.index.is_unique, 'slopes have unique labels', **ctx)
    for t, y in zip(yoy.index.asi8.tolist(), yoy.to_numpy()):
        mon.ok(t in pos, 'slope labelled with an unknown time', t=str(pd.Timestamp(t)), **ctx)
        seen[pos[t]] = y
    tie_sources = set()
    for i in tie_rows:
        tie_sources.update(cand[i])
    used_as_source = set()
    nok = 0
    for i, opts in enumerate(slopes):
        fin = [(y, j) for y, j in opts if not np.isnan(y)]
        if i in seen:
            match = [j for y, j in fin if np.isclose(y, seen[i], rtol=1e-7, atol=1e-7)]
            mon.ok(len(match) > 0, 'slope is not 100*(change)/(years) of a point and its '
                   'counterpart a year earlier', label=str(s.index[i]), got=seen[i],
                   admissible=[(y, str(s.index[j])) for y, j in opts], **ctx)
            used_as_source.update(match[:1])
            nok += 1
            if any((s.index[i] - YEAR).value != s.index.asi8[j] for j in match[:1]):
                mon.ev('inexact_matches')
        else:
            mon.ok(len(fin) == 0 or len(fin) < len(opts), 'a year-apart pair was ignored',
                   label=str(s.index[i]), admissible=fin, **ctx)
    mon.ev('slopes_compared', nok)
    vals = np.array(sorted(seen.values()))
    mon.close(rd_pct, np.median(vals), 'Rd is the median of the year-on-year slopes', **ctx)
    use = info['usage_of_points']
    mon.index(use.index, s.index, 'usage_of_points covers the input points', **ctx)
    want = np.array([(1 if i in seen else 0) + (1 if i in used_as_source else 0)
                     for i in range(len(s))], dtype=float)
    skip = np.array([i in tie_sources for i in range(len(s))])
    mon.close(use.to_numpy(dtype=float), want, 'usage of points', skip=skip, **ctx)
    mon.ev('points_judged', len(s))
    for k in (0, 1, 2):
        mon.ev('usage_%d' % k, int((want == k).sum()))
    return nok, len(tie_rows)


def call_yoy(mon, s, **kw):
    return mon.call(rdtools.degradation_year_on_year, s, **kw)


def point_estimate(rng, mon):
    s, kind, nan, full = make_series(rng)
    order = pick(rng, ['sorted', 'reversed', 'shuffled'])
    s0 = s if order == 'sorted' else (s.iloc[::-1] if order == 'reversed'
                                      else s.iloc[rng.permutation(len(s))])
    recenter = chance(rng, 0.6)
    ctx = dict(series=s0, recenter=recenter)
    _, _, slopes, _ = reference(s, recenter)
    ok = any(not np.isnan(y) for o in slopes for y, _ in o)
    renorm = first_year_median(s)
    if recenter and not np.isfinite(renorm):
        return
    if not ok:
        mon.raises(ValueError, 'no pairs must be refused', rdtools.degradation_year_on_year, s0,
                   recenter=recenter)
        return
    kw = {} if recenter and chance(rng, 0.5) else {'recenter': recenter}
    # input series shorter than two years is refused; see short()
    if short_by_rule(s):
        return
    out = call_yoy(mon, s0, **kw)
    mon.ok(len(out) == 3, 'three results', **ctx)
    nok, ties = judge_point_estimate(mon, out[0], out[2], s0, recenter, ctx)
    r = call_yoy(mon, s0, uncertainty_method=pick(rng, [None, 'none']), **kw)
    mon.close(r, out[0], 'Rd does not depend on the uncertainty method', **ctx)
    if nok >= 5:
        mon.sig(kind, str(s.index.tz), nan, recenter, order, ties > 0, len(s))
    mon.note(Rd=float(out[0]), slopes=nok, kind=kind, **ctx)


def short_by_rule(s):
    s = s.sort_index()
    f = s.index.inferred_freq
    step = pd.tseries.frequencies.to_offset(f) if f is not None else \
        s.index.to_series().diff().median()
    return s.index[-1] < s.index[0] + pd.DateOffset(years=2) - step


def short(rng, mon):
    """Fewer than two years are refused, two years are accepted, to the step."""
    kind = pick(rng, ['D', 'W', 'MS', 'irr', '2D'])
    st = pd.Timestamp(year=int(rng.integers(2011, 2021)), month=int(rng.integers(1, 13)),
                      day=int(rng.integers(1, 29)))
    if kind == 'irr':
        idx = pd.date_range(st, periods=900, freq='D')
        keep = rng.random(900) < 0.9
        keep[0] = True
        idx = idx[keep]
        step = pd.Timedelta('1D')
    elif kind == 'MS':
        st = st.replace(day=1)
        idx = pd.date_range(st, periods=30, freq='MS')
        step = pd.offsets.MonthBegin()
    else:
        idx = pd.date_range(st, periods={'D': 900, 'W': 130, '2D': 450}[kind], freq=kind)
        step = {'D': pd.Timedelta('1D'), 'W': pd.Timedelta('7D'), '2D': pd.Timedelta('2D')}[kind]
    st = idx[0]
    limit = st + pd.DateOffset(years=2) - step
    enough = np.flatnonzero(idx >= limit)[0]
    zone = pick(rng, [None, 'UTC', 'Asia/Kolkata'])
    if zone:
        idx = idx.tz_localize(zone)
    v = pd.Series(1.0 + rng.normal(0, 0.01, len(idx)), index=idx)
    for cut in {enough, enough - 1, enough - int(rng.integers(2, 20)), enough + 3}:
        s = v.iloc[:cut + 1]
        method = pick(rng, ['simple', None])
        if cut < enough:
            mon.raises(ValueError, 'less than two years of data must be refused',
                       rdtools.degradation_year_on_year, s, uncertainty_method=method)
            mon.ev('refused_short')
        else:
            mon.call(rdtools.degradation_year_on_year, s, uncertainty_method=method)
            mon.ev('accepted_two_years')
    mon.sig('short', kind, str(zone), st.month, st.year % 4)


def no_pairs(rng, mon):
    st = pd.Timestamp('2012-01-01') + pd.Timedelta(days=int(rng.integers(0, 700)))
    a = pd.date_range(st, periods=60, freq='D')
    b = pd.date_range(st + pd.Timedelta(days=int(pick(rng, [365 + 80, 730 + 80, 900]))),
                      periods=400, freq='D')
    b = b[:150] if (b[0] - a[0]).days > 800 else b[b > a[0] + pd.DateOffset(years=2)][:100]
    idx = a.append(b)
    s = pd.Series(1.0, index=idx)
    _, _, slopes, _ = reference(s, True)
    has = any(len(o) for o in slopes)
    if has or short_by_rule(s):
        return
    mon.raises(ValueError, 'no year-apart pairs must be refused', rdtools.degradation_year_on_year,
               s, uncertainty_method=pick(rng, ['simple', None]))
    mon.ev('refused_no_pairs')
    mon.sig('nopairs', str(st))


def exact_trend(rng, mon):
    """A noise-free linear decline is recovered exactly."""
    rate = float(rng.uniform(-3, 1))
    n = int(365 * rng.uniform(2.1, 6))
    idx = pd.date_range('2010-03-01', periods=n, freq='D', tz=gen.tz(rng))
    if idx.tz is not None:
        yrs = (idx.asi8 - idx.asi8[0]) / Y365
    else:
        yrs = np.arange(n) / 365.0
    s = pd.Series(1 + rate / 100 * yrs, index=idx)
    season = np.zeros(n)
    out = call_yoy(mon, s + season, recenter=False)
    mon.close(out[0], rate, 'linear decline recovered', rtol=1e-6, atol=1e-8)
    mon.close(out[1], [rate, rate], 'no scatter, no uncertainty', rtol=1e-6, atol=1e-8)
    mon.ev('slopes_compared', len(out[2]['YoY_values']))
    mon.sig('exact', str(idx.tz), n)


WORKLOADS = [(point_estimate, 700, 8000), (short, 150, 1500), (no_pairs, 80, 400),
             (exact_trend, 60, 400)]
