"""C18: annual soiling ratios and monthly soiling rates."""
import calendar

import numpy as np
import pandas as pd

from rv import env, soil
from rv.gen import pick, chance
from rv.stats import slack

rdtools = env.load()
from rdtools import soiling   # noqa: E402

PROPERTY = 'C18'
RULE = ('a case is a list of profiles with an insolation series (annual) or a table of soiling intervals (monthly), generated '
        'or taken from SRR; every returned row is recomputed: annual rows exactly, monthly rows against the exact mixture '
        'distribution. Distinct: shape of the table / years with parameters')
ASSUMPTIONS = ['monthly quantiles are accepted within seven standard errors of the exact mixture of uniforms',
               'days without insolation weigh nothing']
REQUIRED = {'annual_rows': 300, 'monthly_rows': 3000, 'empty_months': 200, 'srr_tables': 20,
            'multi_interval_months': 500, 'missing_insolation': 20, 'ineligible': 200, 'exact_limit': 30}


def month_days(start, end):
    """Days of each month between two dates, counted by calendar arithmetic."""
    a, b = start.date(), end.date()
    out = np.zeros(13)
    y, m = a.year, a.month
    while (y, m) <= (b.year, b.month):
        d0 = a.day if (y, m) == (a.year, a.month) else 1
        d1 = b.day if (y, m) == (b.year, b.month) else calendar.monthrange(y, m)[1]
        out[m] += d1 - d0 + 1
        y, m = (y + 1, 1) if m == 12 else (y, m + 1)
    return out


def annual(rng, mon):
    zone = pick(rng, soil.TZS)
    n = int(pick(rng, [1, 30, 366, 500, 1100]))
    idx = soil.days(rng, n, zone)
    k = int(pick(rng, [1, 2, 7, 40, 40, 120, 300] if n < 600 else [1, 2, 7, 40]))
    drift = chance(rng, 0.5)
    profs = []
    for j in range(k):
        v = rng.uniform(0.7, float(pick(rng, [1.0, 1.0, 1.06])), n)
        if drift:           # early realizations are no sample of the late ones
            v = v * (0.8 + 0.2 * j / k)
        s = pd.Series(v, index=idx, name='stochastic_soiling_profile')
        profs.append(s)
    missing = np.zeros(n, bool)
    if chance(rng, 0.2) and n > 5:
        # a day missing from any profile is in none of them
        j = int(rng.integers(0, k))
        hit = rng.random(n) < 0.05
        profs[j] = profs[j].where(~hit)
        missing |= hit
    ins = pd.Series(rng.uniform(0, 8, n), index=idx)
    if chance(rng, 0.3):
        wide = pd.date_range(idx[0] - pd.DateOffset(days=40), idx[-1] + pd.DateOffset(days=400), freq='D')
        full = pd.Series(rng.uniform(1, 8, len(wide)), index=wide)
        full.loc[idx] = ins.values
        given = full
    elif chance(rng, 0.3) and n > 5:
        hit = rng.random(n) < 0.1
        ins = ins.where(~hit)
        given = ins if chance(rng, 0.5) else ins.dropna()
        mon.ev('missing_insolation')
    else:
        given = ins
    kw = {}
    conf = 68.2
    if chance(rng, 0.6):
        conf = kw['confidence_level'] = float(pick(rng, [95.0, 50.0, 10.0, 99.9]))
    got = mon.call(soiling.annual_soiling_ratios, profs, given, **kw)
    judge_annual(mon, got, profs, ins, missing, conf)
    mon.sig('annual', n, k, str(zone), conf, bool(missing.any()), int(ins.isna().sum()))
    mon.note(days=n, realizations=k, result=got)


def judge_annual(mon, got, profs, ins, missing, conf):
    P = np.vstack([p.to_numpy(float) for p in profs])
    w = ins.to_numpy(float).copy()
    use = ~missing & ~np.isnan(w)
    years = np.array([t.year for t in ins.index])
    rows = []
    for y in sorted(set(years[~missing])):
        m = use & (years == y)
        r = (P[:, m] * w[m]).sum(axis=1) / w[m].sum() if w[m].sum() > 0 else np.full(len(P), np.nan)
        q = np.percentile(r, [50, 50 - conf / 2, 50 + conf / 2])
        rows.append([y, *q])
    mon.eq(list(got.columns), ['year', 'soiling_ratio_median', 'soiling_ratio_low', 'soiling_ratio_high'],
           'columns of the annual table')
    mon.close(got.to_numpy(float), np.array(rows, float).reshape(len(rows), 4), 'annual soiling ratios', got_table=got)
    mon.ev('annual_rows', len(rows))


def mixture_cdf(q, lo, hi, w):
    """(P(X < q), P(X <= q)) of the mixture of uniforms, widened by rounding."""
    t = 1e-9 * max(1e-6, np.abs(lo).max(), np.abs(hi).max())

    def cdf(x, strict):
        out = 0.0
        for a, b, ww in zip(lo, hi, w):
            if b - a < 1e-15:
                out += ww * ((a < x) if strict else (a <= x))
            else:
                out += ww * np.clip((x - a) / (b - a), 0, 1)
        return out
    return cdf(q - t, True), cdf(q + t, False)


def judge_monthly(mon, got, table, min_len, max_err, reps, conf, ctx):
    mon.eq(list(got.columns), ['month', 'soiling_rate_median', 'soiling_rate_low', 'soiling_rate_high', 'interval_count'],
           'columns of the monthly table', **ctx)
    mon.eq([int(m) for m in got['month']], list(range(1, 13)), 'twelve months')
    el = []
    for _, r in table.iterrows():
        rate, lo, hi = float(r['soiling_rate']), float(r['soiling_rate_low']), float(r['soiling_rate_high'])
        if rate == 0:
            good = False
        else:
            good = 100 * abs((hi - lo) / rate) <= max_err
        good = good and bool(r['valid']) and r['length'] >= min_len
        if good:
            el.append((lo, hi, month_days(r['start'], r['end'])))
        else:
            mon.ev('ineligible')
    for m in range(1, 13):
        row = got.iloc[m - 1]
        c = [(lo, hi, d[m]) for lo, hi, d in el if d[m] > 0]
        mon.eq(int(row['interval_count']), len(c), 'number of intervals contributing to month %d' % m, **ctx)
        vals = [float(row[k]) for k in ('soiling_rate_median', 'soiling_rate_low', 'soiling_rate_high')]
        mon.ev('monthly_rows')
        if not c:
            mon.ok(np.isnan(vals).all(), 'month %d without intervals is NaN' % m, got=vals, **ctx)
            mon.ev('empty_months')
            continue
        mon.ev('multi_interval_months', len(c) > 1)
        lo, hi, d = (np.array(x, float) for x in zip(*c))
        n = np.ceil(d / d.sum() * reps)
        w = n / n.sum()
        for q, p, name in zip(vals, [0.5, 0.5 - conf / 200, 0.5 + conf / 200], ['median', 'low', 'high']):
            lt, le = mixture_cdf(q, lo, hi, w)
            s = slack(p, n.sum(), z=7.0) + 2.0 / n.sum()
            mon.ok(lt <= p + s and le >= p - s, 'monthly %s rate is that quantile of the eligible intervals' % name,
                   month=m, value=q, prob=p, cdf=(lt, le), slack=s, intervals=c, **ctx)
            mon.ok(lo.min() - 1e-12 <= q <= hi.max() + 1e-12, 'rate within the eligible ranges', month=m, **ctx)
        mon.ok(vals[1] <= vals[0] <= vals[2], 'ordered quantiles', got=vals, **ctx)


def monthly_kw(rng):
    kw = {}
    if chance(rng, 0.5):
        kw['min_interval_length'] = int(pick(rng, [14, 7, 30, 0]))
    if chance(rng, 0.5):
        kw['max_relative_slope_error'] = float(pick(rng, [500.0, 100.0, 40.0]))
    kw['reps'] = int(pick(rng, [5000, 20000, 200, 1000, 10, 30]))
    if chance(rng, 0.5):
        kw['confidence_level'] = float(pick(rng, [95.0, 50.0, 10.0]))
    return kw


def args_of(kw):
    return (kw.get('min_interval_length', 14), kw.get('max_relative_slope_error', 500.0), kw['reps'],
            kw.get('confidence_level', 68.2))


def monthly(rng, mon):
    zone = pick(rng, soil.TZS)
    k = int(rng.integers(1, 25))
    rows = []
    t = soil.days(rng, 1, zone)[0]
    for _ in range(k):
        ln = int(pick(rng, [3, 13, 14, 15, 25, 31, 60, 90, 400]))
        end = t + pd.DateOffset(days=ln)
        valid = chance(rng, 0.75)
        rate = -float(rng.uniform(0.0002, 0.005))
        rel = float(pick(rng, [0.1, 0.3, 0.9, 3.0, 6.0, 0.0]))
        hi = min(0.0, rate + abs(rate) * rel / 2)
        lo = hi - abs(rate) * rel
        if chance(rng, 0.1):
            # exact in binary: relative error exactly 100 or 500 percent
            rate = -1 / 1024
            hi = 0.0
            lo = rate * float(pick(rng, [1, 5]))
        elif chance(rng, 0.1) and rows:
            rate, lo, hi = [rows[-1]['soiling_rate' + x] for x in ('', '_low', '_high')]
        if chance(rng, 0.05):
            rate = lo = hi = 0.0
        if not valid and chance(rng, 0.7):
            rate = lo = hi = 0.0
        rows.append(dict(start=t, end=end, soiling_rate=rate, soiling_rate_low=lo, soiling_rate_high=hi,
                         inferred_start_loss=1.0, inferred_end_loss=0.9, length=ln, valid=valid))
        t = end + pd.DateOffset(days=int(pick(rng, [1, 1, 1, 30])))
    table = pd.DataFrame(rows)
    if chance(rng, 0.3):
        table.index = rng.permutation(len(table)) + 5
    kw = monthly_kw(rng)
    rel = 100 * (table.soiling_rate_high - table.soiling_rate_low) / table.soiling_rate.abs()
    near = np.abs(rel - args_of(kw)[1]) < 1e-6
    exact = (table.soiling_rate == -1 / 1024) & (rel == args_of(kw)[1])
    if (near & ~exact).any():
        return
    mon.ev('exact_limit', (exact & table.valid & (table.length >= args_of(kw)[0])).sum())
    before = table.copy(deep=True)
    got = mon.call(soiling.monthly_soiling_rates, table, **kw)
    mon.ok(before.equals(table), 'the interval table is left alone')
    judge_monthly(mon, got, table, *args_of(kw), dict(table=table, kw=kw))
    mon.sig('monthly', k, sorted(kw.items()), int(got['interval_count'].sum()))
    mon.note(kw=kw, table=table, result=got)


def from_srr(rng, mon):
    pm, insol, precip = soil.scenario(rng, n=int(pick(rng, [365, 500, 800])))
    try:
        sr, ci, info = soiling.soiling_srr(pm, insol, reps=20)
    except (soiling.NoValidIntervalError, IndexError):
        return
    prof = info['stochastic_soiling_profiles']
    got = mon.call(soiling.annual_soiling_ratios, prof, insol)
    judge_annual(mon, got, prof, insol.reindex(prof[0].index), np.zeros(len(prof[0]), bool), 68.2)
    t = info['soiling_interval_summary']
    kw = monthly_kw(rng)
    got = mon.call(soiling.monthly_soiling_rates, t, **kw)
    judge_monthly(mon, got, t, *args_of(kw), dict(kw=kw, table=t))
    mon.ev('srr_tables')
    mon.sig('srr', len(t), len(got))


WORKLOADS = [(annual, 500, 6000), (monthly, 900, 12000), (from_srr, 120, 1000)]
