"""C07: year-on-year uncertainty statements come from the right resampling distribution."""
import numpy as np
import pandas as pd

from rv import env, gen, stats
from rv.gen import chance, pick
from rv.props import c06

rdtools = env.load()
B = rdtools.bootstrap
PROPERTY = 'C07'
RULE = ('year-on-year runs with random data, confidence level and exceedance probability, judged '
        'against the exact distribution of the bootstrap median; circular-block runs judged '
        'against an independent resampling; block structure of the resampled residuals traced '
        'position by position; distinct by (method, levels, sampling, size)')
ASSUMPTIONS = ['numpy global random state is uniform; statistical oracles use a 7 sigma band']
REQUIRED = {'ci_bounds_judged': 300, 'exceedance_judged': 150, 'block_positions': 20000,
            'circular_rates': 5000, 'refusals_observed': 20}


def simple(rng, mon):
    s, kind, nan, full = c06.make_series(rng)
    if c06.short_by_rule(s):
        return
    recenter = chance(rng, 0.5)
    if recenter and not np.isfinite(c06.first_year_median(s)):
        return
    _, _, slopes, _ = c06.reference(s, recenter)
    if not any(not np.isnan(y) for o in slopes for y, _ in o):
        return
    cl = float(pick(rng, [68.2, 95.0, 50.0, 10.0, 99.0, 80.0]))
    ex = float(pick(rng, [95.0, 90.0, 50.0, 5.0, 75.0, 99.0]))
    kw = dict(recenter=recenter)
    if cl != 68.2:
        kw['confidence_level'] = cl
    if ex != 95.0:
        kw['exceedance_prob'] = ex
    ctx = dict(series=s, kw=kw)
    seed = int(rng.integers(0, 2**31))
    np.random.seed(seed)
    rd, ci, info = mon.call(rdtools.degradation_year_on_year, s, **kw)
    np.random.seed(seed)
    rd2, ci2, info2 = mon.call(rdtools.degradation_year_on_year, s.copy(), **kw)
    mon.ok(rd == rd2 and np.array_equal(ci, ci2) and
           info['exceedance_level'] == info2['exceedance_level'],
           'same data and random seed, same answer', **ctx)
    y = info['YoY_values'].to_numpy()
    mon.ok(len(ci) == 2 and ci[0] <= ci[1], 'confidence interval is ordered', ci=ci, **ctx)
    for c, p in ((ci[0], 0.5 - cl / 200), (ci[1], 0.5 + cl / 200)):
        mon.ok(stats.median_percentile_ok(y, c, p, 10000),
               'confidence bound is not the stated percentile of the bootstrap median',
               bound=c, percentile=p, cdf=stats.median_cdf_bounds(y, c), n=len(y), **ctx)
        mon.ev('ci_bounds_judged')
    p = 1 - ex / 100
    mon.ok(stats.median_percentile_ok(y, info['exceedance_level'], p, 10000),
           'exceedance level is not the stated percentile of the bootstrap median',
           level=info['exceedance_level'], percentile=p,
           cdf=stats.median_cdf_bounds(y, info['exceedance_level']), n=len(y), **ctx)
    mon.ev('exceedance_judged')
    mon.sig('simple', kind, cl, ex, recenter, len(y))
    mon.note(Rd=rd, ci=list(map(float, ci)), **ctx)


def blocks(rng, mon):
    """Trace every resampled residual back to its origin."""
    n = int(pick(rng, [10, 37, 90, 200, 365]))
    bl = int(pick(rng, [1, 2, 5, 7, 30, n // 3]))
    bl = max(1, min(bl, n))
    reps = int(pick(rng, [1, 3, 20, 60]))
    typ = pick(rng, ['multiplicative', 'additive'])
    idx = pd.date_range('2015-01-01', periods=n, freq=pick(rng, ['D', 'W']), tz=gen.tz(rng))
    fit = pd.Series(1 + np.linspace(0, -0.1, n), index=idx)
    res = 1 + rng.permutation(n) / n            # all distinct
    sig = fit * res if typ == 'multiplicative' else fit + res
    seed = pick(rng, [None, int(rng.integers(0, 1000))])
    kw = dict(sample_nr=reps, block_length=bl)
    if typ == 'additive' or chance(rng, 0.5):
        kw['decomposition_type'] = typ
    if seed is not None:
        kw['bootstrap_seed'] = seed
    ctx = dict(n=n, block=bl, reps=reps, typ=typ, seed=seed)
    out = mon.call(B._make_time_series_bootstrap_samples, sig, fit, **kw)
    mon.eq(out.shape, (n, reps), 'shape of the bootstrap samples', **ctx)
    mon.index(out.index, idx, 'index of the bootstrap samples', **ctx)
    x = out.to_numpy(dtype=float)
    f = fit.to_numpy()[:, None]
    r = x / f if typ == 'multiplicative' else x - f
    order = np.argsort(res)
    pos = np.searchsorted(res[order], r - 0.25 / n)
    mon.ok((pos < n).all(), 'resampled residual is not one of the residuals', **ctx)
    src = order[np.clip(pos, 0, n - 1)]
    mon.close(r, res[src], 'resampled residual is not one of the residuals', rtol=1e-9, **ctx)
    for b in range(reps):
        for a in range(0, n, bl):
            blk = src[a:a + bl, b]
            mon.ok(((blk[1:] - blk[:-1]) % n == 1).all(),
                   'residuals inside a block are not consecutive (circularly)', block_at=a, **ctx)
    mon.ev('block_positions', n * reps)
    starts = src[::bl].ravel()
    if len(starts) >= 300:
        # every third of the series must be a possible block start
        h = np.histogram(starts, bins=3, range=(0, n))[0] / len(starts)
        mon.ok((np.abs(h - 1 / 3) < 7 * np.sqrt(2 / 9 / len(starts)) + 2 / n).all(),
               'block starts are not uniform over the series', hist=h, **ctx)
        wraps = (starts > n - bl).mean() if bl > 1 else 0
        mon.ev('circular_wraps', int(wraps * len(starts)))
    if reps >= 3 and n >= 10 and n // bl >= 3:
        mon.ok(not np.array_equal(x[:, 0], x[:, 1]) or not np.array_equal(x[:, 0], x[:, 2]),
               'bootstrap samples are all the same', **ctx)
    if seed is not None:
        again = mon.call(B._make_time_series_bootstrap_samples, sig, fit, **kw)
        mon.close(again.to_numpy(dtype=float), x, 'same seed, same samples', **ctx)
    mon.raises(ValueError, 'unknown decomposition must be refused',
               B._make_time_series_bootstrap_samples, sig, fit, sample_nr=1, block_length=bl,
               decomposition_type=pick(rng, ['', 'Additive', 'multi']))
    mon.sig('blocks', n, bl, reps, typ, seed is None)


def intervals(rng, mon):
    n, m = int(rng.integers(5, 60)), int(rng.integers(10, 200))
    df = pd.DataFrame(rng.normal(size=(n, m)))
    cl = float(pick(rng, [68.2, 95, 10, 50]))
    ex = float(pick(rng, [95, 80, 5]))

    def fit(x, k=1.0):
        return k * x.mean()
    k = float(pick(rng, [1.0, -2.0]))
    kw = {} if k == 1.0 else {'k': k}
    if (cl, ex) != (68.2, 95):
        kw.update(confidence_level=cl, exceedance_prob=ex)
    ci, lev, metrics = mon.call(B._construct_confidence_intervals, df, fit, **kw)
    want = k * df.mean()
    mon.close(metrics, want, 'metrics of the samples')
    mon.close(ci, np.percentile(want, [50 - cl / 2, 50 + cl / 2]), 'confidence interval', cl=cl)
    mon.close(lev, np.percentile(want, 100 - ex), 'exceedance level', ex=ex)
    mon.sig('intervals', cl, ex, k)


def circular(rng, mon):
    """End to end: rates from the circular block bootstrap."""
    per, freq = pick(rng, [(52, 'W'), (12, 'MS'), (52, '7D')])
    n = int(per * rng.uniform(2.3, 4)) + 2
    idx = pd.date_range(pick(rng, ['2012-01-01', '2013-05-01']), periods=n, freq=freq)
    t = (idx.asi8 - idx.asi8[0]) / c06.Y365
    rd = float(pick(rng, [-1.0, 0.5, -3.0, -12.0]))
    s = pd.Series(0.9 * (1 + rd / 100 * t) * (1 + rng.normal(0, pick(rng, [0.03, 0.002]), n)), index=idx)
    bl = int(pick(rng, [4, 10, n // 3]))
    cl = float(pick(rng, [68.2, 95.0]))
    ex = float(pick(rng, [95.0, 80.0]))
    recenter = chance(rng, 0.7)
    ctx = dict(series=s, block=bl, cl=cl, ex=ex, recenter=recenter)
    if chance(rng, 0.5):
        s = s.iloc[::-1]
    out = mon.call(rdtools.degradation_year_on_year, s, recenter=recenter,
                   uncertainty_method='circular_block', block_length=bl, confidence_level=cl,
                   exceedance_prob=ex)
    s = s.sort_index()
    rates = np.asarray(out[2]['bootstrap_rates'], dtype=float)
    mon.eq(len(rates), 1000, 'number of bootstrap rates', **ctx)
    mon.close(out[1], np.percentile(rates, [50 - cl / 2, 50 + cl / 2]), 'confidence interval', **ctx)
    mon.close(out[2]['exceedance_level'], np.percentile(rates, 100 - ex), 'exceedance level', **ctx)
    _, renorm, slopes, cand = c06.reference(s, recenter)
    mon.close(out[2]['renormalizing_factor'], renorm, 'renormalizing factor', **ctx)
    y = np.array([o[0][0] for o in slopes if o])
    mon.close(out[0], np.median(y), 'point estimate', **ctx)
    use = out[2]['usage_of_points']
    mon.index(use.index, s.index, 'usage_of_points covers the input', **ctx)
    # independent resampling
    e = s.to_numpy() / renorm
    days = (idx[-1] - idx[0]).days / n
    trend = 1 + out[0] / 100 / 365.0 * np.arange(n) * days
    res = e / trend
    li = np.array([i for i, c in enumerate(cand) if c])
    ri = np.array([c[0] for c in cand if c])
    dt = (idx.asi8[li] - idx.asi8[ri]) / c06.Y365
    mine = np.empty(2000)
    nb = -(-n // bl)
    for k in range(2000):
        st = rng.integers(0, n, nb)
        pos = ((st[:, None] + np.arange(bl)[None, :]).ravel()[:n]) % n
        x = trend * res[pos]
        mine[k] = np.median(100 * (x[li] - x[ri]) / dt)
    grid = np.concatenate([rates, mine])
    f1 = np.searchsorted(np.sort(rates), grid, side='right') / len(rates)
    f2 = np.searchsorted(np.sort(mine), grid, side='right') / len(mine)
    d = np.abs(f1 - f2).max()
    mon.ok(d < 0.13, 'bootstrap rates do not follow the circular block bootstrap of the residuals',
           ks=float(d), mean_got=rates.mean(), mean_want=mine.mean(), sd_got=rates.std(),
           sd_want=mine.std(), **ctx)
    mon.ev('circular_rates', len(rates))
    mon.sig('circ', freq, bl, cl, ex, recenter, n)
    mon.note(ks=float(d), Rd=float(out[0]), ci=list(map(float, out[1])))
    # preconditions
    mon.raises(ValueError, 'too long a block must be refused', rdtools.degradation_year_on_year, s,
               uncertainty_method='circular_block', block_length=n // 3 + 1)
    hole = s.drop(s.index[[5, 9, 10]])
    if pd.infer_freq(hole.index) is None:
        mon.raises(ValueError, 'irregular series must be refused', rdtools.degradation_year_on_year,
                   hole, uncertainty_method='circular_block', block_length=3)


WORKLOADS = [(circular, 32, 500), (simple, 250, 3000), (blocks, 300, 3000), (intervals, 100, 1000)]
