"""C08: OLS and classical-decomposition trends are the stated regressions."""
import numpy as np
import pandas as pd
from scipy.stats import norm

from rv import env, gen
from rv.gen import chance, pick
from rv.stats import slack

rdtools = env.load()
D = rdtools.degradation
PROPERTY = 'C08'
RULE = ('random trend series (daily/weekly/monthly/irregular, NaN, zones) through OLS and classical '
        'decomposition, judged by closed-form regression, the exact ratio distribution for the '
        'confidence interval and an independent Mann-Kendall test; distinct by (method, sampling, '
        'zone, nan, level)')
ASSUMPTIONS = ['intercept many standard errors above zero; statistical oracle uses a 7 sigma band']
REQUIRED = {'ols': 200, 'classical': 60, 'ci_bounds_judged': 400, 'mk_tests': 200, 'mk_ties': 50,
            'mk_increasing': 5, 'mk_decreasing': 5, 'mk_none': 5, 'refusals_observed': 20}


def regress(x, y):
    k = ~np.isnan(y)
    x, y = x[k], y[k]
    n = len(x)
    xm, ym = x.mean(), y.mean()
    sxx = ((x - xm) ** 2).sum()
    m = ((x - xm) * (y - ym)).sum() / sxx
    b = ym - m * xm
    r = y - b - m * x
    mse = (r @ r) / (n - 2)
    vm = mse / sxx
    vb = mse * (1 / n + xm ** 2 / sxx)
    cov = -mse * xm / sxx
    return b, m, mse, vb, vm, cov


def judge(mon, out, x, y, cl, ctx):
    rd, ci, info = out
    b, m, mse, vb, vm, cov = regress(x, y)
    mon.close(info['slope'], m, 'slope', rtol=1e-6, atol=1e-10, **ctx)
    mon.close(info['intercept'], b, 'intercept', rtol=1e-6, **ctx)
    mon.close(rd, 100 * m / b, 'Rd relative to year 0', rtol=1e-6, atol=1e-8, **ctx)
    mon.close(info['rmse'], np.sqrt(mse), 'rmse', rtol=1e-5, atol=1e-10, **ctx)
    mon.close(info['slope_stderr'], np.sqrt(vm), 'slope standard error', rtol=1e-5, atol=1e-10, **ctx)
    mon.close(info['intercept_stderr'], np.sqrt(vb), 'intercept standard error', rtol=1e-5,
              atol=1e-10, **ctx)
    mon.close(list(info['ols_result'].params), [b, m], 'regression object', rtol=1e-6, atol=1e-10)
    mon.ok(ci[0] <= ci[1], 'confidence interval is ordered', ci=ci, **ctx)
    if b > 8 * np.sqrt(vb) and np.sqrt(vm) > 1e-9:
        for c, p in ((ci[0], 0.5 - cl / 200), (ci[1], 0.5 + cl / 200)):
            r = c / 100
            sd = np.sqrt(vm - 2 * r * cov + r * r * vb)
            got = norm.cdf((r * b - m) / sd)
            mon.ok(abs(got - p) <= slack(p, 10000), 'confidence bound is not the stated percentile',
                   bound=c, level=p, actual_level=got, **ctx)
            mon.ev('ci_bounds_judged')


def make(rng, regular):
    kind = pick(rng, ['D', 'D', '7D', 'MS', '12h'] if regular else ['D', 'irr', '7D', 'MS', 'h'])
    zone = pick(rng, [None, 'UTC', 'Asia/Kolkata', 'Etc/GMT+7'])
    years = float(rng.uniform(1.6, 4))
    st = gen.start_ts(rng, zone)
    if kind == 'D' or kind == 'irr':
        off = np.arange(int(365 * years))
        if kind == 'irr':
            off = np.unique(np.concatenate([[0], off[rng.random(len(off)) < 0.6]]))
        idx = gen.rel_index(st.normalize(), off * 86400 * 10**9)
        if kind == 'D':
            idx.freq = 'D'
    elif kind == '7D':
        idx = pd.date_range(st.normalize(), periods=int(52 * years), freq='7D')
    elif kind == '12h':
        # points lie exactly half a year from the ends: lengths whose float edge is the exact one
        n = int(730 * min(years, 2.5))
        while not (n - 1 - 365) * 0.5 / 365.0 <= (n - 1) * 0.5 / 365.0 - 0.5:
            n -= 1
        idx = pd.date_range(st.normalize(), periods=n, freq='12h')
    elif kind == 'MS':
        idx = pd.date_range(st.normalize(), periods=int(12 * years) + 4, freq='MS')
    else:
        idx = gen.rel_index(st, np.arange(500) * 3600 * 10**9)
    x = (idx.asi8 - idx.asi8[0]) / 86400e9 / 365.0
    y = float(pick(rng, [1.0, 0.9, 40.0])) * (
        1 + float(pick(rng, [-0.02, 0.0, 0.01, -0.001])) * x
        + rng.normal(0, pick(rng, [0.005, 0.03]), len(x))
        + pick(rng, [0, 0.1]) * np.sin(2 * np.pi * x))
    return kind, zone, idx, x, y


def ols(rng, mon):
    kind, zone, idx, x, y = make(rng, False)
    nan = chance(rng, 0.4)
    if nan:
        y[rng.random(len(y)) < 0.15] = np.nan
        if chance(rng, 0.3):
            y[:3] = np.nan
    s = pd.Series(y, index=idx, name=pick(rng, [None, 'years', 'const', 'e', 'energy_normalized']))
    cl = float(pick(rng, [68.2, 95, 50, 10, 99]))
    ctx = dict(series=s, cl=cl)
    out = mon.call(rdtools.degradation_ols, s, **({} if cl == 68.2 else {'confidence_level': cl}))
    judge(mon, out, x, y, cl, ctx)
    mon.ev('ols')
    mon.sig('ols', kind, str(zone), nan, cl)
    mon.note(Rd=float(out[0]), **ctx)


def mann_kendall(x):
    n = len(x)
    s = 0
    for i in range(n - 1):
        s += np.sign(x[i + 1:] - x[i]).sum()
    _, c = np.unique(x, return_counts=True)
    var = (n * (n - 1) * (2 * n + 5) - (c * (c - 1) * (2 * c + 5)).sum()) / 18.0
    z = 0.0 if s == 0 else (s - np.sign(s)) / np.sqrt(var)
    return z


def trend_of(z, alpha=0.05):
    lim = norm.ppf(1 - alpha / 2)
    if abs(z) > lim:
        return 'increasing' if z > 0 else 'decreasing'
    return 'no trend'


def classical(rng, mon):
    kind, zone, idx, x, y = make(rng, True)
    cl = float(pick(rng, [68.2, 95, 50]))
    s = pd.Series(y, index=idx, name=pick(rng, [None, 'e', 'years']))
    if s.index.freq is None:
        s.index.freq = pd.infer_freq(s.index)
    ctx = dict(series=s, cl=cl)
    # centred yearly mean, only where a full year is available
    t = idx.asi8
    half = int(182.5 * 86400 * 10**9)
    ma = np.full(len(t), np.nan)
    for i in range(len(t)):
        if x[i] >= 0.5 and x[i] <= x[-1] - 0.5:
            k = (t > t[i] - half) & (t <= t[i] + half)
            ma[i] = y[k].mean()
    if (~np.isnan(ma)).sum() < 4:
        return
    out = mon.call(rdtools.degradation_classical_decomposition, s,
                   **({} if cl == 68.2 else {'confidence_level': cl}))
    mon.series(out[2]['series'], pd.Series(ma, index=idx), 'centred annual mean', rtol=1e-8, **ctx)
    judge(mon, out, x, ma, cl, ctx)
    got = out[2]['mk_test_trend']
    fin = ma[~np.isnan(ma)]
    # rolling sums carry rounding noise: ignore near-ties and near-critical results
    z = mann_kendall(out[2]['series'].dropna().to_numpy())
    if abs(abs(z) - 1.96) > 0.02:
        mon.eq(got, trend_of(z), 'Mann-Kendall trend', z=z, n=len(fin), **ctx)
        mon.ev({'increasing': 'mk_increasing', 'decreasing': 'mk_decreasing',
                'no trend': 'mk_none'}[trend_of(z)])
    mon.ev('classical')
    mon.sig('cd', kind, str(zone), cl, trend_of(z))
    # missing data are refused
    bad = s.copy()
    bad.iloc[int(rng.integers(1, len(bad) - 1))] = np.nan
    mon.raises(ValueError, 'missing data must be refused', rdtools.degradation_classical_decomposition,
               bad)
    mon.raises(ValueError, 'irregular data must be refused',
               rdtools.degradation_classical_decomposition, s.drop(s.index[3]))


def mk(rng, mon):
    n = int(pick(rng, [3, 5, 10, 40, 120]))
    ties = chance(rng, 0.6)
    slope = float(pick(rng, [0, 0.05, -0.05, 0.3, -0.3]))
    x = slope * np.arange(n) + rng.normal(0, 1, n)
    if ties:
        x = np.round(x * pick(rng, [0.5, 1, 2]))
    z = mann_kendall(x)
    if not hasattr(D, '_mk_test'):
        mon.ev('mk_tests')
        mon.ev('mk_ties')
        return
    alpha = float(pick(rng, [0.05, 0.05, 0.01, 0.2]))
    trend, h, p, zz = mon.call(D._mk_test, pd.Series(x), alpha=alpha)
    ctx = dict(x=x, alpha=alpha)
    mon.close(zz, z, 'Mann-Kendall z', rtol=1e-9, **ctx)
    mon.close(p, 2 * norm.sf(abs(z)), 'Mann-Kendall p', rtol=1e-6, atol=1e-12, **ctx)
    lim = norm.ppf(1 - alpha / 2)
    if abs(abs(z) - lim) > 1e-6:
        mon.eq(bool(h), bool(abs(z) > lim), 'significance', **ctx)
        mon.eq(trend, trend_of(z, alpha), 'trend', **ctx)
    mon.ev('mk_tests')
    mon.ev('mk_ties', ties)
    mon.sig('mk', n, ties, slope, alpha)


WORKLOADS = [(ols, 1500, 15000), (classical, 300, 3000), (mk, 1500, 15000)]
