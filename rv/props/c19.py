"""C19: CODS decomposition and its bootstrap summary."""
import contextlib
import io

import numpy as np
import pandas as pd
from statsmodels.tsa.stattools import adfuller

import inspect
import itertools
import warnings

from rv import cods_ref, env
from rv.gen import pick, chance

rdtools = env.load()
from rdtools import soiling   # noqa: E402

PROPERTY = 'C19'
TECHNIQUE = 'runtime monitoring: differential oracle and consistency checker over returned components, trace checker over the bootstrap'
RULE = ('a case decomposes a generated daily series (or bootstraps it with every inner fit recorded) and recomputes model, '
        'residuals, losses, rates, error, stationarity test and percentiles from the returned components, and the components '
        'themselves with an independent implementation of the iteration. Distinct: '
        'component order, options, series shape')
ASSUMPTIONS = ['statsmodels adfuller', 'the recorded inner fits are the calls of iterative_signal_decomposition',
               'recovery: median errors of eight low-noise three-year series below 0.3 %/year and 0.5 % soiling loss',
               'leap-year 31 December is judged by the workload leap_day only']
REQUIRED = {'decompositions': 40, 'compared_with_reference': 40, 'recovered': 6, 'bootstraps': 8, 'small_signal': 1, 'leap_day': 1}


def series(rng, n=None, noise=None, leap=False):
    n = n or int(pick(rng, [735, 800, 900, 1096]))
    # records without a leap-year 31 December, except on request
    year = int(pick(rng, [2017, 2013, 2009, 2005]))
    d0 = pd.Timestamp(year, 1, 1) + pd.Timedelta(days=int(rng.integers(0, max(1, 1095 - n + 1))))
    if leap:
        d0 = pd.Timestamp(2019, int(rng.integers(1, 10)), 1)
    idx = pd.date_range(d0, periods=n, freq='D', tz=pick(rng, [None, 'UTC', 'Etc/GMT+7', 'US/Mountain']))
    ln = int(pick(rng, [25, 40, 60] if noise is not None else [25, 40, 60, 200, 330]))
    rate = -float(rng.uniform(0.001, 0.004))
    sr = np.ones(n)
    i = 0
    while i < n:
        m = min(int(ln * rng.uniform(0.5, 1.5)), n - i)
        sr[i:i + m] = 1 + rate * rng.uniform(0.5, 1.5) * (np.arange(m) if ln < 100 else np.minimum(np.arange(m), 90))
        i += m
    if noise is None and chance(rng, 0.35):          # dust storms
        for _ in range(int(rng.integers(1, 5))):
            k = int(rng.integers(10, n - 10))
            e = k + int(rng.integers(5, 60))
            sr[k:e] *= 1 - float(rng.uniform(0.02, 0.12))
    if noise is None and chance(rng, 0.3):           # cleaning takes days
        sr = pd.Series(sr).rolling(int(pick(rng, [3, 4, 5, 6, 9])), min_periods=1).mean().to_numpy()
    season = float(pick(rng, [0, 0.02, 0.05]))
    rd = float(pick(rng, [0, -0.005, -0.02, 0.01]))
    x = sr * (1 + season * np.sin(2 * np.pi * idx.dayofyear / 365 + rng.uniform(0, 6))) * (1 + rd * np.arange(n) / 365)
    x = np.asarray(x, dtype=float) * (1 + rng.normal(0, noise or float(pick(rng, [0.002, 0.006, 0.015])), n))
    if noise is None:
        if chance(rng, 0.2):                         # slow disturbances
            w = np.zeros(n)
            for j in range(1, n):
                w[j] = 0.97 * w[j - 1] + rng.normal(0, 0.002)
            x = x * np.exp(w)
        if chance(rng, 0.2):                         # outliers
            x[rng.random(n) < 0.02] *= float(pick(rng, [0.5, 0.9, 1.1]))
        x[rng.random(n) < float(pick(rng, [0, 0, 0.02, 0.1]))] = np.nan
        if chance(rng, 0.3):
            k = int(rng.integers(20, n - 80))
            x[k:k + int(pick(rng, [5, 20, 40]))] = np.nan
        if chance(rng, 0.2):
            x[:3] = np.nan
    return pd.Series(x, index=idx), sr, rd, season


def judge_components(mon, pi, df, shift, rate_list, clip, ctx, linear=True, raw=None):
    mon.index(df.index, pi.index, 'components cover the days of the signal', **ctx)
    sr, sc, rd = (df[k].astype(float) for k in ('soiling_ratio', 'seasonal_component', 'degradation_trend'))
    prod = sr * sc * rd
    doy = pi.index.dayofyear
    nan = prod.isna()
    mon.ok((doy[nan.to_numpy()] == 366).all(), 'components are defined on every day', missing=prod[nan], **ctx)
    resid = pi / prod
    mon.close(shift, resid.mean(), 'residual shift is the mean residual', **ctx)
    mon.close(df['total_model'].astype(float), prod * shift, 'components multiply to the model', **ctx)
    mon.close(df['residuals'].astype(float), resid, 'residuals are signal over components', **ctx)
    if clip:
        mon.ok((sr <= 1 + 1e-12).all(), 'soiling ratio does not exceed 1', max=sr.max(), **ctx)
    if linear:
        day = np.arange(len(pi))
        mon.close(rd, 1 + day * rate_list / 100 / 365.0, 'degradation trend is the line of the reported rate', **ctx)
    # seasonal component repeats from year to year
    g = sc.groupby(doy)
    mon.ok(((g.max() - g.min()).fillna(0) < 1e-9).all() or raw is not None,
           'seasonal component repeats every year', **ctx)
    return prod


def order_options(rng):
    return pick(rng, [('SR', 'SC', 'Rd'), ('SC', 'SR', 'Rd'), ('Rd', 'SR', 'SC'), ('SC', 'Rd', 'SR'), ('SR', 'Rd'), ('SR', 'SC'),
                      ('SR',), ('Rd', 'SR'), ('SR', 'Rd', 'SC')])


def decompose(rng, mon):
    pm, sr, rd, season = series(rng)
    kw = {}
    if chance(rng, 0.7):
        kw['order'] = order_options(rng)
    if chance(rng, 0.2):
        kw['degradation_method'] = 'STL'
    if chance(rng, 0.25):
        kw['clip_soiling'] = False
    if chance(rng, 0.2):
        kw['renormalize_SR'] = float(rng.uniform(0.5, 0.95))
    if chance(rng, 0.3):
        kw['ffill'] = False
    if chance(rng, 0.3):
        kw['max_iterations'] = int(pick(rng, [4, 6, 9, 18]))
    sig = 0.75
    if chance(rng, 0.3):
        sig = kw['soiling_significance'] = float(pick(rng, [0.1, 3.0, 10.0]))
    if chance(rng, 0.3):
        kw['cleaning_sensitivity'] = float(pick(rng, [0.25, 0.75, 1.5]))
    if chance(rng, 0.3):
        kw['clean_pruning_sensitivity'] = float(pick(rng, [0.2, 0.6, 1.5]))
    if chance(rng, 0.15):
        kw['pruning_iterations'] = int(pick(rng, [2, 3]))
    if chance(rng, 0.25):
        kw['process_noise'] = float(pick(rng, [3e-5, 3e-4]))
    if chance(rng, 0.25):
        kw['convergence_criterion'] = float(pick(rng, [5e-2, 1e-4]))
    order = kw.get('order', ('SR', 'SC', 'Rd'))
    if kw.get('degradation_method') == 'STL' and 'SC' not in order:
        del kw['degradation_method']
    if kw.get('max_iterations', 18) < 2 * len(order):
        kw['max_iterations'] = 2 * len(order)
    before = pm.copy(deep=True)
    c = mon.call(soiling.CODSAnalysis, pm)
    df, r = mon.call(c.iterative_signal_decomposition, **kw)
    mon.ok(before.equals(pm), 'input left alone')
    pi = pm.loc[pm.first_valid_index():]
    ctx = dict(kw=kw, days=len(pi))
    stl = kw.get('degradation_method') == 'STL'
    if 'SC' not in order:
        mon.close(df['seasonal_component'].astype(float), np.ones(len(pi)), 'no seasonal component requested: 1')
    linear = 'Rd' in order and not stl
    if not linear and not stl:
        mon.close(df['degradation_trend'].astype(float), np.ones(len(pi)), 'no degradation requested: 1')
        mon.close(r['degradation'], 0, 'no degradation requested: rate 0')
    judge_components(mon, pi, df, r['residual_shift'], r['degradation'], kw.get('clip_soiling', True), ctx, linear)
    if stl:
        mon.close(df['degradation_trend'].iloc[0], 1, 'trend starts at 1')
        y = mon.call(rdtools.degradation_year_on_year, df['degradation_trend'].astype(float), uncertainty_method=None)
        mon.close(r['degradation'], y, 'rate is the year-on-year rate of the trend')
    s = df['soiling_ratio'].astype(float)
    mon.close(r['soiling_loss'], (1 - s).mean() * 100, 'soiling loss is that of the soiling ratio', **ctx)
    rmse = np.sqrt(np.nanmean((df['total_model'].astype(float) - pi) ** 2))
    mon.close(r['RMSE'], rmse, 'RMSE of the model', **ctx)
    res = df['residuals'].astype(float)
    mon.close(r['adf_res'][1], adfuller(res.dropna(), regression='ctt', autolag=None)[1], 'stationarity test', **ctx)
    amp = np.diff(np.nanpercentile(s, [10, 90]))[0] / np.diff(np.nanpercentile(res.dropna(), [10, 90]))[0]
    if abs(amp - sig) > 1e-6:
        mon.eq(bool(r['small_soiling_signal']), bool(amp < sig), 'small soiling signal', amplitude=amp, **ctx)
    mon.eq(df['cleaning_events'].astype(bool).tolist(), df['cleaning_events'].tolist(), 'cleaning events are flags')
    rates = df['soiling_rates'].astype(float)
    mon.ok(rates.notna().all(), 'soiling rates are defined every day', **ctx)
    flat = (s.diff() == 0).to_numpy()
    mon.close(rates[flat], np.zeros(flat.sum()), 'soiling rate is zero where the soiling ratio is flat', **ctx)
    published(mon, pi, df, r, kw, ctx)
    mon.ev('decompositions')
    mon.ev('flat_days', flat.sum())
    mon.sig(order, sorted(kw.items(), key=str), len(pi), season, rd)
    mon.note(kw=kw, result={k: v for k, v in r.items() if k != 'adf_res'})


COLUMNS = ('soiling_ratio', 'soiling_rates', 'cleaning_events', 'seasonal_component', 'degradation_trend', 'total_model')


def yoy(s):
    return rdtools.degradation_year_on_year(s, uncertainty_method=None)


def same(a, b):
    return all(np.allclose(np.asarray(a[c], dtype=float), np.asarray(b[c], dtype=float), rtol=1e-6, atol=1e-7, equal_nan=True)
               for c in COLUMNS)


def published(mon, pi, df, r, kw, ctx):
    """The components are those of the published iterative scheme.

    Detection of cleaning events is discontinuous: where the reference itself jumps under perturbations of
    the last digits the comparison is not made."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            ref = cods_ref.decompose(pi, yoy, **kw)
        except ValueError:
            mon.ev('reference_undefined')
            return
        if not same(df, ref):
            rng = np.random.default_rng(0)
            for e in (1e-13, 1e-12, 1e-11, 1e-10, 1e-10, 1e-9):
                try:
                    alt = cods_ref.decompose(pi * (1 + rng.normal(0, e, len(pi))), yoy, **kw)
                except ValueError:
                    alt = None
                if alt is None or not same(alt, ref):
                    mon.ev('reference_unstable')
                    return
    for c in COLUMNS:
        mon.close(df[c].astype(float), ref[c], c + ' is that of the published iteration', rtol=1e-6, atol=1e-7, **ctx)
    mon.close(r['degradation'], ref['degradation'], 'rate is that of the published iteration', rtol=1e-6, atol=1e-6, **ctx)
    mon.ev('compared_with_reference')
    mon.ev('cleaning_events_compared', int(ref['cleaning_events'].sum()))
    mon.ev('iterations_followed', ref['iterations'])


def recovery(rng, mon):
    """Low-noise sawtooth series: the median error of eight decompositions is small."""
    e = []
    for _ in range(8):
        pm, sr, rd, season = series(rng, n=1095, noise=0.002)
        df, r = mon.call(soiling.CODSAnalysis(pm).iterative_signal_decomposition)
        e.append([abs(r['degradation'] - 100 * rd), abs(r['soiling_loss'] - 100 * (1 - sr).mean()), r['RMSE'],
                  np.corrcoef(df['soiling_ratio'].astype(float), sr)[0, 1]])
        mon.ev('recovered')
    m = np.median(np.array(e), axis=0)
    mon.ok(m[0] < 0.3, 'known degradation rates are recovered', median_error=m[0])
    mon.ok(m[1] < 0.5, 'known soiling losses are recovered', median_error=m[1])
    mon.ok(m[2] < 0.013, 'models follow clean signals', median_rmse=m[2])
    mon.ok(m[3] > 0.87, 'soiling ratios follow the true ones', median_correlation=m[3])
    mon.sig('recovery', mon.index_in_workload)
    mon.note(median_errors_rd_loss_rmse_corr=m)


def leap_day(rng, mon):
    """31 December of a leap year (known finding: the seasonal component is missing there)."""
    pm, sr, rd, season = series(rng, n=735, noise=0.004, leap=True)
    df, r = mon.call(soiling.CODSAnalysis(pm).iterative_signal_decomposition)
    mon.ev('leap_day')
    nan = df['total_model'].isna().to_numpy()
    if nan.any():
        mon.ok((df.index.dayofyear[nan] == 366).all(), 'model is defined on every day but 31 December of leap years')
        mon.fail('model is undefined on day 366 of a leap year', at=df.index[nan])


def known_key(res):
    if res['fn'] == 'leap_day' and 'model is undefined on day 366 of a leap year' in res['detail']:
        return 'day-366'
    return None


class Log:
    """Everything a bootstrap does that can be seen at the seams of the module."""

    def __init__(self):
        self.calls, self.samples, self.seasons = [], [], []


@contextlib.contextmanager
def recorded():
    """Record every inner decomposition and every set of samples made during a bootstrap."""
    log = Log()
    orig = soiling.CODSAnalysis.iterative_signal_decomposition
    sig = inspect.signature(orig)
    mk = {k: getattr(soiling, k, None) for k in ('_make_time_series_bootstrap_samples', '_make_seasonal_samples')}

    def wrapped(self, *a, **kw):
        b = sig.bind(self, *a, **kw)
        b.apply_defaults()
        entry = [self, None, None, dict(b.arguments), self.pm.copy(deep=True)]
        log.calls.append(entry)
        df, r = orig(self, *a, **kw)
        entry[1], entry[2] = df.copy(deep=True), dict(r)
        return df, r

    def tap(fn, store):
        s = inspect.signature(fn)

        def inner(*a, **kw):
            out = fn(*a, **kw)
            b = s.bind(*a, **kw)
            b.apply_defaults()
            v = list(b.arguments.values())
            if isinstance(out, pd.DataFrame):      # else: the seam has moved, nothing to judge here
                store.append((v, out.copy(deep=True)))
            return out
        return inner
    soiling.CODSAnalysis.iterative_signal_decomposition = wrapped
    for k, store in (('_make_time_series_bootstrap_samples', log.samples), ('_make_seasonal_samples', log.seasons)):
        if mk[k] is not None:
            setattr(soiling, k, tap(mk[k], store))
    try:
        yield log
    finally:
        soiling.CODSAnalysis.iterative_signal_decomposition = orig
        for k, f in mk.items():
            if f is not None:
                setattr(soiling, k, f)


DEFAULTS = dict(order_alternatives=(('SR', 'SC', 'Rd'), ('SC', 'SR', 'Rd')), cleaning_sensitivity_alternatives=(.25, .75),
                clean_pruning_sensitivity_alternatives=(1 / 1.5, 1.5), forward_fill_alternatives=(True, False),
                process_noise=1e-4, degradation_method='YoY', confidence_level=68.2)


def judge_plan(mon, pi, c, log, kw, ctx):
    """Which fits were made: every combination of the alternatives, then random ones between their ends."""
    o = dict(DEFAULTS, **kw)
    first = [x for x in log.calls if x[0] is c]
    inner = [x for x in log.calls if x[0] is not c]
    want = list(itertools.product(o['order_alternatives'], o['cleaning_sensitivity_alternatives'],
                                  o['clean_pruning_sensitivity_alternatives'], o['forward_fill_alternatives']))
    if first:
        got = [(tuple(x[3]['order']), x[3]['cleaning_sensitivity'], x[3]['clean_pruning_sensitivity'], bool(x[3]['ffill']))
               for x in first]
        mon.eq(sorted(got), sorted(want), 'one initial fit per combination of the alternatives', **ctx)
        for x in first:
            a = x[3]
            mon.eq((a['process_noise'], a['degradation_method'], a['max_iterations'], a['clip_soiling'], a['renormalize_SR'],
                    a['pruning_iterations']), (o['process_noise'], o['degradation_method'], 18, True, None, 1),
                   'settings of the initial fits', **ctx)
            mon.ok(x[4].equals(pi), 'initial fits are made on the signal', **ctx)
        mon.ev('initial_fits', len(first))
    if not inner:
        return
    per = -(-o['reps'] // len(want))
    stationary = [x for x in first if x[2] is not None and x[2]['adf_res'][1] < 0.05]
    if first:
        mon.eq(len(inner), per * len(stationary), 'one bootstrap fit per sample', **ctx)
    ds, ps = o['cleaning_sensitivity_alternatives'], o['clean_pruning_sensitivity_alternatives']
    second = ('SR', 'SC') if o['degradation_method'] == 'STL' else ('SR', 'Rd')
    u = []
    for x in inner:
        a = x[3]
        mon.eq(tuple(a['order']), second, 'bootstrap fits leave the sampled season out', **ctx)
        u.append([a['cleaning_sensitivity'], a['clean_pruning_sensitivity'], a['process_noise']])
        rn = a['renormalize_SR']
        mon.ok(rn is None or .5 <= rn <= .95, 'renormalization quantile', got=rn, **ctx)
        mon.eq((a['degradation_method'], a['clip_soiling'], a['pruning_iterations'], a['max_iterations']),
               (o['degradation_method'], True, 1, 4), 'settings of the bootstrap fits', **ctx)
    u = np.array(u, dtype=float)
    e = 1e-12
    for col, lo, hi in ((0, min(ds[0], ds[-1]), max(ds[0], ds[-1])), (1, min(ps[0], ps[-1]), max(ps[0], ps[-1])),
                        (2, o['process_noise'] / 1.5, o['process_noise'] * 1.5)):
        v = u[:, col]
        mon.ok((v >= lo - e).all() and (v <= hi + e).all(), 'random settings lie between the ends of the alternatives',
               column=col, got=v, **ctx)
        if hi > lo and len(v) > 1:
            mon.ok(np.ptp(v) > 0, 'settings vary between the bootstrap fits', column=col, got=v, **ctx)
    mon.ev('bootstrap_settings', len(inner))
    # what the fits are made on
    if len(log.samples) == len(stationary) and len(log.seasons) == 1:
        for (v, out), x in zip(log.samples, stationary):
            if len(v) < 2 or not isinstance(v[0], pd.Series) or not isinstance(v[1], pd.Series):
                continue
            mon.ok(v[0].equals(pi), 'samples are made of the signal', **ctx)
            mon.close(v[1].astype(float), x[1]['total_model'].astype(float), 'samples are made around the fitted model', **ctx)
            mon.eq(out.shape, (len(pi), per), 'number of samples', **ctx)
        a, se = log.seasons[0]
        judge_seasons(mon, [x[1]['seasonal_component'].astype(float) for x in stationary], se, per, .8, 1.75, 30, ctx)
        both = pd.concat([out for _, out in log.samples], axis=1, ignore_index=True)
        for b, x in enumerate(inner):
            w = (both[b] / se[b])
            w = w.loc[w.first_valid_index():]
            mon.close(x[4].astype(float), w, 'bootstrap fits are made on sample over season', **ctx)
        mon.ev('samples_traced', len(inner))


def judge_seasons(mon, comps, got, per, lo, hi, shift, ctx):
    """Every sample is a fitted season with its amplitude and phase perturbed within the limits."""
    mon.eq(got.shape, (len(comps[0]), per * len(comps)), 'number of seasonal samples', **ctx)
    par = []
    for k in range(got.shape[1]):
        c = comps[k // per]
        doy = np.asarray(c.index.dayofyear)
        med = c.groupby(doy).median()
        g = got.iloc[:, k].to_numpy(dtype=float)
        best = None
        for s in range(-shift - 1, shift + 1):
            t = med.reindex((doy - s) % 365 + 1).to_numpy() - c.mean()
            ok = ~np.isnan(t) & ~np.isnan(g)
            if np.ptp(t[ok]) < 1e-9:
                best = (0, np.nan, s)
                break
            m = np.dot(t[ok], g[ok] - 1) / np.dot(t[ok], t[ok])
            e = np.abs(m * t[ok] + 1 - g[ok]).max()
            if best is None or e < best[0]:
                best = (e, m, s)
        mon.ok(best[0] < 1e-8, 'seasonal sample is the fitted season, scaled and shifted', best=best, **ctx)
        if not np.isnan(best[1]):
            mon.ok(lo - 1e-9 <= best[1] <= hi + 1e-9, 'amplitude of seasonal samples', got=best[1], **ctx)
            par.append(best[1:])
    if len(par) > 2:
        mon.ok(len({p[0] for p in par}) == len(par), 'amplitudes vary', got=par, **ctx)
        mon.ok(len({p[1] for p in par}) > 1, 'phases vary', got=par, **ctx)
    mon.ev('seasonal_samples', got.shape[1])


def judge_bootstrap(mon, pm, c, log, kw, ctx):
    pi = pm.loc[pm.first_valid_index():]
    df = c.result_df
    conf = dict(DEFAULTS, **kw)['confidence_level']
    judge_plan(mon, pi, c, log, kw, ctx)
    planned = len([x for x in log.calls if x[0] is c])
    first = [x for x in log.calls if x[0] is c and x[1] is not None]
    inner = [x for x in log.calls if x[0] is not c and x[1] is not None]
    small = bool(c.small_soiling_signal)
    w = None
    if first:
        rm = np.array([x[2]['RMSE'] for x in first])
        one = np.array([(x[1].soiling_ratio == 1).mean() for x in first])
        w = 1 / rm / (1 + one)
        best = first[int(np.argmax(w))]
        near = np.sum(np.abs(w - w.max()) < 1e-12 * w.max())
        if near == 1:
            s = best[1]['soiling_ratio'].astype(float)
            mon.close(df['soiling_ratio'].astype(float), s if small else s.clip(lower=0, upper=1),
                      'reported soiling ratio is that of the best initial fit', **ctx)
            mon.ev('best_fit_checked')
        flags = [bool(x[2]['small_soiling_signal']) for x in first]
        mon.eq(small, sum(flags) > planned / 2, 'small soiling signal when most initial fits say so', flags=flags)
    if small:
        mon.close(c.soiling_loss, [0, 0, (1 - df['soiling_ratio'].astype(float)).mean() * 100],
                  'soiling loss bound in percent', **ctx)
        mon.ev('small_signal')
        return
    judge_components(mon, pi, df, c.residual_shift, c.degradation[0], True, ctx, raw=True)
    mon.close(c.adf_results[1], adfuller(df['residuals'].astype(float).dropna(), regression='ctt', autolag=None)[1],
              'stationarity of the reported residuals', **ctx)
    mon.close(c.RMSE, np.sqrt(np.nanmean((df['total_model'].astype(float) - pi) ** 2)), 'RMSE of the reported model', **ctx)
    for lo, hi in [('SR_low', 'SR_high'), ('rates_low', 'rates_high'), ('seasonal_low', 'seasonal_high'),
                   ('model_low', 'model_high')]:
        a, b = df[lo].astype(float), df[hi].astype(float)
        mon.ok((a <= b + 1e-12)[a.notna() & b.notna()].all(), '%s <= %s' % (lo, hi), **ctx)
    for v in (c.degradation, c.soiling_loss):
        mon.ok(v[1] <= v[2], 'ordered confidence bounds', got=v, **ctx)
    if inner:
        ok = [x for x in inner if x[2]['adf_res'][1] < 0.05]
        rm = np.array([x[2]['RMSE'] for x in ok])
        one = np.array([(x[1].soiling_ratio == 1).mean() for x in ok])
        w = 1 / rm / (1 + one)
        w /= w.sum()
        q = [0.5 - conf / 200, 0.5 + conf / 200]
        for name, got, key in [('degradation', c.degradation, 'degradation'), ('soiling loss', c.soiling_loss, 'soiling_loss')]:
            v = np.array([x[2][key] for x in ok])
            mon.close(got, [np.dot(v, w), *np.quantile(v, q)], name + ' summarizes the bootstrap fits', **ctx)
        for col, lo, hi in [('soiling_ratio', 'SR_low', 'SR_high'), ('soiling_rates', 'rates_low', 'rates_high'),
                            ('total_model', 'model_low', 'model_high')]:
            m = pd.concat([x[1][col].astype(float) for x in ok], axis=1)
            mon.close(df[lo].astype(float), m.quantile(q[0], axis=1), lo + ' is the percentile of the bootstrap fits', **ctx)
            mon.close(df[hi].astype(float), m.quantile(q[1], axis=1), hi + ' is the percentile of the bootstrap fits', **ctx)
        for col, src, what in [('bt_soiling_ratio', 'soiling_ratio', 'bootstrapped soiling ratio'),
                               ('bt_soiling_rates', 'soiling_rates', 'bootstrapped soiling rates'),
                               ('cleaning_events', 'cleaning_events', 'probability of cleaning')]:
            m = pd.concat([x[1][src].astype(float) for x in ok], axis=1).reindex(pi.index).to_numpy()
            have = ~np.isnan(m) * w
            mon.close(df[col].astype(float), np.nansum(m * have, axis=1) / have.sum(axis=1), what, **ctx)
        if len(log.seasons) == 1 and len(log.calls) - planned == log.seasons[0][1].shape[1]:
            made = [x for x in log.calls if x[0] is not c]
            keep = [k for k, x in enumerate(made) if x[2] is not None and x[2]['adf_res'][1] < 0.05]
            se = log.seasons[0][1].iloc[:, keep]
            mon.close(df['seasonal_component'].astype(float), (se.to_numpy() * w).sum(1),
                      'seasonal component is the weighted mean of the samples used', **ctx)
            for col, k in (('seasonal_low', 0), ('seasonal_high', 1)):
                mon.close(df[col].astype(float), se.quantile(q[k], axis=1), col + ' is the percentile of the samples', **ctx)
            mon.ev('rejected_fits', len(made) - len(keep))
        mon.ev('inner_fits', len(inner))


def alternatives(rng):
    kw = {}
    if chance(rng, 0.9):
        kw['order_alternatives'] = pick(rng, [(('SR', 'SC', 'Rd'),), (('SC', 'SR', 'Rd'),), (('SR', 'SC', 'Rd'), ('SC', 'SR', 'Rd')),
                                              (('SC', 'Rd', 'SR'),)])
    if chance(rng, 0.9):
        kw['cleaning_sensitivity_alternatives'] = pick(rng, [(.5,), (.25, .75), (.3, .5, .9), (.7, .4)])
    if chance(rng, 0.9):
        kw['clean_pruning_sensitivity_alternatives'] = pick(rng, [(1.0,), (.6, 1.4)])
    if chance(rng, 0.9):
        kw['forward_fill_alternatives'] = pick(rng, [(True,), (False,), (True, False)])
    return kw


def bootstrap(rng, mon):
    pm, sr, rd, season = series(rng, n=int(pick(rng, [735, 735, 800])))
    if mon.index_in_workload == 0:
        kw = dict(reps=16)
    else:
        kw = alternatives(rng)
        kw['reps'] = int(pick(rng, [1, 3, 5, 8]))
    if chance(rng, 0.2):
        kw['degradation_method'] = 'STL'
    if chance(rng, 0.3):
        kw['process_noise'] = float(pick(rng, [5e-5, 2e-4]))
    if chance(rng, 0.6):
        kw['confidence_level'] = float(pick(rng, [95.0, 50.0]))
    with recorded() as log, contextlib.redirect_stdout(io.StringIO()):
        c = soiling.CODSAnalysis(pm)
        try:
            out = c.run_bootstrap(**kw)
        except RuntimeError:
            not_decomposable(mon, log, c)
            return
        except Exception as e:
            if not any(x[0] is not c and x[2] is not None and x[2]['adf_res'][1] < 0.05 for x in log.calls):
                mon.ev('no_usable_fit')       # every bootstrap fit rejected: nothing to report
                return
            import traceback
            mon.fail('run_bootstrap raised', error=repr(e), kw=kw, traceback=traceback.format_exc()[-1500:])
        mon.close(out[1], c.degradation, 'returned degradation')
        mon.close(out[2], c.soiling_loss, 'returned soiling loss')
        mon.ok(out[0].equals(c.result_df), 'returned frame')
    judge_bootstrap(mon, pm, c, log, kw, dict(kw=kw))
    mon.ev('bootstraps')
    mon.sig('bootstrap', sorted(kw.items(), key=str), len(pm), season, rd)
    mon.note(kw=kw, degradation=c.degradation, soiling_loss=c.soiling_loss, fits=len(log.calls))


def not_decomposable(mon, log, c):
    first = [x for x in log.calls if x[0] is c]
    bad = sum(1 for x in first if x[2] is None or x[2]['adf_res'][1] >= 0.05)
    mon.ok(bad > len(first) / 2, 'not decomposable only if most fits are not stationary', bad=bad, fits=len(first))
    mon.ev('not_decomposable')
    mon.sig('not decomposable')


def seasons(rng, mon):
    """Perturbed seasonal components used by the bootstrap."""
    n = int(pick(rng, [735, 1096, 1400]))
    idx = pd.date_range(pd.Timestamp(int(pick(rng, [2013, 2017])), int(rng.integers(1, 13)), 1), periods=n, freq='D')
    idx = idx[~((idx.month == 12) & (idx.day == 31) & idx.is_leap_year)]
    comps = []
    for _ in range(int(pick(rng, [1, 2, 3]))):
        y = rng.normal(1, 0.02, 367)
        comps.append(pd.Series(y[np.asarray(idx.dayofyear)], index=idx))
    per = int(pick(rng, [1, 4, 9]))
    kw = {}
    lo, hi, sh = 0.5, 2, 20
    if chance(rng, 0.6):
        lo, hi, sh = .8, 1.75, int(pick(rng, [30, 5]))
        kw = dict(min_multiplier=lo, max_multiplier=hi, max_shift=sh)
    np.random.seed(int(rng.integers(2**31)))
    got = mon.call(soiling._make_seasonal_samples, comps, per, **kw)
    judge_seasons(mon, comps, got, per, lo, hi, sh, dict(kw=kw, per=per))
    mon.sig('seasons', n, len(comps), per, lo, sh)


def wrapper(rng, mon):
    """soiling_cods returns the numbers of the analysis; small signals and unusable fits are handled."""
    n = 735
    kind = ['small', 'drift', 'normal'][mon.index_in_workload % 3]
    pm, sr, rd, season = series(rng, n=n, noise=0.01)
    if kind == 'small':
        pm = pm / sr * (1 - (1 - sr) * 0.05)
    elif kind == 'drift':
        w = np.cumsum(rng.normal(0, 0.004, n))
        pm = pm * np.exp(w - w.mean())
    kw = dict(reps=16)
    if mon.index_in_workload >= 3:
        kw = dict(alternatives(rng), reps=int(pick(rng, [2, 4])), confidence_level=float(pick(rng, [68.2, 90.0])),
                  process_noise=float(pick(rng, [1e-4, 2e-4])))
    made = []
    orig = soiling.CODSAnalysis.__init__

    def init(self, *a, **kw):
        made.append(self)
        return orig(self, *a, **kw)
    soiling.CODSAnalysis.__init__ = init
    try:
        with recorded() as log, contextlib.redirect_stdout(io.StringIO()):
            try:
                out = soiling.soiling_cods(pm, **kw)
            except RuntimeError:
                not_decomposable(mon, log, made[0])
                return
            except Exception as e:
                if made and not any(x[0] is not made[0] and x[2] is not None and x[2]['adf_res'][1] < 0.05
                                    for x in log.calls):
                    mon.ev('no_usable_fit')
                    return
                import traceback
                mon.fail('soiling_cods raised', error=repr(e), kind=kind, traceback=traceback.format_exc()[-1500:])
    finally:
        soiling.CODSAnalysis.__init__ = orig
    c = made[0]
    judge_bootstrap(mon, pm, c, log, kw, dict(kind=kind, kw=kw))
    mon.close(out[0], 1 - c.soiling_loss[0] / 100, 'soiling ratio')
    mon.close(np.sort(out[1]), np.sort(1 - np.array(c.soiling_loss[1:3]) / 100), 'soiling ratio confidence interval')
    mon.close(out[2], c.degradation[0], 'degradation rate')
    mon.close(out[3], c.degradation[1:3], 'degradation confidence interval')
    mon.ok(0.3 < out[0] <= 1.0, 'soiling ratio is a ratio', got=out[0])
    mon.ev('bootstraps')
    mon.sig('wrapper', kind)


def refusals(rng, mon):
    idx = pd.date_range('2019-01-01', periods=800, freq='D')
    x = pd.Series(rng.uniform(0.9, 1, 800), index=idx)
    mon.raises(ValueError, 'missing dates are refused', soiling.CODSAnalysis, x.drop(idx[10]))
    mon.raises(ValueError, 'soiling must be among the components',
               soiling.CODSAnalysis(x).iterative_signal_decomposition, order=('SC', 'Rd'))
    mon.sig('refusals')


WORKLOADS = [(bootstrap, 16, 240), (wrapper, 6, 90), (seasons, 60, 1000), (decompose, 100, 3000), (recovery, 2, 40), (leap_day, 2, 4),
             (refusals, 1, 2)]
