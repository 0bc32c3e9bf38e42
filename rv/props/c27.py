"""C27: impossible requests are refused, doubtful data announced, exactly when they are."""
import contextlib
import io
import warnings

import numpy as np
import pandas as pd
import pvlib

from rv import env, gen, soil
from rv.core import Monitor, Violation
from rv.gen import pick, chance

rdtools = env.load()
from rdtools import bootstrap, normalization, soiling   # noqa: E402
from rdtools.availability import AvailabilityAnalysis   # noqa: E402
from rv.props import c13, c14, c23   # noqa: E402

PROPERTY = 'C27'
TECHNIQUE = 'runtime monitoring: warnings and exceptions of every call are recorded and compared with the condition they stand for, computed from the data, on both sides of each limit'
RULE = ('a case is a call with data on either side of a documented condition (missing data, irregular or too short series, unknown options, '
        'mismatching indexes, undefined inputs, suspicious data); the outcome, the warnings and what is left on the object are recorded. '
        'Distinct: request, side, options')
ASSUMPTIONS = ['which exception class is judged only where documentation or the existing tests fix it; the wording of warnings only by its subject',
               'sampling consistency is judged away from the 95 % limit by more than the ambiguity of counting readings or steps']
REQUIRED = {'refusals_observed': 1500, 'accepted': 600, 'announced': 350, 'silent': 600, 'kept_results': 15, 'srr_announced': 10, 'srr_silent': 20,
            'trend_announced': 60, 'climate_announced': 8, 'typos': 400}


def heard(rec, *words):
    return any(issubclass(w.category, UserWarning) and all(x in str(w.message).lower() for x in words) for w in rec)


def listen(fn, *a, **k):
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                return ('ok', fn(*a, **k)), rec
            except Violation:
                raise
            except Exception as e:
                return ('raised', e), rec


def announced(mon, got, want, what, **ctx):
    mon.eq(got, bool(want), what, **ctx)
    mon.ev('announced' if want else 'silent')


def accept(mon, what, fn, *a, **k):
    mon.ev('accepted')
    return mon.call(fn, *a, **k)


# ---- options ---------------------------------------------------------------
def typo(rng, valid, allowed=()):
    """A string that is almost, but not, a valid option."""
    for _ in range(50):
        v = str(pick(rng, list(valid)))
        kind = int(rng.integers(0, 9))
        i = int(rng.integers(0, len(v)))
        t = [v.upper(), v.capitalize(), v[:i], v[i:], v + ' ', v[:i] + v[i + 1:], v + v[-1], v.replace('_', '-'), v.replace('_', ' ')][kind]
        if t not in valid and t not in allowed:
            return t
    return 'nonsense'


def days(rng, n=400):
    idx = pd.date_range(pick(rng, ['2015-03-01', '2018-07-09']), periods=n, freq='D', tz=pick(rng, [None, 'UTC', 'US/Mountain']))
    return pd.Series(rng.uniform(0.9, 1, n), index=idx)


def options(rng, mon):
    """Unknown options are refused, however close to a valid one; valid ones are accepted."""
    p = c23.day_series(rng, n=200, zone='UTC', step=30, nan=False).abs() + 1
    p.index.freq = '30min'
    d = days(rng, 60)
    cs = pd.Series(np.linspace(100, 900, len(p)), index=p.index)
    mts = ['fixed', 'single_axis_tracking']
    which = int(rng.integers(0, 14))
    m = pd.Series(1 - 0.0005 * np.arange(60) + rng.normal(0, 0.01, 60), index=pd.date_range('2015-01-01', periods=60, freq='D'))
    name, valid, call = [
        ('pv_input', ['power', 'energy'], lambda v: rdtools.normalize_with_expected_power(p, p, p, pv_input=v)),
        ('power_type', ['right_labeled', 'instantaneous'], lambda v: rdtools.energy_from_power(p, power_type=v)),
        ('irradiance_rescale method', ['iterative', 'single_opt'], lambda v: rdtools.irradiance_rescale(cs * 1.02, cs, method=v)),
        ('clearsky_filter model', ['pvlib', 'csi'], lambda v: rdtools.clearsky_filter(cs, cs * 1.02, model=v)),
        ('clip_filter model', ['quantile', 'logic', 'xgboost'], lambda v: rdtools.clip_filter(p, model=v)),
        ('logic mounting_type', mts, lambda v: rdtools.logic_clip_filter(p, mounting_type=v)),
        ('xgboost mounting_type', mts, lambda v: rdtools.xgboost_clip_filter(p, mounting_type=v)),
        ('clip_filter mounting_type', mts, lambda v: rdtools.clip_filter(p, model=pick(rng, ['logic', 'xgboost']), mounting_type=v)),
        ('clean_criterion', ['precip_and_shift', 'precip_or_shift', 'precip', 'shift'],
         lambda v: soiling.SRRAnalysis(d, d * 5, d * 0).run(reps=2, clean_criterion=v, min_interval_length=3, max_relative_slope_error=1e9, day_scale=3)),
        ('srr method', ['half_norm_clean', 'random_clean', 'perfect_clean'],
         lambda v: soiling.SRRAnalysis(d, d * 5).run(reps=2, method=v, min_interval_length=3, max_relative_slope_error=1e9, max_negative_step=9, day_scale=3)),
        ('srr method of soiling_srr', ['half_norm_clean', 'random_clean', 'perfect_clean'],
         lambda v: soiling.soiling_srr(d, d * 5, reps=2, method=v, min_interval_length=3, max_relative_slope_error=1e9, max_negative_step=9, day_scale=3)),
        ('decomposition_type', ['multiplicative', 'additive'],
         lambda v: bootstrap._make_time_series_bootstrap_samples(m, m.rolling(5, min_periods=1).mean(), sample_nr=3, block_length=7, decomposition_type=v)),
        ('power_type of aggregation', ['right_labeled', 'instantaneous'],
         lambda v: rdtools.energy_from_power(p, target_frequency='h', power_type=v)),
        ('pv_input of a workflow', ['power', 'energy'], lambda v: rdtools.TrendAnalysis(p, cs, temperature_cell=cs * 0 + 25, gamma_pdc=-0.004, pv_input=v,
                                                                                       power_dc_rated=100.0).sensor_analysis(analyses=[])),
    ][which]
    if name == 'decomposition_type' and not hasattr(bootstrap, '_make_time_series_bootstrap_samples'):
        return
    if name == 'pv_input of a workflow':
        valid = valid[:1]           # energy needs no checking here: that workflow is exercised below
    r = None
    for v in valid:
        r, _ = listen(call, v)
        # data may have no soiling interval at all; that is another answer
        mon.ok(r[0] == 'ok' or isinstance(r[1], soiling.NoValidIntervalError) or (name.startswith('clearsky') and v == 'pvlib'),
               'valid option %s=%r was refused' % (name, v), error=repr(r[1]))
        mon.ev('accepted')
    if name.startswith('srr') and r[0] == 'raised':
        return
    for _ in range(4):
        v = typo(rng, valid)
        mon.raises(Exception if 'workflow' in name else ValueError, 'unknown option %s=%r must be refused' % (name, v), call, v)
        mon.ev('typos')
    mon.sig('options', name)


# ---- shape of the data -----------------------------------------------------
def spoil(rng, s):
    """A series that is no longer complete and regular, and how."""
    n = len(s)
    k = int(pick(rng, [1, n // 2, n - 2, int(rng.integers(1, n - 1))]))
    if chance(rng, 0.5):
        return s.drop(s.index[k]), 'dropped %d' % k
    i = s.index.to_series()
    i.iloc[k] = i.iloc[k] + (i.iloc[k + 1] - i.iloc[k]) / 3
    return pd.Series(s.to_numpy(), index=pd.DatetimeIndex(i), name=s.name), 'moved %d' % k


def daily_inputs(rng, mon):
    """SRR and CODS need every day; availability needs one index; classical decomposition needs every value."""
    n = int(pick(rng, [30, 100, 400]))
    pm = days(rng, n)
    ins, rain = pm * 5, pm * 0
    accept(mon, 'complete daily data', soiling.SRRAnalysis, pm, ins, rain)
    accept(mon, 'complete daily data', soiling.SRRAnalysis, pm, ins)
    which = int(rng.integers(0, 3))
    args = [pm, ins, rain]
    args[which], how = spoil(rng, args[which])
    mon.raises(ValueError, 'SRR: a series that is not daily must be refused (input %d, %s)' % (which, how), soiling.SRRAnalysis, *args)
    fr = pick(rng, ['2D', '12h', 'W', 'B', '7D', '24h'])
    if fr != '24h':
        args = [pm, ins, rain]
        args[which] = pd.Series(1.0, index=pd.date_range(pm.index[0], periods=n, freq=fr))
        mon.raises(ValueError, 'SRR: a series that is not daily must be refused (input %d, %s)' % (which, fr), soiling.SRRAnalysis, *args)
    accept(mon, 'complete daily data', soiling.CODSAnalysis, pm)
    mon.raises(ValueError, 'CODS: missing dates must be refused (%s)' % how, soiling.CODSAnalysis, spoil(rng, pm)[0])

    m = pd.Series(1 - 0.0005 * np.arange(30) + rng.normal(0, 0.01, 30), index=pd.date_range('2015-01-31', periods=30, freq='ME'))
    accept(mon, 'complete monthly data', rdtools.degradation_classical_decomposition, m)
    k = int(pick(rng, [0, 29, 15, int(rng.integers(0, 30))]))
    bad = m.copy()
    bad.iloc[k] = np.nan
    if 0 < k < 29:
        mon.raises(ValueError, 'classical decomposition: a missing value must be refused (%d)' % k, rdtools.degradation_classical_decomposition, bad)
        mon.raises(ValueError, 'classical decomposition: a missing row must be refused (%d)' % k,
                   rdtools.degradation_classical_decomposition, m.drop(m.index[k]))
    mon.raises(ValueError, 'classical decomposition: frequency must be known', rdtools.degradation_classical_decomposition,
               pd.Series(m.to_numpy(), index=pd.DatetimeIndex(m.index, freq=None)))
    mon.sig('daily', which, how.split()[0], fr)


def same_index(rng, mon):
    idx = pd.date_range('2019-05-01', periods=96, freq='h', tz=pick(rng, [None, 'UTC', 'US/Eastern']))
    s = pd.Series(1.0, index=idx)
    sub = pd.DataFrame({'a': s, 'b': s})
    accept(mon, 'one index', AvailabilityAnalysis, s, sub, s.cumsum(), s * 2)
    args = [s, sub, s.cumsum(), s * 2]
    j = int(rng.integers(0, 4))
    kind = pick(rng, ['drop', 'order', 'shift', 'longer', 'last'])
    x = args[j]
    if kind == 'drop':
        x = x.drop(x.index[int(rng.integers(0, 96))])
    elif kind == 'order':
        o = np.arange(96)
        a, b = rng.choice(96, 2, replace=False)
        o[a], o[b] = o[b], o[a]
        x = x.iloc[o]
    elif kind == 'shift':
        x = x.set_axis(x.index + pd.Timedelta('1h'))
    elif kind == 'last':
        x = x.set_axis(x.index[:-1].append(x.index[-1:] + pd.Timedelta('1s')))
    else:
        x = pd.concat([x, x.iloc[-1:].set_axis(x.index[-1:] + pd.Timedelta('1h'))])
    args[j] = x
    mon.raises(ValueError, 'availability: inputs on different indexes must be refused (input %d, %s)' % (j, kind), AvailabilityAnalysis, *args)
    aa = AvailabilityAnalysis(s, sub, s.cumsum(), s * 2)
    mon.raises(TypeError, 'availability: plot before run must be refused', aa.plot)
    mon.sig('same_index', j, kind)


def zones(rng, mon):
    """Mixed zone-awareness, unusable types."""
    s = c23.day_series(rng, n=60, zone='UTC', step=30, nan=False)
    naive = s.tz_localize(None)
    if chance(rng, 0.5):
        s, naive = pd.DataFrame({'a': s, 'b': s}), pd.DataFrame({'a': naive, 'b': naive})
    t_aware, t_naive = s.index[::2], naive.index[::2]
    accept(mon, 'both aware', rdtools.interpolate, s, t_aware.tz_convert(pick(rng, ['UTC', 'US/Pacific'])))
    accept(mon, 'both naive', rdtools.interpolate, naive, t_naive)
    mon.raises(ValueError, 'interpolate: aware series, naive times must be refused', rdtools.interpolate, s, t_naive)
    mon.raises(ValueError, 'interpolate: naive series, aware times must be refused', rdtools.interpolate, naive, t_aware)
    mon.raises(Exception, 'interpolate: not a series must be refused', rdtools.interpolate, np.ones(len(s)), t_aware)
    x = c23.day_series(rng, n=60, zone='UTC', step=30, nan=False)
    mon.raises(ValueError, 'energy_from_power: a series without times must be refused', rdtools.energy_from_power, x.reset_index(drop=True))
    one = x.iloc[:1].set_axis(pd.DatetimeIndex(x.index[:1], freq=None))
    mon.raises(ValueError, 'energy_from_power: one reading of unknown duration must be refused', rdtools.energy_from_power, one)
    accept(mon, 'one reading of known duration', rdtools.energy_from_power, one, target_frequency='h')
    mon.raises(ValueError, 'energy_from_power: one instantaneous reading must be refused', rdtools.energy_from_power, one, target_frequency='h',
               power_type='instantaneous')
    bad, how = spoil(rng, x)
    bad = bad.set_axis(pd.DatetimeIndex(bad.index, freq=None))
    mon.raises(ValueError, 'normalization: irregular energy must be refused (%s)' % how, rdtools.normalize_with_expected_power, bad, x.abs(), x.abs(),
               pv_input=pick(rng, ['power', 'energy']))
    x.index.freq = '30min'
    accept(mon, 'regular', rdtools.normalize_with_expected_power, x, x.abs(), x.abs())
    mon.sig('zones', how.split()[0])


def two_years(rng, mon):
    """Two years of data are needed, to the day."""
    zone = pick(rng, [None, 'UTC', 'US/Mountain', 'Australia/Sydney'])
    start = pd.Timestamp(pick(rng, ['2015-01-01', '2016-02-29', '2014-07-15', '2015-03-01', '2011-11-30']), tz=zone)
    step = pick(rng, ['D', 'D', '7D', 'MS'])
    end = start + pd.DateOffset(years=2)
    if step == 'MS':
        start = start.replace(day=1)
        full = pd.date_range(start, periods=24, freq='MS')
        short = full[:-1]
    elif step == 'D':
        full = pd.date_range(start, end - pd.DateOffset(days=1), freq='D')
        short = full[:-1]
    else:
        full = pd.date_range(start, end, freq='7D')
        full = full if full[-1] + pd.Timedelta('7D') >= end else full.append(full[-1:] + pd.Timedelta('7D'))
        short = full[:-2]

    def series(i):
        return pd.Series(1 - 0.01 * np.arange(len(i)) / len(i) + rng.normal(0, 0.003, len(i)), index=i)
    long = series(full)
    if chance(rng, 0.5):
        long = long.iloc[rng.permutation(len(long))]
    # the last days may have no partner at all: that is refused for another reason only if there is none
    r, _ = listen(rdtools.degradation_year_on_year, long)
    mon.ok(r[0] == 'ok', 'two full years (%s) were refused' % step, error=repr(r[1]), first=str(full[0]), last=str(full[-1]))
    mon.ev('accepted')
    s = series(short)
    if chance(rng, 0.5):
        s = s.iloc[rng.permutation(len(s))]
    mon.raises(ValueError, 'less than two years (%s, one step short) must be refused' % step, rdtools.degradation_year_on_year, s)
    n = len(full)
    if step != 'MS':
        mon.raises(ValueError, 'circular block bootstrap: a block longer than a third must be refused', rdtools.degradation_year_on_year,
                   series(full), uncertainty_method='circular_block', block_length=n // 3 + 1)
        bad, how = spoil(rng, series(full))
        mon.raises(ValueError, 'circular block bootstrap: an irregular series must be refused (%s)' % how, rdtools.degradation_year_on_year,
                   bad, uncertainty_method='circular_block', block_length=5)
    mon.sig('two_years', step, str(start.date()), str(zone))


# ---- clipping filters ------------------------------------------------------
def clip(rng, mon):
    zone = pick(rng, [None, None, 'UTC', 'US/Mountain', 'Etc/GMT+7'])
    step = int(pick(rng, [15, 30, 60]))
    n = int(pick(rng, [200, 300, 300, 300, 300, 300, 7000]))
    idx = pd.date_range('2019-05-01', periods=n, freq='%dmin' % step, tz=zone)
    x = c13.sun(idx if zone else idx.tz_localize('Etc/GMT+7')) / 10
    s = pd.Series(np.minimum(x, 70), index=idx)
    p = float(pick(rng, [0, 0, 0.01, 0.02, 0.06, 0.15]))
    keep = rng.random(n) >= p
    if n > 1000:
        mon.ev('long_records')
        if chance(rng, 0.5):            # steady at first, then every other reading only
            keep &= (np.arange(n) < n * 0.6) | (np.arange(n) % 2 == 0)
    s = s[keep]
    name, fn = pick(rng, [('logic', rdtools.logic_clip_filter), ('xgboost', rdtools.xgboost_clip_filter), ('clip', rdtools.clip_filter)])
    steps = np.diff(s.index.asi8)
    most = pd.Series(steps).value_counts().iloc[0]
    lo, hi = most / len(s), most / len(steps)
    r, rec = listen(fn, s)
    mon.ok(r[0] == 'ok', '%s filter refused a usable series' % name, error=repr(r[1]))
    announced(mon, heard(rec, 'time', 'zone'), zone is None, '%s filter: data without a time zone are announced, others not' % name, zone=str(zone))
    if hi < 0.95 or lo >= 0.95:
        announced(mon, heard(rec, 'sampl'), hi < 0.95, '%s filter: variable sampling is announced, steady sampling is not' % name, share=float(lo))
    mon.raises(TypeError, '%s filter: a series without times must be refused' % name, fn, s.reset_index(drop=True))
    i, j = sorted(rng.choice(len(s), 2, replace=False))
    o = np.arange(len(s))
    o[i], o[j] = j, i
    mon.raises(IndexError, '%s filter: unsorted data must be refused' % name, fn, s.iloc[o])
    mon.raises(Exception, '%s filter: ten readings must be refused' % name, fn, s.iloc[40:40 + int(pick(rng, [1, 5, 10]))])
    if name != 'xgboost':
        r, _ = listen(fn, pd.Series(np.linspace(1, 40, 11), index=pd.date_range('2019-05-01 06:00', periods=11, freq='30min', tz='UTC')))
        mon.ok(r[0] == 'ok', '%s filter: eleven readings were refused' % name, error=repr(r[1]))
        mon.ev('accepted')
    mon.sig('clip', name, str(zone), p, step)


# ---- soiling ---------------------------------------------------------------
def srr(rng, mon):
    pm, ins, rain = soil.scenario(rng, int(pick(rng, [120, 200, 400])), hostile=chance(rng, 0.5))
    method = pick(rng, ['half_norm_clean', 'random_clean', 'perfect_clean'])
    kw = dict(soil.params(rng), reps=3, method=method, day_scale=int(pick(rng, [13, 12, 7, 8, 3, 14])))
    kw['max_relative_slope_error'] = float(pick(rng, [500.0, 50.0, 10.0, 1e6]))
    wrap = chance(rng, 0.5)

    def go():
        if wrap:
            return soiling.soiling_srr(pm, ins, precipitation_daily=rain, **kw)
        return soiling.SRRAnalysis(pm, ins, rain).run(**kw)
    r, rec = listen(go)
    announced(mon, heard(rec, 'even', 'day_scale'), kw['day_scale'] % 2 == 0 and 'shift' in kw.get('clean_criterion', 'shift'),
              'SRR: an even day_scale is announced where shifts are looked for, otherwise nothing is', day_scale=kw['day_scale'],
              criterion=kw.get('clean_criterion'))
    if r[0] == 'raised':
        mon.ok(isinstance(r[1], soiling.NoValidIntervalError), 'SRR refused usable data', error=repr(r[1]))
        mon.ev('no_interval')
        return
    t = r[1][2]['soiling_interval_summary']
    length = (t['end'] - t['start']).dt.round('D').dt.days + 1
    # days of the analysed period outside every interval do not exist
    total, good = int(length.sum()), int(length[t['valid'].astype(bool)].sum())
    if good * 10 != total * 8:
        doubtful = good * 10 < total * 8 and method != 'perfect_clean'
        announced(mon, heard(rec, '20%', 'invalid'), doubtful, 'SRR: 20 % or more of invalid days are announced (not for perfect_clean), fewer are not',
                  valid=good, days=total, method=method)
        mon.ev('srr_announced' if doubtful else 'srr_silent')
    mon.sig('srr', method, kw['day_scale'], good * 10 // max(total, 1))

    prof = r[1][2]['stochastic_soiling_profiles']
    every = pd.concat(prof, axis=1).dropna().index
    if len(every) < 5:
        return
    ins2 = pd.Series(4.0, index=every)
    kind = pick(rng, ['same', 'wider', 'inside', 'first', 'last'])
    if kind == 'wider':
        ins2 = pd.concat([ins2, pd.Series(4.0, index=every[-1:] + pd.DateOffset(days=3))])
    elif kind != 'same':
        ins2 = ins2.drop(every[{'inside': int(rng.integers(1, len(every) - 1)), 'first': 0, 'last': -1}[kind]])
    r, rec = listen(soiling.annual_soiling_ratios, prof, ins2)
    mon.ok(r[0] == 'ok', 'annual_soiling_ratios refused usable data', error=repr(r[1]))
    announced(mon, heard(rec, 'insolation_daily'), kind in ('inside', 'first', 'last'),
              'annual_soiling_ratios: days without insolation are announced, otherwise nothing is', kind=kind)


# ---- availability ----------------------------------------------------------
def availability(rng, mon):
    n = 24 * 12
    idx = pd.date_range('2019-05-01', periods=n, freq='h')
    sun = np.maximum(0, np.sin((np.arange(n) % 24 - 6) / 12 * np.pi))
    sub = pd.DataFrame({c: sun * 50.0 for c in 'abc'}, index=idx)
    kind = pick(rng, ['clean', 'sub', 'sys', 'apart', 'both'])
    sub_down = np.zeros(n, bool)
    sys_down = np.zeros(n, bool)
    if kind in ('sub', 'apart', 'both'):
        sub_down[40:64] = True
    if kind in ('sys', 'apart', 'both'):
        sys_down[150:180] = True
    seen = sub.copy()
    seen.loc[sub_down, 'a'] = 0.0
    meter = seen.sum(axis=1)
    seen.loc[sys_down, :] = 0.0
    meter[sys_down] = 0.0
    cum = meter.cumsum()
    if kind == 'both':            # the meter runs while all are silent, except one reading that contradicts
        seen.loc[sys_down, :] = 0.0
    aa = AvailabilityAnalysis(meter, seen, cum, pd.Series(sun * 150.0, index=idx))
    r, rec = listen(aa.run, rollup_period=pick(rng, ['D', 'W', 'ME']))
    mon.ok(r[0] == 'ok', 'availability refused usable data', error=repr(r[1]))
    at_once = bool(((aa.loss_system > 0) & (aa.loss_subsystem > 0)).any())
    announced(mon, heard(rec, 'simultaneous'), at_once, 'availability: loss at both levels at once is announced, otherwise nothing is', kind=kind)
    # a forced contradiction: the losses a caller left on the object
    both = chance(rng, 0.5)
    k = int(rng.integers(0, n))
    aa.loss_system = pd.Series(0.0, index=idx)
    aa.loss_subsystem = pd.Series(0.0, index=idx)
    aa.loss_system.iloc[k] = float(pick(rng, [1e-6, 5.0]))
    aa.loss_subsystem.iloc[k if both else (k + 1) % n] = float(pick(rng, [1e-6, 5.0]))
    r, rec = listen(aa._combine_losses, 'D') if hasattr(aa, '_combine_losses') else (None, None)
    if r is not None and r[0] == 'ok':
        announced(mon, heard(rec, 'simultaneous'), both, 'availability: loss at both levels at once is announced, otherwise nothing is', forced=True)
        mon.ev('both_levels', both)
    mon.sig('avail', kind, both)


# ---- workflows -------------------------------------------------------------
def workflow(rng, mon):
    with contextlib.redirect_stdout(io.StringIO()):
        _workflow(rng, mon)


def _workflow(rng, mon):
    """What the workflows announce, refuse and keep."""
    step, zone = int(pick(rng, [30, 60])), pick(rng, ['UTC', 'Etc/GMT+7'])
    inp, args, loc, tilt, az, albedo, method, give, idx = c14.build(rng, mon, 8, step, zone, supplied_poa=True)
    args['temperature_ambient_clearsky'] = pd.Series(20.0, index=idx)
    inp['pv_input'] = 'power'
    if inp['temperature_ambient'] is None:
        inp['temperature_cell'] = pd.Series(25.0, index=idx)
    case = pick(rng, ['sensor', 'clearsky'])

    def fresh():
        ta = c13.make_ta(Monitor(), c23.clone(inp))
        ta.set_clearsky(**c23.clone(args))
        ta.filter_params = {'clearsky_filter': dict(model='csi', threshold=0.9)}
        ta.filter_params_aggregated = {}
        return ta
    ta = fresh()
    r, rec = listen(getattr(ta, case + '_analysis'), analyses=[])
    if r[0] == 'raised':
        mon.ev('unusable')
        return
    mon.eq(sorted(ta.results[case]), [], 'no analysis was asked for')
    expected = inp['power_expected'] is not None
    announced(mon, heard(rec, 'temperature', 'coefficient'), inp['gamma_pdc'] is None and not expected,
              case + ' workflow: a missing temperature coefficient is announced where one is used')
    announced(mon, heard(rec, 'power_expected'), expected and case == 'clearsky', case + ' workflow: a clear-sky analysis with a user model is announced')
    announced(mon, heard(rec, 'ad_hoc_filter'), False, case + ' workflow: nothing is announced about a filter that is not there')
    mon.ev('trend_announced', expected or inp['gamma_pdc'] is None)
    # plots know two workflows, and only what was analysed
    for plot in ('plot_degradation_summary', 'plot_soiling_monte_carlo', 'plot_soiling_interval', 'plot_soiling_rate_histogram', 'plot_pv_vs_irradiance',
                 'plot_degradation_timeseries'):
        mon.raises(ValueError, plot + ': an unknown workflow must be refused', getattr(ta, plot), typo(rng, ['sensor', 'clearsky']))
        if plot != 'plot_pv_vs_irradiance':
            mon.raises(KeyError, plot + ': an analysis that was not run must be refused', getattr(ta, plot), pick(rng, ['sensor', 'clearsky']))
    # ad hoc filters
    for which, table in (('filter_params', getattr(ta, case + '_filter_components')), ('filter_params_aggregated', getattr(ta, case + '_filter_components_aggregated'))):
        base = table.index
        if len(base) < 3:
            continue
        m = pd.Series(True, index=base)
        kind = pick(rng, ['plain', 'nan', 'short', 'long', 'both', 'order'])
        k = int(rng.integers(0, len(base)))
        if kind in ('nan', 'both'):
            m = m.astype(object)
            m.iloc[k] = pick(rng, [np.nan, None])
        if kind in ('short', 'both'):
            m = m.drop(base[(k + 1) % len(base)])
        elif kind == 'long':
            m = pd.concat([m, pd.Series([True], index=base[-1:] + pd.Timedelta('365D'))])
        elif kind == 'order':
            m = m.iloc[::-1]
        t2 = fresh()
        getattr(t2, which)['ad_hoc_filter'] = m
        r, rec = listen(getattr(t2, case + '_analysis'), analyses=[])
        mon.ok(r[0] == 'ok', 'an ad hoc filter (%s) was refused' % kind, error=repr(r[1]))
        what = case + ' workflow, ' + ('aggregated ' if 'agg' in which else '') + 'ad hoc filter: '
        announced(mon, heard(rec, 'ad_hoc_filter', 'nan'), kind in ('nan', 'both'), what + 'missing entries are announced, and only they', kind=kind)
        announced(mon, heard(rec, 'ad_hoc_filter', 'index'), kind in ('short', 'long', 'both', 'order'), what + 'another index is announced, and only that', kind=kind)
        mon.ev('trend_announced', kind != 'plain')
        mon.sig('workflow', case, which, kind)
    # a refused analysis leaves earlier results alone
    held = {'p50_rd': float(rng.normal())}
    ta.results = {'sensor': {'yoy_degradation': held}, 'clearsky': {'srr_soiling': held}}
    before = c23.snap(ta.results)
    mon.raises(ValueError, 'less than two years of data left must be refused', getattr(ta, case + '_analysis'), analyses=['yoy_degradation'])
    mon.ok(c23.snap(ta.results) == before, 'a refused analysis leaves earlier results alone', results=ta.results)
    mon.ev('kept_results')
    # filters without what they need
    need = pick(rng, ['clip', 'hour', 'sensor_cs', 'tcell', 'poa', 'srr', 'model'])
    if need == 'clip':
        x = c23.clone(inp)
        x['pv_input'] = 'energy'
        t2 = c13.make_ta(Monitor(), x)
        t2.set_clearsky(**c23.clone(args))
        t2.filter_params = {'clearsky_filter': dict(model='csi', threshold=0.9), 'clip_filter': {}}
        mon.raises(ValueError, 'clip filter without power must be refused', getattr(t2, case + '_analysis'), analyses=[])
    elif need == 'hour':
        t2 = c13.make_ta(Monitor(), c23.clone(inp))
        t2.filter_params = {'hour_angle_filter': {}}
        mon.raises(ValueError, 'hour angle filter without a location must be refused', t2.sensor_analysis, analyses=[])
    elif need == 'sensor_cs':
        t2 = c13.make_ta(Monitor(), c23.clone(inp))
        t2.filter_params = {'sensor_clearsky_filter': {}}
        mon.raises((AttributeError, ValueError), 'clear-sky filter without clear-sky data must be refused', t2.sensor_analysis, analyses=[])
        mon.raises((AttributeError, ValueError), 'clear-sky analysis without clear-sky data must be refused', t2.clearsky_analysis, analyses=[])
    elif need == 'tcell':
        x = dict(c23.clone(inp), temperature_cell=None, temperature_ambient=None, power_expected=pd.Series(90.0, index=idx))
        t2 = c13.make_ta(Monitor(), x)
        t2.filter_params = {'tcell_filter': {}}
        mon.raises(ValueError, 'cell temperature filter without temperature must be refused', t2.sensor_analysis, analyses=[])
        x = dict(c23.clone(inp), temperature_cell=None, temperature_ambient=None, power_expected=None)
        t2 = c13.make_ta(Monitor(), x)
        mon.raises(ValueError, 'sensor analysis without temperature must be refused', t2.sensor_analysis, analyses=[])
    elif need == 'poa':
        x = dict(c23.clone(inp), poa_global=None)
        t2 = c13.make_ta(Monitor(), x)
        mon.raises(ValueError, 'sensor analysis without irradiance must be refused', t2.sensor_analysis, analyses=[])
    elif need == 'srr':
        x = dict(c23.clone(inp), aggregation_freq=pick(rng, ['2D', '7D', '12h']))
        t2 = c13.make_ta(Monitor(), x)
        t2.set_clearsky(**c23.clone(args))
        t2.filter_params = {'clearsky_filter': dict(model='csi', threshold=0.9)}
        t2.filter_params_aggregated = {}
        mon.raises(ValueError, 'soiling without daily aggregation must be refused', getattr(t2, case + '_analysis'), analyses=['srr_soiling'])
        mon.eq(t2.results.get(case) or {}, {}, 'a refused analysis leaves no result')
    else:
        full = dict(a=-3.5, b=-0.06, deltaT=3)
        del full[pick(rng, ['a', 'b', 'deltaT'])]
        x = dict(c23.clone(inp), temperature_cell=None, power_expected=None, temperature_ambient=pd.Series(20.0, index=idx), temperature_model=full)
        t2 = c13.make_ta(Monitor(), x)
        mon.raises(ValueError, 'an incomplete temperature model must be refused', t2.sensor_analysis, analyses=[])
    mon.sig('needs', need, case)
    for w in ('filter_params', 'filter_params_aggregated'):
        held = dict(getattr(ta, w))
        mon.raises(ValueError, 'a configuration that is not a dictionary must be refused', setattr, ta, w, pick(rng, [None, [], 'clip_filter', 3]))
        mon.raises(KeyError, 'an unknown filter must be refused', getattr(ta, w).__setitem__, typo(rng, ['poa_filter', 'clip_filter', 'hampel_filter'], ()), {})
        mon.eq(dict(getattr(ta, w)).keys(), held.keys(), 'a refused change changes nothing')


# ---- the rest --------------------------------------------------------------
MAP = []


def climate(rng, mon):
    """Places without climate data are announced."""
    if not MAP:
        r = np.random.default_rng(5)
        day = np.where(r.random((60, 30, 1)) < 0.4, np.nan, 25.0) + np.zeros((60, 30, 12))
        day[r.random((60, 30, 12)) < 0.02] = np.nan
        env.use_map(day, day - 10)
        MAP.append(1)
    idx = pd.date_range('2019-01-01', periods=100, freq='6h', tz='UTC')
    lat, lon = float(rng.uniform(-85, 85)), float(rng.uniform(-179, 179))
    r, rec = listen(rdtools.get_clearsky_tamb, idx, lat, lon)
    mon.ok(r[0] == 'ok', 'a place on Earth was refused', error=repr(r[1]), place=(lat, lon))
    announced(mon, heard(rec, 'nan'), bool(r[1].isna().any()), 'missing climate data are announced, and only they', place=(lat, lon))
    mon.ev('climate_announced', bool(r[1].isna().any()))
    mon.raises(Exception, 'times without a zone must be refused', rdtools.get_clearsky_tamb, idx.tz_localize(None), lat, lon)


def excluded(rng, mon):
    """interpolate announces how much data it leaves out, exactly above the threshold."""
    n = int(pick(rng, [21, 41, 101]))
    gaps = rng.choice(n - 1, int(rng.integers(0, n // 3)), replace=False)
    steps = np.full(n - 1, 10.0)
    steps[gaps] = 60.0
    idx = gen.rel_index(gen.start_ts(rng, 'UTC'), np.concatenate([[0], np.cumsum(steps)]).astype('int64') * gen.MIN)
    s = pd.Series(rng.uniform(0, 1, n), index=idx)
    frac = len(gaps) / n
    thr = float(pick(rng, [0.1, 0.0, 0.2, frac, max(frac - 1 / n, 0), frac + 1 / n]))
    kw = dict(max_timedelta=pd.Timedelta(pick(rng, ['30min', '59min', '60min'])))
    if kw['max_timedelta'] == pd.Timedelta('60min'):
        frac = 0.0
    elif chance(rng, 0.3):
        kw = {}
    if abs(frac - thr) < 1e-12 and frac != thr:
        return
    # n readings have n - 1 steps: not judged where counting either way matters
    other = frac * n / (n - 1)
    if (frac > thr) != (other > thr):
        return
    r, rec = listen(rdtools.interpolate, s, pick(rng, ['10min', idx]), warning_threshold=thr, **kw)
    mon.ok(r[0] == 'ok', 'interpolate refused usable data', error=repr(r[1]))
    announced(mon, heard(rec, 'excluded'), frac > thr, 'interpolate announces excluded data exactly above the threshold', fraction=frac, threshold=thr)
    mon.sig('excluded', frac > thr, n, bool(kw))


def retired(rng, mon):
    """Deprecated helpers still answer, and say that they are deprecated."""
    step = int(pick(rng, [5, 15, 60]))
    n = int(rng.integers(5, 50))
    idx = pd.date_range('2019-01-01', periods=n, freq='%dmin' % step, tz=pick(rng, [None, 'UTC']))
    s = pd.Series(rng.uniform(0, 1, n), index=idx)
    for name in ('delta_index', 'check_series_frequency'):
        fn = getattr(normalization, name, None)
        if fn is None:
            continue
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            r = mon.call(fn, s) if name == 'delta_index' else mon.call(fn, s, 'the data')
        mon.ok(any('deprecat' in str(w.message).lower() for w in rec), name + ' announces that it is deprecated')
        if name == 'delta_index':
            mon.ok(np.allclose(np.asarray(r[0], float)[1:], step / 60) and np.isclose(r[1], step / 60), 'delta_index gives the steps in hours', result=r)
        else:
            mon.eq(pd.tseries.frequencies.to_offset(r), pd.tseries.frequencies.to_offset('%dmin' % step), 'check_series_frequency gives the frequency')
            bad, how = spoil(rng, s)
            mon.raises(ValueError, 'check_series_frequency: irregular data must be refused (%s)' % how, fn,
                       bad.set_axis(pd.DatetimeIndex(bad.index, freq=None)), 'x')
        mon.ev('retired')


WORKLOADS = [(options, 180, 2500), (daily_inputs, 80, 1500), (same_index, 60, 1000), (zones, 60, 1000), (two_years, 50, 800), (clip, 130, 1800),
             (srr, 120, 2000), (availability, 30, 400), (workflow, 90, 1500), (climate, 50, 600), (excluded, 150, 3000), (retired, 20, 200)]
