"""C23: inputs are left alone, and equal calls give equal answers whatever happened before."""
import contextlib
import copy
import io
import json
import os
import pickle
import random
import signal
import subprocess
import sys
import warnings

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt   # noqa: E402
import numpy as np   # noqa: E402
import pandas as pd   # noqa: E402
import pvlib   # noqa: E402

from rv import core, env, gen, soil, avail   # noqa: E402
from rv.core import Monitor   # noqa: E402
from rv.gen import pick, chance   # noqa: E402

rdtools = env.load()
from rdtools import bootstrap, degradation, filtering, normalization, plotting, soiling   # noqa: E402
from rdtools.availability import AvailabilityAnalysis   # noqa: E402
from rv.props import c13, c14, c19, c20   # noqa: E402

PROPERTY = 'C23'
TECHNIQUE = 'runtime monitoring: deep snapshots of arguments and process state around every call; results of repeated calls, other histories and a fresh process compared'
RULE = ('a case is a random history of calls of the public functions and analyses (the same inputs, perturbed inputs with the same index, '
        'unrelated calls in between, other objects, nearly identical calls, a fork, a fresh process with another hash seed); every call is bracketed by deep snapshots '
        'of its arguments and of process-wide state, and equal calls are compared. Distinct: function, options, history')
ASSUMPTIONS = ['results are compared bitwise first and, where that fails, with relative tolerance 1e-9 (memory alignment may change '
               'the last bits of sums)',
               'confidence intervals of the circular block bootstrap draw fresh entropy by documentation unless bootstrap_seed is given']
REQUIRED = {'calls_bracketed': 1500, 'repeats_compared': 500, 'stochastic_repeats': 60, 'stream_checks': 300, 'specimens': 300,
            'object_repeats': 40, 'fresh_process': 20, 'trend_histories': 30, 'workflow_streams': 1,
            'neighbours': 250, 'neighbours_that_matter': 150, 'neighbours_values': 50, 'neighbours_times': 20, 'neighbours_option': 20,
            'neighbours_number': 20, 'neighbours_zone': 20}


# ---- deep snapshots ---------------------------------------------------------
def snap(x, depth=0):
    if depth > 12:
        return ('deep',)
    if isinstance(x, pd.DatetimeIndex):
        return ('dti', x.asi8.tobytes(), str(x.tz), str(x.dtype), x.name, str(x.freq))
    if isinstance(x, pd.MultiIndex):
        return ('mi', x.tolist(), list(x.names))
    if isinstance(x, pd.Index):
        return ('idx', snap(np.asarray(x), depth + 1), x.name, str(x.dtype))
    if isinstance(x, pd.Series):
        return ('ser', snap(x.index, depth + 1), snap_values(x), str(x.dtype), repr(x.name), repr(x.attrs))
    if isinstance(x, pd.DataFrame):
        return ('df', snap(x.index, depth + 1), snap(x.columns, depth + 1),
                tuple((snap_values(x.iloc[:, j]), str(x.dtypes.iloc[j])) for j in range(x.shape[1])), repr(x.attrs))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('obj', x.shape, tuple(snap(v, depth + 1) for v in x.ravel()))
        return ('arr', x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, dict):
        return ('dict', type(x).__name__, tuple((repr(k), snap(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(v, depth + 1) for v in x))
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(sorted(map(repr, x))))
    if isinstance(x, (float, np.floating)):
        return ('f', 'nan' if np.isnan(x) else float(x).hex(), type(x).__name__)
    if isinstance(x, (pd.Timestamp, pd.Timedelta, str, bool, int, np.integer, np.bool_, type(None), pd.offsets.BaseOffset)) \
            or x is pd.NaT:
        return ('s', repr(x))
    if callable(x):
        return ('fn', getattr(x, '__qualname__', repr(type(x))))
    if isinstance(x, pvlib.location.Location):
        return ('loc', tuple(sorted((k, repr(v)) for k, v in vars(x).items())))
    if hasattr(x, 'params'):
        return ('fit', snap(np.round(np.asarray(x.params, float), 12), depth + 1))
    return ('other', type(x).__name__)


def snap_values(s):
    v = s.to_numpy()
    if isinstance(v, np.ndarray) and v.dtype != object:
        return (str(v.dtype), v.tobytes())
    return snap(np.asarray(v, dtype=object))


def equal(a, b, path=''):
    """None if equal, else where they differ."""
    if isinstance(a, (pd.Series, pd.DataFrame, np.ndarray, pd.Index, dict, list, tuple, float, np.floating)) and type(a) is not type(b):
        return path + ': types %s and %s' % (type(a).__name__, type(b).__name__)
    if isinstance(a, dict):
        if list(map(repr, a)) != list(map(repr, b)) and set(map(repr, a)) != set(map(repr, b)):
            return path + ': keys'
        for k in a:
            d = equal(a[k], b[k], path + '/' + str(k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return path + ': length'
        for i, (x, y) in enumerate(zip(a, b)):
            d = equal(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(a, pd.Index):
        return None if snap(a) == snap(b) else path + ': index'
    if isinstance(a, pd.DataFrame):
        if snap(a.columns) != snap(b.columns) or snap(a.index) != snap(b.index):
            return path + ': frame labels'
        for j in range(a.shape[1]):
            d = equal(a.iloc[:, j].to_numpy(), b.iloc[:, j].to_numpy(), path + '.' + str(a.columns[j]))
            if d:
                return d
        return None
    if isinstance(a, pd.Series):
        if snap(a.index) != snap(b.index) or repr(a.name) != repr(b.name):
            return path + ': series labels'
        return equal(np.asarray(a.to_numpy()), np.asarray(b.to_numpy()), path)
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return path + ': array shape/dtype'
        if a.dtype == object:
            return equal(list(a.ravel()), list(b.ravel()), path)
        if a.tobytes() == b.tobytes():
            return None
        if a.dtype.kind in 'fc':
            return None if np.isclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True).all() else path + ': values'
        return path + ': values'
    if isinstance(a, (float, np.floating)):
        return None if np.isclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True) else path + ': %r != %r' % (a, b)
    return None if snap(a) == snap(b) else path + ': %.80r != %.80r' % (a, b)


def globals_state():
    from pandas._config import config as pc
    return dict(errstate=np.geterr(), pandas=copy.deepcopy(pc._global_config), env=dict(os.environ), cwd=os.getcwd(),
                printopts=np.get_printoptions(), rc={k: repr(v) for k, v in matplotlib.rcParams.items()},
                stdlib_random=random.getstate())


SET_FILTERS = []          # (caller's file, arguments): warning filters set from inside rdtools


def _tap(name):
    orig = getattr(warnings, name)

    def wrapped(*a, **kw):
        f = sys._getframe(1).f_code.co_filename
        if os.sep + 'rdtools' + os.sep in f:
            SET_FILTERS.append((name, os.path.basename(f)))
        return orig(*a, **kw)
    setattr(warnings, name, wrapped)


for _n in ('simplefilter', 'filterwarnings', 'resetwarnings'):
    _tap(_n)


def kept(before, after):
    """What was set before still is (imports may add entries)."""
    if isinstance(before, dict):
        return isinstance(after, dict) and all(k in after and kept(v, after[k]) for k, v in before.items())
    return before == after


def bracket(mon, name, fn, args, kwargs, deterministic=True, figures=False):
    """Call fn with snapshots around it; the result, or the type of exception it raised."""
    before = snap((args, kwargs))
    g = globals_state()
    st = repr(np.random.get_state())
    figs = plt.get_fignums()
    del SET_FILTERS[:]
    wf = list(warnings.filters)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            res = ('ok', fn(*args, **kwargs))
    except Exception as e:
        res = ('raised', type(e).__name__)
    mon.ev('calls_bracketed')
    mon.ev('raised', res[0] == 'raised')
    after = snap((args, kwargs))
    if after != before:
        flat_b, flat_a = list(flatten(before)), list(flatten(after))
        diff = [(str(p)[:120], str(q)[:120]) for p, q in zip(flat_b, flat_a) if p != q][:3]
        mon.fail('%s modified its arguments' % name, differences=diff, args=args, kwargs=kwargs, outcome=res[0])
    mon.ok(not SET_FILTERS or list(warnings.filters) == wf, '%s changed the warning filters' % name, calls=SET_FILTERS)
    g2 = globals_state()
    for k in g:
        mon.ok(kept(g[k], g2[k]), '%s changed process-wide state: %s' % (name, k))
    if deterministic:
        mon.ok(repr(np.random.get_state()) == st, '%s has no random part but touched the random stream' % name, kwargs=kwargs)
        mon.ev('stream_checks')
    if not figures:
        mon.eq(plt.get_fignums(), figs, '%s left a figure behind' % name)
    return res


def flatten(x):
    if isinstance(x, tuple):
        for v in x:
            yield from flatten(v)
    else:
        yield x


def clone(x):
    if isinstance(x, (pd.Series, pd.DataFrame)):
        y = x.copy(deep=True)
        y.index = x.index.copy()
        if isinstance(x.index, pd.DatetimeIndex) and x.index.freq is not None:
            y.index.freq = x.index.freq
        return y
    if isinstance(x, pd.Index):
        return x.copy()
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    if isinstance(x, tuple):
        return tuple(clone(v) for v in x)
    if isinstance(x, list):
        return [clone(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.copy()
    return x


def perturb(rng, x):
    """Same shapes and labels, other values."""
    if isinstance(x, pd.Series):
        y = clone(x)
        if y.dtype == bool:
            return y ^ pd.Series(rng.random(len(y)) < 0.1, index=y.index)
        if y.dtype.kind == 'f':
            v = y.to_numpy().copy() * (1 + 0.05 * rng.standard_normal(len(y)))
            y = pd.Series(v, index=y.index, name=y.name)
        return y
    if isinstance(x, dict):
        return {k: perturb(rng, v) for k, v in x.items()}
    if isinstance(x, tuple):
        return tuple(perturb(rng, v) for v in x)
    return clone(x)


# ---- specimens: (name, function, args, kwargs, stochastic) ------------------
def day_series(rng, n=None, zone=None, step=None, nan=True):
    step = step or int(pick(rng, [15, 30, 60]))
    n = n or int(pick(rng, [200, 400]))
    zone = zone or gen.tz(rng)
    shift = int(rng.integers(0, 300 * 1440)) if chance(rng, 0.6) else 0         # calls that share nothing with earlier cases
    idx = gen.rel_index(gen.start_ts(rng, zone), (np.arange(n) * step + shift) * gen.MIN)
    if chance(rng, 0.5):
        idx = pd.DatetimeIndex(idx, freq='%dmin' % step)
    idx.name = pick(rng, [None, 'time', 'index', 'datetime'])
    x = c13.sun(idx) / 10 + rng.normal(0, 0.5, n)
    if chance(rng, 0.3):
        x = np.minimum(x, 70.0)
    if nan and chance(rng, 0.5):
        x = gen.sprinkle_nan(rng, x, p=0.05)
    return pd.Series(x, index=idx, name=pick(rng, [None, 'p', 'power', 'energy_Wh', 0, 'value', 'irrad']))


def other(rng, s, scale=10.0):
    y = pd.Series(s.to_numpy() * scale * (1 + 0.03 * rng.standard_normal(len(s))), index=s.index.copy(), name=pick(rng, [None, 'poa', s.name]))
    return y


def daily(rng, years=3, nan=True):
    n = int(365 * years) + int(rng.integers(0, 20))
    start = pd.Timestamp(pick(rng, ['2015-02-03', '2016-06-01', '2012-01-01'])) + pd.Timedelta(days=int(rng.integers(0, 300)) if chance(rng, 0.5) else 0)
    idx = pd.date_range(start, periods=n, freq='D', tz=pick(rng, [None, 'UTC', 'US/Mountain']))
    if chance(rng, 0.3):
        idx = pd.DatetimeIndex(idx, freq=None)
    idx.name = pick(rng, [None, 'date', 'index'])
    x = 1 - 0.01 * np.arange(n) / 365 + 0.02 * np.sin(np.arange(n) / 58.0) + rng.normal(0, 0.01, n)
    if nan:
        x[rng.random(n) < 0.05] = np.nan
    if chance(rng, 0.3):
        x[rng.random(n) < 0.02] = pick(rng, [0.0, -0.1, 5.0])
    return pd.Series(x, index=idx, name=pick(rng, [None, 'energy', 'yoy', 'center', 'energy_normalized', 'dt']))


def sp_energy(rng):
    s = day_series(rng)
    kw = {}
    if chance(rng, 0.5):
        kw['target_frequency'] = pick(rng, ['h', '2h', '30min', '5min', 'D'])
    if chance(rng, 0.5):
        kw['max_timedelta'] = pick(rng, [pd.Timedelta('90min'), pd.Timedelta('3h')])
    if chance(rng, 0.3):
        kw['power_type'] = 'instantaneous'
    return 'energy_from_power', rdtools.energy_from_power, (s,), kw, False


def sp_interp(rng):
    s = day_series(rng)
    t = pick(rng, ['20min', s.index[::2] + pd.Timedelta('7min'), '1h', pd.offsets.Minute(10)])
    kw = {} if chance(rng, 0.4) else dict(max_timedelta=pd.Timedelta('2h'))
    if chance(rng, 0.3):
        s = pd.DataFrame({'a': s, 'b': other(rng, s)})
    return 'interpolate', rdtools.interpolate, (s, t), kw, False


def sp_pvwatts(rng):
    s = day_series(rng)
    step = int((s.index[1] - s.index[0]).total_seconds() // 60)
    s = pd.Series(s.to_numpy(), index=pd.DatetimeIndex(s.index, freq='%dmin' % step), name=s.name)
    kws = dict(poa_global=other(rng, s), power_dc_rated=100.0)
    if chance(rng, 0.6):
        kws.update(temperature_cell=pd.Series(30.0 + rng.normal(0, 5, len(s)), index=s.index), gamma_pdc=-0.004)
    return 'normalize_with_pvwatts', rdtools.normalize_with_pvwatts, (s, kws), {}, False


def sp_pvwatts_dc(rng):
    s = day_series(rng)
    kw = dict(temperature_cell=other(rng, s, 0.3), gamma_pdc=-0.005) if chance(rng, 0.6) else {}
    return 'pvwatts_dc_power', normalization.pvwatts_dc_power, (s, 100.0), kw, False


def sp_expected(rng):
    s = day_series(rng)
    step = int((s.index[1] - s.index[0]).total_seconds() // 60)
    s = pd.Series(s.to_numpy(), index=pd.DatetimeIndex(s.index, freq='%dmin' % step), name=s.name)
    return 'normalize_with_expected_power', rdtools.normalize_with_expected_power, \
        (s, other(rng, s, 1.0), other(rng, s)), dict(pv_input=pick(rng, ['power', 'energy'])), False


def sp_rescale(rng):
    s = day_series(rng, n=400).abs() * 10
    sim = other(rng, s, 1.05).abs()
    return 'irradiance_rescale', rdtools.irradiance_rescale, (s, sim), dict(method=pick(rng, ['iterative', 'single_opt'])), False


def sp_aggregate(rng):
    s = day_series(rng)
    return 'aggregation_insol', rdtools.aggregation_insol, (s, other(rng, s).abs(), pick(rng, ['D', 'h', '2D', 'W'])), {}, False


def sp_ols(rng):
    return 'degradation_ols', rdtools.degradation_ols, (daily(rng).dropna(), pick(rng, [68.2, 95])), {}, True


def sp_classical(rng):
    s = daily(rng, nan=False)
    m = pd.Series(s.to_numpy(), index=pd.date_range('2014-01-01', periods=len(s), freq='D')).resample('MS').mean()
    m.name = pick(rng, [None, 'energy'])
    return 'degradation_classical_decomposition', rdtools.degradation_classical_decomposition, (m, 68.2), {}, True


def sp_yoy(rng):
    kw = dict(recenter=chance(rng, 0.7))
    if chance(rng, 0.3):
        kw['exceedance_prob'] = 90
    if chance(rng, 0.3):
        kw['uncertainty_method'] = None
        kw['recenter'] = True
    return 'degradation_year_on_year', rdtools.degradation_year_on_year, (daily(rng, 2.5),), kw, kw.get('uncertainty_method', 1) is not None


def sp_yoy_block(rng):
    s = daily(rng, 2.5, nan=False)

    def rates(s, **kw):
        r = rdtools.degradation_year_on_year(s, uncertainty_method='circular_block', **kw)
        return r[0], [v for k, v in sorted(r[2].items()) if k in ('YoY_values', 'usage_of_points', 'renormalizing_factor')]
    return 'degradation_year_on_year[circular_block]', rates, (s,), dict(block_length=30), False


def simple_filters(rng):
    s = day_series(rng, nan=chance(rng, 0.5))
    poa = other(rng, s)
    d = daily(rng, 1.0)
    return pick(rng, [
        ('normalized_filter', rdtools.normalized_filter, (s,), dict(energy_normalized_high=50.0)),
        ('normalized_filter', rdtools.normalized_filter, (s,), {}),
        ('poa_filter', rdtools.poa_filter, (poa,), {}),
        ('tcell_filter', rdtools.tcell_filter, (s,), {}),
        ('csi_filter', rdtools.csi_filter, (poa, other(rng, poa, 1.0)), {}),
        ('clearsky_filter', rdtools.clearsky_filter, (poa, other(rng, poa, 1.0)), dict(model='csi', threshold=0.2)),
        ('two_way_window_filter', rdtools.two_way_window_filter, (d,), {}),
        ('insolation_filter', rdtools.insolation_filter, (d,), {}),
        ('hampel_filter', rdtools.hampel_filter, (d,), {}),
        ('directional_tukey_filter', rdtools.directional_tukey_filter, (d,), {}),
        ('hour_angle_filter', rdtools.hour_angle_filter, (s.tz_localize('UTC') if s.index.tz is None else s, 40.0, -105.0), {}),
        ('robust_quantile', rdtools.robust_quantile, (s, 0.9), {}),
        ('robust_median', rdtools.robust_median, (s,), {}),
        ('robust_mean', rdtools.robust_mean, (s,), {}),
    ]) + (False,)


def sp_pvlib_clear(rng):
    s = day_series(rng, n=300, step=15, nan=False).abs() * 10
    s = pd.Series(s.to_numpy(), index=pd.DatetimeIndex(s.index, freq='15min'), name=s.name)
    cs = pd.Series(c13.sun(s.index), index=s.index.copy())
    if chance(rng, 0.7):         # clear with clouds passing
        v = cs.to_numpy() * float(rng.uniform(0.95, 1.05)) + rng.normal(0, 1, len(cs))
        for _ in range(int(rng.integers(1, 5))):
            i = int(rng.integers(0, len(v)))
            v[i:i + int(rng.integers(1, 20))] *= rng.uniform(0.2, 0.95)
        s = pd.Series(v, index=s.index, name=s.name)
    kw = pick(rng, [dict(window_length=90), dict(lookup_parameters=True), dict(window_length=120, mean_diff=60)])
    return 'pvlib_clearsky_filter', pick(rng, [rdtools.pvlib_clearsky_filter, rdtools.clearsky_filter]), (s, cs), kw, False


def sp_clip(rng):
    step = int(pick(rng, [5, 15, 30]))
    n = int(pick(rng, [6, 12])) * 1440 // step
    s = day_series(rng, n=n, step=step, nan=False, zone=pick(rng, ['UTC', 'US/Mountain', 'Etc/GMT+7']))
    s = s.clip(lower=0, upper=float(pick(rng, [60, 1e9])))
    model = pick(rng, ['quantile', 'logic', 'logic', 'xgboost', 'xgboost'])
    kw = dict(mounting_type=pick(rng, ['fixed', 'single_axis_tracking'])) if model != 'quantile' else {}
    if chance(rng, 0.5):
        fn = {'quantile': rdtools.quantile_clip_filter, 'logic': rdtools.logic_clip_filter, 'xgboost': rdtools.xgboost_clip_filter}[model]
        return fn.__name__, fn, (s,), kw, False
    return 'clip_filter', rdtools.clip_filter, (s,), dict(model=model, **kw), False


def sp_tamb(rng):
    start = pd.Timestamp(pick(rng, ['2015-03-01', '2020-10-20'])) + pd.Timedelta(hours=int(rng.integers(0, 3000)) if chance(rng, 0.5) else 0)
    idx = pd.date_range(start, periods=int(pick(rng, [50, 600])), freq=pick(rng, ['1h', '15min', '2h']),
                        tz=pick(rng, ['UTC', 'US/Mountain', 'Australia/Sydney']))
    return 'get_clearsky_tamb', rdtools.get_clearsky_tamb, (idx, float(rng.uniform(-60, 60)), float(rng.uniform(-170, 170))), {}, False


def sp_srr(rng):
    pm, ins, pr = soil.scenario(rng, int(pick(rng, [200, 400])))
    kw = dict(reps=int(pick(rng, [5, 20])), method=pick(rng, ['half_norm_clean', 'random_clean', 'perfect_clean']))
    kw.update(soil.params(rng))
    if 'clean_criterion' in kw or chance(rng, 0.3):
        kw['precipitation_daily'] = pr
    return 'soiling_srr', soiling.soiling_srr, (pm, ins), kw, True


def sp_srr_post(rng):
    for _ in range(20):
        pm, ins, pr = soil.scenario(rng, 400, hostile=False)
        try:
            np.random.seed(int(rng.integers(2**31)))
            _, _, info = soiling.soiling_srr(pm, ins, reps=20, min_interval_length=5)
        except Exception:
            continue
        if chance(rng, 0.3):        # pyranometer offset on a dark day
            ins = ins.where(rng.random(len(ins)) > 0.03, -0.05)
        if chance(rng, 0.5):
            return 'annual_soiling_ratios', soiling.annual_soiling_ratios, (info['stochastic_soiling_profiles'], ins), {}, False
        return 'monthly_soiling_rates', soiling.monthly_soiling_rates, (info['soiling_interval_summary'],), dict(reps=20), True
    return sp_srr(rng)


def sp_boot(rng):
    s = daily(rng, 1.0, nan=False)
    return '_make_time_series_bootstrap_samples', bootstrap._make_time_series_bootstrap_samples, \
        (s, s.rolling(30, min_periods=1).mean()), dict(sample_nr=8, block_length=20, bootstrap_seed=int(rng.integers(1000))), False


def availability(power_system, power_subsystem, energy_cumulative, power_expected, freq):
    aa = AvailabilityAnalysis(power_system, power_subsystem, energy_cumulative, power_expected)
    aa.run(rollup_period=freq)
    return aa.results, aa.loss_total, aa.outage_info, aa.energy_cumulative_corrected


def sp_avail(rng):
    minutes = 60
    n = 24 * int(pick(rng, [10, 20]))
    idx, cols, size, true, down, comms, meter, seen = c20.build(rng, int(pick(rng, [2, 3, 4])), n, minutes, gen.tz(rng), False)
    expected = true.sum(axis=1)
    off = pd.Series(False, index=idx)
    a = int(rng.integers(30, n - 40))
    off.iloc[a:a + int(pick(rng, [3, 30]))] = True
    meter = meter.mask(off, 0.0)
    seen = seen.mask(off, np.nan if chance(rng, 0.5) else 0.0)
    if chance(rng, 0.5):        # standby consumption at night
        dark = (expected <= 0).to_numpy()
        meter = meter.mask(dark, -float(rng.uniform(0.01, 1)))
        if chance(rng, 0.5):
            seen = seen.mask(np.repeat(dark[:, None], seen.shape[1], axis=1), -0.01)
    cum = (meter * minutes / 60).cumsum()
    cum[off] = np.nan
    return 'AvailabilityAnalysis', availability, (meter, seen, cum, expected, pick(rng, ['D', 'W', 'MS'])), {}, False


SPECIMENS = [sp_energy, sp_interp, sp_pvwatts, sp_pvwatts_dc, sp_expected, sp_rescale, sp_aggregate, sp_ols, sp_classical, sp_yoy,
             simple_filters, simple_filters, simple_filters, simple_filters, sp_pvlib_clear, sp_clip, sp_clip, sp_tamb,
             sp_srr, sp_srr_post, sp_boot, sp_avail]


def draw(rng):
    return pick(rng, SPECIMENS)(rng)


def seeded(mon, seed, spec, args=None, kwargs=None):
    name, fn, a, k, stochastic = spec
    a = clone(a) if args is None else args
    k = clone(k) if kwargs is None else kwargs
    np.random.seed(seed)
    return bracket(mon, name, fn, a, k, deterministic=not stochastic)


def compare(mon, name, first, second, what, **ctx):
    mon.eq(second[0], first[0], '%s: %s' % (name, what), outcomes=[first, second], **ctx)
    d = equal(first[1], second[1])
    mon.ok(d is None, '%s: %s' % (name, what), where=d, first=first[1], second=second[1], **ctx)
    mon.ev('repeats_compared')


def functions(rng, mon):
    """Histories of calls of the public functions."""
    specs = [draw(rng) for _ in range(int(rng.integers(2, 6)))]
    seeds = [int(rng.integers(2**31)) for _ in specs]
    mon.ev('specimens', len(specs))
    first = {}
    calls = []
    for i in range(len(specs)):
        calls += [('same', i)] * int(rng.integers(1, 3)) + [('perturbed', i)] * int(rng.integers(0, 2))
    rng.shuffle(calls)
    calls += [('same', i) for i in range(len(specs))]
    shared = [(clone(s[2]), clone(s[3])) for s in specs]
    log = []
    for kind, i in calls:
        i = int(i)
        name, fn, a, k, stochastic = specs[i]
        log.append((str(kind), name))
        if kind == 'perturbed':
            seeded(mon, int(rng.integers(2**31)), specs[i], perturb(rng, a), perturb(rng, k))
            continue
        # sometimes on the very same objects, sometimes on copies; a deterministic function sees another stream
        own = chance(rng, 0.5)
        seed = seeds[i] if stochastic else int(rng.integers(2**31))
        r = seeded(mon, seed, specs[i], *(shared[i] if own else (None, None)))
        if i not in first:
            first[i] = (r[0], copy.deepcopy(r[1]))
        else:
            compare(mon, name, first[i], r, 'the same call gives another answer', history=log, kwargs=k)
            mon.ev('stochastic_repeats', stochastic and r[0] == 'ok')
    for s in specs:
        mon.sig(s[0], sorted(s[3]), len(calls))
    mon.note(history=log)


def stream(rng, mon):
    """A stochastic function really uses the stream: other seeds give other draws, and it is not reset."""
    name, fn, a, k, stochastic = pick(rng, [sp_ols, sp_classical, sp_yoy, sp_srr, sp_srr_post])(rng)
    if not stochastic:
        return
    s1, s2 = int(rng.integers(2**31)), int(rng.integers(2**31))
    spec = (name, fn, a, k, stochastic)
    r1 = seeded(mon, s1, spec)
    st1 = repr(np.random.get_state()[1:])
    r2 = seeded(mon, s2, spec)
    st2 = repr(np.random.get_state()[1:])
    if r1[0] == 'raised':
        mon.eq(r1[0], r2[0], name + ': outcome depends on the seed')
        return
    mon.ok(st1 != st2, name + ': the random stream is in the same state whatever the seed was (it was reset)')
    np.random.seed(s1)
    mon.ok(repr(np.random.get_state()[1:]) != st1 or name == 'soiling_srr', name + ': no random number was drawn')
    mon.ev('streams')


# ---- objects ---------------------------------------------------------------
ATTRS = ['filter', 'filter_components', 'aggregated_performance', 'aggregated_insolation', 'filter_aggregated',
         'filter_components_aggregated']


STORED = ['pv_energy', 'pv_power', 'poa_global', 'temperature_ambient', 'windspeed', 'power_expected', 'gamma_pdc', 'power_dc_rated',
          'aggregation_freq', 'max_timedelta', 'interp_freq', 'filter_params', 'filter_params_aggregated']


def outcome(ta, case):
    out = {k: clone(getattr(ta, case + '_' + k)) for k in ATTRS if hasattr(ta, case + '_' + k)}
    out['results'] = copy.deepcopy(ta.results.get(case))
    return out


def analyse(mon, ta, case, seed, analyses, kw):
    def stored():
        return {k: dict(getattr(ta, k)) if k.startswith('filter') else getattr(ta, k) for k in STORED}
    before = {k: snap(v) for k, v in stored().items()}
    np.random.seed(seed)
    r = bracket(mon, 'TrendAnalysis.%s_analysis' % case, getattr(ta, case + '_analysis'), (), dict(analyses=analyses, **kw),
                deterministic='yoy_degradation' not in analyses and 'srr_soiling' not in analyses)
    for k, v in stored().items():
        mon.ok(snap(v) == before[k], '%s analysis changed the input or setting %s stored on the object' % (case, k), now=v)
    return (r[0], outcome(ta, case) if r[0] == 'ok' else r[1])


def trend(rng, mon):
    """Analyses on one object, on several objects, in any order."""
    step = int(pick(rng, [30, 60]))
    zone = pick(rng, ['UTC', 'US/Mountain', 'Etc/GMT+7', 'Australia/Sydney'])
    inp, args, loc, tilt, az, albedo, method, give, idx = c14.build(rng, mon, int(pick(rng, [8, 15])), step, zone)
    analyses, kw = [], {}
    r = rng.random()
    if r < 0.3:
        analyses, kw = ['srr_soiling'], dict(srr_kwargs=dict(reps=4, day_scale=3, min_interval_length=2))
        if chance(rng, 0.15):
            del kw['srr_kwargs']['reps']
    elif r < 0.6:
        kw = dict(yoy_kwargs={}, srr_kwargs={})
    state = np.random.default_rng(int(rng.integers(2**31)))
    st = state.bit_generator.state
    sample = Monitor()

    def make():
        """A fresh object with its own copies of everything; returns also what the user holds."""
        user_inp, user_args = clone(inp), clone(args)
        snap0 = snap((user_inp, user_args))
        with contextlib.redirect_stdout(io.StringIO()):
            ta = c13.make_ta(mon, user_inp)
            ta.set_clearsky(**user_args)
        state.bit_generator.state = st
        fp, ap = c14.configure(state, sample, ta, c13.align(user_inp), step)
        user = (user_inp, user_args, fp, ap)
        held = snap(user)
        mon.ok(snap((user_inp, user_args)) == snap0, 'constructing TrendAnalysis or set_clearsky modified the user\'s inputs')
        # the configuration shares the caller's mask objects where the user passes them directly
        if 'ad_hoc_filter' in fp:
            with contextlib.redirect_stdout(io.StringIO()):
                ta.filter_params['ad_hoc_filter'] = fp['ad_hoc_filter']
        return ta, user, held

    seed = int(rng.integers(2**31))
    objs = [make() for _ in range(2)]
    first = {}
    log = []
    for _ in range(int(rng.integers(3, 6))):
        j = int(rng.integers(0, 2))
        case = pick(rng, ['sensor', 'clearsky'])
        log.append((j, case))
        r = analyse(mon, objs[j][0], case, seed, analyses, clone(kw))
        mon.ok(snap(objs[j][1]) == objs[j][2], 'the analysis modified the user\'s inputs', history=log)
        if case in first:
            compare(mon, case + ' analysis', first[case], r, 'another answer', history=log)
            mon.ev('object_repeats')
        else:
            first[case] = r
        if chance(rng, 0.3):
            s = draw(rng)
            seeded(mon, 1, s)
            log.append(s[0])
    mon.ev('trend_histories')
    mon.ev('trend_refused', sum(v[0] == 'raised' for v in first.values()))
    mon.sig('trend', tuple(map(str, log)), analyses)
    mon.note(history=log)


def trend_yoy(rng, mon):
    """The same with year-on-year results."""
    step = 60
    inp, args, loc, tilt, az, albedo, method, give, idx = c14.build(rng, mon, 770, step, 'UTC', supplied_poa=True)
    args['temperature_ambient_clearsky'] = pd.Series(20.0, index=idx)
    inp['aggregation_freq'] = 'D'
    ta = c13.make_ta(mon, inp)
    held = snap((inp, args))
    ta.set_clearsky(**args)
    ta.filter_params['clearsky_filter'] = dict(model='csi')
    if inp['pv_input'] == 'energy':
        del ta.filter_params['clip_filter']
    seed = int(rng.integers(2**31))
    first = {}
    log = []
    for case in ['sensor', 'clearsky', 'sensor', 'clearsky'] if chance(rng, 0.5) else ['clearsky', 'clearsky', 'sensor', 'clearsky', 'sensor']:
        log.append(case)
        r = analyse(mon, ta, case, seed, ['yoy_degradation'], dict(yoy_kwargs={}))
        if case in first:
            compare(mon, case + ' analysis', first[case], r, 'another answer', history=log)
            mon.ev('object_repeats')
        else:
            first[case] = r
    mon.ok(snap((inp, args)) == held, 'the analysis modified the user\'s inputs', history=log)
    # the draws follow the caller's stream: another seed leaves it elsewhere, and may move the interval but nothing else
    case = pick(rng, ['sensor', 'clearsky'])
    if first[case][0] == 'ok':
        ends = []
        for k in range(2):
            r = analyse(mon, ta, case, seed + k, ['yoy_degradation'], {})
            ends.append(repr(np.random.get_state()[1:]))
            y = r[1]['results']['yoy_degradation']
            mon.ok(k == 0 or np.isclose(y['p50_rd'], first[case][1]['results']['yoy_degradation']['p50_rd'], rtol=1e-12),
                   case + ' analysis: the rate depends on the seed', case=case)
        mon.ok(ends[0] != ends[1], case + ' analysis: the random stream ends in the same state whatever the seed was (it was reset)')
        mon.ev('workflow_streams')
    mon.sig('trend_yoy', tuple(log))


def srr_object(rng, mon):
    pm, ins, pr = soil.scenario(rng, int(pick(rng, [200, 400])))
    kws = []
    for _ in range(2):
        kw = dict(reps=5, method=pick(rng, ['half_norm_clean', 'random_clean', 'perfect_clean']))
        kw.update(soil.params(rng))
        kws.append(kw)
    held = snap((pm, ins, pr))
    objs = [soiling.SRRAnalysis(pm, ins, pr) for _ in range(2)]
    first, log = {}, []
    seed = int(rng.integers(2**31))
    for _ in range(5):
        o, k = int(rng.integers(0, 2)), int(rng.integers(0, 2))
        log.append((o, k))
        np.random.seed(seed)
        r = bracket(mon, 'SRRAnalysis.run', objs[o].run, (), clone(kws[k]), deterministic=False)
        r = (r[0], copy.deepcopy(r[1]))
        if k in first:
            compare(mon, 'SRRAnalysis.run', first[k], r, 'another answer', history=log, settings=kws)
            mon.ev('object_repeats')
        else:
            first[k] = r
    mon.ok(snap((pm, ins, pr)) == held, 'SRRAnalysis modified its inputs')
    mon.sig('srr', tuple(log), sorted(kws[0]), sorted(kws[1]))


def avail_object(rng, mon):
    _, _, args, _, _ = sp_avail(rng)
    ps, sub, cum, ex, _ = args
    kws = []
    for _ in range(2):
        kw = dict(rollup_period=pick(rng, ['D', 'W', 'MS']))
        if chance(rng, 0.5):
            kw['low_threshold'] = pd.Series({c: 0.01 * float(np.nanmax(sub[c].to_numpy())) for c in sub.columns})
        if chance(rng, 0.5):
            kw['relative_sizes'] = {c: float(rng.uniform(0.5, 2)) for c in sub.columns}
        if chance(rng, 0.3):
            kw['power_system_limit'] = float(ps.max()) * 0.9
        if chance(rng, 0.3):
            kw['quantiles'] = pick(rng, [(0.05, 0.95), (0.25, 0.75)])
        kws.append(kw)
    held = snap(args)
    objs = [AvailabilityAnalysis(ps, sub, cum, ex) for _ in range(2)]
    mon.ok(snap(args) == held, 'AvailabilityAnalysis modified its inputs')
    first, log = {}, []
    for _ in range(5):
        o, k = int(rng.integers(0, 2)), int(rng.integers(0, 2))
        log.append((o, k))
        r = bracket(mon, 'AvailabilityAnalysis.run', objs[o].run, (), clone(kws[k]))
        if r[0] == 'ok':
            aa = objs[o]
            r = ('ok', copy.deepcopy(dict(results=aa.results, total=aa.loss_total, sub=aa.loss_subsystem, system=aa.loss_system,
                                          outages=aa.outage_info, cum=aa.energy_cumulative_corrected,
                                          mask=aa.reporting_mask)))
        mon.ok(snap(args) == held, 'AvailabilityAnalysis modified its inputs', history=log)
        if k in first:
            compare(mon, 'AvailabilityAnalysis.run', first[k], r, 'another answer', history=log, settings=kws)
            mon.ev('object_repeats')
        else:
            first[k] = r
    mon.sig('avail', tuple(log), sorted(kws[0]), sorted(kws[1]))


def cods_object(rng, mon):
    pi, _, _, _ = c19.series(rng, n=740)
    if chance(rng, 0.5):        # dead and negative days
        k = rng.choice(np.arange(20, 720), 4, replace=False)
        pi.iloc[k] = [0.0, 1e-9, 3.0, -0.01 if chance(rng, 0.5) else 0.02]
    if chance(rng, 0.3):
        pi.iloc[:int(pick(rng, [1, 6]))] = np.nan
    held = snap(pi)
    seed = int(rng.integers(2**31))
    boot = chance(rng, 0.35)
    objs = [soiling.CODSAnalysis(pi) for _ in range(2)]
    mon.ok(snap(pi) == held, 'CODSAnalysis modified its input')
    first = None
    for o in (0, 1, 0):
        np.random.seed(seed)
        if boot:
            if o == 0 and first is not None:
                break
            r = bracket(mon, 'CODSAnalysis.run_bootstrap', objs[o].run_bootstrap, (),
                        dict(reps=16, bootstrap_seed=seed % 1000, order_alternatives=(('SR', 'SC', 'Rd'),)), deterministic=False)
            if r[0] == 'ok':
                r = ('ok', dict(ret=r[1], loss=objs[o].soiling_loss, deg=objs[o].degradation))
        else:
            r = bracket(mon, 'CODSAnalysis.iterative_signal_decomposition', objs[o].iterative_signal_decomposition, (),
                        dict(max_iterations=3))
        r = (r[0], copy.deepcopy(r[1]))
        mon.ok(snap(pi) == held, 'CODSAnalysis modified its input')
        if first is None:
            first = r
        else:
            compare(mon, 'CODSAnalysis', first, r, 'another answer', bootstrap=boot)
            mon.ev('object_repeats')
    mon.ev('cods')
    mon.sig('cods', boot, len(pi))


def plots(rng, mon):
    """Plots leave the results alone and draw the same thing twice."""
    kind = pick(rng, ['yoy', 'srr', 'avail', 'series', 'tune'])
    try:
        np.random.seed(int(rng.integers(2**31)))
        if kind in ('yoy', 'series'):
            s = daily(rng, 2.5)
            rd, ci, info = rdtools.degradation_year_on_year(s)
            if kind == 'yoy':
                name, fn, args, kw = 'degradation_summary_plots', plotting.degradation_summary_plots, (rd, ci, info, s), \
                    dict(summary_title='t', detailed=chance(rng, 0.5))
            else:
                name, fn, args, kw = 'degradation_timeseries_plot', plotting.degradation_timeseries_plot, (info, 365), dict(include_ci=False)
        elif kind == 'srr':
            pm, ins, pr = soil.scenario(rng, 400, hostile=False)
            _, _, info = soiling.soiling_srr(pm, ins, reps=5, min_interval_length=5)
            fn = pick(rng, [plotting.soiling_monte_carlo_plot, plotting.soiling_interval_plot, plotting.soiling_rate_histogram])
            name, args, kw = fn.__name__, (info, pm) if fn is not plotting.soiling_rate_histogram else (info,), {}
            if fn is plotting.soiling_monte_carlo_plot:
                kw = dict(profiles=5)
        elif kind == 'avail':
            _, _, a, _, _ = sp_avail(rng)
            aa = AvailabilityAnalysis(*a[:4])
            aa.run(rollup_period=a[4])
            name, fn, args, kw = 'availability_summary_plots', plotting.availability_summary_plots, \
                (aa.power_system, aa.power_subsystem, aa.loss_total, aa.energy_cumulative, aa.energy_expected_rescaled, aa.outage_info), {}
        else:
            s = day_series(rng)
            name, fn, args, kw = 'tune_filter_plot', rdtools.tune_filter_plot, (s, rdtools.normalized_filter(s)), {}
    except Exception:
        return
    for _ in range(2):
        bracket(mon, name, fn, args, kw, deterministic=name != 'soiling_monte_carlo_plot', figures=True)
        plt.close('all')
    mon.ev('plots')
    mon.sig('plot', name)


def yoy_block(rng, mon):
    spec = sp_yoy_block(rng)
    first = seeded(mon, 1, spec)
    compare(mon, spec[0], first, seeded(mon, 2, spec), 'the same call gives another answer')
    mon.sig(spec[0])


# ---- near-identical calls --------------------------------------------------
def leaves(x, path=()):
    """Paths of the things inside the arguments that can be varied."""
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, (tuple, list)):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path, x


def mapped(x, f, path=()):
    if isinstance(x, dict):
        return {k: mapped(v, f, path + (k,)) for k, v in x.items()}
    if isinstance(x, (tuple, list)):
        return type(x)(mapped(v, f, path + (i,)) for i, v in enumerate(x))
    return f(path, x)


def zero_sum(rng, v):
    """Other values with the same length, ends, sum and (nearly) mean."""
    v = np.array(v, dtype=float)
    live = np.flatnonzero(np.isfinite(v[1:-1])) + 1
    live = rng.permutation(live)[:len(live) // 2 * 2]
    i, j = live[::2], live[1::2]
    d = np.round((0.3 + rng.random(len(i))) * np.nanstd(v) * 2, 6)
    keep = rng.random(len(i)) < pick(rng, [0.1, 0.5, 1.0])
    v[i] += d * keep
    v[j] -= d * keep
    return v


def moved(idx, frac, lo, hi):
    """The same length and ends, interior instants elsewhere."""
    if not isinstance(idx, pd.DatetimeIndex) or len(idx) < 5:
        return idx
    a = idx.asi8.copy()
    i, j = max(1, int(lo * len(a))), min(len(a) - 1, max(int(hi * len(a)), int(lo * len(a)) + 2))
    a[i:j] = a[i:j] + ((a[i + 1:j + 1] - a[i:j]) * frac).astype('int64')
    out = pd.DatetimeIndex(a.view('datetime64[%s]' % idx.unit), name=idx.name)
    return out if idx.tz is None else out.tz_localize('UTC').tz_convert(idx.tz)


def paced(idx, k):
    """The same start and length at another pace."""
    if not isinstance(idx, pd.DatetimeIndex) or len(idx) < 2:
        return idx
    a = idx.asi8
    out = pd.DatetimeIndex((a[0] + (a - a[0]) * k).view('datetime64[%s]' % idx.unit), name=idx.name)
    out = out if idx.tz is None else out.tz_localize('UTC').tz_convert(idx.tz)
    return out if idx.freq is None or not isinstance(idx.freq, pd.offsets.Tick) else pd.DatetimeIndex(out, freq=idx.freq * k)


def rezoned(idx, zone, instants):
    if not isinstance(idx, pd.DatetimeIndex):
        return idx
    if instants:
        return (idx.tz_localize('UTC') if idx.tz is None else idx).tz_convert(zone)
    return idx.tz_localize(None).tz_localize(zone, ambiguous=True, nonexistent='shift_forward')


def reindexed(x, f):
    if isinstance(x, (pd.Series, pd.DataFrame)):
        y = x.copy()
        y.index = f(x.index)
        return y
    return f(x) if isinstance(x, pd.DatetimeIndex) else x


def neighbour(rng, spec):
    """A call that differs from spec's in one respect, and shares everything a careless identity test would look at."""
    import inspect
    name, fn, a, k, stochastic = spec
    whole = (a, k)
    L = list(leaves(whole))
    series = [p for p, v in L if isinstance(v, (pd.Series, pd.DataFrame)) and len(v) > 8]
    timed = [p for p, v in L if isinstance(v, pd.DatetimeIndex) or isinstance(v, (pd.Series, pd.DataFrame))]
    numbers = [p for p, v in L if isinstance(v, (int, float, pvlib.location.Location)) and not isinstance(v, bool)]
    kinds = ['values'] * 4 * bool(series) + ['nan'] * bool(series) + ['times'] * 2 * bool(timed) + ['zone'] * 2 * bool(timed) \
        + ['number'] * 3 * bool(numbers) + ['option'] * 3
    for _ in range(20):
        kind = pick(rng, kinds)
        if kind in ('values', 'nan'):
            p = tuple(series[int(rng.integers(len(series)))])
            seed = int(rng.integers(2**31))

            def f(path, v):
                if path != p:
                    return clone(v)
                r = np.random.default_rng(seed)
                w = v.iloc[:, 0] if isinstance(v, pd.DataFrame) else v
                if w.dtype.kind != 'f':
                    return perturb(r, v) if isinstance(v, pd.Series) else clone(v)
                if kind == 'nan':
                    n = w.to_numpy().copy()
                    n[r.integers(1, len(n) - 1, 3)] = np.nan
                else:
                    n = zero_sum(r, w.to_numpy())
                y = clone(v)
                if isinstance(v, pd.DataFrame):
                    y.isetitem(0, n)
                    return y
                return pd.Series(n, index=y.index, name=y.name)
        elif kind == 'times':
            frac, lo = float(pick(rng, [0.2, 0.5])), float(rng.uniform(0, 0.6))
            hi = lo + float(rng.uniform(0.1, 0.5))
            pace = int(pick(rng, [0, 2, 7]))

            def f(path, v):
                if pace:
                    return reindexed(clone(v), lambda i: paced(i, pace))
                return reindexed(clone(v), lambda i: moved(i, frac, lo, hi))
        elif kind == 'zone':
            zone, inst = pick(rng, ['UTC', 'US/Eastern', 'Asia/Tokyo', 'Australia/Sydney']), chance(rng, 0.4)

            def f(path, v):
                return reindexed(clone(v), lambda i: rezoned(i, zone, inst))
        elif kind == 'number':
            p = tuple(numbers[int(rng.integers(len(numbers)))])
            g = float(pick(rng, [0.5, 0.9, 1.1]))

            def f(path, v):
                if path != p:
                    return clone(v)
                if isinstance(v, pvlib.location.Location):
                    return pvlib.location.Location(v.latitude * g, v.longitude, v.tz, v.altitude, v.name)
                return type(v)(v * g) if isinstance(v, float) else v + 1
        else:
            try:
                ps = [q for q in inspect.signature(fn).parameters.values() if isinstance(q.default, (int, float)) and q.name not in k]
            except (TypeError, ValueError):
                ps = []
            ps = [q for q in ps if q.name not in ('verbose', 'reps', 'clip')]
            ps = ps[max(0, len(a) - sum(q.default is inspect.Parameter.empty for q in inspect.signature(fn).parameters.values())):] if ps else []
            if not ps:
                continue
            q = ps[int(rng.integers(len(ps)))]
            v = (not q.default) if isinstance(q.default, bool) else q.default + 1 if isinstance(q.default, int) else q.default * 0.7
            return 'option ' + q.name, clone(a), dict(clone(k), **{q.name: v})
        try:
            na, nk = mapped(whole, f)
        except Exception:
            continue
        if snap((na, nk)) != snap((a, k)):
            return kind, na, nk
    return None, None, None


def in_child(fn):
    """fn() computed in a fork of this process, which leaves this one's memory as it was."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.alarm(100)
            os.close(r)
            try:
                out = pickle.dumps(fn())
            except Exception as e:
                out = pickle.dumps(('child', repr(e)))
            with os.fdopen(w, 'wb') as f:
                f.write(out)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    finally:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('child', 'nothing')


def plainly(fn, a, k, seed):
    np.random.seed(seed)
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            return ('ok', fn(*a, **k))
    except Exception as e:
        return ('raised', type(e).__name__)


def portable(x):
    """What survives pickling, with fitted models reduced to their parameters."""
    if isinstance(x, dict):
        return {k: portable(v) for k, v in x.items()}
    if isinstance(x, (tuple, list)):
        return tuple(portable(v) for v in x) if isinstance(x, tuple) else [portable(v) for v in x]
    if hasattr(x, 'params') and not isinstance(x, (pd.Series, pd.DataFrame)):
        return np.asarray(x.params, float)
    return x


def workflow(inp, args, step, cfg, case):
    ta = rdtools.TrendAnalysis(**{k: v for k, v in inp.items()})
    ta.set_clearsky(**args)
    c14.configure(np.random.default_rng(cfg), Monitor(), ta, c13.align(inp), step)
    getattr(ta, case + '_analysis')(analyses=[])
    return outcome(ta, case)


def neighbours(rng, mon):
    """A call's answer does not depend on a nearly identical call having come first."""
    if chance(rng, 0.12):
        step = 60
        inp, args, *_ = c14.build(rng, Monitor(), int(pick(rng, [6, 10])), step, pick(rng, ['UTC', 'US/Mountain']))
        spec = ('TrendAnalysis', workflow, (inp, args), dict(step=step, cfg=7, case=pick(rng, ['sensor', 'clearsky', 'clearsky'])), False)
    else:
        r = rng.random()
        if r < 0.1:
            spec = sp_tamb(rng)
        elif r < 0.2:
            s = day_series(rng, n=800, zone='UTC')
            spec = ('hour_angle_filter', rdtools.hour_angle_filter, (s, float(rng.uniform(-50, 50)), float(rng.uniform(-170, 170))), {}, False)
        else:
            spec = draw(rng)
        if 'xgboost' in spec[0] or spec[3].get('model') == 'xgboost':
            return          # its threads do not survive a fork
    name, fn, a, k, stochastic = spec
    kind, na, nk = neighbour(rng, spec)
    if kind is None or (name == 'TrendAnalysis' and set(nk) == set(k) and (nk['step'], nk['cfg']) != (k['step'], k['cfg'])):
        return
    seed = int(rng.integers(2**31))
    alone = in_child(lambda: portable(plainly(fn, clone(na), clone(nk), seed)))
    if alone[0] == 'child':
        mon.ev('neighbour_lost')
        return
    base = plainly(fn, clone(a), clone(k), seed)
    base = portable((base[0], copy.deepcopy(base[1])))
    after = portable(plainly(fn, clone(na), clone(nk), seed))
    compare(mon, name, alone, after, 'another answer when a similar call (differing in %s) was made before' % kind.split()[0],
            differs_in=kind, kwargs=[k, nk])
    again = portable(plainly(fn, clone(a), clone(k), seed))
    compare(mon, name, base, again, 'another answer after a similar call (differing in %s)' % kind.split()[0], differs_in=kind, kwargs=[k, nk])
    changed = base[0] != after[0] or equal(base[1], after[1]) is not None
    mon.ev('neighbours')
    mon.ev('neighbours_that_matter', changed and after[0] == 'ok')
    mon.ev('neighbours_' + kind.split()[0], after[0] == 'ok')
    mon.sig('neighbour', name, kind, changed)


# ---- another process -------------------------------------------------------
def canon(x):
    """JSON-able digest with rounded floats."""
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))}
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, pd.DataFrame):
        return {'index': canon(x.index), 'cols': {str(c): canon(x.iloc[:, j].to_numpy()) for j, c in enumerate(x.columns)}}
    if isinstance(x, pd.Series):
        return {'index': canon(x.index), 'name': repr(x.name), 'v': canon(x.to_numpy())}
    if isinstance(x, pd.DatetimeIndex):
        return [str(x.tz), int(np.bitwise_xor.reduce(x.asi8)) if len(x) else 0, len(x)]
    if isinstance(x, pd.Index):
        return [str(v) for v in x]
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'f':
            return [None if np.isnan(v) else float(v) for v in x.ravel()]
        return [canon(v) if not isinstance(v, (bool, np.bool_)) else bool(v) for v in x.ravel()]
    if isinstance(x, (float, np.floating)):
        return None if np.isnan(x) else float(x)
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if hasattr(x, 'params'):
        return canon(np.asarray(x.params, float))
    return str(x) if isinstance(x, (str, pd.Timestamp, pd.Timedelta, type(None))) else type(x).__name__


def jsame(a, b, path=''):
    if isinstance(a, float) and isinstance(b, (float, int)) and not isinstance(b, bool):
        return None if np.isclose(a, b, rtol=1e-7, atol=1e-9) or a == b else '%s: %r != %r' % (path, a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return path + ': keys'
        for k in a:
            d = jsame(a[k], b[k], path + '/' + k)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return path + ': length'
        for i, (x, y) in enumerate(zip(a, b)):
            d = jsame(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    return None if a == b else '%s: %.60r != %.60r' % (path, a, b)


def batch(seed, n, order):
    """n specimens derived from seed, called in the given order; their canonical results."""
    out = {}
    specs = []
    for i in range(n):
        r = np.random.default_rng([seed, i])
        specs.append((draw(r), int(r.integers(2**31))))
    for i in order:
        (name, fn, a, k, stochastic), s = specs[i]
        np.random.seed(s)
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                out[i] = [name, 'ok', canon(fn(*a, **k))]
        except Exception as e:
            out[i] = [name, 'raised', type(e).__name__]
    return [out[i] for i in range(n)]


def fresh_process(rng, mon):
    n = 8
    seed = int(rng.integers(2**31))
    order = [int(i) for i in rng.permutation(n)]
    here = batch(seed, n, order)
    code = ('import json,sys\nfrom rv.props import c23\n'
            'sys.stdout.write("RESULT" + json.dumps(c23.batch(%d, %d, list(range(%d)))))' % (seed, n, n))
    e = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 10**6))), RV_REPO=core.REPO, OMP_NUM_THREADS='2')
    e['PYTHONPATH'] = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    p = subprocess.run([sys.executable, '-B', '-c', code], capture_output=True, text=True, env=e, timeout=200,
                       cwd=e['PYTHONPATH'])
    if 'RESULT' not in p.stdout:
        raise RuntimeError('child process failed: ' + p.stderr[-1500:])
    there = json.loads(p.stdout.split('RESULT', 1)[1])
    here = json.loads(json.dumps(here))
    for a, b in zip(here, there):
        d = jsame(a, b)
        mon.ok(d is None, '%s gives another answer in a fresh process' % a[0], where=d, order=order)
        mon.ev('fresh_process')
    mon.sig('fresh', tuple(x[0] for x in here))


WORKLOADS = [(functions, 260, 4000), (stream, 30, 300), (trend, 40, 500), (trend_yoy, 8, 80), (srr_object, 16, 200),
             (avail_object, 24, 300), (cods_object, 6, 60), (plots, 30, 300), (yoy_block, 2, 10), (fresh_process, 5, 60),
             (neighbours, 700, 8000)]
