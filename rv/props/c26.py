"""C26: an option means the same whichever way it is given, and leaving it out means its documented default."""
import ast
import contextlib
import io
import re
import warnings

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt   # noqa: E402
from matplotlib.colors import to_rgba   # noqa: E402
import numpy as np   # noqa: E402
import pandas as pd   # noqa: E402

from rv import env, soil   # noqa: E402
from rv.core import Monitor   # noqa: E402
from rv.gen import pick, chance   # noqa: E402

rdtools = env.load()
from rdtools import plotting, soiling, bootstrap, normalization   # noqa: E402
from rdtools.analysis_chains import TrendAnalysis   # noqa: E402
from rdtools.availability import AvailabilityAnalysis   # noqa: E402
from rv.props import c10, c11, c12, c13, c14, c19, c23   # noqa: E402,F401

PROPERTY = 'C26'
TECHNIQUE = 'runtime monitoring: every public function is executed with options omitted, given by keyword, by position and through its wrappers under the same random state, and an online comparator checks that the outcomes agree'
RULE = ('a case is a public function (or workflow) with generated data, executed with its options left out, with a random subset of the documented '
        'defaults given by keyword, with them given by position in the documented order, or with other values given by keyword and by position / '
        'through the wrapper and directly. Distinct: function, way, options')
ASSUMPTIONS = ['the documented defaults are listed in this check, as are the documented order of parameters',
               'the data are random, so that another default (a limit, a window, a quantile) shows in the outcome; an iteration limit that is never '
               'reached does not show']
REQUIRED = {'compared': 1200, 'keyword': 500, 'position': 300, 'options': 300, 'figures': 40, 'trend': 15, 'clearsky_setup': 10,
            'wrapper': 25, 'cods': 4, 'warned': 10, 'documented': 100}

DAY7 = pd.Timedelta('7d')
MISSING = object()


@contextlib.contextmanager
def entropy(seed):
    """Fresh generators draw from a known seed, too."""
    orig = np.random.default_rng
    np.random.default_rng = lambda s=None: orig(seed if s is None else s)
    try:
        yield
    finally:
        np.random.default_rng = orig


def run(fn, seed, a, k):
    np.random.seed(seed)
    with entropy(seed),  warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = ('ok', fn(*c23.clone(a), **c23.clone(k)))
        except Exception as e:
            return ('raised', type(e).__name__, str(e)[:200])
    return r + (sorted({str(x.message)[:120] for x in w if 'rdtools' in str(x.filename) or 'fraction' in str(x.message)}),)


def judge(mon, name, way, r0, r1, ctx):
    mon.ev('compared')
    mon.ev(way)
    what = {'keyword': '%s: passing the documented defaults by keyword gives another result than leaving them out',
            'position': '%s: passing the documented defaults by position gives another result than leaving them out',
            'options': '%s: the same options by position and by keyword give different results',
            'wrapper': '%s: the wrapper gives another result than the method it wraps'}.get(way, '%s: ' + way) % name
    if r0[0] == 'raised' or r1[0] == 'raised':
        mon.ok(r0[:2] == r1[:2], what, outcomes=[r0 if r0[0] == 'raised' else 'ok', r1 if r1[0] == 'raised' else 'ok'], **ctx)
        mon.ev('refused_alike')
        return
    d = c23.equal(r0[1], r1[1])
    mon.ok(d is None, what, where=d, first=r0[1], second=r1[1], **ctx)
    if len(r0) > 2 and len(r1) > 2 and way != 'wrapper':
        mon.eq(r0[2], r1[2], what + ' (warnings)', **ctx)
        mon.ev('warned', bool(r0[2]))
    mon.sig(name, way, str(ctx)[:120])


# ------------------------------------------------------------------ data
def noisy(rng, n=300, lo=0.0, hi=1.0):
    idx = pd.date_range(pick(rng, ['2016-02-10', '2019-07-01']), periods=n, freq=pick(rng, ['15min', 'h', 'D']), tz=pick(rng, ['UTC', 'US/Mountain']))
    return pd.Series(rng.uniform(lo, hi, n), index=idx)


def clear_pair(rng):
    n = 96 * 6
    idx = pd.date_range('2019-06-01', periods=n, freq='15min', tz='Etc/GMT+7')
    cs = pd.Series(c13.sun(idx), index=idx)
    depth = rng.uniform(0, 0.12, n) * (rng.random(n) < rng.choice([0.02, 0.2, 0.6]))
    slow = 1 + 0.06 * np.sin(np.arange(n) / rng.uniform(6, 30))
    return cs * slow * (1 - depth) + rng.normal(0, 3, n), cs


def daily(rng, n=None):
    n = n or int(pick(rng, [120, 300]))
    idx = pd.date_range('2018-03-01', periods=n, freq='D')
    x = 1 + 0.015 * rng.standard_normal(n) + 0.05 * np.sin(np.arange(n) / 20) + (rng.random(n) < 0.1) * rng.normal(0, 0.1, n)
    return pd.Series(x, index=idx)


def power(rng):
    step = int(pick(rng, [10, 15, 30, 60]))
    n = 8 * 1440 // step
    idx = pd.date_range('2019-05-01', periods=n, freq='%dmin' % step, tz='Etc/GMT+7')
    x = np.minimum(c13.sun(idx) * rng.uniform(0.9, 1.0), rng.uniform(500, 900)) * (1 + (0.004 * rng.standard_normal(n) if chance(rng, 0.7) else 0))
    k = rng.random(n) < 0.2
    x[k] *= rng.uniform(0.6, 1, k.sum())
    return pd.Series(x, index=idx)


def gappy(rng):
    n = 400
    keep = rng.random(n) < float(pick(rng, [0.5, 0.87, 0.9, 0.93, 0.97]))
    keep[0] = True
    idx = pd.date_range('2019-05-01', periods=n, freq='15min', tz='UTC')
    return pd.Series(rng.uniform(0, 100, n), index=idx)[keep]


def holes(rng):
    """A chosen share of the samples follows a long gap."""
    n = 1000
    g = int(round(n * float(pick(rng, [0.05, 0.095, 0.102, 0.104, 0.106, 0.108, 0.115, 0.2]))))
    step = np.full(n, 15)
    step[rng.choice(np.arange(1, n), g, replace=False)] = int(pick(rng, [45, 90]))
    idx = pd.Timestamp('2019-05-01', tz='UTC') + pd.to_timedelta(np.cumsum(step), unit='min')
    return pd.Series(rng.uniform(0, 100, n), index=pd.DatetimeIndex(idx))


def yoy_data(rng):
    n = int(365 * 2.3) + int(rng.integers(0, 30))
    idx = pd.date_range('2015-03-01', periods=n, freq='D')
    return pd.Series(1 - 0.012 * np.arange(n) / 365 + rng.normal(0, 0.03, n), index=idx)


def srr_info(rng):
    for _ in range(30):
        pm, ins, pr = soil.scenario(rng, 400, hostile=False)
        try:
            np.random.seed(int(rng.integers(2**31)))
            _, _, info = soiling.soiling_srr(pm, ins, reps=12, min_interval_length=5)
            return pm, ins, info
        except Exception:
            continue
    return None


# ---------------------------------------------------------------- figures
def drawn(fig):
    """What a figure shows."""
    out = []
    for ax in fig.axes:
        d = dict(xlim=np.array(ax.get_xlim(), float), ylim=np.array(ax.get_ylim(), float), xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(),
                 texts=[t.get_text() for t in ax.texts], title=ax.get_title())
        d['lines'] = [(np.asarray(x.get_xdata(orig=False), float), np.ma.filled(np.ma.asarray(x.get_ydata(orig=False), dtype=float), np.nan),
                       to_rgba(x.get_color(), x.get_alpha()), x.get_linestyle(), str(x.get_marker())) for x in ax.get_lines()]
        d['coll'] = [(np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan) if type(c).__name__ == 'PathCollection'
                      else [p.vertices for p in c.get_paths()], np.asarray(c.get_facecolor()), c.get_alpha()) for c in ax.collections]
        d['bars'] = [(p.get_x(), p.get_width(), p.get_height(), p.get_facecolor()) for p in ax.patches if type(p).__name__ == 'Rectangle']
        out.append(d)
    st = fig._suptitle.get_text() if fig._suptitle is not None else ''
    plt.close('all')
    return dict(axes=out, title=st, size=np.array(fig.get_size_inches(), float))


def shown(fn):
    def f(*a, **k):
        plt.close('all')
        return drawn(fn(*a, **k))
    f.__qualname__ = fn.__name__
    return f


# -------------------------------------------------- the documented defaults
def t_norm(rng):
    pw = power(rng)
    return pw, pw * rng.uniform(0.9, 1.1, len(pw)), pw * 1.2


def table(rng, key):
    """name -> (callable, required arguments, [(option, documented default)] in documented order, other values)"""
    if key == 'normalize_with_expected_power':
        return rdtools.normalize_with_expected_power, t_norm(rng), [('pv_input', 'power')], {'pv_input': ['energy']}
    if key == 'pvwatts_dc_power':
        p = power(rng)
        return normalization.pvwatts_dc_power, (p, 5.0), [('temperature_cell', None), ('poa_global_ref', 1000), ('temperature_cell_ref', 25),
                                                          ('gamma_pdc', None)], \
            {'temperature_cell': [p / 20], 'gamma_pdc': [-0.004], 'poa_global_ref': [900.0], 'temperature_cell_ref': [20.0]}
    if key == 'normalize_with_pvwatts':
        p = power(rng)
        kw = dict(poa_global=p * 1.1, power_dc_rated=4.0, temperature_cell=p / 20, gamma_pdc=-0.004)

        def fn(energy, **more):
            return rdtools.normalize_with_pvwatts(energy, dict(kw, **more))
        return fn, (p,), [('poa_global_ref', 1000), ('temperature_cell_ref', 25)], {}
    if key == 'irradiance_rescale':
        m, cs = clear_pair(rng)
        return rdtools.irradiance_rescale, (m, cs), [('max_iterations', 100), ('method', 'iterative'), ('convergence_threshold', 1e-6)], \
            {'method': ['single_opt'], 'convergence_threshold': [1e-2], 'max_iterations': [3, 50]}
    if key == 'energy_from_power':
        return rdtools.energy_from_power, (gappy(rng),), [('target_frequency', None), ('max_timedelta', None), ('power_type', 'right_labeled')], \
            {'target_frequency': ['h', '15min'], 'max_timedelta': [pd.Timedelta('20min'), pd.Timedelta('2h')], 'power_type': ['instantaneous']}
    if key == 'interpolate':
        s = gappy(rng) if chance(rng, 0.3) else holes(rng)
        if chance(rng, 0.3):
            s = pd.DataFrame({'a': s, 'b': s * 2})
        t = pick(rng, ['15min', 'h', pd.date_range('2019-05-01 00:05', periods=100, freq='20min', tz='UTC')])
        return rdtools.interpolate, (s, t), [('max_timedelta', None), ('warning_threshold', 0.1)], \
            {'max_timedelta': [pd.Timedelta('20min'), pd.Timedelta('40min')], 'warning_threshold': [0.0, 0.01, 0.5, 1.0]}
    if key == 'aggregation_insol':
        p = power(rng)
        return rdtools.aggregation_insol, (p, p * rng.uniform(0.5, 1, len(p))), [('frequency', 'D')], {'frequency': ['h', '2D', 'W']}
    if key == 'degradation_ols':
        return rdtools.degradation_ols, (yoy_data(rng),), [('confidence_level', 68.2)], {'confidence_level': [90.0]}
    if key == 'degradation_classical_decomposition':
        s = yoy_data(rng).resample('MS').mean()
        return rdtools.degradation_classical_decomposition, (s,), [('confidence_level', 68.2)], {'confidence_level': [90.0]}
    if key == 'degradation_year_on_year':
        return rdtools.degradation_year_on_year, (yoy_data(rng),), \
            [('recenter', True), ('exceedance_prob', 95), ('confidence_level', 68.2), ('uncertainty_method', 'simple'), ('block_length', 30)], \
            {'recenter': [False], 'exceedance_prob': [80.0, 97.5], 'confidence_level': [90.0], 'uncertainty_method': [None]}
    if key == 'degradation_year_on_year[circular_block]':
        return (lambda s, **k: rdtools.degradation_year_on_year(s, uncertainty_method='circular_block', **k)), (yoy_data(rng),), \
            [('recenter', True), ('exceedance_prob', 95), ('confidence_level', 68.2), ('block_length', 30)], \
            {'recenter': [False], 'exceedance_prob': [80.0, 97.5], 'confidence_level': [90.0], 'block_length': [60]}
    if key == 'normalized_filter':
        return rdtools.normalized_filter, (noisy(rng, lo=-0.02, hi=0.04),), [('energy_normalized_low', 0.01), ('energy_normalized_high', None)], \
            {'energy_normalized_low': [0.0, 0.02], 'energy_normalized_high': [0.03]}
    if key == 'poa_filter':
        return rdtools.poa_filter, (pd.concat([noisy(rng, lo=150, hi=250), noisy(rng, lo=1150, hi=1250)]),), \
            [('poa_global_low', 200), ('poa_global_high', 1200)], {'poa_global_low': [180], 'poa_global_high': [1180.0]}
    if key == 'tcell_filter':
        return rdtools.tcell_filter, (pd.concat([noisy(rng, lo=-60, hi=-40), noisy(rng, lo=100, hi=120)]),), \
            [('temperature_cell_low', -50), ('temperature_cell_high', 110)], {'temperature_cell_low': [-45], 'temperature_cell_high': [105.0]}
    if key == 'csi_filter':
        s = noisy(rng, lo=500, hi=1000)
        return rdtools.csi_filter, (s, s * rng.uniform(0.8, 1.25, len(s))), [('threshold', 0.15)], {'threshold': [0.1, 0.05]}
    if key == 'clearsky_filter':
        return rdtools.clearsky_filter, clear_pair(rng), [('model', 'pvlib')], {'model': ['csi']}
    if key == 'pvlib_clearsky_filter':
        return rdtools.pvlib_clearsky_filter, clear_pair(rng), \
            [('window_length', 90), ('mean_diff', 75), ('max_diff', 75), ('lower_line_length', -45), ('upper_line_length', 80), ('var_diff', 0.032),
             ('slope_dev', 75), ('lookup_parameters', False)], \
            {'window_length': [60, 120], 'mean_diff': [30], 'max_diff': [40], 'lower_line_length': [-10], 'upper_line_length': [20], 'var_diff': [0.01],
             'slope_dev': [30], 'lookup_parameters': [True]}
    if key == 'clip_filter':
        return rdtools.clip_filter, (power(rng),), [('model', 'logic')], {'model': ['quantile']}
    if key == 'quantile_clip_filter':
        return rdtools.quantile_clip_filter, (power(rng),), [('quantile', 0.98)], {'quantile': [0.9]}
    if key == 'logic_clip_filter':
        return rdtools.logic_clip_filter, (power(rng),), [('mounting_type', 'fixed'), ('rolling_range_max_cutoff', 0.2), ('roll_periods', None)], \
            {'mounting_type': ['single_axis_tracking'], 'rolling_range_max_cutoff': [0.05, 1.0], 'roll_periods': [3, 5]}
    if key == 'xgboost_clip_filter':
        return rdtools.xgboost_clip_filter, (power(rng),), [('mounting_type', 'fixed')], {'mounting_type': ['single_axis_tracking']}
    if key == 'two_way_window_filter':
        return rdtools.two_way_window_filter, (daily(rng),), [('roll_period', DAY7), ('outlier_threshold', 0.03)], \
            {'roll_period': [pd.Timedelta('11d')], 'outlier_threshold': [0.01, 0.06]}
    if key == 'insolation_filter':
        return rdtools.insolation_filter, (daily(rng).abs(),), [('quantile', 0.1)], {'quantile': [0.3]}
    if key == 'hampel_filter':
        return rdtools.hampel_filter, (daily(rng),), [('k', '14d'), ('t0', 3)], {'k': ['7d', 9], 't0': [1, 2.5]}
    if key == 'directional_tukey_filter':
        return rdtools.directional_tukey_filter, (daily(rng),), [('roll_period', DAY7), ('k', 1.5)], {'roll_period': [pd.Timedelta('14d')], 'k': [0.5]}
    if key == 'hour_angle_filter':
        return rdtools.hour_angle_filter, (noisy(rng), float(rng.uniform(-50, 50)), float(rng.uniform(-150, 150))), \
            [('min_hour_angle', -30), ('max_hour_angle', 30)], {'min_hour_angle': [-45, 0], 'max_hour_angle': [10]}
    if key in ('soiling_srr', 'SRRAnalysis'):
        pm, ins, pr = soil.scenario(rng, int(pick(rng, [120, 300, 400])), hostile=chance(rng, 0.5))
        tail = [('day_scale', 13), ('clean_threshold', 'infer'), ('trim', False), ('method', 'half_norm_clean'), ('clean_criterion', 'shift'),
                ('precip_threshold', 0.01), ('min_interval_length', 7), ('exceedance_prob', 95.0), ('confidence_level', 68.2), ('recenter', True),
                ('max_relative_slope_error', 500.0), ('max_negative_step', 0.05), ('outlier_factor', 1.5)]
        other = {'day_scale': [7, 5], 'clean_threshold': [0.01], 'trim': [True], 'method': ['random_clean', 'perfect_clean'],
                 'clean_criterion': ['precip_and_shift', 'precip_or_shift', 'precip'], 'precip_threshold': [1.0], 'min_interval_length': [3, 14],
                 'exceedance_prob': [80.0], 'confidence_level': [90.0], 'recenter': [False], 'max_relative_slope_error': [50.0],
                 'max_negative_step': [0.01], 'outlier_factor': [3.0]}
        if key == 'soiling_srr':
            base = dict(reps=10)
            if chance(rng, 0.5):
                base['precipitation_daily'] = pr
            return (lambda *a, **k: soiling.soiling_srr(*a[:2], **dict(base, **k)) if len(a) == 2 else soiling.soiling_srr(*a, **k)), \
                (pm, ins), tail, other
        given = pr if chance(rng, 0.5) else None

        def fn(*a, **k):
            s = soiling.SRRAnalysis(pm, ins) if given is None else soiling.SRRAnalysis(pm, ins, given)
            out = s.run(*a, **k)
            return out[0], out[1], out[2]
        return fn, (10,), tail, other
    if key == 'annual_soiling_ratios':
        r = srr_info(rng)
        if r is None:
            return None
        return soiling.annual_soiling_ratios, (r[2]['stochastic_soiling_profiles'], r[1]), [('confidence_level', 68.2)], {'confidence_level': [90.0]}
    if key == 'monthly_soiling_rates':
        r = srr_info(rng)
        if r is None:
            return None
        return (lambda *a, **k: soiling.monthly_soiling_rates(*a, **dict(dict(reps=50) if len(a) < 4 else {}, **k))), \
            (r[2]['soiling_interval_summary'],), [('min_interval_length', 14), ('max_relative_slope_error', 500.0)], \
            {'min_interval_length': [5, 25], 'max_relative_slope_error': [30.0]}
    if key == 'robust':
        f = pick(rng, [rdtools.robust_median, rdtools.robust_mean])
        x = np.where(rng.random(300) < 0.3, rng.uniform(0, 0.004, 300), rng.uniform(0.1, 3, 300))
        return f, (pd.Series(x),), [('q', 0.99)], {'q': [0.5]}
    if key == 'get_clearsky_tamb':
        idx = pd.date_range('2019-01-01', periods=800, freq='2h', tz='UTC')
        return rdtools.get_clearsky_tamb, (idx, float(rng.uniform(-50, 60)), float(rng.uniform(-150, 150))), [('window_size', 40), ('gauss_std', 20)], \
            {'window_size': [20], 'gauss_std': [10]}
    if key == 'bootstrap':
        s = yoy_data(rng)[:400]
        seed = int(rng.integers(1000))
        return (lambda *a, **k: bootstrap._make_time_series_bootstrap_samples(*a, **dict(dict(bootstrap_seed=seed, sample_nr=6), **k))), \
            (s, s.rolling(30, min_periods=1).mean()), [('block_length', 90), ('decomposition_type', 'multiplicative')], {}
    if key == 'availability':
        _, _, a, _, _ = c23.sp_avail(rng)

        def fn(*x, **k):
            aa = AvailabilityAnalysis(*c23.clone(a[:4]))
            aa.run(*x, **k)
            return aa.results, aa.loss_total, aa.outage_info, aa.energy_cumulative_corrected
        lim = float(a[0].quantile(0.9)) + 1e-3
        return fn, (), [('low_threshold', None), ('relative_sizes', None), ('power_system_limit', None), ('quantiles', (0.01, 0.99)),
                        ('rollup_period', 'ME')], \
            {'low_threshold': [float(a[1].max().min()) * 0.05], 'power_system_limit': [lim], 'quantiles': [(0.1, 0.8)], 'rollup_period': ['D', 'W'],
             'relative_sizes': [{c: 1.0 + j for j, c in enumerate(a[1].columns)}]}
    raise KeyError(key)


KEYS = ['normalize_with_expected_power', 'pvwatts_dc_power', 'normalize_with_pvwatts', 'irradiance_rescale', 'energy_from_power', 'interpolate',
        'aggregation_insol', 'degradation_ols', 'degradation_classical_decomposition', 'degradation_year_on_year', 'degradation_year_on_year[circular_block]', 'normalized_filter',
        'poa_filter', 'tcell_filter', 'csi_filter', 'clearsky_filter', 'pvlib_clearsky_filter', 'clip_filter', 'quantile_clip_filter',
        'logic_clip_filter', 'xgboost_clip_filter', 'two_way_window_filter', 'insolation_filter', 'hampel_filter', 'directional_tukey_filter',
        'hour_angle_filter', 'soiling_srr', 'SRRAnalysis', 'annual_soiling_ratios', 'monthly_soiling_rates', 'robust', 'get_clearsky_tamb',
        'bootstrap', 'availability']
POSITIONAL = set(KEYS) - {'degradation_year_on_year[circular_block]', 'normalize_with_pvwatts', 'soiling_srr', 'bootstrap'}


def stated(doc, name):
    """The default a docstring states for an option, if it does."""
    m = re.search(r'^[ ]*%s\s*:[^\n]*?\bdefault:?\s+([^\n]+?)\s*$' % re.escape(name), doc or '', re.M)
    if not m:
        return MISSING
    try:
        return ast.literal_eval(m.group(1))
    except (ValueError, SyntaxError):
        return MISSING


def documented(mon, fn, opts, key):
    for name, v in opts:
        d = stated(getattr(fn, '__doc__', None), name)
        if d is MISSING or isinstance(d, (tuple, list)):
            continue
        mon.ok(type(d) is type(v) and d == v or (isinstance(d, (int, float)) and isinstance(v, (int, float)) and not isinstance(v, bool) and d == v),
               '%s documents another default than it uses' % key, option=name, documented=d, used=v)
        mon.ev('documented')


def functions(rng, mon):
    key = KEYS[mon.index_in_workload % len(KEYS)]
    t = table(rng, key)
    if t is None:
        return
    fn, req, opts, other = t
    seed = int(rng.integers(2**31))
    ctx = dict(function=key)
    documented(mon, fn, opts, key)
    r0 = run(fn, seed, req, {})
    sub = {k: v for k, v in opts if chance(rng, 0.7)}
    judge(mon, key, 'keyword', r0, run(fn, seed, req, sub), dict(ctx, given=sorted(sub)))
    if key in POSITIONAL:
        m = int(rng.integers(1, len(opts) + 1))
        judge(mon, key, 'position', r0, run(fn, seed, tuple(req) + tuple(v for _, v in opts[:m]), {}), dict(ctx, given=m))
    # one option at a time: the others keep their defaults
    for _ in range(1 if 'circular_block' in key else 2):
        if not other:
            break
        o = pick(rng, sorted(other))
        v = pick(rng, other[o])
        names = [k for k, _ in opts]
        r1 = run(fn, seed, req, {o: v})
        rest = {k: d for k, d in opts if k != o and chance(rng, 0.6)}
        judge(mon, key, 'keyword', r1, run(fn, seed, req, dict(rest, **{o: v})), dict(ctx, option=o, value=str(v), given=sorted(rest)))
        if key in POSITIONAL and o in names:
            m = names.index(o)
            judge(mon, key, 'options', r1, run(fn, seed, tuple(req) + tuple(d for _, d in opts[:m]) + (v,), {}), dict(ctx, option=o, value=str(v)))
    if key in ('clearsky_filter', 'clip_filter'):
        wrapped(rng, mon, key, req, seed)


def wrapped(rng, mon, key, req, seed):
    """The dispatchers hand every option on."""
    for _ in range(3):
        wrapped_once(rng, mon, key, req, seed)


def wrapped_once(rng, mon, key, req, seed):
    if key == 'clip_filter':
        model, kw = pick(rng, [('logic', dict(rolling_range_max_cutoff=0.05)), ('logic', dict(mounting_type='single_axis_tracking', roll_periods=4)),
                               ('logic', dict(roll_periods=2)), ('logic', dict(roll_periods=10, rolling_range_max_cutoff=0.4)),
                               ('quantile', dict(quantile=0.9)), ('quantile', {}), ('xgboost', dict(mounting_type='single_axis_tracking')), ('xgboost', {})])
        target = {'logic': rdtools.logic_clip_filter, 'quantile': rdtools.quantile_clip_filter, 'xgboost': rdtools.xgboost_clip_filter}[model]
    else:
        model, kw = pick(rng, [('csi', dict(threshold=0.05)), ('csi', {}), ('pvlib', dict(mean_diff=20, window_length=60)), ('pvlib', dict(lookup_parameters=True))])
        target = {'csi': rdtools.csi_filter, 'pvlib': rdtools.pvlib_clearsky_filter}[model]
    fn = {'clip_filter': rdtools.clip_filter, 'clearsky_filter': rdtools.clearsky_filter}[key]
    a = run(fn, seed, req, dict(kw, model=model))
    judge(mon, '%s(%s)' % (key, model), 'wrapper', a, run(target, seed, req, kw), dict(options=kw))
    if model == ('logic' if key == 'clip_filter' else 'pvlib'):
        judge(mon, '%s(%s)' % (key, model), 'wrapper', run(fn, seed, req, kw), a, dict(options=kw))


def soiling_wrapper(rng, mon):
    """soiling_srr is SRRAnalysis; every option is handed on."""
    pm, ins, pr = soil.scenario(rng, int(pick(rng, [120, 300, 400])))
    p = soil.params(rng)
    p.update(reps=int(pick(rng, [5, 12])))
    if chance(rng, 0.6):
        p['method'] = pick(rng, ['half_norm_clean', 'random_clean', 'perfect_clean'])
    if chance(rng, 0.5):
        p['exceedance_prob'] = float(pick(rng, [80.0, 97.5, 50.0]))
    if chance(rng, 0.5):
        p['confidence_level'] = float(pick(rng, [90.0, 50.0, 95]))
    given = chance(rng, 0.6) or 'clean_criterion' in p
    seed = int(rng.integers(2**31))

    def direct():
        s = soiling.SRRAnalysis(pm, ins, pr) if given else soiling.SRRAnalysis(pm, ins)
        return s.run(**p)
    a = run(soiling.soiling_srr, seed, (pm, ins), dict(p, precipitation_daily=pr) if given else p)
    judge(mon, 'soiling_srr', 'wrapper', a, run(direct, seed, (), {}), dict(options=p))
    order = ['reps', 'precipitation_daily', 'day_scale', 'clean_threshold', 'trim', 'method', 'clean_criterion', 'precip_threshold',
             'min_interval_length', 'exceedance_prob', 'confidence_level', 'recenter', 'max_relative_slope_error', 'max_negative_step', 'outlier_factor']
    dflt = dict(precipitation_daily=pr if given else None, day_scale=13, clean_threshold='infer', trim=False, method='half_norm_clean',
                clean_criterion='shift', precip_threshold=0.01, min_interval_length=7, exceedance_prob=95.0, confidence_level=68.2, recenter=True,
                max_relative_slope_error=500.0, max_negative_step=0.05, outlier_factor=1.5)
    full = dict(dflt, **p)
    judge(mon, 'soiling_srr', 'options', a, run(soiling.soiling_srr, seed, (pm, ins) + tuple(full[k] for k in order), {}), dict(options=p))


def figures(rng, mon):
    kind = FIGS[mon.index_in_workload % len(FIGS)]
    seed = int(rng.integers(2**31))
    np.random.seed(seed)
    if kind in ('summary', 'timeseries'):
        s = yoy_data(rng)
        rd, ci, info = rdtools.degradation_year_on_year(s)
        if kind == 'summary':
            fn, req, opts = plotting.degradation_summary_plots, (rd, ci, info, s), \
                [('hist_xmin', None), ('hist_xmax', None), ('bins', None), ('scatter_ymin', None), ('scatter_ymax', None), ('plot_color', None),
                 ('summary_title', None), ('scatter_alpha', 0.5), ('detailed', False)]
            other = dict(hist_xmin=-30.0, hist_xmax=20.0, bins=17, scatter_ymin=0.5, scatter_ymax=1.3, plot_color='r', summary_title='t', scatter_alpha=0.2,
                         detailed=True)
        else:
            fn, req, opts = plotting.degradation_timeseries_plot, (info,), \
                [('rolling_days', 365), ('include_ci', True), ('fig', None), ('plot_color', None), ('ci_color', None)]
            other = dict(rolling_days=380, include_ci=False, plot_color='g', ci_color='y')
    elif kind in ('monte', 'interval', 'rates'):
        r = srr_info(rng)
        if r is None:
            return
        pm, ins, info = r
        fn, req, opts, other = {
            'monte': (plotting.soiling_monte_carlo_plot, (info, pm),
                      [('point_alpha', 0.5), ('profile_alpha', 0.05), ('ymin', None), ('ymax', None), ('profiles', None), ('point_color', None),
                       ('profile_color', 'C1')], dict(point_alpha=0.1, profile_alpha=0.3, ymin=0.4, ymax=1.3, profiles=4, point_color='r', profile_color='g')),
            'interval': (plotting.soiling_interval_plot, (info, pm),
                         [('point_alpha', 0.5), ('profile_alpha', 1), ('ymin', None), ('ymax', None), ('point_color', None), ('profile_color', None)],
                         dict(point_alpha=0.1, profile_alpha=0.3, ymin=0.4, ymax=1.3, point_color='r', profile_color='g')),
            'rates': (plotting.soiling_rate_histogram, (info,), [('bins', None)], dict(bins=7))}[kind]
    else:
        s = power(rng)
        keep = pd.Series(rng.random(len(s)) < 0.6, index=s.index)

        def fn(*a, **k):
            f = rdtools.tune_filter_plot(*a, **k)
            return [(t.name, np.asarray(t.y, float), None if t.x is None else [str(x) for x in t.x[:5]]) for t in f.data]
        req, opts, other = (s, keep), [('display_web_browser', False)], {}
    f = shown(fn) if kind != 'tune' else fn
    r0 = run(f, seed, req, {})
    mon.ok(r0[0] == 'ok', kind + ' could not be drawn', outcome=r0)
    sub = {k: v for k, v in opts if chance(rng, 0.7)}
    judge(mon, kind, 'keyword', r0, run(f, seed, req, sub), dict(given=sorted(sub)))
    judge(mon, kind, 'position', r0, run(f, seed, tuple(req) + tuple(v for _, v in opts), {}), {})
    if other:
        o = pick(rng, sorted(other))
        names = [k for k, _ in opts]
        m = names.index(o)
        judge(mon, kind, 'options', run(f, seed, req, {o: other[o]}),
              run(f, seed, tuple(req) + tuple(v for _, v in opts[:m]) + (other[o],), {}), dict(option=o))
    documented(mon, fn, opts, kind)
    mon.ev('figures')


FIGS = ['summary', 'timeseries', 'monte', 'interval', 'rates', 'tune']
TA_DEFAULTS = [('poa_global', None), ('temperature_cell', None), ('temperature_ambient', None), ('gamma_pdc', None), ('aggregation_freq', 'D'),
               ('pv_input', 'power'), ('windspeed', 0), ('power_expected', None), ('temperature_model', None), ('power_dc_rated', None),
               ('interp_freq', None), ('max_timedelta', None)]


def trend(rng, mon):
    """TrendAnalysis with omitted, explicit and positional settings."""
    step = int(pick(rng, [30, 60]))
    inp, args, loc, tilt, az, albedo, method, give, idx = c14.build(rng, mon, int(pick(rng, [6, 9])), step, 'UTC')
    inp = {k: v for k, v in inp.items() if k == 'pv' or k in dict(TA_DEFAULTS)}
    given = {k: v for k, v in inp.items() if k != 'pv' and not (dict(TA_DEFAULTS)[k] is None and v is None)}
    # settings left at their defaults
    for k in ('windspeed', 'temperature_model', 'gamma_pdc', 'aggregation_freq', 'power_dc_rated'):
        if chance(rng, 0.6):
            given.pop(k, None)
    if given.get('pv_input') == 'power' and chance(rng, 0.7):
        given.pop('pv_input')
    case = pick(rng, ['sensor', 'clearsky'])
    sky = dict(args)
    for k, d in (('albedo', 0.25), ('solar_position_method', 'nrel_numpy')):
        if chance(rng, 0.7):
            sky.pop(k, None)
    csi = chance(rng, 0.5)
    kw = dict(analyses=['srr_soiling'], srr_kwargs=dict(reps=4, day_scale=3, min_interval_length=2)) if chance(rng, 0.3) else dict(analyses=[])
    seed = int(rng.integers(2**31))

    def go(how):
        def f():
            if how == 'omitted':
                ta = TrendAnalysis(c23.clone(inp['pv']), **c23.clone(given))
            elif how == 'position':
                ta = TrendAnalysis(c23.clone(inp['pv']), *[c23.clone(given.get(k, d)) for k, d in TA_DEFAULTS])
            else:
                ta = TrendAnalysis(c23.clone(inp['pv']), **{k: c23.clone(given.get(k, d)) for k, d in TA_DEFAULTS})
                if how == 'full':
                    ta.filter_params = {k: {} for k in ('normalized_filter', 'poa_filter', 'tcell_filter', 'clip_filter', 'clearsky_filter')
                                        if k != 'tcell_filter' or given.get('power_expected') is None}
                    ta.filter_params_aggregated = {'two_way_window_filter': {}}
            if how == 'omitted':
                ta.set_clearsky(**c23.clone(sky))
            else:
                names = ['pvlib_location', 'pv_azimuth', 'pv_tilt', 'poa_global_clearsky', 'temperature_cell_clearsky', 'temperature_ambient_clearsky',
                         'albedo', 'solar_position_method']
                dd = dict(dict.fromkeys(names), albedo=0.25, solar_position_method='nrel_numpy')
                full = dict(dd, **c23.clone(sky))
                if how == 'position':
                    ta.set_clearsky(*[full[k] for k in names])
                else:
                    ta.set_clearsky(**full)
            if csi:
                ta.filter_params['clearsky_filter'] = dict(model='csi')
            if inp.get('pv_input') == 'energy' and 'pv_input' in given:
                del ta.filter_params['clip_filter']
            k = dict(kw)
            fn = getattr(ta, case + '_analysis')
            if how == 'position':
                fn(k['analyses'], {}, k.get('srr_kwargs', {}))
            elif how == 'full':
                fn(analyses=k['analyses'], yoy_kwargs={}, srr_kwargs=k.get('srr_kwargs', {}))
            else:
                fn(**k)
            return c23.outcome(ta, case)
        return run(f, seed, (), {})
    r0 = go('omitted')
    for how in ('position', 'full'):
        judge(mon, case + ' workflow', 'keyword' if how == 'full' else 'position', r0, go(how), dict(given=sorted(given), sky=sorted(sky), analyses=kw['analyses']))
    mon.ev('trend')
    mon.ev('clearsky_setup', case == 'clearsky')
    mon.ev('trend_refused', r0[0] == 'raised')
    mon.ev('trend_ran', r0[0] == 'ok')


def trend_yoy(rng, mon):
    """Both analyses run the year-on-year method unless told otherwise, and hand the options on."""
    n = 24 * 800
    idx = pd.date_range('2015-01-01', periods=n, freq='h', tz='Etc/GMT+7')
    poa = pd.Series(c13.sun(idx), index=idx) * (1 + rng.normal(0, 0.02, n))
    pv = poa * rng.uniform(0.8, 1.2) * (1 - 0.01 * np.arange(n) / 8760) * (1 + rng.normal(0, 0.02, n))
    seed = int(rng.integers(2**31))
    case = pick(rng, ['sensor', 'clearsky'])
    opt = pick(rng, [{}, dict(confidence_level=90.0), dict(exceedance_prob=80), dict(recenter=False), dict(uncertainty_method='circular_block', block_length=20)])

    def go(**kw):
        def f():
            ta = TrendAnalysis(pv, poa_global=poa, temperature_cell=poa * 0 + 30.0)
            if case == 'clearsky':
                ta.set_clearsky(poa_global_clearsky=pd.Series(c13.sun(idx), index=idx), temperature_cell_clearsky=poa * 0 + 30.0)
                ta.filter_params['clearsky_filter'] = dict(model='csi')
            getattr(ta, case + '_analysis')(**kw)
            return c23.outcome(ta, case)
        return run(f, seed, (), {})
    k = dict(yoy_kwargs=opt) if opt or chance(rng, 0.5) else {}
    r0 = go(**k)
    mon.ok(r0[0] == 'ok' and set(r0[1]['results']) == {'yoy_degradation'}, 'year-on-year degradation is what is run by default', outcome=r0)
    judge(mon, case + ' workflow', 'keyword', r0, go(analyses=['yoy_degradation'], yoy_kwargs=opt, srr_kwargs={}), dict(options=opt))
    # the same numbers as the function gives with these options
    res = r0[1]['results']['yoy_degradation']
    np.random.seed(seed)
    want = run(rdtools.degradation_year_on_year, seed, (r0[1]['aggregated_performance'],), opt)
    if want[0] == 'ok' and 'aggregated_performance' in r0[1]:
        mon.ev('yoy_handed_on')
        w = want[1] if isinstance(want[1], tuple) else None
        if w is not None and len(w) == 3:
            mon.close(res['p50_rd'], w[0], 'options of the year-on-year method are handed on: rate')
            mon.close(np.asarray(res['rd_confidence_interval'], float), np.asarray(w[1], float), 'options of the year-on-year method are handed on: interval')
    mon.ev('trend')


def cods(rng, mon):
    """CODS: the decomposition and the bootstrap with omitted and explicit settings."""
    pi, _, _, _ = c19.series(rng, n=735)
    defaults = dict(order=('SR', 'SC', 'Rd'), degradation_method='YoY', max_iterations=18, cleaning_sensitivity=0.5, convergence_criterion=5e-3,
                    pruning_iterations=1, clean_pruning_sensitivity=0.6, soiling_significance=0.75, process_noise=1e-4, renormalize_SR=None, ffill=True,
                    clip_soiling=True, verbose=False)
    base = pick(rng, [{}, dict(max_iterations=4), dict(order=('SC', 'SR', 'Rd'), max_iterations=3)])

    def fn(*a, **k):
        c = soiling.CODSAnalysis(pi.copy())
        df, r = c.iterative_signal_decomposition(*a, **k)
        return df, {x: r[x] for x in r if x in ('degradation', 'soiling_loss', 'residual_shift', 'RMSE', 'small_soiling_signal', 'converged')}
    seed = int(rng.integers(2**31))
    r0 = run(fn, seed, (), base)
    full = dict(defaults, **base)
    judge(mon, 'iterative_signal_decomposition', 'keyword', r0, run(fn, seed, (), {k: v for k, v in full.items() if k in base or chance(rng, 0.7)}),
          dict(base=base))
    judge(mon, 'iterative_signal_decomposition', 'position', r0, run(fn, seed, tuple(full.values()), {}), dict(base=base))
    judge(mon, 'iterative_signal_decomposition', 'progress messages change the result', r0, run(fn, seed, (), dict(base, verbose=True)), dict(base=base))
    mon.ev('cods')


def cods_bootstrap(rng, mon):
    pi, _, _, _ = c19.series(rng, n=735)
    seed = int(rng.integers(2**31))
    d = dict(confidence_level=68.2, degradation_method='YoY', process_noise=1e-4, order_alternatives=(('SR', 'SC', 'Rd'), ('SC', 'SR', 'Rd')),
             cleaning_sensitivity_alternatives=(.25, .75), clean_pruning_sensitivity_alternatives=(1 / 1.5, 1.5), forward_fill_alternatives=(True, False),
             verbose=False)

    def fn(*a, **k):
        c = soiling.CODSAnalysis(pi.copy())
        df, deg, loss = c.run_bootstrap(*a, **dict(k, bootstrap_seed=seed))
        return df, deg, loss
    few = dict(order_alternatives=(('SR', 'SC', 'Rd'),), cleaning_sensitivity_alternatives=(.25,), clean_pruning_sensitivity_alternatives=(1.5,),
               forward_fill_alternatives=(True,))
    small = dict(few)
    free = pick(rng, sorted(few))          # this one keeps its default
    small.pop(free)
    reps = 2
    r0 = run(fn, seed, (reps,), small)
    judge(mon, 'run_bootstrap', 'keyword', r0, run(fn, seed, (reps,), dict(d, **small)), dict(free=free))
    judge(mon, 'run_bootstrap', 'position', r0, run(fn, seed, (reps,) + tuple(dict(d, **small).values()), {}), dict(free=free))
    judge(mon, 'run_bootstrap', 'progress messages change the result', r0, run(fn, seed, (reps,), dict(small, verbose=True)), dict(free=free))
    mon.ev('cods_bootstrap')


WORKLOADS = [(functions, 330, 6000), (soiling_wrapper, 40, 800), (figures, 54, 600), (trend, 24, 400), (trend_yoy, 3, 30), (cods, 8, 100),
             (cods_bootstrap, 2, 24)]
