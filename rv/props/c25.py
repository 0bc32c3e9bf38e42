"""C25: results depend on what the data say, not on how they are written down."""
import contextlib
import inspect
import io
import types
import zoneinfo

import numpy as np
import pandas as pd

from rv import env, gen
from rv.core import Monitor
from rv.gen import pick, chance

rdtools = env.load()
from rdtools import soiling   # noqa: E402
from rv.props import c13, c14, c19, c23   # noqa: E402

PROPERTY = 'C25'
TECHNIQUE = 'runtime monitoring: every public function and workflow is executed on several representations of the same data and an online comparator checks that the results agree'
RULE = ('a case is a call of a public function or workflow with generated inputs, repeated with the same inputs written down differently: '
        'index resolution (s, ms, us), names, frequency attribute, time zone object, read-only or strided memory, integer dtype, column order, '
        'units scaled by a power of two, the calendar shifted by 28 years. Distinct: function, representation, options')
ASSUMPTIONS = ['results are compared with relative tolerance 1e-9, masks exactly, both after removing names, resolution and frequency attributes',
               'units are scaled by powers of two so that the arithmetic is the same; the calendar repeats after 28 years between 1901 and 2099 '
               'in zones without daylight saving']
REQUIRED = {'compared': 1500, 'us': 150, 's': 100, 'names': 150, 'named': 500, 'zone': 60, 'readonly': 150, 'strided': 150, 'withfreq': 60,
            'integer': 80, 'columns': 10, 'scaled': 60, 'shifted': 80, 'workflows': 20, 'cods': 6}

# documented to need the frequency attribute (or to behave differently with it)
NEEDS_FREQ = {'degradation_classical_decomposition', 'pvlib_clearsky_filter', 'clearsky_filter', 'soiling_srr', 'CODS', 'workflow'}
YEARS28 = pd.Timedelta(days=10227)


def walk(x, f):
    if isinstance(x, (pd.Series, pd.DataFrame)):
        return f(x)
    if isinstance(x, pd.DatetimeIndex):
        return f(pd.Series(0.0, index=x)).index
    if isinstance(x, dict):
        return {k: walk(v, f) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(walk(v, f) for v in x)
    return x


def with_index(x, idx):
    y = x.copy()
    y.index = idx
    return y


def unit(u):
    def f(x):
        i = x.index
        if not isinstance(i, pd.DatetimeIndex) or (i.asi8 % {'s': 10**9, 'ms': 10**6, 'us': 10**3}[u]).any():
            return x
        return with_index(x, i.as_unit(u))
    return f


NAMES = ['what', 'clearsky', 'measured', 'energy_Wh', 'value', 'poa_global', 'index', 'center', 'date', 'pi', 'insol', 'precip', 'dt', 'power',
         'scaled_value', 'yoy', 0, 'soiling_ratio', 'temperature', 'month', 'energy']
LABELS = ['when', 'date', 'datetime', 'index', 'month', 'year', 'time', 'level_0', 'timestamp', 'Local']


def names(rng):
    label = pick(rng, LABELS)           # one index name for all inputs, any column name for each

    def f(x):
        y = x.copy()
        if isinstance(x.index, pd.DatetimeIndex):
            y.index = x.index.rename(label)
        if isinstance(y, pd.Series):
            y.name = pick(rng, NAMES)
        return y
    return f


def withfreq(x):
    i = x.index
    if isinstance(i, pd.DatetimeIndex) and i.freq is None and len(i) > 2:
        try:
            return with_index(x, pd.DatetimeIndex(i, freq='infer'))
        except ValueError:
            pass
    return x


def zone(x):
    i = x.index
    if isinstance(i, pd.DatetimeIndex) and i.tz is not None and str(i.tz) in zoneinfo.available_timezones():
        return with_index(x, i.tz_convert(zoneinfo.ZoneInfo(str(i.tz))))
    return x


def readonly(x):
    if isinstance(x, pd.Series) and x.dtype.kind == 'f':
        v = x.to_numpy().copy()
        v.flags.writeable = False
        return pd.Series(v, index=x.index, name=x.name, copy=False)
    return x


def strided(x):
    if isinstance(x, pd.Series) and x.dtype.kind == 'f':
        v = np.full((len(x), 3), -7.0)
        v[:, 1] = x.to_numpy()
        return pd.Series(v[:, 1], index=x.index, name=x.name, copy=False)
    if isinstance(x, pd.DataFrame) and all(t.kind == 'f' for t in x.dtypes):
        return pd.DataFrame(np.asfortranarray(x.to_numpy()) if x.to_numpy().flags.c_contiguous else np.ascontiguousarray(x.to_numpy()),
                            index=x.index, columns=x.columns, copy=False)
    return x


def shifted(x):
    if isinstance(x, (pd.Series, pd.DataFrame)) and not isinstance(x.index, pd.DatetimeIndex):
        y = x.copy()
        for c in (y.columns if isinstance(y, pd.DataFrame) else []):
            if isinstance(y[c].dtype, pd.DatetimeTZDtype) or y[c].dtype.kind == 'M':
                y[c] = y[c] + YEARS28
        return y
    if isinstance(x.index, pd.DatetimeIndex):
        i = x.index + YEARS28
        if x.index.freq is not None and i.freq is None:
            i = pd.DatetimeIndex(i, freq=x.index.freq)
        return with_index(x, i)
    return x


def strip(x, back=False):
    """The data without their representation."""
    if isinstance(x, pd.Series):
        v = x
        if isinstance(x.dtype, pd.DatetimeTZDtype) or x.dtype.kind == 'M':
            v = strip(pd.DatetimeIndex(x), back)
        elif x.dtype.kind == 'm':
            v = x.astype('timedelta64[ns]')
        elif x.dtype.kind in 'iu':
            v = x.astype(float)
        return pd.Series(np.asarray(v), index=strip(x.index, back))
    if isinstance(x, pd.DataFrame):
        if back and 'year' in x.columns:
            x = x.assign(year=x['year'] - 28)
        return {'index': strip(x.index, back), **{repr(c): strip(x.iloc[:, j].reset_index(drop=True), back) for j, c in enumerate(x.columns)}}
    if isinstance(x, pd.DatetimeIndex):
        i = x.as_unit('ns')
        i = i if i.tz is None else i.tz_convert('UTC')
        if back:
            i = i - YEARS28
        return pd.DatetimeIndex(np.asarray(i.values), freq=None)
    if isinstance(x, pd.Index):
        if back and x.dtype.kind in 'iu' and len(x) and x.min() > 1900:      # calendar years
            x = x - 28
        return x.rename(None)
    if isinstance(x, pd.Timestamp):
        x = x.as_unit('ns')
        x = x if x.tz is None else x.tz_convert('UTC').tz_localize(None)
        return pd.Timestamp(x.value - (YEARS28.value if back else 0))
    if isinstance(x, pd.Timedelta):
        return pd.Timedelta(x.value)
    if isinstance(x, dict):
        return {k: strip(v, back) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(strip(v, back) for v in x)
    if isinstance(x, np.ndarray) and x.dtype.kind in 'iu':
        return x.astype(float)
    return x


def call(fn, seed, a, k):
    np.random.seed(seed)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return ('ok', fn(*a, **k))
    except Exception as e:
        return ('raised', type(e).__name__, str(e)[:200])


def judge(mon, name, how, r0, r1, back=False, **ctx):
    mon.ev('compared')
    mon.ev(how)
    what = '%s gives another answer when the data are the same but written down differently (%s)' % (name, how)
    if r0[0] == 'raised' or r1[0] == 'raised':
        mon.ok(r0[:2] == r1[:2], what, outcomes=[r0 if r0[0] == 'raised' else 'ok', r1 if r1[0] == 'raised' else 'ok'], **ctx)
        mon.ev('refused_alike')
        return
    try:
        d = c23.equal(strip(r0[1]), strip(r1[1], back))
    except (ValueError, OverflowError) as e:
        d = 'unusable result: %r' % e
    mon.ok(d is None, what, where=d, first=r0[1], second=r1[1], **ctx)
    mon.sig(name, how, str(sorted(ctx.get('kwargs', {})))[:80])


REPS = {'us': unit('us'), 'ms': unit('ms'), 's': unit('s'), 'names': None, 'zone': zone, 'readonly': readonly, 'strided': strided,
        'withfreq': withfreq}


def rep(rng, how):
    return names(rng) if how == 'names' else REPS[how]


def dictionary(fn, depth=2, seen=None):
    """Short strings the code of fn mentions (as a fuzzer's dictionary: names that could collide with the code's own)."""
    seen = set() if seen is None else seen
    out = set()

    def consts(code):
        for c in code.co_consts:
            for v in (c if isinstance(c, tuple) else (c,)):
                if isinstance(v, str) and 0 < len(v) <= 24 and v.isidentifier():
                    out.add(v)
                elif isinstance(v, types.CodeType):
                    consts(v)
    code = getattr(fn, '__code__', None)
    if code is None or fn in seen:
        return out
    seen.add(fn)
    consts(code)
    if depth:
        for n in code.co_names:
            g = fn.__globals__.get(n)
            if inspect.isfunction(g) and g.__module__.startswith(('rdtools', 'rv')):
                out |= dictionary(g, depth - 1, seen)
            elif inspect.isclass(g) and g.__module__.startswith('rdtools'):
                for m in vars(g).values():
                    if inspect.isfunction(m):
                        out |= dictionary(m, depth - 1, seen)
            elif inspect.ismodule(g) and g.__name__.startswith('rdtools'):
                for m in code.co_names:
                    if inspect.isfunction(getattr(g, m, None)):
                        out |= dictionary(getattr(g, m), depth - 1, seen)
    return out


def named(rng, mon):
    """Series and index names that collide with names the code itself uses."""
    spec = pick(rng, sorted(set(c23.SPECIMENS), key=lambda f: f.__name__))
    name, fn, a, k, stochastic = spec(rng)
    own = sorted(dictionary(fn, 0))
    words = pick(rng, [NAMES, sorted(dictionary(fn)) + NAMES, own, own])
    if len(words) < 2:
        words = NAMES
    seed = int(rng.integers(2**31))
    r0 = call(fn, seed, c23.clone(a), c23.clone(k))
    for _ in range(5):
        label = pick(rng, words + LABELS)
        used = {}

        def f(x):
            y = x.copy()
            if isinstance(x.index, pd.DatetimeIndex):
                y.index = x.index.rename(label)
            if isinstance(y, pd.Series):
                y.name = pick(rng, words)
                used[len(used)] = y.name
            return y
        judge(mon, name, 'named', r0, call(fn, seed, walk(c23.clone(a), f), walk(c23.clone(k), f)), kwargs=k, names=used, index=label)


def changed(a, b):
    """The representation really is another one."""
    fa, fb = [], []
    walk(a, lambda x: fa.append((str(x.index.dtype), repr(type(getattr(x.index, 'tz', None))), x.index.name, getattr(x, 'name', None),
                                 str(getattr(x.index, 'freq', None)))) or x)
    walk(b, lambda x: fb.append((str(x.index.dtype), repr(type(getattr(x.index, 'tz', None))), x.index.name, getattr(x, 'name', None),
                                 str(getattr(x.index, 'freq', None)))) or x)
    return fa != fb


def functions(rng, mon):
    name, fn, a, k, stochastic = c23.draw(rng)
    seed = int(rng.integers(2**31))
    r0 = call(fn, seed, c23.clone(a), c23.clone(k))
    for how in rng.permutation(sorted(REPS))[:5]:
        how = str(how)
        if how == 'withfreq' and name in NEEDS_FREQ:
            continue
        if how == 'us' and chance(rng, 0.3) and name != 'AvailabilityAnalysis':     # which refuses indexes that differ        # only some of the inputs
            a2, k2 = tuple(walk(v, REPS[how]) if chance(rng, 0.5) else c23.clone(v) for v in a), c23.clone(k)
        else:
            f = rep(rng, how)
            a2, k2 = walk(c23.clone(a), f), walk(c23.clone(k), f)
        if how not in ('readonly', 'strided') and not changed((a, k), (a2, k2)):
            continue
        judge(mon, name, how, r0, call(fn, seed, a2, k2), kwargs=k)
    mon.ev('specimens')


def integer(rng, mon):
    """Whole numbers as integers or as floats."""
    for _ in range(20):
        name, fn, a, k, stochastic = c23.draw(rng)
        if name not in ('annual_soiling_ratios', 'monthly_soiling_rates', 'get_clearsky_tamb', 'robust_quantile',
                        'pvlib_clearsky_filter', 'clearsky_filter'):      # pvlib refuses integers
            break
    scale = 1.0 if name in ('poa_filter', 'csi_filter', 'tcell_filter', 'clearsky_filter', 'pvlib_clearsky_filter', 'irradiance_rescale') else 1000.0

    def whole(x):
        if isinstance(x, pd.Series):
            return x if x.dtype.kind != 'f' else (x * scale).fillna(7).clip(-1e12, 1e12).round()
        return x if not all(t.kind == 'f' for t in x.dtypes) else (x * scale).fillna(7).round()

    def as_int(x):
        if isinstance(x, pd.Series):
            return x.astype('int64') if x.dtype.kind == 'f' else x
        return x.astype('int64') if all(t.kind == 'f' for t in x.dtypes) else x
    a, k = walk(a, whole), walk(k, whole)
    seed = int(rng.integers(2**31))
    judge(mon, name, 'integer', call(fn, seed, c23.clone(a), c23.clone(k)), call(fn, seed, walk(a, as_int), walk(k, as_int)), kwargs=k)


def columns(rng, mon):
    """The order of the columns does not matter."""
    name, fn, a, k, _ = c23.sp_avail(rng)
    p = rng.permutation(a[1].shape[1])
    b = (a[0], a[1].iloc[:, p]) + a[2:]
    judge(mon, name, 'columns', call(fn, 0, c23.clone(a), {}), call(fn, 0, b, {}))


def yoy(s, **kw):
    rd, ci, info = rdtools.degradation_year_on_year(s, **kw)
    return rd, ci, info['YoY_values'], info['usage_of_points'], info.get('exceedance_level')


def srr(pm, ins, **kw):
    sr, ci, info = soiling.soiling_srr(pm, ins, **kw)
    t = info['soiling_interval_summary']
    return sr, ci, info['exceedance_level'], t, info['stochastic_soiling_profiles']


def scaled(rng, mon):
    """Other units: results that are ratios stay, the others scale."""
    c = float(pick(rng, [2.0 ** -10, 0.5, 2.0, 1024.0, 2.0 ** 20]))
    kind = pick(rng, ['energy', 'interp', 'norm', 'insol', 'yoy', 'srr', 'avail', 'window', 'hampel', 'tukey', 'csi', 'clip', 'ols'])
    seed = int(rng.integers(2**31))
    mul = 1.0
    if kind == 'energy':
        name, fn, a, k, _ = c23.sp_energy(rng)
        b, mul = (a[0] * c,), c
    elif kind == 'interp':
        name, fn, a, k, _ = c23.sp_interp(rng)
        b, mul = (a[0] * c,) + a[1:], c
    elif kind == 'norm':
        name, fn, a, k, _ = c23.sp_expected(rng)
        b = (a[0] * c, a[1] * c, a[2])
    elif kind == 'insol':
        name, fn, a, k, _ = c23.sp_aggregate(rng)
        b = (a[0], a[1] * c) + a[2:]
    elif kind == 'yoy':
        s = c23.daily(rng, 2.5)
        s = s.where(s > 0.05)         # the robust median looks for values near zero
        name, fn, a, k = 'degradation_year_on_year', yoy, (s,), dict(recenter=True)
        c = float(pick(rng, [0.5, 2.0, 1024.0]))
        b = (s * c,)
    elif kind == 'srr':
        name, fn, a, k, _ = c23.sp_srr(rng)
        k['recenter'] = True
        fn = srr
        b = (a[0] * c, a[1] * pick(rng, [1.0, 4.0]))
    elif kind == 'avail':
        name, fn, a, k, _ = c23.sp_avail(rng)
        c = float(pick(rng, [c, 2.0 ** -17, 2.0 ** -24]))
        b, mul = tuple(x * c for x in a[:4]) + a[4:], c
    elif kind == 'ols':
        name, fn, a, k, _ = c23.sp_ols(rng)

        def fn(s, conf):
            rd, ci, info = rdtools.degradation_ols(s, conf)
            return rd, ci, info['rmse'] / info['intercept']
        b = (a[0] * c,) + a[1:]
    else:
        fn = {'window': rdtools.two_way_window_filter, 'hampel': rdtools.hampel_filter, 'tukey': rdtools.directional_tukey_filter,
              'csi': rdtools.csi_filter, 'clip': rdtools.logic_clip_filter}[kind]
        name, k = fn.__name__, {}
        if kind == 'csi':
            s = c23.day_series(rng)
            a = (s, c23.other(rng, s, 1.0))
        elif kind == 'clip':
            _, _, a, k, _ = c23.sp_clip(rng)
            k = {x: v for x, v in k.items() if x == 'mounting_type'}
            c = max(c, 0.5)
        else:
            a = (c23.daily(rng, 1.0),)
        b = tuple(x * c for x in a)
    r0, r1 = call(fn, seed, c23.clone(a), c23.clone(k)), call(fn, seed, b, c23.clone(k))
    if mul != 1.0 and r0[0] == r1[0] == 'ok':
        r0, r1 = ('ok', in_units(r0[1], mul)), ('ok', in_units(r1[1], 1.0))
    judge(mon, name, 'scaled', r0, r1, kwargs=k, factor=c)


RATIOS = ('availability', 'error_lower', 'error_upper', 'intervals', 'daylight_intervals')


def in_units(x, c):
    if isinstance(x, tuple):
        return tuple(in_units(v, c) for v in x)
    if isinstance(x, pd.DataFrame):
        y = x.copy()
        for j in y.columns:
            if y[j].dtype.kind == 'f' and j not in RATIOS:
                y[j] = y[j] * c
        return y
    return x * c


def shift28(rng, mon):
    """The same calendar 28 years later."""
    for _ in range(30):
        name, fn, a, k, stochastic = c23.draw(rng)
        zones = []
        walk((a, k), lambda x: zones.extend([str(getattr(x.index, 'tz', None))] + (
            [str(getattr(t, 'tz', None)) for t in x.dtypes] if isinstance(x, pd.DataFrame) else [])) or x)
        fixed = all(z in ('None', 'UTC') or z.startswith('Etc/') or z.startswith('UTC') for z in zones)
        if fixed and name not in ('hour_angle_filter',):
            break
    else:
        return
    seed = int(rng.integers(2**31))
    r0 = call(fn, seed, c23.clone(a), c23.clone(k))
    r1 = call(fn, seed, walk(c23.clone(a), shifted), walk(c23.clone(k), shifted))
    judge(mon, name, 'shifted', r0, r1, back=True, kwargs=k)


def workflow(rng, mon):
    """Both workflows of TrendAnalysis."""
    step = int(pick(rng, [30, 60]))
    z = pick(rng, [None, 'UTC', 'US/Mountain', 'Etc/GMT+7', 'Australia/Sydney'])
    inp, args, loc, tilt, az, albedo, method, give, idx = c14.build(rng, mon, int(pick(rng, [8, 15])), step, z or 'UTC')
    state = np.random.default_rng(int(rng.integers(2**31)))
    st = state.bit_generator.state
    analyses, kw = [], {}
    if chance(rng, 0.3):
        analyses, kw = ['srr_soiling'], dict(srr_kwargs=dict(reps=4, day_scale=3, min_interval_length=2))
    case = pick(rng, ['sensor', 'clearsky'])
    seed = int(rng.integers(2**31))

    def run(f):
        user, sky = walk(c23.clone(inp), f), walk(c23.clone(args), f)

        def go():
            ta = c13.make_ta(Monitor(), user)
            ta.set_clearsky(**sky)
            state.bit_generator.state = st
            fp, ap = c14.configure(state, Monitor(), ta, c13.align(inp), step)
            for which, d in ((ta.filter_params, fp), (ta.filter_params_aggregated, ap)):
                if isinstance(d.get('ad_hoc_filter'), pd.Series):
                    which['ad_hoc_filter'] = f(d['ad_hoc_filter'])
            getattr(ta, case + '_analysis')(analyses=analyses, **kw)
            return c23.outcome(ta, case)
        return call(go, seed, (), {})
    r0 = run(lambda x: x)
    for how in rng.permutation(['us', 's', 'names', 'zone', 'readonly', 'strided'])[:2]:
        judge(mon, case + ' workflow', str(how), r0, run(rep(rng, str(how))), kwargs={})
        mon.ev('workflows')
    mon.ev('workflow_refused', r0[0] == 'raised')


def cods(rng, mon):
    pi, _, _, _ = c19.series(rng, n=735)
    kw = dict(max_iterations=2)

    def fn(x):
        c = soiling.CODSAnalysis(x)
        df, r = c.iterative_signal_decomposition(**kw)
        return df.astype(float), {k: r[k] for k in ('degradation', 'soiling_loss', 'residual_shift', 'RMSE', 'small_soiling_signal')}
    r0 = call(fn, 0, (pi.copy(),), {})
    for how in rng.permutation(['us', 's', 'names', 'zone', 'readonly', 'strided'])[:2]:
        y = rep(rng, str(how))(pi.copy())
        judge(mon, 'CODSAnalysis', str(how), r0, call(fn, 0, (y,), {}), kwargs={})
        mon.ev('cods')


WORKLOADS = [(functions, 420, 8000), (integer, 110, 2000), (named, 240, 3000), (columns, 16, 200), (scaled, 100, 2000), (shift28, 110, 2000),
             (workflow, 24, 400), (cods, 4, 40)]
