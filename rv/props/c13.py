"""C13: the sensor workflow equals its published steps applied one after another."""
import numpy as np
import pandas as pd
import pvlib

from rv import env, gen
from rv.gen import chance, pick
from rv.workflow import (SAPM, align, combine, finish, interp_to, judge_masks, normalize,
                         point_masks, quiet, sapm_cell)

rdtools = env.load()
PROPERTY = 'C13'
RULE = ('synthetic plants (5-60 min sampling, cloudy, gaps, NaN, other grids for the weather data, DST and '
        'fixed zones) x power/energy input x measured/modelled cell temperature/expected power x random '
        'filter configuration (any subset, random parameters, ad-hoc masks with NaN and foreign index) x '
        'aggregation; every intermediate and final attribute compared with the composition of the public steps; '
        'distinct by (input kind, thermal path, sampling, interp, filters, aggregation, zone)')
TECHNIQUE = 'runtime monitoring: differential monitor against the composed public steps and synthetic ground truth'
ASSUMPTIONS = ['the public step functions are themselves judged by C01-C12, C06-C07 and C16-C17',
               'aggregation periods that divide or are a multiple of a day; sub-daily ones only in '
               'fixed-offset zones']
REQUIRED = {'preprocess': 150, 'bins_compared': 1500, 'points_kept': 5000, 'points_dropped': 5000,
            'ad_hoc': 40, 'ad_hoc_aggregated': 20, 'expected_power': 20, 'modelled_tcell': 40,
            'energy_input': 20, 'interp_freq': 30, 'yoy': 12, 'srr': 8, 'refusals_observed': 50,
            'ground_truth': 8, 'boundary_730': 30, 'reanalysed': 40}


def sun(idx):
    """Simple daily irradiance in W/m2, peaking at 12:00 local time."""
    local = idx.tz_localize(None) if idx.tz is not None else idx
    h = local.hour + local.minute / 60.0 + local.second / 3600.0
    doy = local.dayofyear
    return 1050 * np.clip(np.sin((h - 6) / 12 * np.pi), 0, None).to_numpy() * \
        (0.85 + 0.15 * np.cos((doy.to_numpy() - 172) / 365.25 * 2 * np.pi))


def plant(rng, days, step, zone, start=None):
    """Dict of TrendAnalysis inputs for a synthetic plant."""
    st = start if start is not None else pd.Timestamp(pick(rng, [
        '2019-03-01', '2020-02-20', '2019-10-20', '2020-06-01', '2018-12-20']))
    st = st.tz_localize(zone) if zone else st
    n = int(days * 1440 / step)
    idx = gen.rel_index(st, np.arange(n) * int(step * 60 * 10**9))
    base = sun(idx)
    day = np.arange(n) * step // 1440
    cloud = np.ones(n)
    for d in range(int(days)):
        if chance(rng, 0.35):
            cloud[day == d] = rng.uniform(0.2, 1.0, (day == d).sum())
    poa = base * cloud
    tamb = float(pick(rng, [15, 15, 15, -20])) + 10 * np.sin(np.arange(n) * step / 1440 * 2 * np.pi) + rng.normal(0, 1, n)
    wind = np.abs(rng.normal(2, 1.5, n))
    gamma = float(pick(rng, [-0.004, -0.004, -0.005, -0.003, 0.001, 0.0]))
    tcell = poa * np.exp(-3.5 - 0.06 * wind) + tamb + poa / 1000 * 3
    p = 100.0 * poa / 1000 * (1 + gamma * (tcell - 25))
    p = np.minimum(p, float(pick(rng, [1e9, 80.0])))
    p = p * (1 + rng.normal(0, 0.01, n))
    p[rng.random(n) < 0.01] *= 0.1
    return idx, poa, tamb, wind, tcell, p, gamma


def weather(rng, idx, x, step):
    """The same signal on another grid."""
    kind = pick(rng, ['same', 'same', 'same', 'nan', 'drop', 'offset', 'coarse'])
    s = pd.Series(np.array(x, dtype=float), index=idx)
    if kind == 'nan':
        s[rng.random(len(s)) < 0.03] = np.nan
    elif kind == 'drop':
        s = s[rng.random(len(s)) < 0.95]
    elif kind == 'offset':
        s.index = s.index + pd.Timedelta(minutes=step / 4)
    elif kind == 'coarse':
        s = s.iloc[::2]
    return s


FILTER_CHOICES = {
    'normalized_filter': [{}, {}, dict(energy_normalized_low=0.3, energy_normalized_high=1.1),
                          dict(energy_normalized_high=0.98), dict(energy_normalized_low=None), dict(energy_normalized_low=0)],
    'poa_filter': [{}, {}, dict(poa_global_low=100, poa_global_high=900), dict(poa_global_low=400), dict(poa_global_low=0)],
    'tcell_filter': [{}, dict(temperature_cell_high=35), dict(temperature_cell_low=10), dict(temperature_cell_low=0, temperature_cell_high=30)],
    'clip_filter': [{}, {}, dict(model='quantile'), dict(model='quantile', quantile=0.9),
                    dict(model='logic', mounting_type='single_axis_tracking')],
    'hour_angle_filter': [{}, dict(min_hour_angle=-45, max_hour_angle=60), dict(min_hour_angle=0), dict(max_hour_angle=0)],
    'sensor_clearsky_filter': [dict(model='csi'), dict(model='csi', threshold=0.3), {},
                               dict(window_length=120)],
}
AGG_CHOICES = {
    'two_way_window_filter': [{}, {}, dict(outlier_threshold=0.005)],
    'insolation_filter': [{}, dict(quantile=0.3), dict(quantile=0)],
    'hampel_filter': [{}, dict(k='10d', t0=2)],
    'directional_tukey_filter': [{}, dict(roll_period=pd.Timedelta('10 Days'), k=1.0)],
}


def ad_hoc_mask(rng, idx):
    """Boolean mask with NaN and/or an index that only partly matches."""
    m = pd.Series(rng.random(len(idx)) < 0.8, index=idx)
    kind = pick(rng, ['plain', 'nan', 'partial', 'extra', 'both'])
    if kind in ('nan', 'both'):
        m = m.astype(object)
        m[rng.random(len(m)) < 0.1] = np.nan
    if kind in ('partial', 'both'):
        m = m[rng.random(len(m)) < 0.7]
    if kind == 'extra':
        m.index = m.index + (idx[-1] - idx[0]) / 2
    return m, kind


def build(rng, mon, days, step, zone, start=None, full=False):
    idx, poa, tamb, wind, tcell, p, gamma = plant(rng, days, step, zone, start)
    pv_kind = pick(rng, ['power', 'power', 'power', 'energy'])
    pv = pd.Series(p, index=idx, name=pick(rng, [None, 'pv']))
    interp = None
    if chance(rng, 0.4):
        interp = pick(rng, ['%dmin' % step, '%dmin' % step, '%dmin' % (2 * step)])
        if chance(rng, 0.5):
            pv = pv[rng.random(len(pv)) < 0.97]
        mon.ev('interp_freq')
    elif chance(rng, 0.5):
        pv.index.freq = pd.tseries.frequencies.to_offset('%dmin' % step)
    if chance(rng, 0.3):
        pv = pv.copy()
        pv[rng.random(len(pv)) < 0.02] = np.nan
    if pv_kind == 'energy':
        pv = pv * step / 60.0
        mon.ev('energy_input')
    thermal = pick(rng, ['tcell', 'tamb', 'tamb', 'expected', 'expected_t', 'both'])
    inp = dict(pv=pv, poa_global=weather(rng, idx, poa, step), temperature_cell=None,
               temperature_ambient=None, gamma_pdc=gamma if chance(rng, 0.85) else None,
               aggregation_freq='D', pv_input=pv_kind, windspeed=0, power_expected=None,
               temperature_model=None, power_dc_rated=pick(rng, [None, None, 100.0, 1234.5]),
               interp_freq=interp, max_timedelta=pick(rng, [None, None, pd.Timedelta(minutes=3 * step),
                                                            pd.Timedelta(minutes=step)]))
    if thermal in ('tcell', 'expected_t', 'both'):
        inp['temperature_cell'] = weather(rng, idx, tcell, step)
    if thermal in ('tamb', 'both'):
        inp['temperature_ambient'] = weather(rng, idx, tamb, step)
        inp['windspeed'] = pick(rng, [0, 0, 2.5, 'series'])
        if isinstance(inp['windspeed'], str):
            inp['windspeed'] = weather(rng, idx, wind, step)
        inp['temperature_model'] = pick(rng, [None] + sorted(SAPM) + [dict(a=-3.2, b=-0.05, deltaT=2)])
        mon.ev('modelled_tcell', thermal == 'tamb')
    if thermal.startswith('expected'):
        inp['power_expected'] = weather(rng, idx, 95.0 * poa / 1000, step)
        mon.ev('expected_power')
    inp['aggregation_freq'] = 'D' if full or chance(rng, 0.6) else pick(
        rng, ['D', '2D', '7D', 'W', pd.offsets.Day()] + (['12h', '6h'] if zone in (None, 'UTC', 'Etc/GMT+7')
                                                        else []))
    return inp, thermal, idx, poa


def defaults(out):
    """Documented default filters; no cell temperature to judge when only the expected power is known."""
    d = dict(normalized_filter={}, poa_filter={}, tcell_filter={}, clip_filter={}, clearsky_filter={},
             ad_hoc_filter=None)
    if out['power_expected'] is not None and out['temperature_cell'] is None:
        del d['tcell_filter']
    return d


def configure(rng, mon, ta, out, thermal, idx, mild=False):
    """Random filter configuration, installed on ta; returns plain dict copies."""
    want = defaults(out)
    mon.ok(dict(ta.filter_params) == want and dict(ta.filter_params_aggregated) == {
        'two_way_window_filter': {}, 'ad_hoc_filter': None}, 'documented default filters',
        got=dict(ta.filter_params), want=want)
    have_clear = False
    loc = None
    for k in ('normalized_filter', 'poa_filter', 'tcell_filter', 'clip_filter'):
        if k == 'tcell_filter' and thermal == 'expected':
            want.pop(k, None)
            continue
        if k == 'clip_filter' and out['power'] is None:
            want.pop(k, None)
            continue
        r = rng.random()
        if r < 0.25:
            want.pop(k, None)
        elif r < 0.7 and not mild:
            want[k] = dict(pick(rng, FILTER_CHOICES[k]))
    if chance(rng, 0.3):
        loc = pvlib.location.Location(float(rng.uniform(-60, 60)), float(rng.uniform(-180, 180)))
        want['hour_angle_filter'] = dict(pick(rng, FILTER_CHOICES['hour_angle_filter']))
    clear = None
    if chance(rng, 0.3):
        have_clear = True
        clear = pd.Series(sun(idx), index=idx)
        want['sensor_clearsky_filter'] = dict(pick(rng, FILTER_CHOICES['sensor_clearsky_filter']))
        if 'model' not in want['sensor_clearsky_filter']:
            gap = np.median(np.diff(out['energy'].index.asi8)) / 6e10
            if gap > 20:
                want['sensor_clearsky_filter']['window_length'] = 5 * gap
    if chance(rng, 0.3) and not mild:
        want['ad_hoc_filter'], kind = ad_hoc_mask(rng, pick(rng, [out['pv'].index, out['energy'].index]))
        mon.ev('ad_hoc')
    agg = {'two_way_window_filter': {}, 'ad_hoc_filter': None}
    if not mild:
        for k in AGG_CHOICES:
            r = rng.random()
            if r < 0.35:
                agg.pop(k, None)
            elif r < 0.7:
                agg[k] = dict(pick(rng, AGG_CHOICES[k]))
    if have_clear or loc is not None:
        ta.set_clearsky(pvlib_location=loc, poa_global_clearsky=clear)
        if loc is None:
            del ta.pvlib_location
    install(rng, ta, 'filter_params', want)
    return want, agg, loc, clear


def install(rng, ta, attr, want):
    want = {k: (v.copy() if v is not None else None) for k, v in want.items()}
    how = pick(rng, ['replace', 'items', 'update'])
    with quiet():
        if how == 'replace':
            setattr(ta, attr, want)
        else:
            d = getattr(ta, attr)
            for k in list(d):
                if k not in want:
                    del d[k]
            if how == 'items':
                for k, v in want.items():
                    d[k] = v
            else:
                d.update(want)


def make_ta(mon, inp):
    kw = {k: v for k, v in inp.items() if not (v is None)}
    pv = kw.pop('pv')
    return mon.call(rdtools.TrendAnalysis, pv, **kw)


def earlier_life(rng, mon, ta, case='sensor'):
    """An analysis with other settings on the same object first; it must leave no trace."""
    fp, ap, freq = dict(ta.filter_params), dict(ta.filter_params_aggregated), ta.aggregation_freq
    with quiet():
        ta.filter_params = pick(rng, [{'poa_filter': dict(poa_global_low=50), 'clearsky_filter': dict(model='csi', threshold=1e9)},
                                      {'normalized_filter': {}, 'clearsky_filter': dict(model='csi', threshold=0.5)}])
        ta.filter_params_aggregated = {}
        if chance(rng, 0.5):
            ta.aggregation_freq = '3D'
        try:
            getattr(ta, case + '_analysis')(analyses=[])
        except Exception:
            pass
        ta.filter_params, ta.filter_params_aggregated, ta.aggregation_freq = fp, ap, freq
    mon.ev('earlier_life')


def expected_sensor(out, fp, ap, loc, clear):
    poa = out['poa_global']
    tc = out['temperature_cell']
    if tc is None and out['power_expected'] is None:
        tc = sapm_cell(poa, out['temperature_ambient'], out['windspeed'], out['temperature_model'])
    norm, ins = normalize(out, poa, tc)
    pair = None if clear is None else (poa, interp_to(out, clear))
    comp = point_masks(fp, norm, poa, tc, out, loc, pair, 'sensor')
    mask, frame = combine(comp, norm.index, fp.get('ad_hoc_filter'))
    return norm, ins, mask, frame


def judge(mon, ta, mask, frame, fin, case, ctx, rtol=1e-9):
    judge_masks(mon, getattr(ta, case + '_filter'), getattr(ta, case + '_filter_components'), mask,
                frame, 'filter', ctx)
    judge_masks(mon, getattr(ta, case + '_filter_aggregated'),
                getattr(ta, case + '_filter_components_aggregated'), fin['agg_mask'],
                fin['agg_components'], 'aggregated filter', ctx)
    mon.series(getattr(ta, case + '_aggregated_performance'), fin['performance'],
               'aggregated performance', rtol=rtol, atol=1e-12, **ctx)
    mon.series(getattr(ta, case + '_aggregated_insolation'), fin['insolation'],
               'aggregated insolation', rtol=rtol, atol=1e-9, **ctx)
    mon.ev('points_kept', int(mask.sum()))
    mon.ev('points_dropped', int((~mask).sum()))
    mon.ev('bins_compared', int(fin['performance'].notna().sum()))


def run_sensor(rng, mon, inp, thermal, idx, analyses, mild=False, ref=None, **akw):
    ta = make_ta(mon, inp)
    out = align(inp)
    if chance(rng, 0.25):
        earlier_life(rng, mon, ta)
    fp, ap, loc, clear = configure(rng, mon, ta, out, thermal, idx, mild)
    try:
        norm, ins, mask, frame = expected_sensor(out, fp, ap, loc, clear)
    except Exception:
        # one of the steps refuses this input: so must the workflow
        with quiet():
            mon.raises(Exception, 'a step refuses this input', ta.sensor_analysis, analyses=analyses)
        mon.ev('step_refused')
        return None
    if not mask.any():
        return None
    if chance(rng, 0.4) and not mild:
        lab = rdtools.aggregation_insol(norm[mask.reindex(norm.index)], ins[mask.reindex(norm.index)],
                                        inp['aggregation_freq']).index
        ap['ad_hoc_filter'], _ = ad_hoc_mask(rng, lab)
        mon.ev('ad_hoc_aggregated')
    install(rng, ta, 'filter_params_aggregated', ap)
    fin = finish(norm, ins, mask, ap, inp['aggregation_freq'])
    if not fin['agg_mask'].any():
        return None
    ctx = dict(inputs={k: v for k, v in inp.items() if v is not None}, filter_params=fp,
               filter_params_aggregated=ap)
    seed = int(rng.integers(0, 2**31))
    with quiet():
        if ref is not None:
            np.random.seed(seed)
            try:
                fin['want'] = ref(fin)
            except Exception as e:
                np.random.seed(seed)
                mon.raises(type(e), 'the analysis step refuses this data', ta.sensor_analysis,
                           analyses=analyses, **akw)
                mon.ok(not ta.results.get('sensor'), 'a refused analysis leaves no result')
                judge(mon, ta, mask, frame, fin, 'sensor', ctx)
                mon.ev('analysis_refused')
                return None
        np.random.seed(seed)
        mon.call(ta.sensor_analysis, analyses=analyses, **akw)
    judge(mon, ta, mask, frame, fin, 'sensor', ctx)
    return ta, fin, ctx, seed, fp, ap


def preprocess(rng, mon):
    step = int(pick(rng, [15, 30, 60, 10]))
    zone = pick(rng, ['UTC', 'US/Mountain', 'Etc/GMT+7', 'Australia/Sydney', 'Asia/Kolkata', None])
    inp, thermal, idx, poa = build(rng, mon, int(pick(rng, [8, 15, 30])), step, zone)
    r = run_sensor(rng, mon, inp, thermal, idx, [])
    if r is None:
        mon.ev('nothing_left')
        return
    ta, fin, ctx, seed, fp, ap = r
    mon.eq(ta.results['sensor'], {}, 'no analysis requested, no result')
    mon.ev('preprocess')
    mon.sig(inp['pv_input'], thermal, step, inp['interp_freq'], sorted(fp), sorted(ap),
            str(inp['aggregation_freq']), str(zone))
    mon.note(**ctx)


def same_result(mon, got, want, what, ctx):
    """Deep comparison of result structures."""
    if isinstance(want, dict):
        mon.ok(isinstance(got, dict) and set(got) == set(want), what + ': keys', got=got, want=want)
        for k in want:
            same_result(mon, got[k], want[k], what + '/' + str(k), ctx)
    elif isinstance(want, (list, tuple)):
        mon.ok(len(got) == len(want), what + ': length')
        for a, b in zip(got, want):
            same_result(mon, a, b, what, ctx)
    elif isinstance(want, pd.Series):
        mon.series(got, want, what, **ctx)
    elif isinstance(want, pd.DataFrame):
        mon.ok(got.equals(want), what + ': frames equal', got=got, want=want, **ctx)
    elif isinstance(want, np.ndarray):
        mon.close(got, want, what, **ctx)
    elif isinstance(want, (float, np.floating)):
        mon.close(got, want, what, **ctx)
    else:
        mon.eq(got, want, what, **ctx)


def yoy_reference(perf, kw):
    if perf.index[-1] - perf.index[0] < pd.Timedelta('730D'):
        raise ValueError('too short')
    return rdtools.degradation_year_on_year(perf, **kw)


def yoy(rng, mon):
    zone = pick(rng, ['UTC', 'US/Mountain', 'Australia/Sydney', None])
    step = int(pick(rng, [120, 180]))
    days = int(pick(rng, [760, 800]))
    truth = chance(rng, 0.5)
    if truth:
        # exact plant: linear decline, no noise, no filter can hide it
        rd = float(pick(rng, [-0.01, -0.02, 0.005, 0.0]))
        st = pd.Timestamp(pick(rng, ['2016-01-15', '2018-05-01'])).tz_localize(zone)
        n = int(days * 1440 / step)
        idx = gen.rel_index(st, np.arange(n) * step * 60 * 10**9)
        poa = sun(idx) * rng.uniform(0.7, 1.0, n)
        tc = 20 + poa / 40
        t = np.arange(n) * step / 1440 / 365
        inp = dict(pv=pd.Series(50 * poa / 1000 * (1 - 0.004 * (tc - 25)) * (1 + rd * t), index=idx),
                   poa_global=pd.Series(poa, index=idx), temperature_cell=pd.Series(tc, index=idx),
                   temperature_ambient=None, gamma_pdc=-0.004, aggregation_freq=pick(rng, ['D', '7D']),
                   pv_input='power', windspeed=0, power_expected=None, temperature_model=None,
                   power_dc_rated=pick(rng, [None, 50.0]),
                   interp_freq='%dmin' % step, max_timedelta=None)
        thermal = 'tcell'
    else:
        inp, thermal, idx, _ = build(rng, mon, days, step, zone, pd.Timestamp('2015-03-03'), full=True)
    kw = pick(rng, [{}, dict(recenter=False), dict(exceedance_prob=90, confidence_level=95)])
    r = run_sensor(rng, mon, inp, thermal, idx, ['yoy_degradation'], mild=True, yoy_kwargs=dict(kw),
                   ref=lambda fin: yoy_reference(fin['performance'], kw))
    if r is None:
        return
    ta, fin, ctx, seed, fp, ap = r
    mon.ok(list(ta.results['sensor']) == ['yoy_degradation'], 'requested analysis only')
    res = ta.results['sensor']['yoy_degradation']
    mon.ok(set(res) == {'p50_rd', 'rd_confidence_interval', 'calc_info'}, 'keys of the result')
    want = fin['want']
    mon.close(res['p50_rd'], want[0], 'p50_rd', **ctx)
    mon.close(res['rd_confidence_interval'], want[1], 'rd_confidence_interval', **ctx)
    for k in ('YoY_values', 'usage_of_points'):
        mon.series(res['calc_info'][k], want[2][k], k, **ctx)
    mon.close(res['calc_info']['exceedance_level'], want[2]['exceedance_level'], 'exceedance', **ctx)
    mon.ev('yoy')
    if truth:
        mid = 1 + rd * 0.5 if kw.get('recenter', True) else None
        if mid is not None:
            mon.close(res['p50_rd'], 100 * rd / mid, 'known degradation rate is recovered', rtol=0.02,
                      atol=0.03, **ctx)
            mon.ev('ground_truth')
    mon.sig('yoy', thermal, step, str(zone), str(kw), truth)


def srr(rng, mon):
    zone = pick(rng, ['UTC', 'Etc/GMT+7', 'US/Mountain'])
    st = pd.Timestamp('2019-01-01').tz_localize(zone)
    n = 110 * 12
    idx = gen.rel_index(st, np.arange(n) * 7200 * 10**9)
    poa = sun(idx) * rng.uniform(0.9, 1.0, n)
    day = np.arange(n) // 12
    soil = 1 - np.where(day < 40, day, np.where(day < 75, day - 40, day - 75)) * 0.003
    noise = 1 + rng.normal(0, 0.002, n)
    inp = dict(pv=pd.Series(80 * poa / 1000 * soil * noise, index=idx), poa_global=pd.Series(poa, index=idx),
               temperature_cell=pd.Series(25.0, index=idx), temperature_ambient=None, gamma_pdc=-0.004,
               aggregation_freq='D', pv_input='power', windspeed=0, power_expected=None,
               temperature_model=None, power_dc_rated=None, interp_freq='120min', max_timedelta=None)
    kw = pick(rng, [dict(reps=10), dict(reps=12, method='random_clean', confidence_level=90),
                    dict(reps=10, method='perfect_clean', exceedance_prob=80)])
    r = run_sensor(rng, mon, inp, 'tcell', idx, ['srr_soiling'], mild=True, srr_kwargs=dict(kw),
                   ref=lambda fin: rdtools.soiling.soiling_srr(fin['performance'].copy(),
                                                               fin['insolation'].copy(), **kw))
    if r is None:
        return
    ta, fin, ctx, seed, fp, ap = r
    res = ta.results['sensor']['srr_soiling']
    mon.ok(set(res) == {'p50_sratio', 'sratio_confidence_interval', 'calc_info'}, 'keys of the result')
    want = fin['want']
    mon.close(res['p50_sratio'], want[0], 'p50_sratio', **ctx)
    mon.close(res['sratio_confidence_interval'], want[1], 'sratio_confidence_interval', **ctx)
    mon.close(res['calc_info']['exceedance_level'], want[2]['exceedance_level'], 'exceedance', **ctx)
    a = res['calc_info']['soiling_interval_summary']
    b = want[2]['soiling_interval_summary']
    mon.ok(len(a) == len(b), 'interval summary')
    mon.close(a['soiling_rate'], b['soiling_rate'], 'soiling rates', **ctx)
    mon.ev('srr')
    mon.sig('srr', str(kw), str(zone), sorted(fp))


def refusals(rng, mon):
    step, zone = 60, 'UTC'
    idx, poa, tamb, wind, tcell, p, gamma = plant(rng, 12, step, zone)

    def S(x):
        return pd.Series(x, index=idx)
    T = rdtools.TrendAnalysis
    pv = S(p)
    pv.index.freq = 'h'
    a = T(pv, temperature_cell=S(tcell), gamma_pdc=gamma)
    mon.raises(ValueError, 'no irradiance: refused', a.sensor_analysis)
    a = T(pv, poa_global=S(poa), gamma_pdc=gamma)
    mon.raises(ValueError, 'no temperature: refused', a.sensor_analysis)
    a = T(pv, poa_global=S(poa), temperature_cell=S(tcell), gamma_pdc=gamma)
    mon.raises(ValueError, 'less than two years: refused', a.sensor_analysis)
    mon.ok(not a.results.get('sensor'), 'a refused analysis leaves no result', results=a.results)
    a = T(pv, poa_global=S(poa), temperature_cell=S(tcell), gamma_pdc=gamma, pv_input='energy')
    mon.raises(ValueError, 'clip filter needs power: refused', a.sensor_analysis, analyses=[])
    a = T(pv, poa_global=S(poa), power_expected=S(poa * 0.1))
    mon.ok('tcell_filter' not in a.filter_params, 'no cell temperature: default configuration has no '
           'cell temperature filter')
    a.filter_params['tcell_filter'] = {}
    mon.raises(ValueError, 'cell temperature filter without temperature: refused', a.sensor_analysis,
               analyses=[])
    a = T(pv, poa_global=S(poa), temperature_cell=S(tcell), gamma_pdc=gamma)
    a.filter_params['hour_angle_filter'] = {}
    mon.raises(ValueError, 'hour angle filter without location: refused', a.sensor_analysis, analyses=[])
    a = T(pv, poa_global=S(poa), temperature_cell=S(tcell), gamma_pdc=gamma)
    a.filter_params['sensor_clearsky_filter'] = {}
    mon.raises((AttributeError, ValueError), 'clear-sky filter without set_clearsky: refused',
               a.sensor_analysis, analyses=[])
    a = T(pv, poa_global=S(poa), temperature_ambient=S(tamb), gamma_pdc=gamma,
          temperature_model=pick(rng, [dict(a=1, b=2), 5, ['a', 'b', 'deltaT']]))
    mon.raises((ValueError, TypeError), 'unknown temperature model: refused', a.sensor_analysis, analyses=[])
    a = T(pv, poa_global=S(poa), temperature_cell=S(tcell), gamma_pdc=gamma,
          aggregation_freq=pick(rng, ['7D', '12h', '2D']))
    mon.raises(ValueError, 'soiling needs daily aggregation: refused', a.sensor_analysis,
               analyses=['srr_soiling'])


def boundary(rng, mon):
    """Daily data spanning about two years, analysed again and again on one object."""
    days = int(pick(rng, [723, 727, 729, 730, 731, 732, 733, 737]))
    idx = pd.date_range(pick(rng, ['2016-01-01', '2017-06-11']), periods=days, freq='D', tz='UTC')
    n = len(idx)
    poa = rng.uniform(150, 300, n)
    x = pd.Series(poa * 24 / 1000 * (1 - 0.01 * np.arange(n) / 365) * rng.uniform(0.98, 1.02, n), index=idx)
    x.index.freq = 'D'
    inp = dict(pv=x, poa_global=pd.Series(poa, index=idx), temperature_cell=pd.Series(25.0, index=idx),
               temperature_ambient=None, gamma_pdc=-0.004, aggregation_freq='D', pv_input='energy', windspeed=0,
               power_expected=None, temperature_model=None, power_dc_rated=1.0, interp_freq=None,
               max_timedelta=None)
    ta = make_ta(mon, inp)
    out = align(inp)
    fp, ap = dict(normalized_filter={}), {}
    install(rng, ta, 'filter_params', fp)
    install(rng, ta, 'filter_params_aggregated', ap)
    norm, ins, mask, frame = expected_sensor(out, fp, ap, None, None)
    fin = finish(norm, ins, mask, ap, 'D')
    perf, insol = fin['performance'], fin['insolation']
    span = perf.index[-1] - perf.index[0]
    last = {}
    for step in range(3):
        todo = pick(rng, [['yoy_degradation'], ['srr_soiling'], [], ['srr_soiling', 'yoy_degradation']])
        seed = int(rng.integers(0, 2**31))
        ykw = pick(rng, [{}, dict(confidence_level=95.0), dict(recenter=False)])
        skw = dict(reps=int(pick(rng, [5, 9])))
        ctx = dict(days=days, span=str(span), analyses=todo, yoy_kwargs=ykw, srr_kwargs=skw)
        np.random.seed(seed)
        want, bad = {}, None
        try:
            if 'yoy_degradation' in todo:
                want['yoy_degradation'] = yoy_reference(perf, ykw)
            if 'srr_soiling' in todo:
                want['srr_soiling'] = rdtools.soiling.soiling_srr(perf.copy(), insol.copy(), **skw)
        except Exception as e:
            bad = e
        np.random.seed(seed)
        with quiet():
            if bad is not None:
                mon.raises(type(bad), 'the analysis step refuses this data', ta.sensor_analysis,
                           analyses=list(todo), yoy_kwargs=dict(ykw), srr_kwargs=dict(skw))
                mon.eq(list(ta.results.get('sensor', {})), list(last), 'a refused analysis leaves the results '
                       'of the last complete one', **ctx)
                continue
            mon.call(ta.sensor_analysis, analyses=list(todo), yoy_kwargs=dict(ykw), srr_kwargs=dict(skw))
        judge(mon, ta, mask, frame, fin, 'sensor', ctx)
        res = ta.results['sensor']
        mon.eq(sorted(res), sorted(want), 'the results are those of the last analysis', **ctx)
        names = {'yoy_degradation': ('p50_rd', 'rd_confidence_interval'),
                 'srr_soiling': ('p50_sratio', 'sratio_confidence_interval')}
        for k, w in want.items():
            mon.close(res[k][names[k][0]], w[0], k + ': median', **ctx)
            mon.close(res[k][names[k][1]], w[1], k + ': interval', **ctx)
            mon.close(res[k]['calc_info']['exceedance_level'], w[2]['exceedance_level'], k + ': exceedance', **ctx)
        last = want
        mon.ev('reanalysed')
    mon.ev('boundary_730')
    mon.sig('boundary', days)


WORKLOADS = [(preprocess, 900, 8000), (yoy, 64, 600), (srr, 48, 500), (refusals, 16, 100),
             (boundary, 48, 400)]
