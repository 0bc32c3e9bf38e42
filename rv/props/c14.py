"""C14: the clear-sky workflow equals its published steps applied one after another."""
import json

import numpy as np
import pandas as pd
import pvlib

from rv import env, gen
from rv.core import Violation
from rv.gen import chance, pick
from rv.props.c13 import (AGG_CHOICES, FILTER_CHOICES, ad_hoc_mask, earlier_life, expected_sensor, install, judge,
                          make_ta, plant, sun, weather, yoy_reference)
from rv.workflow import align, combine, finish, interp_to, normalize, point_masks, quiet, sapm_cell

rdtools = env.load()
PROPERTY = 'C14'
RULE = ('synthetic plants at random places (both hemispheres, every longitude) and orientations x each '
        'clear-sky quantity supplied or modelled x random filters x histories of analyses on one object '
        '(sensor/clearsky in any order, repeated); every intermediate compared with an independent '
        'composition (pvlib model averaged per interval, least-squares rescale, SAPM without wind); '
        'distinct by (supplied set, sampling, filters, history, aggregation, hemisphere)')
TECHNIQUE = 'runtime monitoring: differential monitor against the composed public steps over call histories'
ASSUMPTIONS = ['zone-aware data; orientation given as numbers (time series of orientation: see known findings)',
               'synthetic temperature map, since the checkout does not contain the real one']
REQUIRED = {'preprocess': 60, 'modelled_poa': 25, 'supplied_poa': 25, 'modelled_tamb': 15,
            'supplied_tamb': 10, 'supplied_tcell': 10, 'histories': 15, 'points_kept': 1000,
            'points_dropped': 5000, 'yoy': 8, 'refusals_observed': 8, 'expected_power': 5,
            'sensor_clearsky_modelled': 3, 'earlier_life': 30, 'tracker': 3}


def model_poa(index, loc, tilt, azimuth, albedo, method, transposition='isotropic'):
    t = pd.date_range(index[0], index[-1], freq='1min')
    kw = {'method': method} if method else {}
    sp = pvlib.solarposition.get_solarposition(t, loc.latitude, loc.longitude, altitude=loc.altitude, **kw)
    cs = loc.get_clearsky(t, solar_position=sp)
    total = pvlib.irradiance.get_total_irradiance(
        tilt, azimuth, sp['apparent_zenith'], sp['azimuth'], cs['dni'], cs['ghi'], cs['dhi'],
        albedo=albedo, model=transposition)['poa_global'].to_numpy()
    # mean over (previous label, label]
    pos = np.searchsorted(index.asi8, t.asi8, side='left')
    good = np.isfinite(total) & (pos >= 1)
    n = np.bincount(pos[good], minlength=len(index))
    out = np.where(n > 0, np.bincount(pos[good], weights=total[good], minlength=len(index)) / np.maximum(n, 1), np.nan)
    return pd.Series(out, index=index)


def expected_clearsky(out, fp, cs):
    poa_cs = cs['poa_cs']
    tc = cs['tcell_cs']
    if tc is None:
        tamb = cs['tamb_cs']
        if tamb is None:
            tamb = rdtools.get_clearsky_tamb(poa_cs.index, cs['loc'].latitude, cs['loc'].longitude)
        tc = sapm_cell(poa_cs, tamb, 0, out['temperature_model'])
    norm, ins = normalize(out, poa_cs, tc)
    comp = point_masks(fp, norm, poa_cs, tc, out, cs['loc'], (out['poa_global'], poa_cs), 'clearsky')
    mask, frame = combine(comp, norm.index, fp.get('ad_hoc_filter'))
    return norm, ins, mask, frame


def build(rng, mon, days, step, zone, supplied_poa=None):
    idx, poa0, tamb, wind, tcell, p, gamma = plant(rng, days, step, zone)
    off = idx[0].utcoffset().total_seconds() / 3600
    loc = pvlib.location.Location(float(rng.uniform(-55, 60)),
                                  float(np.clip(off * 15 + rng.uniform(-12, 12), -180, 180)),
                                  altitude=float(pick(rng, [0, 500, 1800])))
    tilt, az = float(pick(rng, [0, 20, 35])), float(pick(rng, [180, 0, 90, 150]))
    albedo = float(pick(rng, [0.25, 0.25, 0.1, 0.5]))
    method = pick(rng, ['nrel_numpy', 'nrel_numpy', 'ephemeris', None])
    args = dict(pvlib_location=loc, pv_azimuth=az, pv_tilt=tilt)
    if albedo != 0.25 or chance(rng, 0.5):
        args['albedo'] = albedo
    if method != 'nrel_numpy' or chance(rng, 0.3):
        args['solar_position_method'] = method
    if supplied_poa and days > 100:      # nothing depends on the model there
        true_cs = pd.Series(sun(idx), index=idx)
    else:
        true_cs = model_poa(idx, loc, tilt, az, 0.25, 'nrel_numpy').fillna(0.0)
    cloud = poa0 / np.maximum(poa0.max(), 1)
    meas = true_cs * float(pick(rng, [1.0, 0.93, 1.08]))
    # cloudy stretches
    m = meas.to_numpy().copy()
    for _ in range(int(rng.integers(0, 8))):
        a = int(rng.integers(0, len(m)))
        m[a:a + int(rng.integers(1, 30))] *= rng.uniform(0.2, 0.95)
    p = 100 * m / 1000 * (1 + gamma * (20 + m / 40 - 25)) * (1 + rng.normal(0, 0.005, len(m)))
    pv = pd.Series(p, index=idx)
    if chance(rng, 0.4):
        pv[rng.random(len(pv)) < 0.02] = np.nan
    inp = dict(pv=pv, poa_global=weather(rng, idx, m, step), temperature_cell=None,
               temperature_ambient=pd.Series(tamb, index=idx) if chance(rng, 0.7) else None,
               gamma_pdc=gamma if chance(rng, 0.85) else None,
               aggregation_freq=pick(rng, ['D', 'D', '2D']), pv_input=pick(rng, ['power', 'power', 'energy']),
               windspeed=pick(rng, [0, 3.0]), power_expected=None,
               temperature_model=pick(rng, [None, None, 'close_mount_glass_glass',
                                            dict(a=-3.2, b=-0.05, deltaT=2)]),
               power_dc_rated=pick(rng, [None, 100.0]),
               interp_freq=pick(rng, [None, '%dmin' % step]),
               max_timedelta=pick(rng, [None, None, pd.Timedelta(minutes=4 * step)]))
    if inp['interp_freq'] is None:
        inp['pv'].index.freq = pd.tseries.frequencies.to_offset('%dmin' % step)
    if chance(rng, 0.2):
        inp['power_expected'] = pd.Series(95.0 * m / 1000, index=idx)
        mon.ev('expected_power')
    give = {}
    if supplied_poa or (supplied_poa is None and chance(rng, 0.5)):
        give['poa_global_clearsky'] = weather(rng, idx, true_cs.to_numpy() * 1.02, step)
    if chance(rng, 0.35):
        give['temperature_ambient_clearsky'] = weather(rng, idx, tamb + 2, step)
    if chance(rng, 0.3):
        give['temperature_cell_clearsky'] = weather(rng, idx, 22 + m / 35, step)
    args.update(give)
    return inp, args, loc, tilt, az, albedo, method, give, idx


def configure(rng, mon, ta, out, step):
    fp = {'clearsky_filter': dict(pick(rng, [dict(model='csi'), dict(model='csi', threshold=0.1), {},
                                             dict(lookup_parameters=True)]))}
    if 'model' not in fp['clearsky_filter'] and step > 20:
        fp['clearsky_filter']['window_length'] = 5 * step
        fp['clearsky_filter'].pop('lookup_parameters', None)
    for k in ('normalized_filter', 'poa_filter', 'tcell_filter', 'clip_filter'):
        if k == 'clip_filter' and out['power'] is None:
            continue
        if k == 'tcell_filter' and out['power_expected'] is not None:
            continue
        if chance(rng, 0.7):
            fp[k] = dict(pick(rng, FILTER_CHOICES[k]))
    if chance(rng, 0.3):
        fp['hour_angle_filter'] = dict(pick(rng, FILTER_CHOICES['hour_angle_filter']))
    if chance(rng, 0.3):
        fp['sensor_clearsky_filter'] = dict(model='csi', threshold=float(pick(rng, [0.02, 0.15])))
    if chance(rng, 0.25):
        fp['ad_hoc_filter'], _ = ad_hoc_mask(rng, out['energy'].index)
    ap = {}
    for k in AGG_CHOICES:
        if chance(rng, 0.35):
            ap[k] = dict(pick(rng, AGG_CHOICES[k]))
    install(rng, ta, 'filter_params', fp)
    install(rng, ta, 'filter_params_aggregated', ap)
    return fp, ap


def prepare(rng, mon, inp, args, loc, tilt, az, albedo, method, give, step):
    ta = make_ta(mon, inp)
    out = align(inp)
    if chance(rng, 0.35):
        # the object was used with another clear-sky description before
        like = out['energy'] * 0.0
        before = dict(pvlib_location=pvlib.location.Location(-loc.latitude, loc.longitude),
                      pv_azimuth=az + 40, pv_tilt=tilt + 15, albedo=0.4, solar_position_method='ephemeris')
        for k, v in (('poa_global_clearsky', 700.0), ('temperature_cell_clearsky', 60.0),
                     ('temperature_ambient_clearsky', -5.0)):
            if chance(rng, 0.5):
                before[k] = pd.Series(v, index=like.index)
        mon.call(ta.set_clearsky, **before)
        for _ in range(int(pick(rng, [1, 1, 0]))):
            earlier_life(rng, mon, ta, 'clearsky')
    mon.call(ta.set_clearsky, **args)
    fp, ap = configure(rng, mon, ta, out, step)
    cs = dict(loc=loc, tcell_cs=None, tamb_cs=None, poa_cs=None)
    if 'temperature_cell_clearsky' in give:
        cs['tcell_cs'] = interp_to(out, give['temperature_cell_clearsky'])
        mon.ev('supplied_tcell')
    if 'temperature_ambient_clearsky' in give:
        cs['tamb_cs'] = interp_to(out, give['temperature_ambient_clearsky'])
        mon.ev('supplied_tamb', 'temperature_cell_clearsky' not in give)
    if cs['tcell_cs'] is None and cs['tamb_cs'] is None:
        mon.ev('modelled_tamb')
    if 'poa_global_clearsky' in give:
        cs['poa_cs'] = interp_to(out, give['poa_global_clearsky'])
        mon.ev('supplied_poa')
    else:
        raw = model_poa(out['poa_global'].index, loc, tilt, az, albedo, method)
        try:
            cs['poa_cs'] = rdtools.irradiance_rescale(out['poa_global'], raw, method='iterative')
        except rdtools.normalization.ConvergenceError:
            return None
        mon.ev('modelled_poa')
    return ta, out, fp, ap, cs


def run(mon, ta, case, analyses, **kw):
    with quiet():
        return mon.call(getattr(ta, case + '_analysis'), analyses=analyses, **kw)


def preprocess(rng, mon):
    step = int(pick(rng, [15, 30, 60, 10, 120]))
    zone = pick(rng, ['UTC', 'US/Mountain', 'Etc/GMT+7', 'Australia/Sydney', 'Asia/Kolkata'])
    inp, args, loc, tilt, az, albedo, method, give, idx = build(rng, mon, int(pick(rng, [3, 6, 10])), step, zone)
    r = prepare(rng, mon, inp, args, loc, tilt, az, albedo, method, give, step)
    if r is None:
        return
    ta, out, fp, ap, cs = r
    ctx = dict(inputs={k: v for k, v in inp.items() if v is not None}, set_clearsky=args,
               filter_params=fp, filter_params_aggregated=ap)
    try:
        norm, ins, mask, frame = expected_clearsky(out, fp, cs)
    except Exception:
        with quiet():
            mon.raises(Exception, 'a step refuses this input', ta.clearsky_analysis, analyses=[])
        mon.ev('step_refused')
        return
    if not mask.any():
        return
    fin = finish(norm, ins, mask, ap, inp['aggregation_freq'])
    if not fin['agg_mask'].any():
        return
    # the sensor side, when it can run on this configuration
    sensor = None
    can = out['power_expected'] is not None or out['temperature_ambient'] is not None
    if 'tcell_filter' in fp and out['power_expected'] is not None:
        can = False
    if can:
        try:
            n2, i2, m2, f2 = expected_sensor(out, fp, ap, loc, None if 'sensor_clearsky_filter' not in fp
                                             else cs['poa_cs'])
            fin2 = finish(n2, i2, m2, ap, inp['aggregation_freq']) if m2.any() else None
            if fin2 is not None and fin2['agg_mask'].any():
                sensor = (m2, f2, fin2)
        except Exception:
            sensor = None
    history = pick(rng, [['clearsky'], ['clearsky', 'clearsky'], ['sensor', 'clearsky'],
                         ['clearsky', 'sensor'], ['sensor', 'clearsky', 'sensor', 'clearsky']]) \
        if sensor is not None else pick(rng, [['clearsky'], ['clearsky', 'clearsky']])
    if sensor is not None and history[0] == 'sensor' and 'sensor_clearsky_filter' in fp \
            and 'poa_global_clearsky' not in give:
        mon.ev('sensor_clearsky_modelled')
    keep = {}
    for k in history:
        run(mon, ta, k, [])
        mon.eq(ta.results[k], {}, 'no analysis requested, no result')
        keep[k] = ta.results[k]
        for o in keep:
            mon.ok(ta.results.get(o) is not None, 'results of the %s workflow are gone after %s' % (o, k), history=history)
    judge(mon, ta, mask, frame, fin, 'clearsky', dict(history=history, **ctx), rtol=1e-7)
    mon.series(ta.poa_global_clearsky, cs['poa_cs'], 'clear-sky irradiance', rtol=1e-7, **ctx)
    if 'sensor' in history:
        judge(mon, ta, *sensor, 'sensor', dict(history=history, **ctx), rtol=1e-7)
        mon.ev('histories')
    mon.ev('preprocess')
    mon.sig(sorted(give), step, sorted(fp), sorted(ap), history, str(inp['aggregation_freq']),
            loc.latitude > 0, inp['pv_input'], inp['power_expected'] is None)
    mon.note(**ctx)


def yoy(rng, mon):
    """Two years with supplied clear-sky irradiance: the reported rate is that of the composed steps."""
    zone = pick(rng, ['US/Mountain', 'UTC'])
    step, days = 120, 770
    st = pd.Timestamp('2016-05-01').tz_localize(zone)
    n = int(days * 1440 / step)
    idx = gen.rel_index(st, np.arange(n) * step * 60 * 10**9)
    clear = sun(idx)
    m = clear * np.where(rng.random(n) < 0.2, rng.uniform(0.3, 0.8, n), 1.0)
    rd = float(pick(rng, [-0.01, 0.0, 0.01]))
    t = np.arange(n) * step / 1440 / 365
    tcs = 20 + clear / 40
    pv = 50 * clear / 1000 * (1 - 0.004 * (tcs - 25)) * (1 + rd * t) * rng.uniform(0.99, 1.01, n) * np.where(m < clear, m / np.maximum(clear, 1), 1)
    inp = dict(pv=pd.Series(pv, index=idx), poa_global=pd.Series(m, index=idx), temperature_cell=None,
               temperature_ambient=None, gamma_pdc=-0.004, aggregation_freq='D', pv_input='power', windspeed=0,
               power_expected=None, temperature_model=None, power_dc_rated=None, interp_freq='120min',
               max_timedelta=None)
    ta = make_ta(mon, inp)
    out = align(inp)
    give = dict(poa_global_clearsky=pd.Series(clear, index=idx), temperature_cell_clearsky=pd.Series(tcs, index=idx))
    mon.call(ta.set_clearsky, **give)
    fp = dict(normalized_filter={}, poa_filter={}, tcell_filter={}, clearsky_filter=dict(model='csi'))
    install(rng, ta, 'filter_params', fp)
    cs = dict(loc=None, poa_cs=interp_to(out, give['poa_global_clearsky']),
              tcell_cs=interp_to(out, give['temperature_cell_clearsky']), tamb_cs=None)
    norm, ins, mask, frame = expected_clearsky(out, fp, cs)
    ap = {'two_way_window_filter': {}}
    fin = finish(norm, ins, mask, ap, 'D')
    kw = pick(rng, [{}, dict(confidence_level=90.0), dict(recenter=False, confidence_level=40.0),
                    dict(exceedance_prob=70, confidence_level=95.0)])
    skw = pick(rng, [None, None, dict(reps=6), dict(reps=8, confidence_level=90, exceedance_prob=70)])
    seed = int(rng.integers(0, 2**31))
    np.random.seed(seed)
    want = yoy_reference(fin['performance'], kw)
    if skw is not None:
        try:
            swant = rdtools.soiling.soiling_srr(fin['performance'].copy(), fin['insolation'].copy(), **skw)
        except rdtools.soiling.NoValidIntervalError:
            skw = None
    np.random.seed(seed)
    run(mon, ta, 'clearsky', ['yoy_degradation'] + (['srr_soiling'] if skw is not None else []),
        yoy_kwargs=dict(kw), **({} if skw is None else dict(srr_kwargs=dict(skw))))
    if skw is not None:
        sres = ta.results['clearsky']['srr_soiling']
        mon.close(sres['p50_sratio'], swant[0], 'p50_sratio')
        mon.close(sres['sratio_confidence_interval'], swant[1], 'sratio_confidence_interval')
        mon.close(sres['calc_info']['exceedance_level'], swant[2]['exceedance_level'], 'soiling exceedance')
        mon.ev('srr')
    judge(mon, ta, mask, frame, fin, 'clearsky', {})
    res = ta.results['clearsky']['yoy_degradation']
    mon.close(res['p50_rd'], want[0], 'p50_rd')
    mon.close(res['rd_confidence_interval'], want[1], 'rd_confidence_interval')
    mon.close(res['calc_info']['exceedance_level'], want[2]['exceedance_level'], 'exceedance')
    if kw.get('recenter', True):
        mon.close(res['p50_rd'], 100 * rd / (1 + rd / 2), 'known degradation rate is recovered', rtol=0.05, atol=0.2)
    mon.ok('sensor' not in ta.results, 'only the requested workflow has results')
    mon.ev('yoy')
    mon.sig('yoy', zone, rd, str(kw))


def refusals(rng, mon):
    step = 30
    inp, args, loc, tilt, az, albedo, method, give, idx = build(rng, mon, 3, step, 'UTC', supplied_poa=True)
    inp['pv_input'] = 'power'
    ta = make_ta(mon, inp)
    with quiet():
        mon.raises(AttributeError, 'clear-sky analysis before set_clearsky: refused', ta.clearsky_analysis)
    mon.call(ta.set_clearsky, **dict(args, poa_global_clearsky=pd.Series(
        np.linspace(0, 900, len(idx)), index=idx)))
    ta.filter_params['clearsky_filter'] = dict(model='csi', threshold=1e9)
    with quiet():
        mon.raises(ValueError, 'less than two years: refused', ta.clearsky_analysis)
    mon.ok(not ta.results.get('clearsky'), 'a refused analysis leaves no result', results=ta.results)


def tracker(rng, mon):
    """Orientation given as time series (known finding: not averaged over the interval)."""
    step, zone = 30, 'Etc/GMT+7'
    inp, args, loc, tilt, az, albedo, method, give, idx = build(rng, mon, 3, step, zone, supplied_poa=False)
    inp.update(interp_freq='%dmin' % step, power_expected=None, pv_input='power', max_timedelta=None)
    seen = inp['poa_global'].dropna()
    inp['poa_global'] = pd.Series(np.interp(idx.asi8, seen.index.asi8, seen.values), index=idx)
    tl = pd.Series(25 + 15 * np.sin(np.arange(len(idx)) / 7.0), index=idx)
    args = dict(args, pv_tilt=tl, albedo=0.25, solar_position_method='nrel_numpy')
    ta = make_ta(mon, inp)
    out = align(inp)
    mon.call(ta.set_clearsky, **args)
    t = pd.date_range(out['poa_global'].index[0], out['poa_global'].index[-1], freq='1min')
    fine = np.interp(t.asi8, tl.index.asi8, tl.values)
    avg = model_poa(out['poa_global'].index, loc, pd.Series(fine, index=t), az, 0.25, 'nrel_numpy')
    sp = loc.get_solarposition(t)
    c = loc.get_clearsky(t, solar_position=sp)
    inst = pvlib.irradiance.get_total_irradiance(fine, az, sp['apparent_zenith'], sp['azimuth'], c['dni'],
                                                 c['ghi'], c['dhi'], albedo=0.25, model='isotropic')['poa_global']
    inst = inst.reindex(out['poa_global'].index)
    inst.iloc[0] = np.nan
    try:
        avg, inst = [rdtools.irradiance_rescale(out['poa_global'], x, method='iterative') for x in (avg, inst)]
    except rdtools.normalization.ConvergenceError:
        return
    install(rng, ta, 'filter_params', dict(clearsky_filter=dict(model='csi', threshold=1e9)))
    install(rng, ta, 'filter_params_aggregated', {})
    run(mon, ta, 'clearsky', [])
    got = ta.poa_global_clearsky
    mon.ev('tracker')
    if np.allclose(got.values, avg.values, rtol=1e-6, atol=1e-6, equal_nan=True):
        return
    if np.allclose(got.values, inst.values, rtol=1e-6, atol=1e-6, equal_nan=True):
        mon.fail('clear-sky irradiance of a time series of orientation is the value at the label, not the '
                 'interval average', got=got, want=avg)
    mon.series(got, avg, 'clear-sky irradiance with a time series of orientation', rtol=1e-6, atol=1e-6)


def known_key(res):
    if res['fn'] == 'tracker' and 'is the value at the label, not the interval average' in res['detail']:
        return 'orientation-series-not-averaged'
    return None


WORKLOADS = [(preprocess, 600, 6000), (yoy, 16, 100), (refusals, 8, 60), (tracker, 4, 20)]
