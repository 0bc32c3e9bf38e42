"""Reference composition of the TrendAnalysis workflows from the public step functions."""
import contextlib
import io

import numpy as np
import pandas as pd
import pvlib

from rv import env

rdtools = env.load()
F = rdtools.filtering

# published SAPM cell-temperature parameters (King et al. 2004)
SAPM = {'open_rack_glass_glass': (-3.47, -0.0594, 3), 'close_mount_glass_glass': (-2.98, -0.0471, 1),
        'open_rack_glass_polymer': (-3.56, -0.0750, 3), 'insulated_back_glass_polymer': (-2.81, -0.0455, 0)}


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def sapm_cell(poa, tamb, wind, model):
    if model is None:
        model = 'open_rack_glass_polymer'
    a, b, dt = SAPM[model] if isinstance(model, str) else (model['a'], model['b'], model['deltaT'])
    back = poa * np.exp(a + b * wind) + tamb
    return back + poa / 1000.0 * dt


def align(inp):
    """Step 1: everything on the index of pv; energy from power."""
    mt = inp['max_timedelta']
    out = dict(inp)
    pv = inp['pv']
    if inp['interp_freq'] is not None:
        pv = rdtools.interpolate(pv, inp['interp_freq'], mt)
    out['pv'] = pv
    for k in ('poa_global', 'temperature_cell', 'temperature_ambient', 'power_expected', 'windspeed'):
        if isinstance(inp[k], pd.Series):
            out[k] = rdtools.interpolate(inp[k], pv.index, mt)
    if inp['pv_input'] == 'power':
        out['energy'] = rdtools.energy_from_power(pv, max_timedelta=mt)
        out['power'] = pv
    else:
        out['energy'], out['power'] = pv, None
    return out


def interp_to(out, s):
    return rdtools.interpolate(s, out['energy'].index, out['max_timedelta']) \
        if isinstance(s, (pd.Series, pd.DataFrame)) else s


def robust_q95(x):
    x = x[np.isfinite(x)]
    if not len(x):
        return np.nan
    keep = x[x > np.quantile(x, 0.95) / 1000]
    return np.quantile(keep, 0.95)


def normalize(out, poa, tcell):
    if out['power_expected'] is not None:
        return rdtools.normalize_with_expected_power(out['energy'], out['power_expected'], poa,
                                                     pv_input='energy')
    rated = out['power_dc_rated']
    kws = dict(power_dc_rated=1.0 if rated is None else rated, poa_global=poa,
               temperature_cell=tcell, poa_global_ref=1000, temperature_cell_ref=25,
               gamma_pdc=out['gamma_pdc'])
    norm, ins = rdtools.normalize_with_pvwatts(out['energy'], kws)
    if rated is None:
        norm = norm / robust_q95(norm.to_numpy(dtype=float))
    return norm, ins


def combine(components, base_index, ad_hoc):
    """AND of all masks on the union of their indexes; a missing verdict is a rejection."""
    idx = base_index
    for m in components.values():
        idx = idx.union(m.index)
    cols = {}
    for k, m in components.items():
        cols[k] = m.astype(bool).reindex(idx, fill_value=False).to_numpy(dtype=bool)
    default = base_index
    if ad_hoc is not None:
        a = ad_hoc.copy()
        vals = {}
        for t, v in zip(a.index, a.values):
            vals[t] = bool(v) if not pd.isna(v) else False
        cols['ad_hoc_filter'] = np.array([vals.get(t, True) for t in idx], dtype=bool)
    frame = pd.DataFrame(cols, index=idx)
    keep = np.isin(idx.asi8, default.asi8)
    for v in cols.values():
        keep = keep & v
    return pd.Series(keep, index=idx), frame


def point_masks(params, norm, poa, tcell, out, loc, clear_pair, case):
    comp = {}
    if 'normalized_filter' in params:
        comp['normalized_filter'] = F.normalized_filter(norm, **params['normalized_filter'])
    if 'poa_filter' in params:
        comp['poa_filter'] = F.poa_filter(poa, **params['poa_filter'])
    if 'tcell_filter' in params:
        comp['tcell_filter'] = F.tcell_filter(tcell, **params['tcell_filter'])
    if 'clip_filter' in params:
        comp['clip_filter'] = F.clip_filter(out['power'], **params['clip_filter'])
    if 'hour_angle_filter' in params:
        comp['hour_angle_filter'] = F.hour_angle_filter(norm, loc.latitude, loc.longitude,
                                                        **params['hour_angle_filter'])
    if case == 'clearsky':
        comp['clearsky_filter'] = F.clearsky_filter(*clear_pair, **params['clearsky_filter'])
    if case == 'sensor' and 'sensor_clearsky_filter' in params:
        comp['sensor_clearsky_filter'] = F.clearsky_filter(*clear_pair,
                                                           **params['sensor_clearsky_filter'])
    return comp


def aggregate_masks(params, agg, ins):
    comp = {}
    if 'two_way_window_filter' in params:
        comp['two_way_window_filter'] = F.two_way_window_filter(agg, **params['two_way_window_filter'])
    if 'insolation_filter' in params:
        comp['insolation_filter'] = F.insolation_filter(ins, **params['insolation_filter'])
    if 'hampel_filter' in params:
        comp['hampel_filter'] = F.hampel_filter(agg, **params['hampel_filter'])
    if 'directional_tukey_filter' in params:
        comp['directional_tukey_filter'] = F.directional_tukey_filter(
            agg, **params['directional_tukey_filter'])
    return comp


def finish(norm, ins, mask, params_agg, freq):
    keep = mask.reindex(norm.index).to_numpy(dtype=bool)
    e, w = norm[keep], ins.reindex(norm.index)[keep]
    agg = rdtools.aggregation_insol(e, w, freq)
    agg_ins = w.resample(freq, origin='start_day').sum()
    comp = aggregate_masks(params_agg, agg, agg_ins)
    amask, aframe = combine(comp, agg.index, params_agg.get('ad_hoc_filter'))
    k = amask.reindex(agg.index).to_numpy(dtype=bool)
    perf, insol = agg[k], agg_ins[k]
    # back onto the full calendar between the first and last kept bin
    full = agg.index[(agg.index >= perf.index[0]) & (agg.index <= perf.index[-1])] if len(perf) \
        else agg.index[:0]
    return dict(aggregated=agg, agg_mask=amask, agg_components=aframe,
                performance=perf.reindex(full), insolation=insol.reindex(full))


def judge_masks(mon, got_mask, got_frame, mask, frame, what, ctx):
    mon.mask(got_mask, mask, what + ': combined mask', **ctx)
    mon.ok(sorted(got_frame.columns) == sorted(frame.columns), what + ': set of applied filters',
           got=list(got_frame.columns), want=list(frame.columns), **ctx)
    for c in frame:
        mon.mask(got_frame[c].astype(bool), frame[c], what + ': component ' + c, **ctx)


class Params(dict):
    pass
