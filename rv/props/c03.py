"""C03: normalized energy = measured energy / modelled energy, interval by interval."""
import numpy as np
import pandas as pd

from rv import env, gen
from rv.gen import MIN, chance, pick
from rv.props.c01 import lerp, model as energy_model

rdtools = env.load()
PROPERTY = 'C03'
RULE = ('regular pv series (power or energy) x expected power / POA on the same, finer, coarser or '
        'irregular grid, partially overlapping, with NaN and zeros x pvwatts parameters; non-trivial '
        'when at least one finite normalized value was compared; distinct by (input kind, grid '
        'ratio, zone, nan classes, api)')
ASSUMPTIONS = ['pv is a regular fixed-frequency series of at least 3 samples',
               'when the mean steps of pv and model agree to 1e-9 either side of the '
               'coarser-than-pv rule is accepted']
REQUIRED = {'finite_normalized': 2000, 'pv_power': 100, 'pv_energy': 100, 'model_coarser': 50,
            'model_finer': 50, 'model_same': 50, 'pvwatts': 100, 'refusals_observed': 20}


def ref_energy(s, freq):
    return energy_model(s, freq, None, 'right_labeled')[0]


def ref_interp(s, idx):
    ts = s.index.asi8
    v = s.to_numpy(dtype=float)
    gaps = np.diff(ts[~np.isnan(v)]).astype(float)
    return pd.Series(lerp(ts, v, idx.asi8, 2 * float(np.median(gaps))), index=idx)


def reference(pv, expected, poa, kind, freq, interpolated):
    energy = ref_energy(pv, freq) if kind == 'power' else pv.astype(float)
    if interpolated:
        expected, poa = ref_interp(expected, pv.index), ref_interp(poa, pv.index)
    ee, ins = ref_energy(expected, freq), ref_energy(poa, freq)
    idx = energy.index.union(ee.index).union(ins.index)
    e, x = energy.reindex(idx).values, ee.reindex(idx).values
    with np.errstate(all='ignore'):
        norm = e / x
    return pd.Series(norm, index=idx), ins.reindex(idx)


def mean_step(idx):
    return (idx.asi8[-1] - idx.asi8[0]) / (len(idx) - 1)


def make_inputs(rng):
    f = int(pick(rng, [5, 10, 15, 30, 60])) * MIN
    zone = gen.tz(rng)
    st = gen.start_ts(rng, zone)
    n = int(pick(rng, [3, 4, 8, 30, 100]))
    pv_idx = gen.rel_index(st, np.arange(n) * f)
    fr = pd.tseries.frequencies.to_offset('%dmin' % (f // MIN))
    v = gen.sprinkle_nan(rng, gen.power_values(rng, n), lead=0, trail=0,
                         p=pick(rng, [0, 0, 0.1]))
    if np.isnan(v).sum() > n - 2:
        v = gen.power_values(rng, n)
    pv = pd.Series(v, index=pv_idx, name=pick(rng, ['pv', None]))
    if chance(rng, 0.5):
        pv.index.freq = fr
    ratio = pick(rng, ['same', 'same', 'fine3', 'fine5', 'coarse2', 'coarse3', 'irregular'])
    pad = int(pick(rng, [0, 0, 1, 3]))
    lo, hi = -pad * f, (n - 1 + int(pick(rng, [0, 0, 2]))) * f
    if ratio == 'same':
        off = np.arange(lo, hi + 1, f)
    elif ratio == 'fine3' or ratio == 'fine5':
        off = np.arange(lo, hi + 1, f // int(ratio[-1]))
    elif ratio.startswith('coarse'):
        k = int(ratio[-1])
        off = np.arange(lo, hi + k * f, k * f)
    else:
        off = np.unique(np.concatenate([[lo, hi], rng.integers(lo, hi + 1, 3 * n) // 10**9 * 10**9]))
    if chance(rng, 0.15) and ratio != 'irregular':
        off = off[rng.random(len(off)) < 0.85]
    if len(off) < 4:
        off = np.arange(4) * f
        ratio = 'same'
    m_idx = gen.rel_index(st, off)

    def col(scale):
        x = np.abs(gen.power_values(rng, len(off))) + (0 if chance(rng, 0.3) else 1)
        x = gen.sprinkle_nan(rng, x * scale, p=pick(rng, [0, 0, 0.1]), lead=0,
                             trail=pick(rng, [0, 0, 1]))
        if np.isnan(x).sum() > len(x) - 3:
            x = np.arange(len(x)) + 1.0
        return pd.Series(x, index=m_idx)
    expected, poa = col(1.0), col(2.0)
    if chance(rng, 0.3) and ratio == 'same':
        m = pd.infer_freq(m_idx)
        if m is not None:
            expected.index.freq = m
    return pv, fr, expected, poa, ratio


def compare(mon, got, pv, expected, poa, kind, fr, ctx):
    mon.ok(isinstance(got, tuple) and len(got) == 2, 'two series returned', got=type(got))
    mm, mv = mean_step(expected.index), mean_step(pv.index)
    options = []
    if abs(mm - mv) <= 1e-9 * mv:
        options = [False, True]
        mon.ev('model_same')
    else:
        options = [mm > mv]
        mon.ev('model_coarser' if mm > mv else 'model_finer')
    err = None
    from rv.core import Violation
    for o in options:
        ref = reference(pv, expected, poa, kind, fr, o)
        try:
            mon.series(got[0], ref[0], 'normalized energy', rtol=1e-6, atol=1e-9, **ctx)
            mon.series(got[1], ref[1], 'insolation', rtol=1e-6,
                       atol=1e-7 * np.nanmax(np.abs(poa)), **ctx)
            err = None
            break
        except Violation as e:
            err = err or e
    if err:
        raise err
    nf = int(np.isfinite(ref[0].values).sum())
    mon.ev('finite_normalized', nf)
    return nf


def expected_power(rng, mon):
    pv, fr, expected, poa, ratio = make_inputs(rng)
    if chance(rng, 0.2) and len(poa) > 8:
        # the irradiance record ends earlier or starts later than the expected power, or the other way round
        a, b = int(rng.integers(0, 3)), int(rng.integers(0, 3))
        if chance(rng, 0.5):
            poa = poa.iloc[a:len(poa) - b]
        else:
            expected = expected.iloc[a:len(expected) - b]
        mon.ev('different_spans')
    kind = pick(rng, ['power', 'energy'])
    kw = {} if kind == 'power' and chance(rng, 0.5) else {'pv_input': kind}
    got = mon.call(rdtools.normalize_with_expected_power, pv, expected, poa, **kw)
    ctx = dict(pv=pv, expected=expected, poa=poa, pv_input=kind)
    nf = compare(mon, got, pv, expected, poa, kind, fr, ctx)
    mon.ev('pv_' + kind)
    if nf:
        mon.sig('exp', kind, ratio, str(pv.index.tz), bool(pv.isna().any()),
                bool(expected.isna().any()), len(pv))
    mon.note(**ctx)


def pvwatts(rng, mon):
    pv, fr, _, poa, ratio = make_inputs(rng)
    rated = float(pick(rng, [1.0, 5.5, 1000.0, 0.25]))
    kws = {'poa_global': poa, 'power_dc_rated': rated}
    ref = rated * poa / 1000.0
    pref = 1000.0
    tref = 25.0
    if chance(rng, 0.4):
        pref = float(pick(rng, [800.0, 1000.0, 1100.0, 1.0]))
        kws['poa_global_ref'] = pref
        ref = rated * poa / pref
    tc = gamma = None
    if chance(rng, 0.7):
        tc = pd.Series(rng.uniform(pick(rng, [-10, -60]), pick(rng, [70, 130]), len(poa)), index=poa.index)
        if chance(rng, 0.3):
            tc[rng.random(len(tc)) < 0.1] = np.nan
        if chance(rng, 0.1):
            tc[:] = 0.0
        kws['temperature_cell'] = tc
    if chance(rng, 0.7):
        gamma = float(pick(rng, [-0.003, -0.005, 0.0, 0.001]))
        kws['gamma_pdc'] = gamma
    if chance(rng, 0.4):
        tref = float(pick(rng, [20.0, 25.0, 0.0, 47.0]))
        kws['temperature_cell_ref'] = tref
    if tc is not None and gamma is not None:
        ref = ref * (1 + gamma * (tc - tref))
        mon.ev('pvwatts_with_temperature')
    got = mon.call(rdtools.normalization.pvwatts_dc_power, **kws)
    mon.series(got, ref, 'PVWatts DC power', rtol=1e-10, kws=kws)
    mon.ev('pvwatts')
    got = mon.call(rdtools.normalize_with_pvwatts, pv, kws)
    nf = compare(mon, got, pv, ref, poa, "energy", fr, dict(energy=pv, kws=kws))
    if nf:
        mon.sig('pvw', ratio, tc is None, gamma is None, pref, tref, str(pv.index.tz))


def refusals(rng, mon):
    pv, fr, expected, poa, ratio = make_inputs(rng)
    mon.raises(ValueError, 'unknown pv_input must be refused',
               rdtools.normalize_with_expected_power, pv, expected, poa,
               pv_input=pick(rng, ['Power', 'Energy', '', 'insolation']))
    if chance(rng, 0.5):
        idx = gen.rel_index(pv.index[0], np.unique(rng.integers(0, 10**13, 9) // 10**9 * 10**9))
    else:                       # regular but for one reading, early or late
        n = int(pick(rng, [8, 60, 120, 500]))
        off = np.arange(n) * 900 * 10**9
        k = int(pick(rng, [1, n // 2, n - 2]))
        idx = gen.rel_index(pv.index[0], np.delete(off, k) if chance(rng, 0.5) else off + np.where(np.arange(n) == k, 60 * 10**9, 0))
    if pd.infer_freq(idx) is None:
        bad = pd.Series(1.0, index=idx)
        mon.raises(ValueError, 'irregular pv must be refused',
                   rdtools.normalize_with_expected_power, bad, expected, poa,
                   pv_input=pick(rng, ['power', 'energy']))


WORKLOADS = [(expected_power, 3000, 40000), (pvwatts, 2000, 25000), (refusals, 60, 500)]
