"""C12: clear-sky filtering is the Reno-Hansen test with the stated parameters."""
import numpy as np
import pandas as pd
import pvlib

from rv import env, gen
from rv.gen import chance, pick

rdtools = env.load()
F = rdtools.filtering
PROPERTY = 'C12'
RULE = ('1-3 days of clear-sky irradiance and a measurement with clouds, ramps, oscillation, scale and offset '
        'errors and missing values at 0.5-60 min sampling, partially overlapping, x parameters (default, '
        'caller-given one by one, published lookup), judged against the Reno-Hansen detection called with '
        'parameters written out in the oracle; distinct by (sampling, zone, overlap, parameter set, nan)')
ASSUMPTIONS = ['regular sampling on the union of the two indexes (the detection refuses others)',
               'pvlib.clearsky.detect_clearsky is the trusted implementation of the detection']
DEFAULTS = dict(window_length=90, mean_diff=75, max_diff=75, lower_line_length=-45,
                upper_line_length=80, var_diff=0.032, slope_dev=75)
REQUIRED = dict({'points_judged': 50000, 'clear': 3000, 'not_clear': 10000, 'lookup': 150,
                 'lookup_without_freq': 20, 'refusals_observed': 20, 'partial_overlap': 50,
                 'sharp': 60},
                **{'decisive_' + k: 15 for k in DEFAULTS})


def lookup(minutes):
    x = [1, 5, 15, 30]
    return dict(window_length=float(np.interp(minutes, x, [50, 60, 90, 120])),
                max_diff=float(np.interp(minutes, x, [60, 65, 75, 90])),
                var_diff=float(np.interp(minutes, x, [0.005, 0.01, 0.032, 0.07])),
                slope_dev=float(np.interp(minutes, x, [50, 60, 75, 96])))


def scenario(rng):
    step = float(pick(rng, [0.5, 1, 2, 2.5, 3, 5, 7, 7.5, 10, 12, 15, 15, 15, 20, 25, 30, 30, 45, 60]))
    days = 1 if step <= 1 else int(pick(rng, [1, 2, 3]))
    n = int(days * 1440 / step)
    zone = gen.tz(rng)
    st = gen.start_ts(rng, zone)
    idx = gen.rel_index(st, (np.arange(n) * step * 60 * 10**9).astype('int64'))
    tod = (np.arange(n) * step / 60.0) % 24
    clear = 1000 * np.clip(np.sin((tod - 6) / 12 * np.pi), 0, None) ** 1.2
    m = clear * float(pick(rng, [1.0, 1.0, 0.95, 1.05, 0.9, 1.15]))
    amp = float(10 ** rng.uniform(0, 2.3))
    kind = pick(rng, ['osc', 'cloud', 'ramp', 'offset', 'noise', 'mixed', 'exact'])
    day = clear > 0
    if kind in ('osc', 'mixed'):
        m = m + day * amp * np.sin(np.arange(n) * rng.uniform(0.2, 3.0))
    if kind in ('cloud', 'mixed'):
        for _ in range(int(rng.integers(1, 6))):
            a = int(rng.integers(0, n))
            m[a:a + int(rng.integers(1, max(2, int(120 / step))))] *= rng.uniform(0.2, 0.97)
    if kind == 'ramp':
        m = m + day * amp * (np.arange(n) / n - 0.5) * 2
    if kind == 'offset':
        m = m + day * amp * pick(rng, [-1, 1])
    if kind == 'noise':
        m = m + day * rng.normal(0, amp / 3, n)
    nan = pick(rng, [0, 0, 0.02])
    m = np.where(rng.random(n) < nan, np.nan, m)
    meas, cs = pd.Series(m, index=idx, name=pick(rng, [None, 'poa', 'measured'])), \
        pd.Series(clear, index=idx)
    overlap = pick(rng, ['same', 'same', 'same', 'meas_short', 'cs_short', 'shifted'])
    k = int(rng.integers(1, max(2, n // 6)))
    if overlap == 'meas_short':
        meas = meas.iloc[k:]
    elif overlap == 'cs_short':
        cs = cs.iloc[:-k]
    elif overlap == 'shifted':
        meas, cs = meas.iloc[k:], cs.iloc[:-k]
    freq_set = chance(rng, 0.6)
    if freq_set:
        f = pd.tseries.frequencies.to_offset(pd.Timedelta(minutes=step))
        meas.index.freq = f
        if chance(rng, 0.7):
            cs.index.freq = f
    return meas, cs, step, overlap, nan, freq_set, kind


def reference(meas, cs, params):
    idx = meas.index.union(cs.index)
    return pvlib.clearsky.detect_clearsky(meas.reindex(idx), cs.reindex(idx), **params)


def close_params(p, step):
    """Parameter sets equivalent up to rounding of the window length."""
    w = p['window_length'] / step
    out = [p]
    if abs(w - round(w)) < 1e-9 and w != round(w):
        out.append(dict(p, window_length=round(w) * step))
    return out


def detect(rng, mon):
    meas, cs, step, overlap, nan, freq_set, kind = scenario(rng)
    p = dict(DEFAULTS)
    kw = {}
    how = pick(rng, ['default', 'default', 'one', 'one', 'many', 'lookup', 'lookup', 'kwargs'])
    if step > 30 and how != 'lookup':
        kw['window_length'] = float(pick(rng, [240, 300]))
    loose = dict(mean_diff=400.0, max_diff=400.0, lower_line_length=-2000.0,
                 upper_line_length=3000.0, var_diff=1.0, slope_dev=500.0)
    tight = dict(mean_diff=float(rng.uniform(2, 120)), max_diff=float(rng.uniform(2, 120)),
                 lower_line_length=float(-rng.uniform(0.5, 60)),
                 upper_line_length=float(rng.uniform(0.5, 120)),
                 var_diff=float(10 ** rng.uniform(-3.5, -1)), slope_dev=float(rng.uniform(2, 120)))
    which = None
    if how == 'one':
        which = pick(rng, sorted(loose))
        kw.update(loose)
        kw[which] = tight[which]
        if chance(rng, 0.3):
            kw = {k: v for k, v in kw.items() if chance(rng, 0.7) or k == 'window_length'}
    elif how == 'many':
        for k in tight:
            if chance(rng, 0.5):
                kw[k] = tight[k]
        kw.setdefault('window_length', float(max(pick(rng, [30, 60, 120, 95]), 3 * step)))
    elif how == 'lookup':
        kw['lookup_parameters'] = True
        for k in ('mean_diff', 'lower_line_length', 'upper_line_length', 'max_diff', 'slope_dev'):
            if chance(rng, 0.3):
                kw[k] = loose[k] if chance(rng, 0.5) else tight[k]
        if step > 30:
            kw['window_length'] = 240.0
    elif how == 'kwargs':
        kw['max_iterations'] = int(pick(rng, [1, 2, 20]))
    p.update({k: v for k, v in kw.items() if k != 'lookup_parameters'})
    if kw.get('lookup_parameters'):
        if freq_set:
            p.update(lookup(step))
            mon.ev('lookup')
        else:
            mon.ev('lookup_without_freq')
    elif chance(rng, 0.2):
        kw['lookup_parameters'] = False
    if 2 * step > p['window_length'] or len(meas.index.union(cs.index)) < p['window_length'] / step + 1:
        return
    ctx = dict(measured=meas, clearsky=cs, kw=kw, want_parameters=p)
    entry = pick(rng, [F.clearsky_filter, F.pvlib_clearsky_filter])
    kw2 = dict(kw)
    if entry is F.clearsky_filter and chance(rng, 0.4):
        kw2['model'] = 'pvlib'
    if chance(rng, 0.15):
        kw2['return_components'] = pick(rng, [True, False])    # documented as ignored
    refs, err = [], None
    for q in close_params(p, step):
        try:
            refs.append(reference(meas, cs, q))
        except Exception as e:
            err = e
    if not refs:
        # e.g. the optimizer of the detection has nothing to work on
        mon.raises(type(err), 'the detection refuses this input', entry, meas, cs, **kw2)
        return
    got = mon.call(entry, meas, cs, **kw2)
    want = refs[0]
    if len(refs) > 1:
        for r in refs:
            if (np.asarray(got.values, dtype=bool) == r.values).all():
                want = r
    mon.mask(got, want, 'clear-sky mask', **ctx)
    mon.ev('points_judged', len(want))
    mon.ev('clear', int(want.sum()))
    mon.ev('not_clear', int((~want).sum()))
    if overlap != 'same':
        mon.ev('partial_overlap')
    if mon.index_in_workload % 3 == 0:
        # which parameters decide this case (evidence of reach)
        for k in DEFAULTS:
            for f in (0.6, 1.6):
                q = dict(p)
                q[k] = q[k] * f
                if k == 'window_length' and q[k] < 2 * step:
                    continue
                try:
                    if (reference(meas, cs, q).values != want.values).any():
                        mon.ev('decisive_' + k)
                        break
                except Exception:
                    pass
    mon.sig(how, which, step, str(meas.index.tz), overlap, nan > 0, kind, freq_set)
    mon.note(**ctx)


def sharp(rng, mon):
    """Measurements disturbed just enough that a slightly different parameter would decide otherwise."""
    look = chance(rng, 0.65)
    step = float(pick(rng, [0.5, 1, 1, 3, 5, 5, 10, 15, 15, 20, 30, 30, 60] if look else [5, 10, 15, 30]))
    n = int(1440 / step) if step > 2 else int(720 / step)
    st = pd.Timestamp('2021-06-01 00:00' if step > 2 else '2021-06-01 06:00', tz=gen.tz(rng))
    idx = gen.rel_index(st, (np.arange(n) * step * 60 * 10**9).astype('int64'))
    tod = (idx[0].hour + np.arange(n) * step / 60.0) % 24
    clear = 1000 * np.clip(np.sin((tod - 6) / 12 * np.pi), 0, None) ** 1.2
    free = ['max_diff', 'var_diff', 'slope_dev', 'mean_diff', 'lower_line_length', 'upper_line_length']
    k = pick(rng, free[:3] if look else free)
    loose = dict(mean_diff=900.0, max_diff=900.0, lower_line_length=-9000.0, upper_line_length=9000.0,
                 var_diff=9.0, slope_dev=900.0)
    fixed = lookup(step) if look else {}
    kw = {a: b for a, b in loose.items() if a != k}
    p = dict(DEFAULTS, **kw)
    p.update(fixed)
    if look:
        kw['lookup_parameters'] = True
    if 2 * step > p['window_length']:
        kw['window_length'] = p['window_length'] = 240.0
        if look:
            return
    f = pick(rng, [0.985, 1.015])
    shape = {'max_diff': 'spike', 'slope_dev': 'spike', 'var_diff': 'osc', 'mean_diff': 'bump',
             'lower_line_length': 'bump', 'upper_line_length': 'osc'}[k]
    base = np.zeros(n)
    if shape == 'spike':
        at = rng.choice(np.flatnonzero(clear > 50), size=min(n, 4), replace=False)
        base[at] = rng.uniform(0.5, 1.5, len(at)) * rng.choice([-1, 1], len(at))
    elif shape == 'osc':
        base = (clear > 0) * np.sin(np.arange(n) * rng.uniform(0.5, 3.0)) * rng.uniform(0.5, 1.5, n)
    else:
        base = (clear > 0) * -np.exp(-((tod - rng.uniform(9, 15)) / rng.uniform(0.3, 3)) ** 2)
    found = None
    c = pd.Series(clear, index=idx)

    def ref(amp, q):
        return reference(pd.Series(clear + amp * base, index=idx), c, q).values
    try:
        lo, hi = 0.2, float(10 ** rng.uniform(1.5, 3))
        r0 = ref(lo, p)
        if (ref(hi, p) != r0).any():
            for _ in range(11):
                mid = (lo * hi) ** 0.5
                if (ref(mid, p) != r0).any():
                    hi = mid
                else:
                    lo = mid
            amp = hi if f > 1 else lo
            if (ref(amp, p) != ref(amp, dict(p, **{k: p[k] * f}))).any():
                m = pd.Series(clear + amp * base, index=idx)
                found = m, c, reference(m, c, p)
    except Exception:
        pass
    if found is None:
        mon.ev('sharp_not_found')
        return
    m, c, want = found
    m.index.freq = pd.tseries.frequencies.to_offset(pd.Timedelta(minutes=step))
    got = mon.call(F.pvlib_clearsky_filter, m, c, **kw)
    if len(close_params(p, step)) > 1:
        alt = reference(m, c, close_params(p, step)[1])
        if (alt.values == np.asarray(got.values, bool)).all():
            want = alt
    mon.mask(got, want, 'clear-sky mask at the limit of ' + k, measured=m, clearsky=c, kw=kw)
    mon.ev('sharp_' + k)
    mon.ev('sharp')
    mon.sig('sharp', k, look, step, f > 1)


def refuse(rng, mon):
    meas, cs, *_ = scenario(rng)
    mon.raises(ValueError, 'an unknown clear-sky model must be refused', F.clearsky_filter, meas, cs,
               model=pick(rng, ['reno', 'CSI', '', None, 'pvlib_clearsky_filter']))
    # model='csi' answers the clear-sky-index rule, with the given threshold only
    thr = float(pick(rng, [0.15, 0.05, 0.3]))
    kw = {} if thr == 0.15 else dict(threshold=thr)
    got = mon.call(F.clearsky_filter, meas, cs, model='csi', **kw)
    idx = meas.index.union(cs.index)
    c = (meas.reindex(idx) / cs.reindex(idx)).to_numpy()
    want = pd.Series(np.abs(c - 1) <= thr, index=idx)
    mon.mask(got, want, 'csi mask', skip=np.abs(np.abs(c - 1) - thr) < 1e-9, meas=meas, cs=cs)


WORKLOADS = [(detect, 1500, 15000), (sharp, 800, 6000), (refuse, 40, 300)]
