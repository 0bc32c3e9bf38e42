"""C21: system outages, their classification, and the roll-up."""
import numpy as np
import pandas as pd

from rv import env, avail
from rv.gen import pick, chance, tz

rdtools = env.load()
from rdtools.availability import AvailabilityAnalysis   # noqa: E402

PROPERTY = 'C21'
TECHNIQUE = 'reference-model, conservation and ground-truth monitors on outage_info, loss series, corrected meter and results'
RULE = ('a case is one plant history with system outages of several kinds and meter behaviours; every outage row, the loss and corrected '
        'meter series, the error distributions and the roll-up are recomputed and conservation is checked. Distinct: outage '
        'kinds with meter behaviour, sampling and roll-up period')
ASSUMPTIONS = ['regularly sampled inputs, as documented',
               'cases in which a decision lies within 1e-7 of its threshold are not judged further',
               'energy before the first timestamp is unknown, so an outage at the start of the data is unknown',
               'an outage is not required to be called real where the record is too short for any error bound']
REQUIRED = {'outages': 600, 'real': 150, 'comms': 100, 'unknown': 60, 'single_sample_outages': 30, 'start_outages': 30,
            'end_outages': 30, 'night_spanning': 100, 'rollup_rows': 1500, 'true_losses': 40, 'conserved': 150, 'daylight_midnight': 40}

ROLLUPS = ['ME', 'd', 'D', 'h', 'W', '7D', 'MS', 'YE', '6h']


def plant(rng, exact=False):
    minutes = int(pick(rng, [15, 30, 60]))
    days = int(pick(rng, [3, 6, 12, 40])) if minutes > 15 else int(pick(rng, [3, 6, 12]))
    n = days * 24 * 60 // minutes - int(rng.integers(0, 9))
    zone = tz(rng)
    idx = avail.times(rng, n, minutes, zone)
    base = avail.daylight(rng, n, minutes) * pick(rng, [1.0, 500.0])
    k = int(pick(rng, [1, 2, 3]))
    size = rng.uniform(0.5, 2.0, k)
    inv = base[:, None] * size[None, :]
    total = inv.sum(axis=1)
    exp = total * pick(rng, [1.0, 1.05, 0.7])
    if not exact:
        exp = exp * np.clip(1 + pick(rng, [0.02, 0.1]) * rng.standard_normal(n), 0.3, None)
        if chance(rng, 0.75):
            exp[total < 0.005 * total.max()] = 0.0
        else:
            exp[total < 1e-5 * total.max()] = 0.0           # (rolling sums lose what is smaller)
        if chance(rng, 0.15):           # a model that still sees a glimmer before dawn
            edge = (total <= 0) & (np.roll(total, -1) > 0)
            exp[edge] = total.max() * float(pick(rng, [1e-5, 1e-4, 5e-4]))
    return minutes, idx, base, inv, total, exp, k, n


def add_outages(rng, n, minutes, base, exact):
    """[(a, b, produced fraction)]: produced 0 = dead, 1 = only communication is lost."""
    per_day = 24 * 60 // minutes
    out, kinds = [], []
    light = np.flatnonzero(base > 0.05 * base.max())
    for _ in range(int(pick(rng, [1, 1, 2, 3]))):
        kind = pick(rng, ['one', 'short', 'day', 'days', 'night', 'start', 'end'])
        if exact and kind == 'start':
            kind = 'day'
        if kind in ('one', 'short'):
            a = int(pick(rng, light))
            b = a if kind == 'one' else a + int(rng.integers(1, 5))
        elif kind == 'night':
            dark = np.flatnonzero(base == 0)
            a = int(pick(rng, dark)) if len(dark) else n // 2
            b = a + 2
        elif kind == 'start':
            a, b = 0, int(rng.integers(1, max(2, n // 3)))
        elif kind == 'end':
            a, b = n - int(rng.integers(1, max(2, n // 3))), n - 1
        else:
            a = int(rng.integers(1, max(2, n - per_day)))
            b = a + (per_day if kind == 'day' else int(per_day * rng.uniform(1, 3)))
        b = min(b, n - 1)
        out.append((a, b, float(pick(rng, [0.0, 0.0, 1.0, 1.0, 0.5]))))
        kinds.append(kind)
    return out, kinds


def scenario(rng, exact=False):
    minutes, idx, base, inv, total, exp, k, n = plant(rng, exact)
    hours = minutes / 60.0
    outs, kinds = add_outages(rng, n, minutes, base, exact)
    made = total.copy()
    seen = inv.copy()
    hole = np.zeros(n, bool)
    for a, b, frac in outs:
        made[a:b + 1] = np.minimum(made[a:b + 1], total[a:b + 1] * frac)
        hole[a:b + 1] = True
    if not exact and k > 1 and chance(rng, 0.4):
        # an ordinary inverter outage as well
        a = int(rng.integers(0, n))
        b = min(n, a + int(rng.integers(1, n // 4 + 2)))
        made[a:b] = np.where(hole[a:b], made[a:b], made[a:b] - inv[a:b, 0])
        seen[a:b, 0] = 0.0
    cum = 1000.0 * pick(rng, [0, 1, 50]) + np.cumsum(made) * hours
    seen[hole] = pick(rng, [0.0, np.nan])
    meter = made.copy()
    meter[hole] = pick(rng, [0.0, np.nan])
    behaviour = 'holds' if exact else pick(rng, ['holds', 'holds', 'nan', 'zero', 'reset', 'consumption'])
    if behaviour == 'nan':
        cum = np.where(hole, np.nan, cum)
    elif behaviour == 'zero':
        cum = np.where(hole, 0.0, cum)
    elif behaviour == 'reset':
        at = int(rng.integers(0, n))
        cum = np.where(np.arange(n) >= at, cum - cum[at], cum)
    elif behaviour == 'consumption':
        cum = cum - np.arange(n) * 0.002 * total.max() * hours
    if not exact and chance(rng, 0.2):
        # readings of the meter that did not come through
        miss = rng.random(n) < pick(rng, [0.0, 0.02])
        for a, b, _ in outs:
            miss[max(a - 1, 0)] |= chance(rng, 0.5)
            miss[b] |= chance(rng, 0.2)
        cum = np.where(miss, np.nan, cum)
        behaviour += '+missing'
    if not exact and chance(rng, 0.1):
        exp = exp.copy()
        exp[rng.random(n) < 0.02] = np.nan
        behaviour += '+nanexpected'
    return dict(minutes=minutes, hours=hours, idx=idx, seen=pd.DataFrame(seen, index=idx, columns=['i%d' % j for j in range(k)]),
                meter=pd.Series(meter, index=idx), cum=pd.Series(cum, index=idx), exp=pd.Series(exp, index=idx), total=total,
                made=made, outs=outs, kinds=kinds, behaviour=behaviour, hole=hole, k=k)


COLS = ['intervals', 'daylight_intervals', 'error_lower', 'error_upper', 'energy_expected', 'energy_start', 'energy_end',
        'energy_actual', 'ci_lower', 'ci_upper', 'loss']


def usable(sc, sub):
    with np.errstate(invalid='ignore'):
        normal = (sub['loss'] == 0) & (sc['meter'].to_numpy() > 0) & (sc['exp'].to_numpy() > 0)
    return normal.sum() >= 4


def histories(rng, mon):
    sc = scenario(rng)
    idx, hours, n = sc['idx'], sc['hours'], len(sc['idx'])
    if chance(rng, 0.03):
        # inverters never report although the meter works: one outage, the whole record
        sc['seen'][:] = pick(rng, [0.0, np.nan])
        sc['behaviour'] += '+silent'
    sub = avail.subsystem(sc['meter'], sc['seen'])
    if not usable(sc, sub) or sub['tie'].any():
        mon.ev('not_analysable')
        return
    kw = {}
    q = (0.01, 0.99)
    if chance(rng, 0.4):
        q = kw['quantiles'] = pick(rng, [(0.05, 0.95), (0.0, 1.0), (0.3, 0.6), (0.9, 0.99)])
    roll = 'ME'
    if chance(rng, 0.8):
        roll = pick(rng, ROLLUPS)
        if roll == 'h' and n > 1500:
            roll = '6h'
        kw['rollup_period'] = roll
    aa = mon.call(AvailabilityAnalysis, sc['meter'], sc['seen'], sc['cum'], sc['exp'])
    mon.call(aa.run, **kw)
    P, E, C = sc['meter'].to_numpy(float), sc['exp'].to_numpy(float), sc['cum'].to_numpy(float)
    ref = avail.system(None, P, E, C, sub, hours, q)
    scale = max(float(np.nanmax(np.abs(P))), 1e-9)
    # subsystem part
    mon.close(aa.loss_subsystem.to_numpy(float), sub['loss'], 'subsystem loss', rtol=1e-7, atol=1e-9 * scale)
    # error distributions
    mon.close(aa.power_expected_rescaled.to_numpy(float), ref['Er'], 'rescaled expected power', rtol=1e-8, atol=1e-12 * scale)
    ee = aa.energy_expected_rescaled
    mon.series(ee, pd.Series(ref['eexp'], index=idx), 'rescaled expected energy', rtol=1e-8, atol=1e-12 * scale)
    got_err = aa.error_info.groupby('window length')['error']
    mon.eq(sorted(int(x) for x in got_err.groups), sorted(ref['errors']), 'window lengths of the error distribution')
    for L, w in ref['errors'].items():
        g = got_err.get_group(L).dropna().to_numpy(float)
        mon.close(np.sort(g), np.sort(w), 'error distribution', rtol=1e-6, atol=1e-7, window=L)
    if ref['tie']:
        mon.ev('ties_skipped')
        return
    # outages
    info = aa.outage_info
    rows = ref['rows']
    mon.eq(len(info), len(rows), 'number of outages', found=info[['start', 'end']] if len(info) else None,
           expected=[(str(idx[r['a']]), str(idx[r['b']])) for r in rows], kinds=sc['kinds'])
    for (_, g), r in zip(info.iterrows(), rows):
        mon.eq(g['start'], idx[r['a']], 'outage start')
        mon.eq(g['end'], idx[r['b']], 'outage end')
        mon.eq(g['duration'], idx[r['b']] - idx[r['a']], 'outage duration')
        mon.eq(g['type'], r['type'], 'outage type', row=g.to_dict(), expected=r)
        for c in COLS:
            big = max(1.0, abs(r['energy_expected']), abs(r['energy_end']) if np.isfinite(r['energy_end']) else 0)
            mon.close(float(g[c]), float(r[c]), 'outage ' + c, rtol=1e-6, atol=1e-6 if 'error' in c else 1e-9 * big, row=g.to_dict())
        mon.ev('outages')
        mon.ev(r['type'])
        mon.ev('single_sample_outages', r['intervals'] == 1)
        mon.ev('start_outages', r['a'] == 0)
        mon.ev('end_outages', r['b'] == n - 1)
        mon.ev('night_spanning', r['intervals'] > r['daylight_intervals'])
    cscale = max(1.0, float(np.nanmax(np.abs(C))) if np.isfinite(C).any() else 1.0)
    mon.series(aa.loss_system, pd.Series(ref['lost'], index=idx), 'lost power of system outages', rtol=1e-6, atol=1e-8 * scale)
    total = ref['lost'] + sub['loss']
    mon.series(aa.loss_total, pd.Series(total, index=idx), 'total lost power', rtol=1e-6, atol=1e-8 * scale)
    mon.series(aa.energy_cumulative_corrected, pd.Series(ref['corr'], index=idx), 'corrected meter', rtol=1e-7, atol=1e-8 * cscale)
    judge_rollup(mon, aa, total, ref, sub, idx, hours, roll, cscale, scale)
    mon.sig(tuple(sorted(set(sc['kinds']))), sc['behaviour'], sc['minutes'], str(roll))
    mon.note(kinds=sc['kinds'], behaviour=sc['behaviour'], rollup=roll, outages=info[['start', 'end', 'type', 'loss']], results=aa.results.head(3))


def judge_rollup(mon, aa, total, ref, sub, idx, hours, roll, cscale, scale):
    rule = pd.tseries.offsets.MonthEnd() if roll == 'ME' else roll
    groups = pd.Series(np.arange(len(idx)), index=idx).resample(rule)
    lost_e = avail.interval_energy(total, hours)
    corr = ref['corr']
    res = aa.results
    labels, lost, made = [], [], []
    prev = np.nan
    for lab, g in groups:
        p = g.to_numpy(int)
        labels.append(lab)
        # before the second timestamp no energy is known
        lost.append(np.nansum(lost_e[p]) if len(p) == 0 or p[-1] > 0 else np.nan)
        ok = p[~np.isnan(corr[p])] if len(p) else p
        if len(ok):
            first = prev if not np.isnan(prev) else corr[ok[0]]
            made.append(corr[ok[-1]] - first)
            prev = corr[ok[-1]]
        else:
            made.append(np.nan)
    mon.index(res.index, pd.DatetimeIndex(labels), 'roll-up periods')
    mon.close(res['lost_production'].to_numpy(float), np.array(lost), 'lost production per period', rtol=1e-6, atol=1e-7 * scale)
    mon.close(res['actual_production'].to_numpy(float), np.array(made), 'actual production per period', rtol=1e-7, atol=1e-8 * cscale)
    with np.errstate(all='ignore'):
        lo, ac = np.array(lost), np.array(made)
        tiny_first = np.isnan(lo)
        den = lo + ac
        want = 1 - lo / den
    tiny = ~(np.abs(den) > 1e-6 * cscale)
    mon.close(res['availability'].to_numpy(float), want, 'availability per period', rtol=1e-5, atol=1e-6, skip=tiny)
    mon.ev('rollup_rows', len(res))
    # conservation over the whole record
    if not np.isnan(total).any():
        every = sum(r['loss'] for r in ref['rows']) + nsub(sub, hours)
        mon.close(float(res['lost_production'].sum()), every, 'lost production adds up to the outage losses', rtol=1e-6, atol=1e-7 * scale)
        ok = corr[~np.isnan(corr)]
        if len(ok):
            mon.close(float(res['actual_production'].sum()), ok[-1] - ok[0], 'actual production adds up to the meter', rtol=1e-7, atol=1e-8 * cscale)
        mon.ev('conserved')
    day = ref['eexp']
    at0 = (idx.hour == 0) & (idx.minute == 0)
    with np.errstate(invalid='ignore'):
        mon.ev('daylight_midnight', bool((day[at0] > 0.01 * np.nanmax(day)).any()))


def nsub(sub, hours):
    return float(np.nansum(avail.interval_energy(sub['loss'], hours)))


def truth(rng, mon):
    """Noise-free plant and an honest meter: the reported loss of a real outage is what was lost."""
    sc = scenario(rng, exact=True)
    sub = avail.subsystem(sc['meter'], sc['seen'])
    if not usable(sc, sub):
        return
    aa = mon.call(AvailabilityAnalysis, sc['meter'], sc['seen'], sc['cum'], sc['exp'])
    mon.call(aa.run, rollup_period='D')
    info = aa.outage_info
    idx, hours = sc['idx'], sc['hours']
    for _, g in info.iterrows():
        a, b = idx.get_loc(g['start']), idx.get_loc(g['end'])
        if a == 0:
            continue
        lost = float((sc['total'] - sc['made'])[a:b + 1].sum() * hours)
        full = float(sc['total'][a:b + 1].sum() * hours)
        if full <= 0 or lost < 0.05 * full or np.isnan(g['error_lower']):      # (no normal stretch to learn the error from)
            continue
        mon.eq(g['type'], 'real', 'an outage without production is real', row=g.to_dict())
        mon.close(g['loss'], lost, 'loss of a real outage', rtol=1e-5, atol=1e-6 * full)
        mon.ev('true_losses')
    dark = sc['exp'].to_numpy() <= 0
    for a, b, _ in sc['outs']:
        if not dark[a:b + 1].all():
            hit = ((info['start'] <= idx[b]) & (info['end'] >= idx[a])).sum()
            mon.ok(hit >= 1, 'an outage in daylight is listed', a=str(idx[a]), b=str(idx[b]))
    mon.sig('truth', tuple(sc['kinds']), sc['minutes'])


WORKLOADS = [(histories, 900, 8000), (truth, 120, 1000)]
