"""C20: subsystem outage loss."""
import numpy as np
import pandas as pd

from rv import env, avail
from rv.gen import pick, chance, tz

rdtools = env.load()
from rdtools.availability import AvailabilityAnalysis   # noqa: E402

PROPERTY = 'C20'
TECHNIQUE = 'reference-model and ground-truth monitors on loss_subsystem and reporting_mask'
RULE = ('a case is one system (subsystem sizes, real outages, lost communication, thresholds, limits); every timestamp of '
        'loss_subsystem and reporting_mask is judged against the peer-comparison model, and for proportional systems also against '
        'the power that was really lost. Distinct: (subsystems, options, outage mix)')
ASSUMPTIONS = ['timestamps whose shortfall lies within 1e-9 of the decision threshold are not judged']
REQUIRED = {'loss_samples': 2000, 'comms_only_samples': 1000, 'no_peer_samples': 300, 'limited_samples': 100,
            'true_loss_samples': 1500, 'series_threshold': 60, 'default_sizes': 100, 'given_sizes': 100, 'nan_system': 100}


def build(rng, k, n, minutes, zone, exact):
    idx = avail.times(rng, n, minutes, zone)
    base = avail.daylight(rng, n, minutes) * pick(rng, [1.0, 100.0, 5e4])
    size = rng.uniform(0.3, 3.0, k) if chance(rng, 0.7) else np.ones(k)
    size = size / size.mean()
    cols = [('inv%d' % j) for j in range(k)]
    rng.shuffle(cols)
    noise = 0 if exact else pick(rng, [0, 0.01, 0.1])
    true = pd.DataFrame({c: base * s * (1 + noise * rng.standard_normal(n)).clip(0.2) for c, s in zip(cols, size)}, index=idx)
    live = true.copy()
    down = pd.DataFrame(False, index=idx, columns=cols)
    for c in cols:
        for _ in range(int(rng.integers(0, 4))):
            a = int(rng.integers(0, n))
            b = a + int(pick(rng, [1, 2, 10, n // 6 + 1]))
            down.iloc[a:b, down.columns.get_loc(c)] = True
    live = live.mask(down, 0.0)
    meter = live.sum(axis=1)
    comms = pd.DataFrame(False, index=idx, columns=cols)
    for c in cols:
        if chance(rng, 0.5):
            a = int(rng.integers(0, n))
            b = a + int(pick(rng, [1, 3, 20, n // 4 + 1]))
            comms.iloc[a:b, comms.columns.get_loc(c)] = True
    seen = live.mask(down, pick(rng, [0.0, np.nan, -0.0001, 1e-7])).mask(comms, pick(rng, [0.0, np.nan]))
    return idx, cols, dict(zip(cols, size)), true, down, comms, meter, seen


def options(rng, mon, idx, cols, size, seen, meter):
    kw = dict(low_threshold=None, relative_sizes=None, power_system_limit=None)
    if chance(rng, 0.5):
        if chance(rng, 0.5):
            t = pd.Series({c: float(rng.uniform(0, 0.02)) * float(seen[c].fillna(0).max()) for c in cols})
            order = list(cols)
            rng.shuffle(order)
            kw['low_threshold'] = t[order]
            mon.ev('series_threshold')
        else:
            kw['low_threshold'] = float(pick(rng, [0.0, 0.001, 0.01, -1.0])) * float(seen.max().max())
    if chance(rng, 0.5):
        order = list(cols)
        rng.shuffle(order)
        rs = {c: size[c] for c in order}
        kw['relative_sizes'] = rs if chance(rng, 0.5) else pd.Series(rs)
        mon.ev('given_sizes')
    else:
        mon.ev('default_sizes')
    if chance(rng, 0.4):
        top = float(meter.max())
        if chance(rng, 0.5):
            kw['power_system_limit'] = top * pick(rng, [0.3, 0.7, 0.95, 1.2])
        else:
            s = pd.Series(top * rng.uniform(0.1, 1.2, len(idx)), index=idx)
            if chance(rng, 0.3):
                s[rng.random(len(idx)) < 0.1] = np.nan
            kw['power_system_limit'] = s
    return kw


def judge(mon, got, mask, ref, meter, seen, limit):
    skip = ref['tie']
    mon.ok(isinstance(mask, pd.DataFrame) and list(mask.columns) == list(seen.columns), 'reporting_mask layout', got=mask)
    mon.index(mask.index, seen.index, 'reporting_mask index')
    mon.ok((mask.to_numpy(bool) == ref['online']).all(), 'a subsystem is online iff its power exceeds the low threshold')
    want = pd.Series(ref['loss'], index=seen.index)
    scale = float(np.nanmax(np.abs(ref['P']))) if len(ref['P']) else 1.0
    mon.series(got, want, 'subsystem loss', rtol=1e-7, atol=1e-9 * max(scale, 1), skip=skip)
    g = got.to_numpy(float)
    mon.ok((g >= 0).all(), 'subsystem loss is never negative', got=g.min())
    alln = ref['online'].all(axis=1)
    mon.ok((g[alln] == 0).all(), 'no loss while every subsystem is online')
    if limit is not None:
        lim = limit.to_numpy(float) if isinstance(limit, pd.Series) else np.full(len(g), limit)
        with np.errstate(invalid='ignore'):
            bad = (g > 0) & (g + ref['P'] > lim * (1 + 1e-9) + 1e-9)
        mon.ok(not bad.any(), 'loss lifts the system above its power limit')
        with np.errstate(invalid='ignore'):
            mon.ev('limited_samples', ((g > 0) & (np.abs(g + ref['P'] - lim) < 1e-6 * np.maximum(lim, 1))).sum())
    mon.ev('loss_samples', (g > 0).sum())
    mon.ev('no_peer_samples', (~ref['online'].any(axis=1)).sum())


def analyse(mon, meter, seen, kw):
    dummy = pd.Series(np.nan, index=meter.index)
    aa = mon.call(AvailabilityAnalysis, meter, seen, dummy, dummy)
    mon.call(aa._calc_loss_subsystem, **kw)
    return aa


def hostile(rng, mon):
    k = int(pick(rng, [1, 2, 2, 3, 4, 8, 12, 25]))
    minutes = int(pick(rng, [15, 30, 60]))
    n = int(rng.integers(5, 300))
    zone = tz(rng)
    idx, cols, size, true, down, comms, meter, seen = build(rng, k, n, minutes, zone, False)
    kind = pick(rng, ['plain', 'plain', 'nanmeter', 'lossy', 'negative', 'garbage', 'deadsub'])
    if kind == 'nanmeter':
        meter[rng.random(n) < 0.2] = np.nan
        mon.ev('nan_system', meter.isna().sum())
    elif kind == 'lossy':
        meter = meter * rng.uniform(0.85, 1.0, n)
    elif kind == 'negative':
        meter = meter - 0.01 * meter.max()
    elif kind == 'garbage':
        meter = pd.Series(rng.uniform(0, 1.5, n) * meter.max(), index=idx)
    elif kind == 'deadsub' and k > 1:
        seen[cols[0]] = pick(rng, [0.0, np.nan])
    if float(np.nanmax(seen.fillna(0).to_numpy())) <= 0:
        return
    kw = options(rng, mon, idx, cols, size, seen, meter)
    if kw['power_system_limit'] is not None and np.isnan(np.asarray(kw['power_system_limit'], float)).all():
        kw['power_system_limit'] = None
    aa = analyse(mon, meter, seen, kw)
    ref = avail.subsystem(meter, seen, kw['low_threshold'], kw['relative_sizes'], kw['power_system_limit'])
    judge(mon, aa.loss_subsystem, aa.reporting_mask, ref, meter, seen, kw['power_system_limit'])
    mon.sig(k, kind, minutes, str(zone), *[type(v).__name__ for v in kw.values()])
    mon.note(subsystems=k, samples=n, kind=kind, options=kw, loss_total=float(aa.loss_subsystem.sum()))


def truth(rng, mon):
    """Proportional subsystems, sizes known: the loss must be what was really lost."""
    k = int(pick(rng, [2, 3, 4, 6, 11, 20]))
    minutes = int(pick(rng, [15, 60]))
    n = int(rng.integers(100, 400))
    idx, cols, size, true, down, comms, meter, seen = build(rng, k, n, minutes, tz(rng), True)
    kw = dict(low_threshold=None, relative_sizes=size, power_system_limit=None)
    aa = analyse(mon, meter, seen, kw)
    got = aa.loss_subsystem.to_numpy(float)
    lost = (true.where(down, 0.0)).sum(axis=1).to_numpy(float)
    q = np.quantile(np.nan_to_num(seen.to_numpy(float)), 0.99, axis=0)
    offline = down.to_numpy() | comms.to_numpy()
    bright = (true.to_numpy() > 1e-2 * q.max()).all(axis=1) & (true.to_numpy() > 2e-3 * q).all(axis=1)
    peers = (~offline).any(axis=1)
    frac = np.array([size[c] for c in cols]) / k
    missing = (down.to_numpy() * frac).sum(axis=1)
    smallest = np.where(offline, frac, 9).min(axis=1)
    comms_only = bright & peers & ~down.to_numpy().any(axis=1)
    mon.close(got[comms_only], np.zeros(comms_only.sum()), 'lost communication alone is not lost production', atol=1e-6 * q.max())
    mon.ev('comms_only_samples', (comms_only & comms.to_numpy().any(axis=1)).sum())
    clear = bright & peers & (missing > 0.76 * smallest)
    mon.close(got[clear], lost[clear], 'loss equals the power the offline subsystems would have made', rtol=1e-6, atol=1e-6 * q.max())
    mon.ev('true_loss_samples', clear.sum())
    below = bright & peers & (missing < 0.74 * smallest)
    mon.close(got[below], np.zeros(below.sum()), 'a shortfall below the smallest offline share is not downtime', atol=1e-9)
    mon.sig('truth', k, minutes, int(clear.sum()) // 20)
    mon.note(subsystems=k, lost=float(lost.sum()), estimated=float(got.sum()))


def mismatch(rng, mon):
    """Inputs on different time axes are refused."""
    n = int(rng.integers(4, 40))
    i = avail.times(rng, n, 60, tz(rng))
    p = pd.Series(1.0, index=i)
    args = [p, pd.DataFrame({'a': p, 'b': p}), p.cumsum(), p]
    j = int(rng.integers(0, 4))
    bad = pick(rng, ['shift', 'short', 'order'])
    x = args[j]
    x = x.iloc[1:] if bad == 'short' else x.iloc[::-1] if bad == 'order' else x.set_axis(x.index + pd.Timedelta('15min'))
    args[j] = x
    mon.raises(ValueError, 'availability inputs with different indexes', AvailabilityAnalysis, *args)
    mon.sig('mismatch', j, bad)


WORKLOADS = [(hostile, 700, 8000), (truth, 100, 1000), (mismatch, 24, 200)]
