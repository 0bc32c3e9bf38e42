"""C16: SRR soiling intervals against an independent reading of the stated criteria."""
import numpy as np
import pandas as pd

from rv import env, soil
from rv.gen import pick, chance

rdtools = env.load()
from rdtools import soiling   # noqa: E402

PROPERTY = 'C16'
RULE = ('a case is a daily performance series (soiling, steps, season, degradation, noise, missing days, outages, '
        'zeros, precipitation, time zone) with a parameter combination; every reported interval is compared with an '
        'independent partition and Theil-Sen fit. Distinct: parameters with counts of intervals / valid intervals')
ASSUMPTIONS = ['scipy.stats.theilslopes for the confidence bounds of the slope',
               'length counts days elapsed from start to end',
               'cases in which a criterion is met with equality up to rounding are not judged',
               'an exactly constant interval (slope zero with zero-width bounds) counts as valid']
REQUIRED = {'cases_judged': 400, 'valid_intervals': 1000, 'invalid_intervals': 1000, 'outage_cuts': 100,
            'no_valid': 20, 'trimmed': 80, 'crit:precip': 30, 'crit:precip_and_shift': 30,
            'crit:precip_or_shift': 30, 'refusals_observed': 10, 'aware': 100, 'edges': 100}


def judge_intervals(mon, got, want, ctx, rtol=1e-7):
    mon.eq(len(got), len(want), 'number of soiling intervals', got_table=got,
           want_table=[(str(r['start']), str(r['end'])) for r in want], **ctx)
    mon.index(pd.DatetimeIndex(got['start']), pd.DatetimeIndex([r['start'] for r in want]), 'interval starts', **ctx)
    mon.index(pd.DatetimeIndex(got['end']), pd.DatetimeIndex([r['end'] for r in want]), 'interval ends', **ctx)
    mon.close(got['length'].astype(float), [r['length'] for r in want], 'interval lengths', **ctx)
    mon.eq([bool(v) for v in got['valid']], [r['valid'] for r in want], 'interval validity', table=got, **ctx)
    for col, k in [('soiling_rate', 'rate'), ('soiling_rate_low', 'low'), ('soiling_rate_high', 'high'),
                   ('inferred_start_loss', 'a'), ('inferred_end_loss', 'b')]:
        mon.close(got[col].astype(float), [r[k] for r in want], 'interval ' + col, rtol=rtol, atol=1e-10, **ctx)


def run(mon, pm, insol, precip, p, api='function', **extra):
    kw = dict(p, **extra)
    if api == 'function':
        return mon.call(soiling.soiling_srr, pm, insol, precipitation_daily=precip, **kw)
    return mon.call(soiling.SRRAnalysis(pm, insol, precip).run, **kw)


def intervals(rng, mon):
    pm, insol, precip = soil.scenario(rng)
    p = soil.params(rng)
    if p.get('clean_criterion', 'shift') == 'shift' and chance(rng, 0.6):
        precip = None
    if pm.notna().sum() < 10:
        return
    api = pick(rng, ['function', 'class'])
    method = pick(rng, ['perfect_clean', 'half_norm_clean', 'random_clean'])
    ctx = dict(pm=pm, params=p, precip=precip)
    cands = soil.renorm_candidates(pm) if p.get('recenter', True) else [1.0]
    refs = []
    for c in cands:
        try:
            refs.append((c, soil.reference(pm, precip, c, **p)))
        except soil.Tie:
            mon.ev('tie_skipped')
            return
    if cands[0] <= 0:
        return
    for _, r in refs:
        if any(x['valid'] for x in r[2]) != any(x['valid'] for x in refs[0][1][2]):
            return
    if not any(r['valid'] for r in refs[0][1][2]):
        f = (lambda: soiling.soiling_srr(pm, insol, precipitation_daily=precip, reps=2, method=method, **p))
        mon.raises(soiling.NoValidIntervalError, 'no valid interval: refused with NoValidIntervalError', f)
        mon.ev('no_valid')
        return
    res = run(mon, pm, insol, precip, p, api, reps=2, method=method)
    info = res[2]
    rn = float(info['renormalizing_factor'])
    k = int(np.argmin([abs(rn - c) for c in cands]))
    mon.close(rn, cands[k], 'renormalizing factor', **ctx)
    idx, pi, want, event = refs[k][1]
    judge_intervals(mon, info['soiling_interval_summary'], want, ctx)
    # consecutive and exhaustive
    if not p.get('trim'):
        mon.eq((want[0]['s'], want[-1]['e']), (0, len(idx) - 1), 'intervals span the record')
    # soiling ratio assuming perfect cleaning
    sel, lv = [], []
    for r in want:
        if r['valid']:
            m = np.arange(r['length'] + 1)
            sel += list(idx[r['s']:r['e'] + 1])
            lv += list(1 + m * r['rate'])
    g = info['soiling_ratio_perfect_clean']
    mon.series(g, pd.Series(lv, index=pd.DatetimeIndex(sel)), 'soiling_ratio_perfect_clean', atol=1e-9, **ctx)
    # profiles cover exactly the days of the intervals
    mon.index(info['stochastic_soiling_profiles'][0].index, idx[want[0]['s']:want[-1]['e'] + 1],
              'days of the stochastic profiles', **ctx)
    nv = sum(r['valid'] for r in want)
    mon.ev('cases_judged')
    mon.ev('valid_intervals', nv)
    mon.ev('invalid_intervals', len(want) - nv)
    gaps = np.diff(np.flatnonzero(~np.isnan(pi))).max() - 1
    mon.ev('outage_cuts', gaps > p.get('day_scale', 13))
    mon.ev('trimmed', bool(p.get('trim')))
    mon.ev('crit:' + p.get('clean_criterion', 'shift'))
    mon.ev('aware', pm.index.tz is not None and str(pm.index.tz) not in ('UTC', 'Asia/Kolkata'))
    mon.sig(sorted(p.items(), key=str), len(want), nv)
    mon.note(params=p, days=len(pm), intervals=len(want), valid=nv)


def crafted(rng, mon):
    """Noise-free sawtooth: the reported structure is the constructed one."""
    zone = pick(rng, soil.TZS)
    ln = int(pick(rng, [25, 40, 60]))
    k = int(rng.integers(3, 15))
    n = ln * k
    idx = soil.days(rng, n, zone)
    rate = -float(rng.uniform(0.001, 0.004))
    x = 1 + rate * (np.arange(n) % ln) + rng.normal(0, 1e-7, n)
    pm = pd.Series(x, index=idx)
    precip = pd.Series(0.0, index=idx)
    off = int(rng.integers(-3, 4))
    hit = np.arange(ln, n, ln)
    precip.iloc[np.clip(hit + off, 0, n - 1)] = 5.0
    crit = pick(rng, ['shift', 'precip', 'precip_and_shift', 'precip_or_shift'])
    r = run(mon, pm, pd.Series(2.0, index=idx), precip, dict(clean_criterion=crit, recenter=False),
            reps=2, method='perfect_clean')
    t = r[2]['soiling_interval_summary']
    if crit == 'shift' or (crit == 'precip_and_shift' and abs(off) <= 1) \
            or (crit in ('precip', 'precip_or_shift') and off == 0):
        mon.index(pd.DatetimeIndex(t['start']), idx[::ln], 'sawtooth interval starts', criterion=crit, off=off)
        mon.ok(t['valid'].all(), 'every tooth is a valid interval', table=t)
        mon.close(t['soiling_rate'], np.full(k, rate), 'sawtooth soiling rate', rtol=1e-3)
    elif crit == 'precip_and_shift':
        mon.eq(len(t), 1, 'rain more than a day from every shift: one interval', off=off)
    elif crit == 'precip':
        mon.index(pd.DatetimeIndex(t['start'])[1:], idx[hit + off], 'intervals start at the rain')
    mon.ev('crafted')
    mon.sig('crafted', ln, k, crit, off)


def edges(rng, mon):
    """Values that are exact in binary: the thresholds themselves are met with equality."""
    n = int(rng.integers(60, 160))
    idx = soil.days(rng, n, pick(rng, soil.TZS))
    unit = 1 / 1024
    lv = 1024 - np.cumsum(rng.integers(0, 2, n))
    for c in rng.choice(np.arange(8, n - 8), int(rng.integers(2, 7)), replace=False):
        lv[c:] += int(pick(rng, [16, 16, 32, -16, -16, -32, 8]))
    pm = pd.Series(lv * unit, index=idx)
    precip = pd.Series(np.where(rng.random(n) < 0.05, pick(rng, [0.5, 0.25]), 0.0), index=idx)
    p = dict(recenter=False, day_scale=int(pick(rng, [1, 3, 5])), clean_threshold=float(pick(rng, [16, 15, 17, 8])) * unit,
             max_negative_step=float(pick(rng, [16, 17, 15])) * unit,
             clean_criterion=pick(rng, ['shift', 'shift', 'precip_and_shift', 'precip_or_shift']), precip_threshold=0.25)
    try:
        idx_, pi, want, event = soil.reference(pm, precip, 1.0, exact=True, **p)
    except soil.Tie:
        return
    if not any(r['valid'] for r in want):
        return
    res = run(mon, pm, pd.Series(2.0, index=idx), precip, p, reps=2, method='perfect_clean')
    judge_intervals(mon, res[2]['soiling_interval_summary'], want, dict(pm=pm, params=p))
    mon.ev('edges')
    mon.sig('edges', sorted(p.items(), key=str), len(want))


def refusals(rng, mon):
    idx = soil.days(rng, 60, None)
    x = pd.Series(1 - 0.002 * (np.arange(60) % 30), index=idx)
    hourly = pd.Series(1.0, index=pd.date_range('2020-01-01', periods=60, freq='h'))
    holes = x.drop(x.index[[10, 20]])
    good = dict(energy_normalized_daily=x, insolation_daily=x, precipitation_daily=x)
    for k in good:
        for bad in (hourly, holes):
            mon.raises(ValueError, 'series without daily frequency is refused (%s)' % k, soiling.soiling_srr,
                       **dict(good, **{k: bad}), reps=2)
    mon.raises(ValueError, 'unknown cleaning criterion', soiling.soiling_srr, x, x, reps=2, clean_criterion='rain')
    mon.raises(ValueError, 'unknown method', soiling.soiling_srr, x, x, reps=2, method='no_clean',
               clean_threshold=0.01)
    mon.sig('refusals')


WORKLOADS = [(intervals, 2500, 40000), (crafted, 60, 600), (edges, 300, 3000), (refusals, 3, 5)]
