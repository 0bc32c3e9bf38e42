"""C17: SRR Monte Carlo profiles and the numbers drawn from them."""
import numpy as np
import pandas as pd
from scipy import stats

from rv import env, soil
from rv.gen import pick, chance

rdtools = env.load()
from rdtools import soiling   # noqa: E402

PROPERTY = 'C17'
TECHNIQUE = 'runtime monitoring: trace checker over every Monte Carlo profile, with pooled distribution tests'
RULE = ('a case runs SRR on a generated daily series and checks every stochastic profile day by day against the reported '
        'interval summary (lines, starts, slopes, levels of invalid intervals), then recomputes the returned numbers; '
        'the random quantities are pooled and tested against their stated distribution. Distinct: method with the '
        'valid/invalid pattern of intervals')
ASSUMPTIONS = ['interval summary as judged by C16', 'distribution tests alarm below p=1e-9 only',
               'days without insolation weigh nothing']
REQUIRED = {'profiles': 5000, 'valid_lines': 20000, 'invalid_levels': 5000, 'deep_groups': 10, 'method:half_norm_clean': 30,
            'method:random_clean': 30, 'method:perfect_clean': 20, 'starts_tested': 5000, 'dst_cases': 20}
ALPHA = 1e-9


def uniform_test(mon, u, what, **ctx):
    u = np.asarray(u)
    if len(u) < 20:
        return
    mon.ok(u.min() > -1e-6 and u.max() < 1 + 1e-6, what + ': outside its range', lo=u.min(), hi=u.max(), **ctx)
    p = stats.kstest(u, 'uniform').pvalue
    mon.ok(p > ALPHA, what + ': not uniform over its range', p=p, n=len(u), mean=u.mean(), **ctx)
    mon.ev('distribution_tests')


def independent(mon, u, what, **ctx):
    """u: realizations x intervals, uniform scores: neighbours are uncorrelated, and differ between realizations."""
    if u.shape[0] < 5 or u.shape[1] < 2:
        return
    c = (u - 0.5) * np.sqrt(12)
    z = np.nansum(c[:, 1:] * c[:, :-1]) / np.sqrt(max(1, np.isfinite(c[:, 1:] * c[:, :-1]).sum()))
    mon.ok(abs(z) < 8, what + ': draws of neighbouring intervals are correlated', z=z, **ctx)
    z = np.nansum(c[1:] * c[:-1]) / np.sqrt(max(1, np.isfinite(c[1:] * c[:-1]).sum()))
    mon.ok(abs(z) < 8, what + ': draws of successive realizations are correlated', z=z, **ctx)
    mon.ev('independence_tests')


def judge_profiles(mon, table, profiles, method, ctx):
    t = table.reset_index(drop=True)
    valid = t['valid'].to_numpy(bool)
    length = t['length'].to_numpy(int)
    first = np.concatenate([[0], np.cumsum(length + 1)[:-1]])
    last = first + length
    low, high = t['soiling_rate_low'].to_numpy(float), t['soiling_rate_high'].to_numpy(float)
    P = np.vstack([p.to_numpy(float) for p in profiles])
    for p in profiles[:3]:
        mon.index(p.index, profiles[0].index, 'profiles share their days')
    mon.eq(P.shape[1], int((length + 1).sum()), 'profile covers the intervals', **ctx)
    mon.ok(np.isfinite(P).all(), 'profiles have no missing day', **ctx)
    mon.index(profiles[0].index[first], pd.DatetimeIndex(t['start']), 'intervals start on their day', **ctx)
    reps = len(P)
    mon.ev('profiles', reps)
    vi = np.flatnonzero(valid)
    # every interval is a straight line
    slope = np.zeros((reps, len(t)))
    for i in range(len(t)):
        seg = P[:, first[i]:last[i] + 1]
        if length[i] > 0:
            slope[:, i] = (seg[:, -1] - seg[:, 0]) / length[i]
        line = seg[:, :1] + slope[:, i:i + 1] * np.arange(length[i] + 1)
        mon.close(seg, line, 'profile is a straight line on interval %d' % i, atol=1e-9, interval=dict(t.loc[i]), **ctx)
        if not valid[i]:
            mon.close(slope[:, i], np.zeros(reps), 'profile is constant on invalid interval %d' % i, atol=1e-9, **ctx)
    start, end = P[:, first], P[:, last]
    scores = np.full((reps, len(t)), np.nan)
    for i in vi:
        tol = 1e-9 + 1e-9 * abs(low[i])
        mon.ok((slope[:, i] >= low[i] - tol).all() and (slope[:, i] <= high[i] + tol).all(),
               'slope within the confidence range of interval %d' % i, low=low[i], high=high[i],
               got=[slope[:, i].min(), slope[:, i].max()], **ctx)
        if high[i] - low[i] > 1e-7 and length[i] > 3:
            scores[:, i] = (slope[:, i] - low[i]) / (high[i] - low[i])
    mon.ev('valid_lines', reps * len(vi))
    uniform_test(mon, scores[np.isfinite(scores)], 'soiling slope', **ctx)
    independent(mon, scores[:, vi], 'soiling slope', **ctx)
    if method == 'perfect_clean':
        mon.close(start, np.ones_like(start), 'perfect cleaning: every interval starts at 1', atol=1e-12, **ctx)
        return
    mon.close(start[:, vi[0]], np.ones(reps), 'the first valid interval starts at 1', atol=1e-12, **ctx)
    a, b = t['inferred_start_loss'].to_numpy(float), t['inferred_end_loss'].to_numpy(float)
    us = np.full((reps, len(vi)), np.nan)
    for j in range(1, len(vi)):
        i, k = vi[j - 1], vi[j]
        e, s = end[:, i], start[:, k]
        if method == 'random_clean':
            w = 1 - e
            mon.ok((s >= e - 1e-9).all() and (s <= 1 + 1e-9).all(), 'random cleaning starts between the previous end and 1',
                   end=e, start=s, **ctx)
            r = w > 1e-4
            us[r, j] = (s[r] - e[r]) / w[r]
        else:
            rec = np.clip(np.clip(a[k], 0, 1) - b[i], 0, 1)
            x = np.clip(e + rec, 0, 1)
            sig = (1 - x) / 3
            mon.ok((s <= 1 + 1e-9).all(), 'half-normal cleaning starts at or below 1', start=s, **ctx)
            flat = sig < 1e-12
            mon.close(s[flat], np.ones(flat.sum()), 'full inferred recovery: starts at 1', atol=1e-9, **ctx)
            r = sig > 1e-5
            z = (1 - s[r]) / sig[r]
            mon.ok((z < 8).all(), 'half-normal start too far below 1 for the inferred recovery at three sigma',
                   z=z.max() if len(z) else 0, interval=int(k), **ctx)
            us[r, j] = stats.halfnorm.cdf(z)
    flat = us[np.isfinite(us)]
    mon.ev('starts_tested', len(flat))
    uniform_test(mon, flat, 'start level after cleaning (%s)' % method, **ctx)
    independent(mon, us[:, 1:], 'start level', **ctx)
    # invalid intervals
    lv = np.full((reps, len(vi) + 1), np.nan)
    for g in range(len(vi) + 1):
        lo_i = vi[g - 1] + 1 if g else 0
        hi_i = vi[g] if g < len(vi) else len(t)
        members = np.arange(lo_i, hi_i)
        if not len(members):
            continue
        below = end[:, vi[g - 1]] if g else np.ones(reps)
        above = start[:, vi[g]] if g < len(vi) else np.ones(reps)
        lo, hi = np.minimum(below, above), np.maximum(below, above)
        for i in members:
            s = start[:, i]
            mon.ok((s >= lo - 1e-9).all() and (s <= hi + 1e-9).all(),
                   'level of invalid interval %d lies between the preceding end and the following start' % i,
                   level=s, preceding_end=below, following_start=above, **ctx)
            mon.close(s, start[:, members[0]], 'consecutive invalid intervals share one level', atol=1e-9, **ctx)
        r = np.abs(above - below) > 1e-4
        s = start[:, members[0]]
        lv[r, g] = (s[r] - below[r]) / (above[r] - below[r])
        mon.ev('invalid_levels', reps)
    uniform_test(mon, lv[np.isfinite(lv)], 'level of invalid intervals', **ctx)
    mon.ev('deep_groups', len(vi) > 8 and (~valid[vi[7]:]).any())


def check(rng, mon, pm, insol, p, method, reps, ctx):
    kw = {}
    conf, exc = 68.2, 95.0
    if chance(rng, 0.5):
        conf = kw['confidence_level'] = float(pick(rng, [95.0, 50.0, 90.0, 10.0]))
    if chance(rng, 0.5):
        exc = kw['exceedance_prob'] = float(pick(rng, [50.0, 90.0, 99.0, 5.0]))
    if method != 'half_norm_clean' or chance(rng, 0.7):
        kw['method'] = method
    try:
        out = soiling.soiling_srr(pm, insol, reps=reps, **dict(p, **kw))
    except soiling.NoValidIntervalError:
        return
    except Exception:
        out = mon.call(soiling.soiling_srr, pm, insol, reps=reps, **dict(p, **kw))
    sr, ci, info = out
    ctx = dict(ctx, method=method, params=p)
    prof = info['stochastic_soiling_profiles']
    t = info['soiling_interval_summary']
    mon.eq(len(prof), reps, 'one profile per repetition')
    judge_profiles(mon, t, prof, method, ctx)
    w = insol.reindex(prof[0].index).fillna(0).to_numpy(float)
    if w.sum() > 0:
        r = np.array([(q.to_numpy(float) * w).sum() / w.sum() for q in prof])
        mon.close(sr, np.percentile(r, 50), 'soiling ratio is the median insolation-weighted mean', **ctx)
        mon.close(ci, np.percentile(r, [50 - conf / 2, 50 + conf / 2]), 'confidence interval', level=conf, **ctx)
        mon.close(info['exceedance_level'], np.percentile(r, 100 - exc), 'exceedance level', prob=exc, **ctx)
        mon.ev('numbers_recomputed')
    mon.ev('method:' + method)
    z = pm.index.tz
    mon.ev('dst_cases', z is not None and len({x.utcoffset() for x in pm.index[::20]}) > 1)
    mon.sig(method, [bool(v) for v in t['valid']][:40])
    mon.note(method=method, params=p, intervals=len(t), valid=int(t['valid'].sum()), soiling_ratio=sr,
             confidence_interval=ci)


def profiles(rng, mon):
    pm, insol, precip = soil.scenario(rng)
    if pm.notna().sum() < 10:
        return
    p = {k: v for k, v in soil.params(rng).items()}
    if 'clean_criterion' in p and p['clean_criterion'] != 'shift':
        p['precipitation_daily'] = precip
    method = pick(rng, ['half_norm_clean', 'half_norm_clean', 'random_clean', 'random_clean', 'perfect_clean'])
    check(rng, mon, pm, insol, p, method, int(pick(rng, [20, 50, 100])), dict(pm=pm))


def patterned(rng, mon):
    """Chosen pattern of valid and invalid intervals, including many of each in a row."""
    n_int = int(rng.integers(2, 30))
    style = pick(rng, ['random', 'alternate', 'pairs', 'edges'])
    pat = {'random': rng.random(n_int) < 0.6, 'alternate': np.arange(n_int) % 2 == 0,
           'pairs': (np.arange(n_int) // 2) % 2 == 0, 'edges': np.ones(n_int, bool)}[style].copy()
    if style == 'edges':
        pat[0] = pat[-1] = False
    if not pat.any():
        pat[-1] = True
    x, rain, day = [], [], 0
    for ok in pat:
        m = int(rng.integers(12, 35))
        r = -rng.uniform(0.001, 0.006) if ok else rng.uniform(0.002, 0.004)
        top = rng.uniform(0.93, 1.0)
        x += list(top + r * np.arange(m) + rng.normal(0, 0.002, m))
        rain.append(day)
        day += m
    zone = pick(rng, soil.TZS)
    idx = soil.days(rng, day, zone)
    pm = pd.Series(x, index=idx)
    precip = pd.Series(0.0, index=idx)
    precip.iloc[rain[1:]] = 4.0
    insol = pd.Series(rng.uniform(1, 7, day), index=idx)
    if chance(rng, 0.2):
        insol[rng.random(day) < 0.1] = np.nan
    method = pick(rng, ['half_norm_clean', 'random_clean', 'half_norm_clean', 'random_clean', 'perfect_clean'])
    p = dict(clean_criterion='precip', precipitation_daily=precip, max_negative_step=10.0,
             max_relative_slope_error=1e9, recenter=chance(rng, 0.3))
    check(rng, mon, pm, insol, p, method, int(pick(rng, [20, 50, 100])), dict(pattern=pat.tolist()))


WORKLOADS = [(profiles, 250, 4000), (patterned, 150, 3000)]
