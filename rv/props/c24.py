"""C24: figures show the data and numbers of the analysis."""
import copy

import matplotlib
matplotlib.use('Agg')
import matplotlib.dates as mdates   # noqa: E402
import matplotlib.pyplot as plt   # noqa: E402
from matplotlib.colors import to_rgba   # noqa: E402
import numpy as np   # noqa: E402
import pandas as pd   # noqa: E402

from rv import env, avail, soil   # noqa: E402
from rv.gen import pick, chance, tz   # noqa: E402

rdtools = env.load()
from rdtools import plotting, soiling   # noqa: E402
from rdtools.analysis_chains import TrendAnalysis   # noqa: E402
from rdtools.availability import AvailabilityAnalysis   # noqa: E402

from plotly.basedatatypes import BaseFigure   # noqa: E402

PROPERTY = 'C24'
TECHNIQUE = 'monitors on the artists of every returned figure, compared with the plotted results'
RULE = ('a case is one analysis result (from the real analyses or synthetic) plotted with random display options; the point sets, lines, '
        'histogram bars, text and limits found in the figure are compared with the result. Distinct: plot, options, size of result')
ASSUMPTIONS = ['artists are recognised by their data (point sets, lines, bars), not by how they were drawn',
               'bootstrap bands of the rolling trend are judged statistically (error probability below 1e-9 per case)']
REQUIRED = {'summary': 80, 'short_results': 25, 'detailed': 25, 'circular_block': 2, 'monte_carlo': 20, 'interval': 20,
            'rate_histogram': 20, 'availability': 40, 'tune': 40, 'timeseries': 30, 'ci_bands': 5, 'ci_tail_tests': 6, 'object_plots': 30, 'given_figure': 10,
            'own_axis': 1}
REQUIRED.pop('own_axis')


def num(idx):
    return np.asarray(mdates.date2num(idx.to_pydatetime() if isinstance(idx, pd.DatetimeIndex) else idx), float)


def point_sets(ax):
    """[(x, y)] of everything drawn as points or lines."""
    out = []
    for c in ax.collections:
        if hasattr(c, 'get_offsets') and type(c).__name__ == 'PathCollection':
            o = np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan)
            out.append((o[:, 0], o[:, 1]))
    for ln in ax.get_lines():
        x = np.asarray(ln.get_xdata(orig=False), float)
        y = np.ma.filled(np.ma.asarray(ln.get_ydata(orig=False), dtype=float), np.nan)
        out.append((x, y))
    return out


def same(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.isclose(a, b, rtol=1e-9, atol=tol, equal_nan=True).all())


def shows(ax, x, y):
    """Is the point set (x, y) drawn?  Points without a value may be left out."""
    x, y = np.asarray(x, float), np.asarray(y, float)
    k = ~np.isnan(y)
    for px, py in point_sets(ax):
        j = ~np.isnan(py)
        if same(px[j], x[k], 1e-6) and same(py[j], y[k]):
            return True
    return False


def dressed(mon, ax, x, y, color, alpha, what):
    """The artist that draws (x, y) has the colour and transparency that were asked for."""
    x, y = np.asarray(x, float), np.asarray(y, float)
    k = ~np.isnan(y)
    seen = []
    for a in list(ax.get_lines()) + [c for c in ax.collections if type(c).__name__ == 'PathCollection']:
        if hasattr(a, 'get_xdata'):
            px = np.asarray(a.get_xdata(orig=False), float)
            py = np.ma.filled(np.ma.asarray(a.get_ydata(orig=False), dtype=float), np.nan)
            look = to_rgba(a.get_color())[:3], a.get_alpha()
        else:
            o = np.ma.filled(np.ma.asarray(a.get_offsets(), dtype=float), np.nan)
            px, py, look = o[:, 0], o[:, 1], (tuple(a.get_facecolor()[0][:3]) if len(a.get_facecolor()) else None, a.get_alpha())
        j = ~np.isnan(py)
        if same(px[j], x[k], 1e-6) and same(py[j], y[k]):
            seen.append(look)
    for c, al in seen:
        if (color is None or c == to_rgba(color)[:3]) and (alpha is None or al is not None and abs(al - alpha) < 1e-9):
            mon.ev('dressed')
            return
    mon.ok(False, what + ' in the requested colour and transparency', color=color, alpha=alpha, seen=seen)


def bars(ax):
    return [(p.get_x(), p.get_width(), p.get_height()) for p in ax.patches if type(p).__name__ == 'Rectangle']


def judge_hist(mon, ax, values, bins, what):
    b = bars(ax)
    v = np.asarray(values, float)
    v = v[~np.isnan(v)]
    mon.close(sum(h for _, _, h in b), len(v), what + ': every value is in the histogram')
    mon.eq(len(b), bins, what + ': number of bins')
    h, e = np.histogram(v, bins=bins)
    mon.close(np.array([x for x, _, _ in b]), e[:-1], what + ': bin edges', atol=1e-9 + 1e-9 * np.abs(v).max(initial=0))
    mon.close(np.array([hh for _, _, hh in b]), h, what + ': bin heights')


def texts(ax):
    return ' '.join(t.get_text() for t in ax.texts)


def daily(rng, days, zone=None):
    start = pd.Timestamp(pick(rng, ['2012-01-01', '2015-06-10', '2019-02-27']))
    if zone:
        start = start.tz_localize(zone)
    return pd.date_range(start, periods=days, freq='D')


def yoy_result(rng, mon, short=None):
    kind = pick(rng, ['real', 'real', 'synthetic']) if short is None else 'real'
    zone = tz(rng)
    if kind == 'real':
        style = pick(rng, ['daily', 'weekly', 'monthly', 'sparse'])
        idx = daily(rng, int(rng.integers(735, 1100)), zone)
        if style == 'weekly':
            idx = pd.date_range(idx[0], periods=int(rng.integers(106, 160)), freq='7D')
        elif style == 'monthly':
            idx = pd.date_range(idx[0].tz_localize(None), periods=int(rng.integers(25, 40)), freq='MS').tz_localize(zone)
        s = pd.Series(1 - 0.01 * np.arange(len(idx)) / 365 + rng.normal(0, 0.02, len(idx)), index=idx)
        if chance(rng, 0.2):
            s = s.round(2)              # many equal readings
        s = s * pick(rng, [1.0, 0.8, 300.0])
        if chance(rng, 0.3):
            s[rng.random(len(s)) < 0.1] = np.nan
        if style == 'sparse':
            keep = rng.random(len(s)) < 0.05
            keep[[0, -1]] = True
            keep[366 if len(s) > 366 else 0] = True
            s = s[keep]
        kw = {}
        if chance(rng, 0.2) and style in ('daily', 'weekly') and s.notna().all():
            kw['uncertainty_method'] = 'circular_block'
            mon.ev('circular_block')
        if chance(rng, 0.3):
            kw['recenter'] = False
        try:
            rd, ci, info = rdtools.degradation_year_on_year(s, **kw)
        except ValueError:
            return yoy_result(rng, mon)
        if kw.get('uncertainty_method') == 'circular_block':
            mon.ok('YoY_values' in info, 'the result of every method can be plotted: YoY_values are documented', keys=sorted(info))
        return s, rd, ci, info
    n = int(pick(rng, [1, 2, 5, 39, 40, 41, 500]))
    idx = daily(rng, 366 + n, zone)
    s = pd.Series(rng.uniform(0.7, 1.1, len(idx)), index=idx)
    v = pd.Series(rng.normal(-1, 3, n), index=idx[366:])
    u = pd.Series(rng.integers(0, 3, len(idx)), index=idx)
    rd = float(v.median())
    return s, rd, np.array([rd - 0.3, rd + 0.4]), {'YoY_values': v, 'renormalizing_factor': float(rng.uniform(0.5, 2)),
                                                   'usage_of_points': u, 'exceedance_level': rd}


def snapshot(*objs):
    return [o.copy(deep=True) if hasattr(o, 'copy') and isinstance(o, (pd.Series, pd.DataFrame)) else copy.deepcopy(o) for o in objs]


def unchanged(mon, before, after, what):
    for b, a in zip(before, after):
        if isinstance(b, pd.Series):
            pd.testing.assert_series_equal(b, a)
            mon.eq(b.index.name, a.index.name, what)
        elif isinstance(b, pd.DataFrame):
            pd.testing.assert_frame_equal(b, a)
        elif isinstance(b, dict):
            mon.eq(sorted(map(str, b)), sorted(map(str, a)), what)
            unchanged(mon, [b[k] for k in b], [a[k] for k in b], what)
        elif isinstance(b, list):
            mon.eq(len(b), len(a), what)
            unchanged(mon, b, a, what)
        elif isinstance(b, (float, int, np.ndarray)):
            mon.ok(np.array_equal(np.asarray(b), np.asarray(a), equal_nan=True), what)


def judge_summary(mon, fig, s, rd, ci, info, kw):
    mon.eq(len(fig.axes), 2, 'two panels')
    ax1, ax2 = fig.axes
    y = s.to_numpy(float) / info['renormalizing_factor']
    mon.ok(shows(ax1, num(s.index), y), 'the scatter shows the renormalized yield at its own timestamps')
    years = (s.index[-1] - s.index[0]).days / 365.25
    mon.ok(any(len(px) == 2 and same(px, num(s.index[[0, -1]]), 1e-6) and same(py, [1, 1 + rd * years / 100]) for px, py in point_sets(ax1)),
           'the trend line starts at one and falls by the rate', lines=[(list(a), list(b)) for a, b in point_sets(ax1) if len(a) == 2])
    v = info['YoY_values']
    bins = kw.get('bins')
    if bins is None:
        bins = max(len(v) // 40, 1)
    judge_hist(mon, ax2, v, int(min(bins, len(v))), 'slopes')
    mon.ok(any(same(px, [rd, rd]) for px, py in point_sets(ax2)), 'the histogram marks the rate')
    t = texts(ax2)
    for x in (rd, ci[0], ci[1]):
        mon.ok('%.2f' % x in t, 'the annotation states the rate and its confidence interval', text=t, value=x)
    mon.eq('n = ' in t, bool(kw.get('detailed')), 'the number of slopes is stated iff detailed')
    if kw.get('detailed'):
        mon.ok('n = %d' % len(v) in t, 'number of slopes', text=t, n=len(v))
        base = to_rgba(kw.get('plot_color') or 'C0')[:3]
        want = {0: to_rgba('red')[:3], 1: to_rgba('green')[:3], 2: base}
        u = info['usage_of_points'].to_numpy()
        cols = [c for c in ax1.collections if len(c.get_offsets()) == len(s)]
        mon.ok(len(cols) == 1, 'one scatter')
        fc = cols[0].get_facecolors()
        mon.ok(all(same(fc[i][:3], want[int(u[i])]) for i in range(len(u))), 'points are coloured by their usage')
        mon.ev('detailed')
    if kw.get('hist_xmin') is not None:
        mon.close(ax2.get_xlim()[0], kw['hist_xmin'], 'hist_xmin')
    if kw.get('hist_xmax') is not None:
        mon.close(ax2.get_xlim()[1], kw['hist_xmax'], 'hist_xmax')
    if kw.get('scatter_ymin') is not None:
        mon.close(ax1.get_ylim()[0], kw['scatter_ymin'], 'scatter_ymin')
    if kw.get('scatter_ymax') is not None:
        mon.close(ax1.get_ylim()[1], kw['scatter_ymax'], 'scatter_ymax')
    if kw.get('summary_title') is not None:
        mon.eq(fig._suptitle.get_text(), kw['summary_title'], 'title')
    mon.ev('summary')
    mon.ev('short_results', len(v) < 40)


def summary_kw(rng):
    kw = {}
    if chance(rng, 0.4):
        kw['detailed'] = True
    if chance(rng, 0.3):
        kw['bins'] = int(pick(rng, [1, 10, 50, 10000]))
    if chance(rng, 0.3):
        kw['hist_xmin'], kw['hist_xmax'] = -float(rng.uniform(5, 30)), float(rng.uniform(5, 30))
    if chance(rng, 0.3):
        kw['scatter_ymin'], kw['scatter_ymax'] = float(rng.uniform(0, 0.6)), float(rng.uniform(1.2, 2))
    if chance(rng, 0.2):
        kw['plot_color'] = pick(rng, ['C3', 'purple'])
    if chance(rng, 0.2):
        kw['summary_title'] = 'case %d' % rng.integers(0, 99)
    if chance(rng, 0.2):
        kw['scatter_alpha'] = 0.2
    return kw


def summary(rng, mon):
    s, rd, ci, info = yoy_result(rng, mon)
    kw = summary_kw(rng)
    before = snapshot(s, info)
    try:
        fig = mon.call(plotting.degradation_summary_plots, rd, ci, info, s, **kw)
        judge_summary(mon, fig, s, rd, ci, info, kw)
        unchanged(mon, before, [s, info], 'plotting leaves the results alone')
    finally:
        plt.close('all')
    mon.sig('summary', sorted(kw), len(info['YoY_values']) // 40, str(s.index.tz))
    mon.note(plot='summary', options=kw, slopes=len(info['YoY_values']))


def band(rng, mon):
    idx = daily(rng, int(rng.integers(160, 260)), tz(rng))
    v = pd.Series(rng.normal(-1, 2, len(idx)), index=idx)
    trend(rng, mon, {'YoY_values': v}, dict(rolling_days=90), 90, True)


def timeseries(rng, mon):
    s, rd, ci, info = yoy_result(rng, mon)
    days = int(pick(rng, [365, 30, 7, 90, 2, 1]))
    kw = dict(rolling_days=days) if chance(rng, 0.9) else {}
    trend(rng, mon, info, kw, kw.get('rolling_days', 365), chance(rng, 0.5) and len(info['YoY_values']) < 1200)


def trend(rng, mon, info, kw, days, ci_on):
    v = info['YoY_values']
    kw['include_ci'] = ci_on
    other = None
    try:
        if chance(rng, 0.4):
            given, gax = plt.subplots()
            gax.plot(num(v.index)[:1], [0.0])
            other, oax = plt.subplots()         # another figure is current
            kw['fig'] = given
            mon.ev('given_figure')
        if chance(rng, 0.3):
            kw['plot_color'] = 'red'
        if chance(rng, 0.4):
            kw['ci_color'] = pick(rng, ['yellow', 'C5'])
        if chance(rng, 0.3):
            kw['linewidth'] = 4
        before = snapshot(info)
        fig = mon.call(plotting.degradation_timeseries_plot, info, **kw)
        unchanged(mon, before, [info], 'plotting leaves the results alone')
        if 'fig' in kw:
            mon.ok(fig is kw['fig'], 'the given figure is used')
            mon.ok(len(oax.lines) == 0 and oax.get_ylabel() == '' and len(oax.collections) == 0, 'another figure is not touched',
                   label=oax.get_ylabel())
        ax = fig.axes[0]
        mon.ok(ax.get_ylabel() != '', 'the axis is labelled')
        t = v.index.asi8
        x = v.to_numpy(float)
        w = days * 86400 * 10**9
        need = max(days // 2, 1)
        med = np.full(len(x), np.nan)
        for i in range(len(x)):
            j = np.searchsorted(t, t[i] - w, side='right')
            if i - j + 1 >= need:
                med[i] = np.median(x[j:i + 1])
        mon.ok(shows(ax, num(v.index), med), 'the trend line is the median of the slopes of the trailing window')
        if (~np.isnan(med)).sum() > 1:
            dressed(mon, ax, num(v.index), med, kw.get('plot_color', 'tab:orange'), None, 'trend line')
        level = float(np.median(x))
        mon.ok(any(same(py, [level, level]) for px, py in point_sets(ax)), 'the level line is the median of all slopes')
        mon.eq(any(type(c).__name__ in ('PolyCollection', 'FillBetweenPolyCollection') for c in ax.collections), ci_on, 'confidence band iff requested')
        if ci_on:
            judge_band(rng, mon, ax, v, med, t, x, w, need, kw.get('ci_color', 'C0'))
        mon.ev('timeseries')
    finally:
        plt.close('all')
    mon.sig('timeseries', days, ci_on, 'fig' in kw, len(v) // 100)


def judge_band(rng, mon, ax, v, med, t, x, w, need, color):
    from collections import defaultdict
    poly = [c for c in ax.collections if type(c).__name__ in ('PolyCollection', 'FillBetweenPolyCollection')][0]
    if len(poly.get_facecolor()):
        mon.eq(tuple(poly.get_facecolor()[0][:3]), to_rgba(color)[:3], 'the band has the requested colour')
    ys = defaultdict(list)
    for p in poly.get_paths():
        for vx, vy in p.vertices:
            ys[round(float(vx), 6)].append(float(vy))
    xs = num(v.index)
    valid = np.flatnonzero(~np.isnan(med))
    if not len(valid):
        return
    us, vs = [], []
    pickn = valid if len(valid) <= 120 else np.sort(rng.choice(valid, 120, replace=False))
    for i in pickn:
        yy = ys.get(round(float(xs[i]), 6))
        mon.ok(yy is not None, 'the band covers every window that is drawn', at=str(v.index[i]))
        lo, hi = min(yy), max(yy)
        j = np.searchsorted(t, t[i] - w, side='right')
        win = x[j:i + 1]
        mon.ok(win.min() - 1e-9 <= lo <= hi <= win.max() + 1e-9, 'the band lies within the window')
        m = np.median(rng.choice(win, (len(win), 600)), axis=0)
        mon.ok((m < lo - 1e-12).mean() < 0.4 and (m > hi + 1e-12).mean() < 0.4, 'the band is a confidence interval of the median')
        if len(win) >= 40 and len(np.unique(win)) > 0.95 * len(win):
            us.append(((m < lo).mean() + (m <= lo).mean()) / 2)
            vs.append(((m > hi).mean() + (m >= hi).mean()) / 2)
    mon.ev('ci_bands')
    if len(us) >= 50:
        for u in (us, vs):
            mon.ok(0.020 < np.mean(u) < 0.050, 'the band is the 95 % interval', tail=float(np.mean(u)))
        mon.ev('ci_tail_tests')


def soiling_info(rng, mon):
    n = int(pick(rng, [30, 200, 400]))
    zone = tz(rng)
    idx = daily(rng, n, zone)
    pm = pd.Series(rng.uniform(0.8, 1.0, n), index=idx)
    if chance(rng, 0.3):
        pm[rng.random(n) < 0.1] = np.nan
    k = int(pick(rng, [1, 3, 12]))
    # profiles begin with the first valid interval and may end earlier than the record
    a, b = (0, n) if chance(rng, 0.4) else (int(rng.integers(0, n // 3)), n - int(rng.integers(0, n // 3)))
    profiles = [pd.Series(rng.uniform(0.7, 1, b - a), index=idx[a:b]) for _ in range(k)]
    m = int(pick(rng, [1, 2, 9, 30]))
    summ = pd.DataFrame({'soiling_rate': -rng.uniform(0, 0.01, m), 'valid': rng.random(m) < 0.6,
                         'start': idx[:1].repeat(m), 'end': idx[-1:].repeat(m)})
    if not summ['valid'].any():
        summ.loc[0, 'valid'] = True
    ratio = pd.Series(np.where(rng.random(n) < 0.2, np.nan, rng.uniform(0.7, 1, n)), index=idx)[a:b]
    return pm, {'renormalizing_factor': float(rng.uniform(0.5, 1.5)), 'stochastic_soiling_profiles': profiles,
                'soiling_interval_summary': summ, 'soiling_ratio_perfect_clean': ratio, 'exceedance_level': 0.9}


def real_soiling(rng):
    idx = daily(rng, 200, tz(rng, aware=True))
    d = np.arange(200) % 50
    pm = pd.Series(1 - 0.002 * d + rng.normal(0, 0.002, 200), index=idx)
    ins = pd.Series(rng.uniform(3, 6, 200), index=idx)
    sr, ci, info = soiling.soiling_srr(pm, ins, reps=5)
    return pm, info


def soil_plots(rng, mon):
    real = chance(rng, 0.15)
    pm, info = real_soiling(rng) if real else soiling_info(rng, mon)
    via = None
    if chance(rng, 0.3):
        via, case = wrap(rng, pm, 'srr_soiling', info)
    before = snapshot(pm, info)
    y = pm.to_numpy(float) / info['renormalizing_factor']
    which = pick(rng, ['mc', 'interval', 'hist'])
    kw = {}
    try:
        if which != 'hist' and chance(rng, 0.4):
            kw['ymin'], kw['ymax'] = float(rng.uniform(0, 0.95)), float(rng.uniform(0.96, 1.5))
        for o in ('point', 'profile'):
            if which != 'hist' and chance(rng, 0.4):
                kw[o + '_color'] = pick(rng, ['red', 'C4', '#123456'])
            if which != 'hist' and chance(rng, 0.4):
                kw[o + '_alpha'] = float(pick(rng, [0.25, 0.75, 1.0]))
        if which == 'mc':
            prof = info['stochastic_soiling_profiles']
            if chance(rng, 0.5):
                kw['profiles'] = int(pick(rng, [0, 1, 2, 100]))
            fig = mon.call(via.plot_soiling_monte_carlo, case, **kw) if via else \
                mon.call(plotting.soiling_monte_carlo_plot, info, pm, **kw)
            ax = fig.axes[0]
            mon.ok(shows(ax, num(pm.index), y), 'the points are the renormalized yield')
            dressed(mon, ax, num(pm.index), y, kw.get('point_color', 'C0'), kw.get('point_alpha', 0.5), 'points')
            k = kw.get('profiles', len(prof))
            for p in prof[:k]:
                if len(p.dropna()):
                    dressed(mon, ax, num(p.index), p.to_numpy(float), kw.get('profile_color', 'C1'), kw.get('profile_alpha', 0.05), 'profiles')
                mon.ok(shows(ax, num(p.index), p.to_numpy(float)), 'every requested profile is drawn')
            mon.eq(len(ax.get_lines()), 1 + min(k, len(prof)), 'number of profiles')
            mon.ev('monte_carlo')
        elif which == 'interval':
            fig = mon.call(via.plot_soiling_interval, case, **kw) if via else \
                mon.call(plotting.soiling_interval_plot, info, pm, **kw)
            ax = fig.axes[0]
            mon.ok(shows(ax, num(pm.index), y), 'the points are the renormalized yield')
            dressed(mon, ax, num(pm.index), y, kw.get('point_color'), kw.get('point_alpha', 0.5), 'points')
            r = info['soiling_ratio_perfect_clean']
            dressed(mon, ax, num(r.index), r.to_numpy(float), kw.get('profile_color'), kw.get('profile_alpha', 1), 'soiling intervals')
            mon.ok(shows(ax, num(r.index), r.to_numpy(float)), 'the soiling intervals are drawn')
            mon.ev('interval')
        else:
            if chance(rng, 0.6):
                kw['bins'] = int(pick(rng, [1, 5, 50]))
            fig = mon.call(via.plot_soiling_rate_histogram, case, **kw) if via else \
                mon.call(plotting.soiling_rate_histogram, info, **kw)
            ax = fig.axes[0]
            t = info['soiling_interval_summary']
            judge_hist(mon, ax, 100 * t.loc[t['valid'].astype(bool), 'soiling_rate'].to_numpy(float), kw.get('bins', 10), 'soiling rates')
            mon.ev('rate_histogram')
        if 'ymin' in kw:
            mon.close(ax.get_ylim(), (kw['ymin'], kw['ymax']), 'axis limits')
        unchanged(mon, before, [pm, info], 'plotting leaves the results alone')
    finally:
        plt.close('all')
    mon.ev('object_plots', via is not None)
    mon.sig(which, sorted(kw), real, via is not None)


def wrap(rng, agg, kind, value):
    """A TrendAnalysis that carries these results for one case and others for the other case."""
    pv = pd.Series([1.0, 2, 3], index=pd.date_range('2020-01-01', periods=3, freq='h', tz='UTC'))
    ta = TrendAnalysis(pv, poa_global=pv)
    case = pick(rng, ['sensor', 'clearsky'])
    other = 'clearsky' if case == 'sensor' else 'sensor'
    junk = pd.Series([5.0, 6.0], index=pd.date_range('1999-01-01', periods=2, freq='D'))
    setattr(ta, case + '_aggregated_performance', agg)
    setattr(ta, other + '_aggregated_performance', junk)
    if kind == 'yoy_degradation':
        ta.results = {case: {kind: value}, other: {kind: {'p50_rd': 77.0, 'rd_confidence_interval': (70.0, 80.0), 'calc_info': {
            'YoY_values': junk, 'renormalizing_factor': 9.0, 'usage_of_points': junk.astype(int)}}}}
    else:
        ta.results = {case: {kind: {'calc_info': value}}, other: {kind: {'calc_info': {}}}}
    return ta, case


def objects(rng, mon):
    """TrendAnalysis.plot_* pass the results of the requested case."""
    which = pick(rng, ['summary', 'timeseries', 'irradiance', 'badcase'])
    try:
        if which == 'irradiance':
            pv = pd.Series([1.0, 2, 3], index=pd.date_range('2020-01-01', periods=3, freq='h', tz='UTC'))
            ta = TrendAnalysis(pv, poa_global=pv)
            n = int(rng.integers(2, 80))
            idx = pd.date_range('2020-03-01', periods=n, freq='h', tz=tz(rng))
            a, b = int(rng.integers(0, 3)), int(rng.integers(0, 3))
            poa = pd.Series(rng.uniform(0, 1200, n), index=idx)
            csp = pd.Series(rng.uniform(0, 1200, n), index=idx)
            en = pd.Series(rng.uniform(0, 50, n), index=idx)
            if chance(rng, 0.3):
                poa.name = en.name = csp.name = 'same'
            ta.poa_global, ta.poa_global_clearsky = poa.iloc[a:], csp.iloc[a:]
            ta.pv_energy = en.iloc[:n - b] if n - b > 1 else en
            case = pick(rng, ['sensor', 'clearsky'])
            fig = mon.call(ta.plot_pv_vs_irradiance, case, alpha=0.5)
            use = ta.pv_energy.index.intersection(poa.index[a:])
            src = poa if case == 'sensor' else csp
            mon.ok(shows(fig.axes[0], src[use].to_numpy(), en[use].to_numpy()), 'energy is plotted against the irradiance of the same time')
        elif which == 'badcase':
            s = pd.Series([1.0, 2], index=pd.date_range('2020-01-01', periods=2, freq='D'))
            ta, _ = wrap(rng, s, 'yoy_degradation', {})
            for name in ('plot_degradation_summary', 'plot_soiling_monte_carlo', 'plot_soiling_interval', 'plot_soiling_rate_histogram',
                         'plot_pv_vs_irradiance', 'plot_degradation_timeseries'):
                mon.raises(ValueError, name + ' with an unknown case', getattr(ta, name), pick(rng, ['Sensor', 'clear', '', 'both']))
        else:
            s, rd, ci, info = yoy_result(rng, mon)
            ta, case = wrap(rng, s, 'yoy_degradation', {'p50_rd': rd, 'rd_confidence_interval': ci, 'calc_info': info})
            if which == 'summary':
                kw = summary_kw(rng)
                fig = mon.call(ta.plot_degradation_summary, case, **kw)
                judge_summary(mon, fig, s, rd, ci, info, kw)
            else:
                d = int(pick(rng, [30, 365]))
                fig = mon.call(ta.plot_degradation_timeseries, case, rolling_days=d, include_ci=False)
                level = float(np.median(info['YoY_values']))
                mon.ok(any(same(py, [level, level]) for px, py in point_sets(fig.axes[0])), 'level line of the requested case')
                med = info['YoY_values'].rolling('%dd' % d, min_periods=d // 2).median()
                mon.ok(shows(fig.axes[0], num(med.index), med.to_numpy(float)), 'rolling median with the requested window')
    finally:
        plt.close('all')
    mon.ev('object_plots')
    mon.sig('object', which)


def availability(rng, mon):
    n = 24 * int(pick(rng, [3, 8]))
    idx = avail.times(rng, n, 60, tz(rng))
    p = pd.Series(rng.uniform(0, 10, n), index=idx)
    sub = pd.DataFrame(rng.uniform(0, 5, (n, int(pick(rng, [1, 3, 3, 14])))), index=idx)
    loss = pd.Series(rng.uniform(0, float(pick(rng, [3, 25])), n), index=idx)
    cum = p.cumsum()
    exp = pd.Series(rng.uniform(0, 10, n), index=idx)
    exp.iloc[0] = np.nan
    rows = []
    for _ in range(int(pick(rng, [0, 1, 2, 4]))):
        a = int(rng.integers(1, n - 1))
        b = int(min(n - 1, a + rng.integers(0, 20)))
        e = float(exp.iloc[a:b + 1].sum())
        rows.append({'start': idx[a], 'end': idx[b], 'energy_start': float(cum.iloc[a - 1]) if chance(rng, 0.9) else np.nan, 'energy_expected': e,
                     'ci_lower': e * float(rng.uniform(0.5, 0.99)), 'ci_upper': e * float(rng.uniform(1.01, 1.5)), 'type': 'real', 'loss': 1.0,
                     'energy_end': float(cum.iloc[b])})
    info = pd.DataFrame(rows, columns=['start', 'end', 'energy_start', 'energy_expected', 'ci_lower', 'ci_upper', 'type', 'loss', 'energy_end'])
    if len(info) and chance(rng, 0.3):
        info.index = info.index + 7
    before = snapshot(p, sub, loss, cum, exp, info)
    try:
        if chance(rng, 0.3):
            aa = AvailabilityAnalysis(p, sub, cum, exp)
            mon.raises(TypeError, 'plot before run', aa.plot)
            aa.loss_total, aa.energy_expected_rescaled, aa.outage_info = loss, exp, info
            fig = mon.call(aa.plot)
        else:
            fig = mon.call(plotting.availability_summary_plots, p, sub, loss, cum, exp, info)
        mon.eq(len(fig.axes), 4, 'four panels')
        ax1, ax2, ax3, ax4 = fig.axes
        x = num(idx)
        mon.ok(shows(ax1, x, p.values), 'system power')
        for c in sub:
            mon.ok(shows(ax2, x, sub[c].values), 'power of every subsystem')
        mon.ok(shows(ax3, x, loss.values), 'lost power')
        mon.ok(shows(ax4, x, cum.values), 'cumulative energy')
        for r in rows:
            seg = exp[r['start']:r['end']]
            curve = r['energy_start'] + np.cumsum(seg.to_numpy(float))
            mon.ok(shows(ax4, num(seg.index), curve), 'expected production during every outage')
            if np.isfinite(curve[-1]):
                lo = curve[-1] - abs(r['energy_expected'] - r['ci_lower'])
                hi = curve[-1] + abs(r['energy_expected'] - r['ci_upper'])
                xe = float(num(pd.DatetimeIndex([r['end']]))[0])
                segs = [np.asarray(s) for c in ax4.collections if type(c).__name__ == 'LineCollection' for s in c.get_segments()]
                mon.ok(any(len(s) == 2 and abs(s[0][0] - xe) < 1e-6 and same(sorted(s[:, 1]), sorted([lo, hi])) for s in segs),
                       'the error bar spans the confidence interval', want=(xe, lo, hi), segments=[s.tolist() for s in segs][:5])
                mon.ev('error_bars')
        labels = [t.get_text() for t in ax4.get_legend().get_texts()]
        mon.eq(len(labels), len(set(labels)), 'one legend entry per kind', labels=labels)
        unchanged(mon, before, [p, sub, loss, cum, exp, info], 'plotting leaves the results alone')
        mon.ev('availability')
    finally:
        plt.close('all')
    mon.sig('availability', len(rows), n, sub.shape[1])


def tune(rng, mon):
    n = int(pick(rng, [1, 2, 10, 200]))
    idx = pd.date_range('2020-01-01', periods=n, freq='h', tz=tz(rng))
    s = pd.Series(rng.uniform(0, 5, n), index=idx, name=pick(rng, [None, 'power', 'energy_Wh', 'signal', 'mask']))
    s.index.name = pick(rng, [None, None, 'datetime', 'timestamp', 'mask', 'date'])
    if s.name == s.index.name and s.name is not None:
        s.index.name = None
    m = pd.Series(rng.random(n) < pick(rng, [0.5, 0, 1]), index=idx)
    before = snapshot(s, m)
    shown = []
    held = BaseFigure.show
    BaseFigure.show = lambda self, *a, **k: shown.append(self)
    try:
        browser = chance(rng, 0.4)
        fig = mon.call(plotting.tune_filter_plot, s, m, **(dict(display_web_browser=browser) if browser or chance(rng, 0.5) else {}))
        mon.eq(len(shown), int(browser), 'the figure is shown in a browser exactly when asked for')
    finally:
        BaseFigure.show = held
    got = {True: {}, False: {}}
    for tr in fig.data:
        name = str(tr.name)
        mon.ok(name in ('True', 'False'), 'the legend states the mask', name=name)
        d = got[name == 'True']
        for t, v in zip(tr.x, tr.y):
            d[pd.Timestamp(t).tz_localize(None) if pd.Timestamp(t).tz is not None else pd.Timestamp(t)] = float(v)
    for flag in (True, False):
        want = {t.tz_localize(None) if t.tz is not None else t: float(v) for t, v in s[m == flag].items()}
        keys = set(want)
        utc = {t.tz_convert('UTC').tz_localize(None) if t.tz is not None else t: float(v) for t, v in s[m == flag].items()}
        mon.ok(got[flag] == want or got[flag] == utc, 'every sample is drawn at its time with the colour of its mask', flag=flag,
               n_got=len(got[flag]), n_want=len(keys), name=str(s.name), index_name=str(s.index.name))
    unchanged(mon, before, [s, m], 'plotting leaves the inputs alone')
    mon.ev('tune')
    mon.sig('tune', n, str(s.name), str(s.index.name), str(idx.tz))


WORKLOADS = [(summary, 110, 900), (timeseries, 70, 500), (band, 12, 100), (soil_plots, 110, 900), (objects, 120, 900), (availability, 80, 600), (tune, 80, 600)]
