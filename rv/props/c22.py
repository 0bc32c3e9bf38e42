"""C22: clear-sky ambient temperature."""
import datetime
import warnings

import numpy as np
import pandas as pd

from rv import env
from rv.gen import pick, chance

rdtools = env.load()

PROPERTY = 'C22'
TECHNIQUE = 'reference-model and metamorphic monitors on get_clearsky_tamb over a synthetic climate map'
RULE = ('a case is one place and one local time axis; every returned temperature is recomputed from the synthetic climate map, and '
        'the answer for a part of the request is compared with the whole. Distinct: place kind, sampling, zone, window')
ASSUMPTIONS = ['a synthetic map of the documented layout stands in for the bundled file, which this checkout lacks',
               'a place belongs to the nearest map node (longitudes wrap, latitudes end at the poles)',
               'between local midnights the smoothed climate is interpolated linearly; days whose midnight is ambiguous or missing '
               'are judged to 0.2 degrees, and so are timestamps with seconds']
REQUIRED = {'temperatures': 50000, 'poles': 20, 'dateline': 20, 'empty_cells': 20, 'irregular': 30, 'subrequests': 100,
            'shifted_midnights': 15}

NLON, NLAT = 60, 30
_R = np.random.default_rng(77)
_lat = np.linspace(90, -90, NLAT)[None, :, None]
_m = np.arange(12)[None, None, :]
_base = 22 - 0.3 * np.abs(_lat) - 9 * np.sin(np.radians(_lat)) * np.cos(2 * np.pi * (_m - 0.5) / 12)
DAY = _base + 6 + _R.normal(0, 2.0, (NLON, NLAT, 12))
NIGHT = _base - 6 + _R.normal(0, 2.0, (NLON, NLAT, 12))
_WARM = _R.random((NLON, NLAT, 12)) < 0.15          # nights warmer than days
DAY, NIGHT = np.where(_WARM, NIGHT, DAY), np.where(_WARM, DAY, NIGHT)
EMPTY = _R.random((NLON, NLAT)) < 0.1
EMPTY[0] = EMPTY[-1] = EMPTY[:, 0] = EMPTY[:, -1] = False
DAY[EMPTY] = np.nan
NIGHT[EMPTY] = np.nan
env.use_map(DAY, NIGHT)

ZONES = ['UTC', 'US/Mountain', 'Europe/Berlin', 'Australia/Sydney', 'Asia/Kolkata', 'Asia/Kathmandu', 'America/Santiago',
         'Atlantic/Azores', 'America/Havana', 'Pacific/Auckland', 'Asia/Shanghai', 'Etc/GMT+12', 'Pacific/Kiritimati']


def cell(lat, lon):
    x = ((lon + 180.0) % 360.0) / 360.0 * NLON
    y = (90.0 - lat) / 180.0 * NLAT
    if abs(x % 1 - 0.5) < 1e-6 or abs(y % 1 - 0.5) < 1e-6:
        return None
    return int(np.floor(x + 0.5)) % NLON, min(int(np.floor(y + 0.5)), NLAT - 1)


def smoothed(values12, day, window, std, cache):
    """Gaussian-weighted mean of the monthly climate around a calendar day."""
    if day in cache:
        return cache[day]
    # `window` consecutive days around the day; an even window starts one day earlier than it ends
    offs = np.arange(window) - window // 2
    w = np.exp(-0.5 * ((np.arange(window) - (window - 1) / 2.0) / std) ** 2)
    v = np.array([values12[(day + datetime.timedelta(days=int(o))).month - 1] for o in offs])
    r = float((w * v).sum() / w.sum())
    cache[day] = r
    return r


def midnight(day, zone):
    """(instant of local midnight, regular?)"""
    n = pd.Timestamp(day)
    try:
        return n.tz_localize(zone), True
    except Exception:
        return n.tz_localize(zone, ambiguous=True, nonexistent='shift_forward'), False


def reference(times, lat, lon, window, std):
    c = cell(lat, lon)
    zone = times.tz
    d12, n12 = DAY[c], NIGHT[c]
    if np.isnan(d12).any():
        return np.full(len(times), np.nan), np.zeros(len(times), bool)
    cd, cn, mids = {}, {}, {}
    out = np.empty(len(times))
    soft = np.zeros(len(times), bool)
    for i, t in enumerate(times):
        day = t.date()
        for d in (day, day + datetime.timedelta(days=1), day - datetime.timedelta(days=1)):
            if d not in mids:
                mids[d] = midnight(d, zone)
        a, ra = mids[day]
        b, rb = mids[day + datetime.timedelta(days=1)]
        d0, d1 = day, day + datetime.timedelta(days=1)
        soft[i] = not (ra and rb and mids[day - datetime.timedelta(days=1)][1]) or t.second != 0
        f = (t.value - a.value) / (b.value - a.value)
        dv = smoothed(d12, d0, window, std, cd) * (1 - f) + smoothed(d12, d1, window, std, cd) * f
        nv = smoothed(n12, d0, window, std, cn) * (1 - f) + smoothed(n12, d1, window, std, cn) * f
        u = t.tz_convert('UTC')
        solar = u.hour + u.minute / 60.0 + u.second / 3600.0 + lon / 15.0
        # hottest at 16 h solar time; 70 % of half the day/night range
        out[i] = (dv + nv) / 2 + 0.35 * (dv - nv) * np.cos(2 * np.pi * (solar - 16.0) / 24.0)
    return out, soft


def place(rng, mon):
    kind = pick(rng, ['any', 'any', 'any', 'dateline', 'pole', 'empty'])
    if kind == 'dateline':
        lon, lat = float(pick(rng, [180.0, -180.0, 179.999, -179.999, 177.5, -178.0, 190.0])), float(rng.uniform(-60, 60))
    elif kind == 'pole':
        lon, lat = float(rng.uniform(-180, 180)), float(pick(rng, [90, -90, 89.99, -89.99, -88.0]))
    elif kind == 'empty':
        x, y = [int(v) for v in pick(rng, np.argwhere(EMPTY))]
        lon = x / NLON * 360 - 180 + float(rng.uniform(-2, 2))
        lat = 90 - y / NLAT * 180 + float(rng.uniform(-2, 2))
    else:
        lon, lat = float(rng.uniform(-180, 180)), float(rng.uniform(-90, 90))
    return kind, lat, lon


def axis(rng, mon):
    zone = pick(rng, ZONES)
    start = pd.Timestamp(pick(rng, ['2020-01-01', '2019-12-20', '2020-02-20 13:00', '2018-08-05', '2020-10-20', '2021-03-10', '2020-06-01 05:30',
                                    '2020-09-20', '2019-03-25 23:45'])).tz_localize(zone, nonexistent='shift_forward', ambiguous=True)
    if chance(rng, 0.15):
        zone, day = pick(rng, [('Atlantic/Azores', '2020-10-24'), ('America/Havana', '2020-10-31'), ('America/Santiago', '2018-08-11'),
                               ('Atlantic/Azores', '2021-03-27')])
        start = pd.Timestamp(day).tz_localize(zone)
    freq = pick(rng, ['1min', '5min', '15min', '15min', '30min', 'h', 'h', '2h', '3h', '6h', '7min', '25min', 'D', '30s'])
    n = int(pick(rng, [1, 2, 3, 50, 400]))
    if freq == 'D':
        # same clock time every day, where it exists
        naive = pd.date_range(start.tz_localize(None), periods=n, freq='D')
        times = naive.tz_localize(zone, ambiguous=np.ones(n, bool), nonexistent='shift_forward')
    else:
        times = pd.date_range(start, periods=n, freq=freq)
    style = pick(rng, ['freq', 'freq', 'nofreq', 'irregular', 'offset', 'duplicates'])
    if style == 'nofreq':
        times = pd.DatetimeIndex(times, freq=None)
    elif style == 'irregular' and n > 3:
        keep = rng.random(n) < 0.6
        keep[0] = True
        times = times[keep]
        mon.ev('irregular')
    elif style == 'offset':
        times = times + pd.Timedelta(minutes=int(rng.integers(1, 14)))
    elif style == 'duplicates' and n > 3:
        times = times[np.sort(rng.integers(0, n, n))]
        mon.ev('irregular')
    return zone, freq, style, times


def temperature(rng, mon):
    kind, lat, lon = place(rng, mon)
    zone, freq, style, times = axis(rng, mon)
    if cell(lat, lon) is None:
        return
    kw = {}
    window, std = 40, 20
    if chance(rng, 0.4):
        window = kw['window_size'] = int(pick(rng, [1, 2, 7, 30, 61]))
    if chance(rng, 0.4):
        std = kw['gauss_std'] = int(pick(rng, [1, 5, 40]))
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        got = mon.call(rdtools.get_clearsky_tamb, times, lat, lon, **kw)
    want, soft = reference(times, lat, lon, window, std)
    mon.ok(isinstance(got, pd.Series), 'a series is returned')
    mon.index(got.index, times, 'one value per requested timestamp')
    g = got.to_numpy(float)
    mon.close(g[~soft], want[~soft], 'clear-sky temperature', rtol=1e-9, atol=1e-6, lat=lat, lon=lon, zone=zone, freq=freq)
    mon.close(g[soft], want[soft], 'clear-sky temperature (shifted midnight or seconds)', rtol=0, atol=0.2)
    warned = any('NaN' in str(w.message) for w in rec)
    mon.eq(warned, bool(np.isnan(want).any()), 'missing climate data are announced')
    mon.ev('temperatures', len(times))
    mon.ev('poles', kind == 'pole')
    mon.ev('dateline', kind == 'dateline')
    mon.ev('empty_cells', bool(np.isnan(want).any()))
    mon.ev('shifted_midnights', bool(soft.any()) and freq != '30s')
    if len(times) > 4:
        a = int(rng.integers(0, len(times) - 2))
        b = int(rng.integers(a + 1, len(times) + 1))
        part = mon.call(rdtools.get_clearsky_tamb, times[a:b], lat, lon, **kw)
        mon.close(part.to_numpy(float), g[a:b], 'the answer for a timestamp does not depend on the other timestamps', rtol=0, atol=1e-6)
        mon.ev('subrequests')
    mon.sig(kind, freq, style, zone, window, std)
    mon.note(lat=lat, lon=lon, zone=zone, freq=freq, style=style, head=got.head(3))


WORKLOADS = [(temperature, 800, 8000)]
