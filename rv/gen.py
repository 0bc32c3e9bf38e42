"""Scenario generators shared by the workloads."""
import numpy as np
import pandas as pd

TZS = [None, 'UTC', 'US/Mountain', 'Europe/Berlin', 'Australia/Sydney',
       'Asia/Kolkata', 'Etc/GMT+7', 'Asia/Kathmandu']

# instants around which calendars are awkward
STARTS = ['2019-01-01', '2020-02-27', '2020-03-07', '2021-03-27', '2019-10-05',
          '2020-10-24', '2020-11-01', '2019-12-30', '2016-02-28', '2018-06-15',
          '2015-07-04 12:00', '2000-02-28', '1999-12-31 23:00', '2021-04-03',
          '1969-12-30']


def pick(rng, seq):
    return seq[int(rng.integers(0, len(seq)))]


def chance(rng, p):
    return bool(rng.random() < p)


def tz(rng, aware=None):
    if aware is True:
        return pick(rng, TZS[1:])
    return pick(rng, TZS)


def start_ts(rng, zone):
    t = pd.Timestamp(pick(rng, STARTS))
    return t.tz_localize(zone) if zone is not None else t


def rel_index(start, offsets_ns):
    """DatetimeIndex at start + offsets (absolute elapsed time), datetime64[ns]."""
    off = np.asarray(offsets_ns, dtype='int64')
    base = start.value if start.tz is None else start.tz_convert('UTC').value
    idx = pd.DatetimeIndex((base + off).astype('datetime64[ns]'))
    if start.tz is not None:
        idx = idx.tz_localize('UTC').tz_convert(start.tz)
    return idx


MIN = 60 * 10**9


def irregular_offsets(rng, n, step_ns, style):
    """Strictly increasing offsets (ns) starting at 0."""
    if style == 'regular':
        off = np.arange(n, dtype='int64') * step_ns
    elif style == 'drop':
        m = max(2, int(n * 1.4) + 2)
        keep = rng.random(m) < rng.uniform(0.5, 0.95)
        keep[0] = True
        keep[1] = True
        off = np.flatnonzero(keep)[:n].astype('int64') * step_ns
    elif style == 'blocks':
        # runs separated by long holes of whole steps
        steps = np.ones(n - 1, dtype='int64')
        k = rng.integers(1, max(2, n // 6) + 1)
        pos = rng.integers(0, n - 1, size=k)
        steps[pos] = rng.integers(2, 12, size=k)
        off = np.concatenate([[0], np.cumsum(steps)]) * step_ns
    elif style == 'jitter':
        # whole-second jitter
        step_s = max(step_ns // 10**9, 4)
        d = rng.integers(max(1, step_s // 2), step_s * 2, size=n - 1)
        off = np.concatenate([[0], np.cumsum(d)]).astype('int64') * 10**9
    elif style == 'mixed':
        d = rng.choice([1, 1, 1, 1, 2, 3, 0.5, 1.5], size=n - 1) * step_ns
        off = np.concatenate([[0], np.cumsum(d)]).astype('int64')
    else:
        raise ValueError(style)
    return off


def sprinkle_nan(rng, x, p=None, lead=None, trail=None):
    x = np.array(x, dtype=float)
    n = len(x)
    if p is None:
        p = pick(rng, [0, 0, 0.05, 0.2, 0.4])
    x[rng.random(n) < p] = np.nan
    if lead is None:
        lead = pick(rng, [0, 0, 0, 1, 3])
    if trail is None:
        trail = pick(rng, [0, 0, 0, 1, 3])
    if lead:
        x[:lead] = np.nan
    if trail:
        x[-trail:] = np.nan
    return x


def power_values(rng, n):
    kind = pick(rng, ['uniform', 'sine', 'int', 'neg', 'const', 'big', 'zeros'])
    if kind == 'uniform':
        return rng.uniform(0, 100, n)
    if kind == 'sine':
        return 50 + 50 * np.sin(np.arange(n) / rng.uniform(2, 20)) + rng.normal(0, 1, n)
    if kind == 'int':
        return rng.integers(0, 1000, n).astype(float)
    if kind == 'neg':
        return rng.normal(0, 100, n)
    if kind == 'const':
        return np.full(n, float(rng.integers(1, 50)))
    if kind == 'big':
        return rng.uniform(0, 1, n) * 1e8
    x = rng.uniform(0, 10, n)
    x[rng.random(n) < 0.5] = 0.0
    return x
