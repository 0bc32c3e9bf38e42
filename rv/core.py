"""Monitor core: events, oracles, verdicts, and the case runner.

A check module (rv/props/<id>.py) lists workloads.  A workload is a function
``fn(rng, mon)`` that generates one scenario, drives the real rdtools code
with it, and asks ``mon`` to judge what was observed.
"""
import json
import math
import os
import signal
import sys
import time
import traceback
import zlib
from collections import Counter

import numpy as np
import pandas as pd

REPO = os.environ.get('RV_REPO', '/repo')
CASE_TIMEOUT = 240


class Violation(Exception):
    """The oracle refuted the property on an observed execution."""


class CodeRaised(Violation):
    """The code under test raised where the property promises a result."""


class CaseTimeout(BaseException):
    """Watchdog: inconclusive, never a violation."""


def seed_seq(seed, *parts):
    out = [int(seed)]
    for p in parts:
        out.append(zlib.crc32(p.encode()) if isinstance(p, str) else int(p))
    return out


class Monitor:
    """Collects what was observed during one case."""

    def __init__(self):
        self.events = Counter()
        self.sigs = set()
        self.sample = None

    def ev(self, name, n=1):
        self.events[name] += int(n)

    def sig(self, *parts):
        """Distinguishing feature tuple of a (non-trivial) case."""
        self.sigs.add(repr(parts))

    def note(self, **kw):
        """Remember a sample description of this case."""
        if self.sample is None:
            self.sample = {}
        self.sample.update({k: brief(v) for k, v in kw.items()})

    # ---- oracles -------------------------------------------------------
    def ok(self, cond, what, **ctx):
        self.events['assertions'] += 1
        if isinstance(cond, (pd.Series, pd.DataFrame, np.ndarray)):
            cond = bool(np.all(np.asarray(cond)))
        if not cond:
            raise Violation(describe(what, ctx))

    def fail(self, what, **ctx):
        raise Violation(describe(what, ctx))

    def eq(self, got, want, what, **ctx):
        self.events['assertions'] += 1
        same = got == want or (isinstance(got, float) and isinstance(want, float)
                               and math.isnan(got) and math.isnan(want))
        if not same:
            raise Violation(describe(what, dict(got=got, want=want, **ctx)))

    def close(self, got, want, what, rtol=1e-7, atol=1e-9, skip=None, **ctx):
        """Elementwise numeric agreement, NaN == NaN, inf == inf."""
        self.events['assertions'] += 1
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            raise Violation(describe(what + ': shape differs',
                                     dict(got=got, want=want, **ctx)))
        self.events['values_compared'] += g.size
        good = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        if skip is not None:
            good = good | np.asarray(skip, dtype=bool)
        if not good.all():
            bad = np.argwhere(~np.atleast_1d(good))[:5].tolist()
            gg, ww = np.atleast_1d(g), np.atleast_1d(w)
            pairs = [(b, float(gg[tuple(b)]), float(ww[tuple(b)])) for b in bad]
            raise Violation(describe(
                what, dict(n_bad=int((~good).sum()), n=int(g.size),
                           first_bad_pos_got_want=pairs, got=got, want=want, **ctx)))

    def index(self, got, want, what, **ctx):
        """Same instants, same timezone kind, same order."""
        self.events['assertions'] += 1
        g, w = pd.Index(got), pd.Index(want)
        same = len(g) == len(w)
        if same and isinstance(w, pd.DatetimeIndex):
            same = (isinstance(g, pd.DatetimeIndex)
                    and (g.tz is None) == (w.tz is None)
                    and bool((g.asi8 == w.asi8).all())
                    and str(g.tz) == str(w.tz))
        elif same:
            same = g.equals(w)
        if not same:
            raise Violation(describe(what, dict(got=g, want=w, **ctx)))

    def series(self, got, want, what, rtol=1e-7, atol=1e-9, skip=None, **ctx):
        self.ok(isinstance(got, pd.Series), what + ': not a Series',
                got=type(got), **ctx)
        self.index(got.index, want.index, what + ': index differs', **ctx)
        self.close(got.values, want.values, what, rtol, atol, skip=skip, **ctx)

    def mask(self, got, want, what, skip=None, **ctx):
        """Boolean series equality, same index."""
        self.ok(isinstance(got, pd.Series), what + ': not a Series',
                got=type(got), **ctx)
        self.index(got.index, want.index, what + ': index differs', **ctx)
        g = got.values
        self.ok(not pd.isna(got).any(), what + ': mask has missing values', got=got, **ctx)
        g = g.astype(bool)
        w = np.asarray(want.values).astype(bool)
        bad = g != w
        if skip is not None:
            bad &= ~np.asarray(skip, dtype=bool)
        self.events['values_compared'] += g.size
        if bad.any():
            k = np.flatnonzero(bad)[:5]
            raise Violation(describe(what, dict(
                n_bad=int(bad.sum()), n=int(g.size),
                at=[str(got.index[j]) for j in k],
                got=[bool(g[j]) for j in k], **ctx)))

    def call(self, fn, *a, **kw):
        """Call the code under test; an exception is a violation."""
        self.events['calls'] += 1
        try:
            return fn(*a, **kw)
        except (Violation, MemoryError):
            raise
        except Exception as e:
            raise CodeRaised(describe(
                'unexpected exception %s: %s' % (type(e).__name__, e),
                dict(function=getattr(fn, '__qualname__', str(fn)),
                     args=a, kwargs=kw,
                     traceback=traceback.format_exc()[-1800:]))) from e

    def raises(self, exc, what, fn, *a, **kw):
        """The property promises that this call is refused with ``exc``."""
        self.events['calls'] += 1
        self.events['assertions'] += 1
        try:
            r = fn(*a, **kw)
        except exc:
            self.events['refusals_observed'] += 1
            return
        except (Violation, MemoryError):
            raise
        except Exception as e:
            raise Violation(describe(
                what + ': raised %s: %s' % (type(e).__name__, e), dict(args=a, kwargs=kw)))
        raise Violation(describe(what + ': accepted', dict(args=a, kwargs=kw, result=r)))


def brief(v, depth=0):
    """JSON-able short rendering of a value."""
    if isinstance(v, (str, bool, int, type(None))):
        return v if not isinstance(v, str) or len(v) < 2000 else v[:2000] + '...'
    if isinstance(v, float):
        return v if math.isfinite(v) else repr(v)
    if isinstance(v, (np.bool_,)):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, np.floating):
        return brief(float(v))
    if isinstance(v, (pd.Series, pd.DataFrame, pd.Index)):
        s = repr(v)
        return '%s len=%d %s' % (type(v).__name__, len(v), s if len(s) < 900 else s[:900] + '...')
    if isinstance(v, np.ndarray):
        s = repr(v)
        return s if len(s) < 600 else s[:600] + '...'
    if isinstance(v, dict) and depth < 3:
        return {str(k): brief(x, depth + 1) for k, x in list(v.items())[:25]}
    if isinstance(v, (list, tuple)) and depth < 3:
        return [brief(x, depth + 1) for x in list(v)[:15]]
    s = repr(v)
    return s if len(s) < 400 else s[:400] + '...'


def describe(what, ctx):
    return json.dumps({'what': what, **{k: brief(v) for k, v in ctx.items()}},
                      default=str)


# ---------------------------------------------------------------- running
def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, fn, idx, seed, timeout=CASE_TIMEOUT):
    """Run one case; returns a result dict."""
    import warnings
    mon = Monitor()
    ss = seed_seq(seed, mod.PROPERTY, fn.__name__, idx)
    rng = np.random.default_rng(ss)
    np.random.seed(int(rng.integers(0, 2**32 - 1)))
    mon.index_in_workload = idx
    res = {'fn': fn.__name__, 'idx': idx, 'status': 'held'}
    t0 = time.time()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(timeout))
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            fn(rng, mon)
    except CaseTimeout:
        res.update(status='inconclusive', detail='case watchdog fired')
    except MemoryError:
        res.update(status='inconclusive', detail='out of memory')
    except Violation as e:
        res.update(status='violated', detail=str(e))
    except Exception:
        # the oracle could not process what the code returned
        res.update(status='violated', detail=describe(
            'output of the code under test could not be judged (malformed result)',
            dict(traceback=traceback.format_exc()[-2500:])))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    res['events'] = dict(mon.events)
    res['sigs'] = list(mon.sigs)
    res['sample'] = mon.sample
    res['t'] = time.time() - t0
    return res
