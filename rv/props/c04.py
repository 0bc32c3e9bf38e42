"""C04: irradiance_rescale returns the modelled irradiance times one best-fit factor."""
import numpy as np
import pandas as pd

from rv import env, gen
from rv.gen import chance, pick

rdtools = env.load()
N = rdtools.normalization
PROPERTY = 'C04'
RULE = ('synthetic multi-day modelled irradiance x true scale x cloud pattern x noise x NaN x method '
        'x convergence settings; non-trivial when a factor was recovered and compared with the '
        'closed-form least-squares factor of its own clear samples; distinct by (method, scale '
        'bucket, clouds, noise, nan, threshold)')
ASSUMPTIONS = ['irradiance in W/m2, more than a tenth of the samples clear; the factor is compared '
               'to 2e-3 (the documented optimiser is Nelder-Mead with 1e-4 tolerances)']
REQUIRED = {'factor_compared': 100, 'not_converged_refused': 30, 'single_opt': 30,
            'refusals_observed': 30, 'cloudy': 50, 'one_attempt': 30, 'two_attempts': 10}


def scenario(rng):
    days = int(pick(rng, [1, 2, 5, 20]))
    per = int(pick(rng, [24, 48, 96]))
    n = days * per
    zone = gen.tz(rng)
    idx = gen.rel_index(gen.start_ts(rng, zone), np.arange(n) * (86400 // per) * 10**9)
    x = np.arange(n) % per / per
    sim = np.clip(np.sin((x - 0.25) * 2 * np.pi), 0, None) * rng.uniform(800, 1100)
    true = float(pick(rng, [1.0, 0.7, 1.35, 0.95, 1.05, 2.0, 0.5]))
    noise = float(pick(rng, [0, 0.005, 0.02]))
    meas = sim * true * (1 + rng.normal(0, 1, n) * noise)
    cloud = pick(rng, [None, 'deep', 'mixed', 'day', 'low', 'edge_high', 'edge_low'])
    if cloud == 'low':
        # winter: mostly weak irradiance, on which the sensor is biased
        weak = float(pick(rng, [0.16, 0.3]))
        half = np.arange(n) >= per if days > 1 else np.zeros(n, bool)
        sim = np.where(half, sim * weak, sim)
        meas = np.where(half, meas * weak, meas)
        meas = np.where(sim * true < 190, meas * pick(rng, [0.87, 1.12]), meas)
    if cloud == 'deep':
        k = rng.random(n) < 0.3
        meas[k] *= rng.uniform(0.1, 0.5, k.sum())
    elif cloud in ('edge_high', 'edge_low'):
        # many samples just outside (or inside) the clear band
        k = rng.random(n) < 0.35
        c = {'edge_high': (1.21, 1.24, 1.3, 1.16), 'edge_low': (0.79, 0.77, 0.74, 0.83)}[cloud]
        meas[k] *= float(pick(rng, c))
    elif cloud == 'mixed':
        k = rng.random(n) < 0.2
        meas[k] *= rng.uniform(0.2, 1.1, k.sum())
    elif cloud == 'day' and days > 2:
        meas[:per] *= 0.3
    sim_s = pd.Series(sim, index=idx, name=pick(rng, [None, 'sim']))
    meas_s = pd.Series(meas, index=idx)
    if chance(rng, 0.05) and cloud in ('low', 'mixed', 'edge_high', 'edge_low', 'deep'):
        # the starting guess happens to be 1
        c = p90(sim_s) / p90(meas_s)
        meas_s = meas_s * c
        true = true * c
    nan = chance(rng, 0.4)
    if nan:
        meas_s[rng.random(n) < 0.1] = np.nan
        sim_s[rng.random(n) < 0.05] = np.nan
    return meas_s, sim_s, dict(true=true, noise=noise, cloud=cloud, nan=nan, n=n)


def clear(meas, sim, f, lo=0.8, hi=1.2):
    with np.errstate(all='ignore'):
        csi = meas / (f * sim)
    return (csi >= lo) & (csi <= hi)


def lsq(m, s, k):
    return (m[k] * s[k]).sum() / (s[k] ** 2).sum()


def factor_of(mon, got, sim, ctx):
    """The result must be proportional to the model; return the factor."""
    mon.ok(isinstance(got, pd.Series), 'a series is returned', **ctx)
    mon.index(got.index, sim.index, 'index of the rescaled irradiance', **ctx)
    s = sim.to_numpy()
    big = np.nan_to_num(s) > 1
    f = float(np.median(got.to_numpy()[big] / s[big]))
    mon.close(got.to_numpy(), f * s, 'result is not one factor times the modelled irradiance',
              rtol=1e-9, atol=1e-9, **ctx)
    return f


def p90(x):
    return np.percentile(x.dropna(), 90)


def settles(m, s, f):
    """Does exact least squares reach a fixed point quickly?"""
    for _ in range(30):
        g = lsq(m, s, clear(m, s, f) & (m > 200))
        if abs(g - f) < 1e-12:
            return True
        f = g
    return False


def iterative(rng, mon):
    meas, sim, ctx = scenario(rng)
    thr = pick(rng, [None, None, 1e-6, 1e-3, 1e-9])
    kw = {}
    if thr is not None:
        kw['convergence_threshold'] = thr
    if chance(rng, 0.5):
        kw['method'] = 'iterative'
    ctx = dict(ctx, kw=kw, meas=meas, sim=sim)
    guess = p90(meas) / p90(sim)
    try:
        got = N.irradiance_rescale(meas, sim, **kw)
    except N.ConvergenceError:
        mon.ev('convergence_errors')
        if settles(meas.to_numpy(), sim.to_numpy(), guess) and thr in (None, 1e-6, 1e-3):
            mon.fail('did not converge although the factor settles at once', **ctx)
        return
    except Exception as e:
        mon.fail('unexpected exception', error=repr(e), **ctx)
    m, s = meas.to_numpy(), sim.to_numpy()
    day = m > 200
    if (clear(m, s, guess) & day).any() and settles(m, s, guess):
        mon.ok(np.isfinite(got.to_numpy()[np.isfinite(s)]).all(), 'clear samples, but the rescaled irradiance is missing', **ctx)
    f = factor_of(mon, got, sim, ctx)
    # the factor must be the least-squares factor of the samples it calls clear;
    # allow for samples on the edge of the clear band
    cands = [lsq(m, s, clear(m, s, f * (1 + d)) & day) for d in
             (0, 1e-3, -1e-3, 3e-4, -3e-4)]
    if not np.isfinite(cands[0]):
        return
    mon.ok(min(cands) - 2e-3 * max(1, f) <= f <= max(cands) + 2e-3 * max(1, f),
           'factor is not the least-squares factor of the clear samples', factor=f,
           expected=cands, **ctx)
    mon.ev('factor_compared')
    mon.ev('cloudy', ctx['cloud'] is not None)
    if ctx['noise'] == 0 and ctx['cloud'] in (None, 'deep', 'day'):
        mon.ok(abs(f - ctx['true']) < 3e-3 * max(1, ctx['true']) or
               abs(cands[0] - ctx['true']) > 1e-3,
               'noise-free scale not recovered', factor=f, **ctx)
    mon.sig('it', ctx['true'], ctx['noise'], ctx['cloud'], ctx['nan'], thr, ctx['n'])
    mon.note(factor=f, **{k: ctx[k] for k in ('true', 'noise', 'cloud', 'nan', 'n')})


def limits(rng, mon):
    """Convergence threshold and iteration limit mean what they say."""
    meas, sim, ctx = scenario(rng)
    guess = p90(meas) / p90(sim)
    # with no attempt allowed only data that is already scaled is accepted (as it is)
    if abs(guess - 1) > 1.01e-4:
        mon.raises(N.ConvergenceError, 'no iteration allowed and not converged',
                   N.irradiance_rescale, meas, sim, max_iterations=0)
        mon.ev('not_converged_refused')
    elif abs(guess - 1) < 0.99e-4:
        f = factor_of(mon, mon.call(N.irradiance_rescale, meas, sim, max_iterations=0), sim, ctx)
        mon.close(f, guess, 'no attempt allowed: the modelled irradiance is already scaled', rtol=2e-4, atol=0, **ctx)
        mon.ev('already_scaled')
    # a threshold that cannot be met within one iteration
    csi = clear(meas.to_numpy(), sim.to_numpy(), guess) & (meas.to_numpy() > 200)
    if csi.sum() > 3:
        first = lsq(meas.to_numpy(), sim.to_numpy(), csi)
        if abs(first - guess) > 5e-3:
            mon.raises(N.ConvergenceError, 'one iteration moved the factor by more than the threshold',
                       N.irradiance_rescale, meas, sim, max_iterations=1,
                       convergence_threshold=1e-4)
            mon.ev('not_converged_refused')
        # one attempt is enough when any change is acceptable
        f = factor_of(mon, mon.call(N.irradiance_rescale, meas, sim, max_iterations=1, convergence_threshold=50.0), sim, ctx)
        mon.close(f, first, 'one attempt: the least-squares factor of the samples clear at the guess', rtol=2e-3, atol=2e-3, **ctx)
        mon.ev('one_attempt')
        # exactly two are needed when the second barely moves the factor
        csi2 = clear(meas.to_numpy(), sim.to_numpy(), first) & (meas.to_numpy() > 200)
        second = lsq(meas.to_numpy(), sim.to_numpy(), csi2) if csi2.any() else np.nan
        stable = all((clear(meas.to_numpy(), sim.to_numpy(), first * (1 + d)) == clear(meas.to_numpy(), sim.to_numpy(), first)).all()
                     for d in (1e-3, -1e-3))
        if abs(first - guess) > 1.2e-2 and abs(second - first) < 1e-3 and stable:
            mon.raises(N.ConvergenceError, 'one attempt is not enough',
                       N.irradiance_rescale, meas, sim, max_iterations=1, convergence_threshold=1e-2)
            f = factor_of(mon, mon.call(N.irradiance_rescale, meas, sim, max_iterations=2, convergence_threshold=1e-2), sim, ctx)
            mon.close(f, second, 'two attempts: the least-squares factor', rtol=2e-3, atol=2e-3, **ctx)
            mon.ev('two_attempts')
    # the documented default is 100 iterations: a generous limit must agree
    mon.raises(ValueError, 'unknown method must be refused', N.irradiance_rescale, meas, sim,
               method=pick(rng, ['', 'Iterative', 'single', 'lsq']))
    mon.sig('lim', ctx['true'], ctx['cloud'], ctx['n'])


def single_opt(rng, mon):
    meas, sim, ctx = scenario(rng)
    got = mon.call(N.irradiance_rescale, meas, sim, method='single_opt')
    f = factor_of(mon, got, sim, ctx)
    m, s = meas.to_numpy(), sim.to_numpy()

    def rmse(x):
        k = clear(m, s, x)
        return np.sqrt(np.mean((x * s[k] - m[k]) ** 2)) if k.any() else np.nan
    guess = p90(meas) / p90(sim)
    r0, r1 = rmse(guess), rmse(f)
    if not np.isfinite(r0):
        return
    mon.ok(r1 <= r0 + 1e-9, 'optimised factor fits worse than the initial guess',
           rmse_guess=r0, rmse=r1, factor=f, **ctx)
    k0 = clear(m, s, f)
    if all((clear(m, s, f * (1 + d)) == k0).all() for d in (2e-3, -2e-3)):
        mon.close(f, lsq(m, s, k0), 'factor is not the least-squares factor of the clear samples',
                  rtol=2e-3, atol=0, **ctx)
        mon.ev('factor_compared')
    mon.ev('single_opt')
    mon.sig('so', ctx['true'], ctx['noise'], ctx['cloud'], ctx['nan'], ctx['n'])


WORKLOADS = [(iterative, 2500, 20000), (limits, 600, 6000), (single_opt, 900, 8000)]
