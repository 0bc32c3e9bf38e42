"""C15: filter configuration histories against a plain-dictionary reference model."""
import contextlib
import copy
import io
import pickle

import numpy as np
import pandas as pd

from rv import env
from rv.gen import pick, chance

rdtools = env.load()
PROPERTY = 'C15'
TECHNIQUE = 'runtime monitoring: online model-based monitor over random operation histories'
RULE = ('a case is a random history of dictionary operations and whole replacements on the filter '
        'configurations of two or three TrendAnalysis objects; after every operation the contents, order, '
        'return value and exception are compared with an ordinary dictionary that refuses invalid names. '
        'Distinct: set of operation kinds with the number of refusals')
ASSUMPTIONS = ['the valid names are those documented for TrendAnalysis at this commit']
REQUIRED = {'op:setitem': 200, 'op:update': 200, 'op:setdefault': 200, 'op:ior': 100, 'op:replace': 100,
            'op:pickle': 50, 'op:update_iter': 50, 'op:attr_ior': 50, 'refusals_observed': 500,
            'op:update_kw': 100, 'op:delete': 100, 'op:cross': 100}

VALID = {
    'filter_params': ['normalized_filter', 'poa_filter', 'tcell_filter', 'clip_filter', 'hour_angle_filter',
                      'clearsky_filter', 'sensor_clearsky_filter', 'ad_hoc_filter'],
    'filter_params_aggregated': ['two_way_window_filter', 'insolation_filter', 'hampel_filter',
                                 'directional_tukey_filter', 'ad_hoc_filter'],
}
DEFAULT = {
    'filter_params': dict(normalized_filter={}, poa_filter={}, tcell_filter={}, clip_filter={},
                          clearsky_filter={}, ad_hoc_filter=None),
    'filter_params_aggregated': dict(two_way_window_filter={}, ad_hoc_filter=None),
}
INVALID = ['bogus', '', 'Poa_filter', 'poa_filter ', 'csi_filter', 'pvlib_clearsky_filter', 'xgboost_clip_filter',
           'clip', 'normalized', 'logic_clip_filter', 0, None, ('poa_filter',)]


def value(rng):
    return pick(rng, [{}, {'model': 'csi'}, None, {'poa_global_low': 100}, 3, 'x', [1, 2], True])


def key(rng, which, bad):
    if chance(rng, bad):
        other = VALID['filter_params_aggregated' if which == 'filter_params' else 'filter_params']
        k = pick(rng, INVALID + [o for o in other if o not in VALID[which]])
        return k, False
    return pick(rng, VALID[which]), True


def pairs(rng, which, strings=False):
    out, good = {}, True
    for _ in range(int(rng.integers(0, 4))):
        k, g = key(rng, which, 0.15)
        if strings and not isinstance(k, str):
            continue
        out[k] = value(rng)
        good &= g
    return out, good


def make(rng):
    idx = pd.date_range('2020-01-01', periods=30, freq='h', tz='UTC')
    x = pd.Series(np.arange(30.0), index=idx)
    kw = {}
    expected = chance(rng, 0.25)
    cell = chance(rng, 0.5)
    if expected:
        kw['power_expected'] = x
    if cell:
        kw['temperature_cell'] = x
    ta = rdtools.TrendAnalysis(x, poa_global=x, gamma_pdc=-0.004, interp_freq='h', **kw)
    d = copy.deepcopy(DEFAULT)
    if expected and not cell:
        del d['filter_params']['tcell_filter']
    return ta, d


def same(mon, ta, model, what, **ctx):
    for w in VALID:
        got = getattr(ta, w)
        mon.ok(isinstance(got, dict), what + ': still a dictionary', got=type(got), **ctx)
        mon.eq(list(dict.items(got)), list(model[w].items()), what + ' (%s contents)' % w, **ctx)


def history(rng, mon):
    objs = [mon.call(make, rng) for _ in range(int(rng.integers(2, 4)))]
    for ta, m in objs:
        same(mon, ta, m, 'fresh configuration')
    trace, kinds, refused = [], set(), 0
    for step in range(int(rng.integers(10, 40))):
        n = int(rng.integers(0, len(objs)))
        ta, m = objs[n]
        w = pick(rng, list(VALID))
        cfg, mod = getattr(ta, w), m[w]
        op = pick(rng, ['setitem', 'update', 'update_kw', 'update_iter', 'update_mixed', 'setdefault', 'ior', 'attr_ior',
                        'or', 'replace', 'replace_bad', 'delete', 'pop', 'popitem', 'clear', 'copy', 'pickle', 'nested',
                        'get', 'deepcopy', 'replace_shared', 'keep_alias', 'cross'])
        before = list(mod.items())
        good = True
        fn = res = None

        if op == 'setitem':
            k, good = key(rng, w, 0.4)
            v = value(rng)
            arg = (k, v)

            def fn(d):
                d[k] = v
        elif op in ('update', 'ior', 'or', 'update_iter', 'attr_ior', 'update_mixed'):
            arg, good = pairs(rng, w)
            as_list = chance(rng, 0.3)
            if op == 'update':
                def fn(d):
                    return d.update(list(arg.items()) if as_list else arg)
            elif op == 'update_mixed':
                kw, g2 = pairs(rng, w, strings=True)
                good &= g2
                arg = (arg, kw)

                def fn(d):
                    return d.update(arg[0], **arg[1])
            elif op == 'update_iter':
                def fn(d):
                    return d.update((k, v) for k, v in arg.items())
            elif op == 'ior':
                def fn(d):
                    d |= (list(arg.items()) if as_list else arg)
            elif op == 'or':
                def fn(d):
                    return dict(d | arg)
                good = True
            else:
                def fn(d):
                    if d is mod:
                        d |= arg
                    else:
                        holder = ta
                        with contextlib.redirect_stdout(io.StringIO()):
                            if w == 'filter_params':
                                holder.filter_params |= arg
                            else:
                                holder.filter_params_aggregated |= arg
        elif op == 'update_kw':
            arg, good = pairs(rng, w, strings=True)

            def fn(d):
                return d.update(**arg)
        elif op == 'setdefault':
            k, good = key(rng, w, 0.4)
            v = value(rng)
            arg = (k, v)
            if chance(rng, 0.3):
                def fn(d):
                    return d.setdefault(k)
            else:
                def fn(d):
                    return d.setdefault(k, v)
        elif op in ('replace', 'replace_shared'):
            arg, good = pairs(rng, w)

            def fn(d):
                if d is mod:
                    mod.clear()
                    mod.update(arg)
                else:
                    with contextlib.redirect_stdout(io.StringIO()):
                        setattr(ta, w, arg)
        elif op == 'replace_bad':
            arg = pick(rng, [None, 'poa_filter', ['poa_filter'], 3, {'poa_filter'}])
            with contextlib.redirect_stdout(io.StringIO()):
                mon.raises(ValueError, 'replacement that is not a dictionary is refused', setattr, ta, w, arg)
            refused += 1
        elif op in ('delete', 'pop'):
            k, _ = key(rng, w, 0.2)
            arg = k
            default = chance(rng, 0.5)

            def fn(d):
                if op == 'delete':
                    del d[k]
                else:
                    return d.pop(k, 'missing') if default else d.pop(k)
            good = None if (k not in mod and (op == 'delete' or not default)) else True
        elif op == 'popitem':
            arg = None

            def fn(d):
                return d.popitem()
            good = None if not mod else True
        elif op == 'clear':
            arg = None

            def fn(d):
                return d.clear()
        elif op == 'get':
            k, _ = key(rng, w, 0.3)
            arg = k

            def fn(d):
                return d.get(k, 7), k in d, len(d), list(d), sorted(map(str, d.values()))
        elif op == 'keep_alias':
            # the dictionary passed in a replacement stays the caller's own
            arg, good = pairs(rng, w)
            if good:
                src = dict(arg)
                with contextlib.redirect_stdout(io.StringIO()):
                    mon.call(setattr, ta, w, src)
                mod.clear()
                mod.update(arg)
                src['bogus'] = 1
            good = True
        elif op == 'cross':
            # take over the configuration of another object, or of the other kind
            j = int(rng.integers(0, len(objs)))
            w2 = w if chance(rng, 0.7) else pick(rng, list(VALID))
            arg = (j, w2)
            src, srcmod = getattr(objs[j][0], w2), objs[j][1][w2]
            good = all(k in VALID[w] for k in srcmod)
            items = list(srcmod.items())

            def fn(d):
                if d is mod:
                    mod.clear()
                    mod.update(items)
                else:
                    with contextlib.redirect_stdout(io.StringIO()):
                        setattr(ta, w, src)
        elif op == 'nested':
            # changing one object's parameters must not reach another object
            ks = [k for k in mod if isinstance(mod[k], dict)]
            arg = None
            if ks:
                k = pick(rng, ks)
                arg = k
                new = dict(mod[k], touched=step)
                mod[k] = new
                cfg[k] = copy.deepcopy(cfg[k])
                cfg[k]['touched'] = step
        elif op in ('copy', 'deepcopy', 'pickle'):
            arg = None
            c = mon.call(cfg.copy if op == 'copy' else (lambda: copy.deepcopy(cfg)) if op == 'deepcopy'
                         else (lambda: pickle.loads(pickle.dumps(cfg))))
            mon.eq(list(dict(c).items()), before, op + ' has the same contents')
            if op != 'copy':
                mon.ok(type(c) is type(cfg), op + ' keeps its kind')
                mon.raises(KeyError, op + ' still refuses invalid names', c.__setitem__, 'bogus', 1)
                mon.ok('bogus' not in c, op + ' unchanged by the refusal')
                mon.call(c.__setitem__, VALID[w][0], {'private': 1})
            else:
                c[VALID[w][0]] = {'private': 1}
            c.clear()
            if chance(rng, 0.2):
                ta2 = mon.call(lambda: pickle.loads(pickle.dumps(ta)))
                same(mon, ta2, m, 'pickled object')
                with contextlib.suppress(KeyError):
                    del ta2.filter_params['poa_filter']
                mon.ev('object_pickled')
        trace.append((n, w, op, arg))
        kinds.add(op)
        mon.ev('op:' + op)
        if fn is not None:
            if good is False or good is None:
                mon.raises(KeyError, 'operation %s with %r on %s is refused' % (op, arg, w), fn, cfg)
                refused += 1
            else:
                res = mon.call(fn, cfg)
                want = fn(mod)
                mon.eq(res, want, 'return value of %s' % op, arg=arg)
        for j, (t2, m2) in enumerate(objs):
            same(mon, t2, m2, 'after %s on object %d' % (op, n), object=j, trace=trace[-6:], before=before)
    mon.ev('histories')
    mon.sig(sorted(kinds), refused)
    mon.note(trace=trace)


def fresh_defaults(rng, mon):
    """Objects created after others were reconfigured still start from the defaults."""
    ta, m = make(rng)
    for w in VALID:
        for k, v in list(getattr(ta, w).items()):
            if isinstance(v, dict):
                v['contaminated'] = 1
        getattr(ta, w).clear()
    tb, mb = mon.call(make, rng)
    same(mon, tb, mb, 'defaults of a later object')
    mon.ev('fresh_defaults')
    mon.sig('fresh')


WORKLOADS = [(history, 600, 20000), (fresh_defaults, 20, 200)]
