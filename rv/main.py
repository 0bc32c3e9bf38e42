"""Entry point of every check: python -m rv.main <property> [options]."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _work_many(chunk):
    return [_work(a) for a in chunk]


def _work(args):
    from rv import core
    modname, fname, idx, seed = args
    mod = importlib.import_module(modname)
    fn = next(f for f, *_ in mod.WORKLOADS if f.__name__ == fname)
    return core.run_case(mod, fn, idx, seed, getattr(mod, 'CASE_TIMEOUT', core.CASE_TIMEOUT))


def load_known(pid):
    """Known findings of a property: {mechanism key: description}."""
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith('#') or line.startswith('fixed:'):
                    continue
                d = json.loads(line)
                if d['property'] == pid:
                    out[d['key']] = d['what']
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--only', help='workload name')
    ap.add_argument('--idx', type=int)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('RV_JOBS', '8')))
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--evidence', default=None)
    ap.add_argument('--stop', type=int, default=25, help='stop after this many violations')
    a = ap.parse_args(argv)
    pid = a.property
    t0 = time.time()

    from rv import core, env
    env.load()
    modname = 'rv.props.' + pid.lower()
    mod = importlib.import_module(modname)

    if a.replay or a.idx is not None:
        if a.replay:
            with open(a.replay) as f:
                r = json.load(f)
        else:
            r = dict(workload=a.only, idx=a.idx, seed=a.seed)
        res = _work((modname, r['workload'], r['idx'], r['seed']))
        print(json.dumps(res, indent=1, default=str))
        if res['status'] == 'violated':
            try:
                for k, v in json.loads(res['detail']).items():
                    print('--', k, ':', v)
            except ValueError:
                pass
            return 1
        return 0

    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    tasks = []
    for fn, nq, nt in mod.WORKLOADS:
        if a.only and fn.__name__ != a.only:
            continue
        n = max(1, int(round((nt if tier == 'thorough' else nq) * a.scale)))
        tasks += [(modname, fn.__name__, i, a.seed) for i in range(n)]
    # interleave the workloads so that every worker sees a mixture
    order = sorted(range(len(tasks)), key=lambda k: (tasks[k][2], k))
    tasks = [tasks[k] for k in order]

    wall_cap = 800 if tier == 'quick' else 3.0 * 3600
    events, sigs, per_fn = Counter(), set(), Counter()
    samples, violations, inconclusive = {}, [], []
    known = load_known(pid)
    classify = getattr(mod, 'known_key', lambda r: None)
    known_hit = {}
    done = 0
    capped = False
    ctx = mp.get_context('fork')
    chunk = 1 if len(tasks) < 400 else 4
    with ctx.Pool(a.jobs, maxtasksperchild=None) as pool:
        chunks = [tasks[k:k + chunk] for k in range(0, len(tasks), chunk)]
        it = pool.imap_unordered(_work_many, chunks)
        while True:
            try:
                left = wall_cap - (time.time() - t0)
                batch = it.next(timeout=max(1.0, left))
            except StopIteration:
                break
            except mp.TimeoutError:
                capped = True
                break
            for res in batch:
                done += 1
                per_fn[res['fn']] += 1
                events.update(res['events'])
                sigs.update(res['sigs'])
                if res['sample'] and len([s for s in samples if s[0] == res['fn']]) < 2:
                    samples[(res['fn'], res['idx'])] = res['sample']
                if res['status'] == 'violated':
                    k = classify(res) if known else None
                    if k is not None and k in known:
                        known_hit[k] = res
                    else:
                        violations.append(res)
                elif res['status'] == 'inconclusive':
                    inconclusive.append(res)
            if len(violations) >= a.stop:
                break
        pool.terminate()

    fresh = violations

    # which monitors were reached
    missing = []
    if not a.only and a.scale >= 1:
        missing = [k for k, n in getattr(mod, 'REQUIRED', {}).items() if events[k] < n]

    ev = {
        'property': pid, 'tier': tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': done,
            'distinct_nontrivial': len(sigs),
            'rule': mod.RULE,
            'samples': [{'workload': k[0], 'case': k[1], **s} for k, s in list(samples.items())[:8]],
            'cases_per_workload': dict(per_fn),
            'observed_events': dict(sorted(events.items())),
            'inconclusive_cases': len(inconclusive),
            'monitors_never_reached': missing,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh),
    }
    evpath = a.evidence or os.path.join(VERIF, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(evpath), exist_ok=True)
    with open(evpath, 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    for k in known_hit:
        print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
    print('%s %s seed=%d: %d cases, %d distinct, %d assertions, %d values compared, '
          '%d violations, %d inconclusive, %.1f s' % (
              pid, tier, a.seed, done, len(sigs), events['assertions'],
              events['values_compared'], len(fresh), len(inconclusive), time.time() - t0))
    if fresh:
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for v in fresh[:5]:
            path = os.path.join(rdir, '%s-%s-%d-seed%d.json' % (pid, v['fn'], v['idx'], a.seed))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'workload': v['fn'], 'idx': v['idx'],
                           'seed': a.seed, 'detail': v['detail'], 'events': v['events']},
                          f, indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  %s case %d: %s' % (v['fn'], v['idx'], v['detail'][:600]))
        return 1
    if capped or inconclusive:
        print('NOTE property=%s time limit reached: %s, cases stopped by the watchdog: %d' % (pid, capped, len(inconclusive)))
    if missing or len(inconclusive) > max(2, 0.05 * done):
        # what was explored is not enough to say anything
        print('INCONCLUSIVE property=%s inconclusive=%d never_reached=%s' % (pid, len(inconclusive), missing))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
