#!/usr/bin/env python3
"""Systematic mutation (not a check): derive small changes from the syntax tree of rdtools, run the checks of
the function each one lies in, then the existing tests on the survivors.

usage: automut.py OUT.jsonl [--n N] [--seed S] [--par P] [--files a.py,b.py] [--scale x]
"""
import argparse
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/rdtools/'
PROPS = {
    'normalization.py': {'energy_from_power': ['C01'], '_aggregate': ['C01'], '_t_step_nanoseconds': ['C01'], 'interpolate': ['C02'],
                         '_interpolate_series': ['C02'], 'irradiance_rescale': ['C04'], '_irradiance_rescale_iterative': ['C04'],
                         '_nanosecond_index': ['C25'], '*': ['C03']},
    'aggregation.py': {'*': ['C05']}, 'utilities.py': {'*': ['C05']},
    'degradation.py': {'degradation_year_on_year': ['C06', 'C07'], '*': ['C08']},
    'bootstrap.py': {'*': ['C07']},
    'filtering.py': {'_tukey_fence': ['C10'], 'clip_filter': ['C11', 'C26'], 'two_way_window_filter': ['C10'], 'hampel_filter': ['C10'], 'directional_tukey_filter': ['C10'],
                     '_format_clipping_time_series': ['C11'], '_check_data_sampling_frequency': ['C11'], '_calculate_max_rolling_range': ['C11'],
                     '_apply_overall_clipping_threshold': ['C11'], 'logic_clip_filter': ['C11'], '_calculate_xgboost_model_features': ['C11'],
                     'xgboost_clip_filter': ['C11'], 'pvlib_clearsky_filter': ['C12'], 'clearsky_filter': ['C12'], '*': ['C09']},
    'analysis_chains.py': {'plot_degradation_summary': ['C24'], 'plot_soiling_monte_carlo': ['C24'], 'plot_soiling_interval': ['C24'],
                           'plot_soiling_rate_histogram': ['C24'], 'plot_pv_vs_irradiance': ['C24'], 'plot_degradation_timeseries': ['C24'],
                           'set_clearsky': ['C14'], '_calc_clearsky_poa': ['C14'], '_calc_clearsky_tamb': ['C14'],
                           '_clearsky_preprocess': ['C14', 'C27'], 'clearsky_analysis': ['C14'], '_filter': ['C13', 'C14', 'C27'],
                           'ValidatedFilterDict': ['C15'], '*': ['C13', 'C27']},
    'soiling.py': {'_calc_daily_df': ['C16'], '_calc_result_df': ['C16', 'C17'], '_calc_monte': ['C17'], 'run': ['C17', 'C16'], 'soiling_srr': ['C17', 'C16'],
                   'annual_soiling_ratios': ['C18'], 'monthly_soiling_rates': ['C18'], '_count_month_days': ['C18'], 'SRRAnalysis': ['C16'], '*': ['C19']},
    'availability.py': {'_calc_loss_subsystem': ['C20'], '__init__': ['C20'], 'plot': ['C24'], '*': ['C21']},
    'clearsky_temperature.py': {'*': ['C22']},
    'plotting.py': {'*': ['C24']},
}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.BitAnd: '|', ast.BitOr: '&', ast.Mod: '*', ast.FloorDiv: '*', ast.Pow: '*'}
STRIP = {'fillna', 'dropna', 'abs', 'copy', 'astype', 'bfill', 'ffill', 'shift', 'clip', 'sort_index', 'sort_values', 'reindex', 'round', 'asfreq',
         'interpolate', 'any', 'reset_index', 'drop_duplicates', 'rolling'}


def candidates(fname):
    src = open(SRC + fname).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()))
    raw = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = pos(n)
        return raw[a:b].decode()
    out = []

    def add(func, kind, a, b, new, line):
        out.append(dict(file=fname, func=func, kind=kind, a=a, b=b, new=new, line=line, old=raw[a:b].decode()))

    def visit(n, func):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            f = n.name if (func in (None, 'SRRAnalysis', 'CODSAnalysis', 'TrendAnalysis', 'AvailabilityAnalysis') or isinstance(n, ast.ClassDef)) else func
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                    visit(d, f)
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
                body = body[1:]
            for c in body:
                visit(c, f)
            return
        if func is None and isinstance(n, (ast.Import, ast.ImportFrom, ast.Assign, ast.Expr)):
            return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('warn', 'format', 'set_xlabel', 'set_ylabel'):
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('print', 'ValueError'):
            return
        a, b = pos(n) if hasattr(n, 'lineno') else (0, 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l1 = pos(n.left)[1]
            r0 = pos(n.comparators[0])[0]
            seg = raw[l1:r0].decode()
            for new in CMP.get(type(n.ops[0]), []):
                core = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in',
                        ast.Is: 'is', ast.IsNot: 'is not'}[type(n.ops[0])]
                if core in seg:
                    add(func, 'cmp', l1, r0, seg.replace(core, new, 1), n.lineno)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant | ast.JoinedStr) | isinstance(getattr(n.left, 'value', None), str):
            l1 = pos(n.left)[1]
            r0 = pos(n.right)[0]
            seg = raw[l1:r0].decode()
            sym = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.BitAnd: '&', ast.BitOr: '|', ast.Mod: '%', ast.FloorDiv: '//', ast.Pow: '**'}[type(n.op)]
            if seg.count(sym) >= 1:
                add(func, 'bin', l1, r0, seg.replace(sym, BIN[type(n.op)], 1), n.lineno)
        if isinstance(n, ast.BoolOp):
            for x, y in zip(n.values[:-1], n.values[1:]):
                l1, r0 = pos(x)[1], pos(y)[0]
                seg = raw[l1:r0].decode()
                o, w = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
                if o in seg:
                    add(func, 'bool', l1, r0, seg.replace(o, w, 1), n.lineno)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
            add(func, 'unary', a, pos(n.operand)[0], '', n.lineno)
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes, type(None), type(...))):
            if isinstance(n.value, bool):
                add(func, 'const', a, b, str(not n.value), n.lineno)
            elif isinstance(n.value, int):
                add(func, 'const', a, b, str(n.value + 1), n.lineno)
            elif isinstance(n.value, float):
                add(func, 'const', a, b, repr(n.value * 1.1 if n.value else 0.01), n.lineno)
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and (len(n.keywords) + len(n.args)) > 1:
                    ka, kb = off[k.lineno - 1] + k.col_offset, off[k.end_lineno - 1] + k.end_col_offset
                    # eat a following comma or preceding comma
                    rest = raw[kb:].decode(errors='ignore')
                    m = len(rest) - len(rest.lstrip())
                    if rest.lstrip().startswith(','):
                        kb += m + 1
                    else:
                        before = raw[:ka].decode()
                        ka -= len(before) - len(before.rstrip().rstrip(','))
                    add(func, 'kw', ka, kb, '', k.lineno)
            if isinstance(n.func, ast.Attribute) and n.func.attr in STRIP and not isinstance(n.func.value, ast.Name) or \
                    isinstance(n.func, ast.Attribute) and n.func.attr in STRIP - {'rolling', 'interpolate'}:
                add(func, 'strip', pos(n.func.value)[1], b, '', n.lineno)
        if isinstance(n, (ast.Assign, ast.AugAssign)) and func is not None:
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if not isinstance(t, ast.Name) or isinstance(n, ast.AugAssign):
                add(func, 'delstmt', a, b, 'pass', n.lineno)
            elif isinstance(n.value, ast.Call) and t.id in {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}:
                add(func, 'delstmt', a, b, 'pass', n.lineno)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(func, 'delstmt', a, b, 'pass', n.lineno)
        if isinstance(n, ast.If):
            for new in ('True', 'False'):
                x, y = pos(n.test)
                add(func, 'if', x, y, new, n.lineno)
        for c in ast.iter_child_nodes(n):
            visit(c, func)
    for c in ast.parse(src).body:
        visit(c, None)
    good = []
    for m in out:
        new = raw[:m['a']] + m['new'].encode() + raw[m['b']:]
        try:
            ast.parse(new.decode())
        except SyntaxError:
            continue
        m['id'] = '%s:%d:%s:%d' % (fname, m['line'], m['kind'], m['a'])
        good.append(m)
    return good


def props(m):
    t = PROPS[m['file']]
    return t.get(m['func'], t['*'])


def run_one(m, root, scale, seed):
    d = tempfile.mkdtemp(dir=root)
    try:
        shutil.copytree(SRC, d + '/rdtools', ignore=shutil.ignore_patterns('__pycache__', 'test'))
        raw = open(SRC + m['file'], 'rb').read()
        open(d + '/rdtools/' + m['file'], 'wb').write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])
        env = dict(os.environ, RV_REPO=d, PYTHONDONTWRITEBYTECODE='1')
        m['verdict'] = 'survived'
        for p in props(m):
            try:
                r = subprocess.run([HERE + '/run.sh', p, '--jobs', '1', '--stop', '1', '--scale', str(scale), '--seed', str(seed), '--evidence', d + '/e.json'],
                                   capture_output=True, text=True, env=env, timeout=900)
                code = r.returncode
            except subprocess.TimeoutExpired:
                m['verdict'] = 'timeout'
                return m
            if code == 1:
                m['verdict'] = 'caught'
                m['by'] = p
                return m
            if code not in (0, 2):
                m['verdict'] = 'error'
                m['tail'] = (r.stdout + r.stderr)[-300:]
                return m
        return m
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tests(m, root):
    d = tempfile.mkdtemp(dir=root)
    try:
        shutil.copytree(SRC, d + '/rdtools', ignore=shutil.ignore_patterns('__pycache__'))
        for f in ('setup.cfg', 'setup.py', 'versioneer.py', 'README.md'):
            if os.path.exists('/repo/' + f):
                shutil.copy('/repo/' + f, d)
        raw = open(SRC + m['file'], 'rb').read()
        open(d + '/rdtools/' + m['file'], 'wb').write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])
        x = d + '/r.xml'
        subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '2', '--timeout=300', '--continue-on-collection-errors',
                        '-o', 'junit_family=xunit2', '--junitxml=' + x, 'rdtools'], cwd=d, capture_output=True,
                       env=dict(os.environ, PYTHONPATH=d, OMP_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1'), timeout=1500)
        import xml.etree.ElementTree as E
        ok = set()
        for c in E.parse(x).iter('testcase'):
            if not any(y.tag in ('failure', 'error', 'skipped') for y in c):
                ok.add(c.get('classname') + '::' + c.get('name'))
        stable = [s for s in json.load(open('/opt/vp/BASELINE.json'))['stable'] if not s.startswith('docs.')]
        m['tests_failed'] = sum(s not in ok for s in stable)
    except Exception as e:
        m['tests_failed'] = repr(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return m


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--n', type=int, default=0)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--par', type=int, default=8)
    ap.add_argument('--files', default=','.join(PROPS))
    ap.add_argument('--scale', type=float, default=0.2)
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--tests', help='run the tests on the survivors in this file, write to OUT')
    ap.add_argument('--recheck', help='run the checks again, at --scale, on the survivors in this file that pass the tests, write to OUT')
    a = ap.parse_args()
    root = tempfile.mkdtemp(prefix='rv-am-')
    try:
        if a.tests or a.recheck:
            ms = [json.loads(x) for x in open(a.tests or a.recheck)]
            ms = [m for m in ms if m['verdict'] != 'caught' and (a.tests or m.get('tests_failed', 0) == 0)]
            fn = (lambda m: tests(m, root)) if a.tests else (lambda m: run_one(m, root, a.scale, a.seed))
        else:
            ms = []
            for f in a.files.split(','):
                ms += candidates(f)
            if a.n:
                random.Random(a.seed).shuffle(ms)
                ms = ms[:a.n]
            if a.list:
                from collections import Counter
                print(Counter(m['file'] for m in ms), Counter(m['kind'] for m in ms))
                return
            fn = (lambda m: run_one(m, root, a.scale, 1))
        with open(a.out, 'w') as f, concurrent.futures.ThreadPoolExecutor(a.par) as ex:
            for k in concurrent.futures.as_completed([ex.submit(fn, m) for m in ms]):
                f.write(json.dumps(k.result()) + '\n')
                f.flush()
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
    main()
