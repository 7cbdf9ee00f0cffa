#!/opt/venv/bin/python
"""Systematic small changes to parsevasp that its tests do not notice, run against the checks (a development tool).

mutate.py FILE.py N SEED [WORKERS] : N randomly picked mutants of that file; prints the ones no check reports.
Works in scratch copies under /tmp, never in /repo. Results are appended to /tmp/mut/results.jsonl.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
CHECKS = {
    'incar.py': ['P02', 'P01', 'P03', 'P21', 'P22', 'P27', 'P28'], 'kpoints.py': ['P04', 'P05', 'P29', 'P21', 'P22', 'P27', 'P28'],
    'poscar.py': ['P06', 'P07', 'P08', 'P29', 'P21', 'P22', 'P23', 'P27', 'P28'], 'chgcar.py': ['P09', 'P20', 'P21', 'P22', 'P27'],
    'doscar.py': ['P11', 'P20', 'P21', 'P22', 'P27'], 'eigenval.py': ['P10', 'P20', 'P21', 'P22', 'P27'],
    'outcar.py': ['P13', 'P12', 'P21', 'P22', 'P27'], 'potcar.py': ['P14', 'P21', 'P22', 'P27'],
    'stream.py': ['P15', 'P21', 'P22', 'P27'],
    'vasprun.py': ['P18', 'P25', 'P16', 'P17', 'P22', 'P20', 'P19', 'P24', 'P27'],
    'base.py': ['P22', 'P21', 'P02', 'P05', 'P07'],
    'utils.py': ['P23', 'P01', 'P04', 'P06', 'P09', 'P10', 'P14', 'P22', 'P21', 'P02', 'P05', 'P07', 'P08', 'P20', 'P11', 'P19'],
    'constants.py': ['P01', 'P14', 'P18', 'P13'],
}
TESTS = {f: 'tests/test_' + f for f in CHECKS}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = src.encode()
    out = []

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = pos(n)
        return raw[a:b].decode()

    def sub(n, new, what):
        a, b = pos(n)
        out.append((a, b, new, n.lineno, what))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            skip |= set(ast.walk(n.body[0]))
        if isinstance(n, ast.Call) and '_logger' in text(n.func) or isinstance(n, ast.Call) and text(n.func).startswith('logging'):
            skip |= set(ast.walk(n))
        if isinstance(n, ast.Call) and text(n.func).endswith('ERROR_MESSAGES.update'):
            skip |= set(ast.walk(n))
        if isinstance(n, ast.JoinedStr) or isinstance(n, (ast.Import, ast.ImportFrom)):
            skip |= set(ast.walk(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and '_logger' in text(n.value.func):
            skip.add(n)
        if isinstance(n, ast.Assign) and 'logger' in text(n.targets[0]):
            skip |= set(ast.walk(n))
        if isinstance(n, ast.If) and ('logger' in text(n.test) or all(x in skip or isinstance(x, ast.Expr) and '_logger' in text(x) for x in n.body)
                                      and not n.orelse):
            skip |= set(ast.walk(n))
        if isinstance(n, ast.keyword) and n.arg == 'logger':
            skip.add(n)
    swap = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not',
            ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
    sym = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Mod: '//', ast.FloorDiv: '*', ast.Pow: '*'}
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sub(n, f'({text(n.left)} {swap[type(n.ops[0])]} {text(n.comparators[0])})', 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in sym:
            sub(n, f'({text(n.left)} {sym[type(n.op)]} {text(n.right)})', 'arith')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            sub(n, '(' + o.join('(' + text(v) + ')' for v in n.values) + ')', 'bool')
            for i in range(len(n.values)):
                o2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                sub(n, '(' + o2.join('(' + text(v) + ')' for j, v in enumerate(n.values) if j != i) + ')', 'bool-drop')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            sub(n, f'({text(n.operand)})', 'not')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            sub(n, f'({text(n.operand)})', 'neg')
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                sub(n, str(not v), 'const')
            elif isinstance(v, int):
                sub(n, str(v + 1), 'const')
                if v > 0:
                    sub(n, str(v - 1), 'const')
            elif isinstance(v, str) and v and '\n' not in text(n):
                sub(n, repr(v + 'X'), 'str')
            elif v is None:
                pass
        elif isinstance(n, ast.If) or isinstance(n, ast.IfExp):
            sub(n.test, 'True', 'if-true')
            sub(n.test, 'False', 'if-false')
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
                sub(n, text(n.func.value), 'drop-method')
            if len(n.args) >= 1 and isinstance(n.func, (ast.Name, ast.Attribute)):
                sub(n, text(n.args[0]), 'unwrap')
            if len(n.args) == 2:
                sub(n, f'{text(n.func)}({text(n.args[1])}, {text(n.args[0])})', 'swap-args')
            for k in n.keywords:
                if k.arg == 'logger':
                    continue
                new = [text(a) for a in n.args] + [text(q.value) if q.arg is None else f'{q.arg}={text(q.value)}' for q in n.keywords if q is not k]
                if k.arg:
                    sub(n, f'{text(n.func)}({", ".join(new)})', 'drop-kw')
        elif isinstance(n, (ast.Break, ast.Continue)):
            sub(n, 'pass', 'drop-jump')
            sub(n, 'continue' if isinstance(n, ast.Break) else 'break', 'jump')
        elif isinstance(n, ast.AugAssign):
            sub(n, f'{text(n.target)} = {text(n.value)}', 'aug')
        elif isinstance(n, ast.Return) and n.value is not None:
            sub(n, 'return None', 'ret-none')
        elif isinstance(n, (ast.Assign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            sub(n, 'pass', 'drop-stmt')
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                a, b = pos(n.lower)
                out.append((a, b, '', n.lower.lineno, 'slice'))
            if n.upper is not None:
                a, b = pos(n.upper)
                out.append((a, b, '', n.upper.lineno, 'slice'))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
            e = n.slice.elts
            sub(n.slice, f'{text(e[1])}, {text(e[0])}', 'swap-index')
    res = []
    for a, b, new, line, what in out:
        m = (raw[:a] + new.encode() + raw[b:]).decode()
        if m == src:
            continue
        try:
            compile(m, 'm', 'exec')
        except Exception:
            continue
        res.append({'a': a, 'b': b, 'new': new, 'old': raw[a:b].decode(), 'line': line, 'what': what})
    return res


def run_one(fname, m, slot):
    W = f'/tmp/mut/w{slot}'
    V = f'/tmp/mut/v{slot}'
    path = f'{W}/parsevasp/{fname}'
    src = open(f'/tmp/mut/base/parsevasp/{fname}').read().encode()
    open(path, 'wb').write(src[:m['a']] + m['new'].encode() + src[m['b']:])
    try:
        env = dict(os.environ, PYTHONPATH=W, PYTHONDONTWRITEBYTECODE='1')
        for t in (TESTS.get(fname, 'tests'), 'tests'):
            if not os.path.exists(f'{W}/{t}'):
                continue
            try:
                r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', f'--basetemp=/tmp/mut/t{slot}', t],
                                   cwd=W, env=env, capture_output=True, text=True, timeout=200)
            except subprocess.TimeoutExpired:
                return dict(m, result='tests')
            if r.returncode:
                return dict(m, result='tests')
        env = dict(os.environ, VERIF_REPO=W, VERIF_JOBS='1', PYTHONDONTWRITEBYTECODE='1')
        note = []
        for p in CHECKS[fname]:
            if not os.path.exists(f'{V}/checks/{p}.py'):
                continue
            try:
                only = ['--only', fname[:-3]] if p in ('P21', 'P27', 'P28') and fname not in ('base.py', 'utils.py', 'constants.py') else []
                r = subprocess.run([PY, 'run.py', p] + only, cwd=V, env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                note.append(p + ' timeout')
                continue
            if r.returncode == 1:
                lab = [l for l in r.stdout.splitlines() if 'failing assertion' in l]
                return dict(m, result='caught', by=p, label=(lab or [''])[0][:200])
            if r.returncode or 'NOTE' in r.stdout:
                note.append(p + ' rc=%d ' % r.returncode + ' '.join(l for l in r.stdout.splitlines() if 'NOTE' in l)[:300])
        return dict(m, result='missed', note=note)
    finally:
        open(path, 'wb').write(src)


def main():
    fname, num, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    workers = int(sys.argv[4]) if len(sys.argv) > 4 else 8
    os.makedirs('/tmp/mut', exist_ok=True)
    for s in ['base'] + [f'w{i}' for i in range(workers)]:
        shutil.rmtree(f'/tmp/mut/{s}', ignore_errors=True)
        subprocess.check_call(['cp', '-a', '/repo', f'/tmp/mut/{s}'])
    for i in range(workers):
        shutil.rmtree(f'/tmp/mut/v{i}', ignore_errors=True)
        os.makedirs(f'/tmp/mut/v{i}')
        for d in ('symex', 'checks', 'run.py', 'known_findings.json'):
            subprocess.check_call(['cp', '-a', f'{VERIF}/{d}', f'/tmp/mut/v{i}/'])
    ms = mutants(open(f'/tmp/mut/base/parsevasp/{fname}').read())
    random.Random(seed).shuffle(ms)
    total = len(ms)
    done = set()
    if os.path.exists('/tmp/mut/results.jsonl'):
        for l in open('/tmp/mut/results.jsonl'):
            r = json.loads(l)
            done.add((r['file'], r['a'], r['b'], r['new']))
    ms = [m for m in ms if (fname, m['a'], m['b'], m['new']) not in done][:num]
    import queue
    slots = queue.Queue()
    for i in range(workers):
        slots.put(i)

    def job(m):
        s = slots.get()
        try:
            return run_one(fname, m, s)
        except Exception as e:  # noqa
            return dict(m, result='error', note=repr(e))
        finally:
            slots.put(s)
    cnt = {}
    with ThreadPoolExecutor(workers) as ex:
        for fu in as_completed([ex.submit(job, m) for m in ms]):
            r = fu.result()
            cnt[r['result']] = cnt.get(r['result'], 0) + 1
            with open('/tmp/mut/results.jsonl', 'a') as f:
                f.write(json.dumps(dict(r, file=fname)) + '\n')
            if r['result'] in ('missed', 'error'):
                print(f'{fname}:{r["line"]} [{r["what"]}] {r["old"][:90]!r} -> {r["new"][:90]!r} {r.get("note")}', flush=True)
    print(fname, 'of', total, cnt, flush=True)


if __name__ == '__main__':
    main()
