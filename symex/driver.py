"""Exploration driver: runs every feasible path of every harness of a property."""
import collections
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback
from concurrent.futures.process import BrokenProcessPool

import z3

from . import core, harness, loader, xmlshim
from .core import Ctx, Divergence, Inconclusive, Infeasible, Signal, Unmodelled, Violation

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_CODE = {}


def repo_setup():
    if loader.REPO not in sys.path:
        sys.path.insert(0, loader.REPO)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')


def load_checks(pid):
    sys.path.insert(0, VERIF) if VERIF not in sys.path else None
    return importlib.import_module(f'checks.{pid}')


def assignment(ctx, model):
    out = {}
    for name in ctx.input_order:
        v, kind, meta = ctx.inputs[name]
        out[name] = model.eval(v, model_completion=True).as_long()
    return out


def run_conc(fn, assign):
    """Concrete run on the real package: ('pass', trace) | ('fail', label, detail) | ('skip',)."""
    core.set_ctx(None)
    h = harness.ConcH(assign)
    devnull = open(os.devnull, 'w')
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = devnull
    try:
        fn(h)
        return ('pass', h.trace)
    except harness.CheckFailed as e:
        return ('fail', e.label, str(e.detail))
    except harness.Skip:
        return ('skip',)
    except (SystemExit, Exception) as e:
        # the answer does not have the form every input must give (no such entry, None instead of numbers, an
        # exception from a getter); only an exception raised inside the framework itself is a harness bug
        last = traceback.extract_tb(e.__traceback__)[-1].filename
        if h.parsed and not os.path.abspath(last).startswith(os.path.join(VERIF, 'symex') + os.sep):
            return ('fail', 'the answers have the expected form', f'{type(e).__name__}: {e}')
        return ('error', f'{type(e).__name__}: {e}', traceback.format_exc())
    finally:
        sys.stdout, sys.stderr = so, se
        devnull.close()
        h.cleanup()


def run_path(fn, prefix, seed, timeout_ms, validate=True):
    ctx = Ctx(prefix, timeout_ms, seed)
    core.set_ctx(ctx)
    loader.VFS.clear()
    xmlshim.reset()
    loaded = loader.Loaded(extra=xmlshim.shims())
    h = harness.SymH(ctx, loaded, seed)
    res = {'status': 'ok', 'label': None, 'assign': None, 'detail': '', 'validated': 0, 'mismatch': None}
    model = None
    try:
        fn(h)
        if ctx.inconclusive:
            res['status'] = 'inconclusive'
            res['detail'] = '; '.join(ctx.inconclusive[:3])
    except Violation as v:
        res['status'] = 'cex'
        res['label'] = v.label
        model = v.model
    except Infeasible:
        res['status'] = 'infeasible'
    except Unmodelled as e:
        res['status'] = 'unmodelled'
        res['detail'] = str(e) + ' @ ' + _where(e)
    except Inconclusive as e:
        res['status'] = 'inconclusive'
        res['detail'] = str(e)
    except Divergence as e:
        res['status'] = 'diverged'
        res['detail'] = str(e)
    except z3.Z3Exception as e:
        res['status'] = 'unmodelled'
        res['detail'] = f'z3: {e} @ {_where(e)}'
    except RecursionError:
        res['status'] = 'unmodelled'
        res['detail'] = 'recursion limit'
    except (Exception, SystemExit):  # a harness bug, or an answer of unexpected form: the companion run tells
        res['status'] = 'harness-error'
        res['detail'] = traceback.format_exc()
    # concrete companion run
    try:
        if res['status'] in ('ok', 'unmodelled', 'inconclusive', 'cex', 'harness-error') and validate:
            if model is None:
                model = ctx.final_model()
            if model is not None:
                a = assignment(ctx, model)
                res['assign'] = a
                sym_trace = []
                if res['status'] == 'ok':
                    for lab, act in h.trace:
                        try:
                            sym_trace.append((lab, harness.meval(act, model)))
                        except Signal:
                            sym_trace.append((lab, None))
                r = run_conc(fn, a)
                res['conc'] = r[0]
                if r[0] == 'fail':
                    res['conc_label'], res['conc_detail'] = r[1], r[2]
                elif r[0] == 'error':
                    res['conc_detail'] = r[2]
                elif r[0] == 'pass' and res['status'] == 'ok':
                    t = r[1]
                    if [x[0] for x in t] != [x[0] for x in sym_trace]:
                        res['mismatch'] = f'different assertions reached: {[x[0] for x in sym_trace]} vs {[x[0] for x in t]}'[:600]
                    else:
                        for (lab, s), (_, c) in zip(sym_trace, t):
                            if not harness.loosely(s, harness.plain(c)):
                                res['mismatch'] = f'{lab}: engine {harness.short(s)} vs real {harness.short(c)}'
                                break
                    if res['mismatch'] is None:
                        res['validated'] = 1
    except Signal as e:
        res['detail'] += f' (no companion run: {e})'
    finally:
        core.set_ctx(None)
    res.update(decisions=len(ctx.decisions), alts=ctx.alts, queries=ctx.queries, solver_s=ctx.solver_s,
               assert_queries=ctx.assert_queries, trivial=ctx.trivial, functions=ctx.functions,
               reached=h.reached, prefix=list(ctx.decisions))
    return res


def _where(e):
    tb = e.__traceback__
    out = ''
    while tb:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(loader.REPO):
            out = f'{os.path.basename(f)}:{tb.tb_lineno}'
        tb = tb.tb_next
    return out


class Agg(dict):
    pass


def new_stats():
    return {'paths': 0, 'decisions': 0, 'queries': 0, 'solver_s': 0.0, 'assert_queries': 0, 'trivial': 0,
            'validated': 0, 'functions': set(), 'reached': set(), 'status': {}, 'notes': {}, 'samples': [],
            'cex': [], 'mismatch': [], 'harness_errors': []}


def merge_result(st, r, hname):
    if r['status'] == 'infeasible':
        st['status']['infeasible'] = st['status'].get('infeasible', 0) + 1
        st['queries'] += r['queries']
        st['solver_s'] += r['solver_s']
        return
    st['paths'] += 1
    for k in ('decisions', 'queries', 'solver_s', 'assert_queries', 'trivial', 'validated'):
        st[k] += r[k]
    st['functions'] |= r['functions']
    st['reached'] |= r['reached']
    s = r['status']
    real_fail = r.get('conc') == 'fail'
    if s == 'cex' and not real_fail:
        s = 'unreproduced'
    if real_fail:
        st['cex'].append({'harness': hname, 'label': r['conc_label'], 'detail': r['conc_detail'], 'assign': r['assign'],
                          'by': r['status']})
    if r.get('conc') == 'error':
        st['harness_errors'].append(f'{hname}: {r["conc_detail"]} {r["assign"]}')
    if r['mismatch']:
        st['mismatch'].append(f'{hname}: {r["mismatch"]} inputs {r["assign"]}')
        s = 'mismatch'
    if s == 'harness-error':
        st['harness_errors'].append(f'{hname}: {r["detail"]}')
    st['status'][s] = st['status'].get(s, 0) + 1
    if s not in ('ok',) and s != 'cex':
        key = f'{hname}: {s}: {r["label"] or ""} {r["detail"]}'
        st['notes'][key] = st['notes'].get(key, 0) + 1
        st.setdefault('note_assign', {}).setdefault(key, r['assign'])
    if len(st['samples']) < 3 and r['assign']:
        st['samples'].append({'harness': hname, 'inputs': r['assign'], 'branch_decisions': r['decisions'], 'status': s})


def merge_stats(a, b):
    for k in ('paths', 'decisions', 'queries', 'solver_s', 'assert_queries', 'trivial', 'validated'):
        a[k] += b[k]
    a['functions'] |= b['functions']
    a['reached'] |= b['reached']
    for k in ('status', 'notes'):
        for n, v in b[k].items():
            a[k][n] = a[k].get(n, 0) + v
    a.setdefault('note_assign', {}).update({k: v for k, v in b.get('note_assign', {}).items()
                                            if k not in a.get('note_assign', {})})
    for k in ('cex', 'mismatch', 'harness_errors'):
        a[k] = (a[k] + b[k])[:40]
    if len(a['samples']) < 12:
        a['samples'] += b['samples'][:2]


def work(job):
    """Worker: explore from a prefix for a time slice; give leftovers back."""
    pid, hname, params, prefix, tier, seed, slice_s, timeout_ms, deadline = job
    repo_setup()
    mod = load_checks(pid)
    fn = resolve(mod, hname, tier)
    st = new_stats()
    stack = [prefix]
    t0 = time.time()
    while stack and time.time() - t0 < slice_s and time.time() < deadline:
        p = stack.pop()
        r = run_path(fn, p, seed, timeout_ms)
        stack += r['alts']
        merge_result(st, r, hname)
        if st['cex']:
            break
        if len(stack) > 1 and time.time() - t0 > slice_s / 4 and st['paths'] >= 1 and len(stack) > 6:
            break
    return hname, st, stack


def resolve(mod, hname, tier):
    for name, fn in mod.harnesses(tier):
        if name == hname:
            return fn
    raise KeyError(hname)


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get('findings', []) if k['property'] == pid]


def is_known(kf, cex):
    for k in kf:
        if k['harness'] == cex['harness'] and k['label'] == cex['label']:
            if all(cex['assign'].get(n) == v for n, v in k.get('inputs', {}).items()):
                return k
    return None


def replay_file(pid, cex, tier):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = {'property': pid, 'tier': tier, 'harness': cex['harness'], 'label': cex['label'], 'detail': cex['detail'], 'inputs': cex['assign']}
    h = hashlib.sha1(json.dumps([cex['harness'], cex['assign']], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, f'{pid}-{h}.json')
    with open(path, 'w') as f:
        json.dump(body, f, indent=1, default=str)
    return path


def do_replay(path):
    """Run one recorded input on the real package. Exit 1 when it fails."""
    repo_setup()
    with open(path) as f:
        b = json.load(f)
    mod = load_checks(b['property'])
    fn = None
    for tier in (b['tier'],) if 'tier' in b else ('quick', 'thorough'):
        try:
            fn = resolve(mod, b['harness'], tier)
            break
        except KeyError:
            continue
    if fn is None:
        print('unknown harness', b['harness'])
        return 3
    r = run_conc(fn, b['inputs'])
    print(r[0], *r[1:] if r[0] != 'pass' else '')
    return 1 if r[0] == 'fail' else 0


def main(pid, tier, seed, jobs=None, only=None, verbose=False):
    t0 = time.time()
    repo_setup()
    mod = load_checks(pid)
    budget = getattr(mod, 'BUDGET', {}).get(tier, 300 if tier == 'quick' else 800)
    if tier == 'quick':
        budget = float(os.environ.get('VERIF_BUDGET', budget))
    deadline = t0 + budget
    timeout_ms = 20000 if tier == 'quick' else 60000
    hs = [n for n, _ in mod.harnesses(tier) if only is None or only in n]
    jobs = jobs or int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4))
    total = new_stats()
    per = {n: 0 for n in hs}
    statuses = {n: {} for n in hs}
    hreach = {n: set() for n in hs}
    left = {n: 0 for n in hs}
    # every harness gets its turn, and each of its turns alternately goes on near the last path or far from it
    queue = {n: collections.deque([[]]) for n in hs}
    turns = {n: 0 for n in hs}
    kf = known_findings(pid)
    known_hit = {}
    confirmed = None
    ctxmp = mp.get_context('fork')
    stop = False
    ex = cf.ProcessPoolExecutor(jobs, mp_context=ctxmp)
    lost = collections.Counter()
    try:
        pend = {}
        while (any(queue.values()) or pend) and not stop:
            while any(queue.values()) and len(pend) < jobs * 2 and time.time() < deadline:
                n = min((n for n in hs if queue[n]), key=turns.get)
                p = queue[n].popleft() if turns[n] % 2 else queue[n].pop()
                turns[n] += 1
                try:
                    f = ex.submit(work, (pid, n, None, p, tier, seed, 1.5, timeout_ms, deadline))
                except BrokenProcessPool:
                    queue[n].append(p)
                    break
                pend[f] = n, p
            if not pend:
                if time.time() > deadline or not any(queue.values()):
                    break
                ex.shutdown(wait=False)
                ex = cf.ProcessPoolExecutor(jobs, mp_context=ctxmp)
                continue
            done, _ = cf.wait(pend, timeout=5, return_when=cf.FIRST_COMPLETED)
            broken = False
            for f in done:
                n, p = pend.pop(f)
                try:
                    hname, st, rest = f.result()
                except BrokenProcessPool:
                    # a worker was killed (out of memory, say): all its pool goes on in a smaller one
                    broken = True
                    key = n, repr(p)
                    lost[key] += 1
                    if lost[key] < 3:
                        queue[n].append(p)
                    else:
                        total['status']['worker died'] = total['status'].get('worker died', 0) + 1
                    continue
                except Exception as e:
                    total['harness_errors'].append(f'{n}: worker: {e!r}')
                    continue
                per[n] += st['paths']
                for k, v in st['status'].items():
                    statuses[n][k] = statuses[n].get(k, 0) + v
                hreach[n] |= st['reached']
                for c in st['cex']:
                    k = is_known(kf, c)
                    if k:
                        known_hit[k['what']] = c
                        continue
                    if confirmed is None:
                        path = replay_file(pid, c, tier)
                        rc = subprocess.run([sys.executable, os.path.join(VERIF, 'run.py'), '--replay', path],
                                            capture_output=True, text=True)
                        if rc.returncode == 1:
                            confirmed = (c, path)
                            stop = True
                        else:
                            key = f'{n}: failed in-process but not in a fresh process: {c["label"]}'
                            total['notes'][key] = total['notes'].get(key, 0) + 1
                            total['status']['unreproduced'] = total['status'].get('unreproduced', 0) + 1
                merge_stats(total, st)
                queue[n] += rest
            if broken and not pend:
                ex.shutdown(wait=False)
                jobs = max(1, jobs // 2)
                ex = cf.ProcessPoolExecutor(jobs, mp_context=ctxmp)
            if time.time() > deadline and not pend:
                break
            if time.time() > deadline + 60 and not stop:
                # paths that are still in the solver are given up
                total['status']['out of time'] = total['status'].get('out of time', 0) + len(pend)
                stop = True
        for n in hs:
            left[n] = len(queue[n])
    finally:
        if not stop:
            ex.shutdown(wait=sys.exc_info()[0] is None)
        else:
            for f in pend:
                f.cancel()
            procs = list((getattr(ex, '_processes', None) or {}).values())
            ex.shutdown(wait=False, cancel_futures=True)
            for pr in procs:
                pr.terminate()
    wall = time.time() - t0
    incon = sum(v for k, v in total['status'].items() if k not in ('ok', 'infeasible', 'cex'))
    vac = [n for n in hs if not hreach[n] and not left[n]]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': total['paths'], 'transitions': total['decisions'],
            'traces_validated_against_impl': total['validated'],
            'samples': total['samples'] or [{'note': 'none'}],
            'solver_queries': total['queries'], 'solver_seconds': round(total['solver_s'], 2),
            'assertion_queries': total['assert_queries'], 'assertions_over_concrete_data': total['trivial'],
            'paths_by_status': total['status'], 'paths_by_harness': per,
            'functions_encoded': sorted(total['functions']),
            'assertion_labels_reached': sorted(total['reached']),
            'frontier_left': sum(left.values()), 'inconclusive_paths': incon,
            'exhaustive': sum(left.values()) == 0 and incon == 0 and confirmed is None,
            'inconclusive_notes': dict(list(total['notes'].items())[:20]),
            'engine_mismatches': total['mismatch'][:5],
            'bounds': getattr(mod, 'BOUNDS', ''), 'explanation': (mod.__doc__ or '').strip(),
        },
        'assumptions': ASSUMPTIONS + list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2), 'violations': 1 if confirmed else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{pid} {tier}: {total["paths"]} paths, {total["decisions"]} decisions, {total["queries"]} solver queries '
          f'({total["solver_s"]:.1f}s), {total["assert_queries"]} assertions, validated '
          f'{total["validated"]}, status {total["status"]}, frontier left {sum(left.values())}, {wall:.1f}s')
    if verbose:
        for n in hs:
            print('   ', n, per[n], statuses[n], 'left', left[n])
    for k, v in list(total['notes'].items())[:12]:
        print('  NOTE', v, 'x', k[:400])
        if verbose:
            print('       ', total.get('note_assign', {}).get(k))
    for m in total['mismatch'][:5]:
        print('  MISMATCH', m[:1500])
    for m in total['harness_errors'][:3]:
        print('  HARNESS-ERROR', m[:3000])
    for what in known_hit:
        print(f'KNOWN-FINDING: property={pid} {what}')
    if confirmed:
        c, path = confirmed
        print(f'  failing assertion: [{c["harness"]}] {c["label"]} -- {c["detail"][:600]}')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    if vac:
        print('  VACUOUS harnesses (no assertion reached):', vac)
    if total['status'].get('ok', 0) == 0:
        print('  no path was decided')
        return 0 if total['paths'] else 2
    return 0


ASSUMPTIONS = [
    'floating-point numbers are modelled as exact decimal rationals; rounding noise of IEEE doubles is outside the claim',
    'symbolic scalars lie on the decimal grids and ranges stated by each harness; sizes are forked over the stated ranges',
    'numpy, re, io, os, lxml and logging are replaced by models during symbolic execution; every path is re-run on the '
    'real package with solver-chosen inputs and compared',
]
