#!/usr/bin/env python3
"""Runner: python rv/run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]

Drives the workload of one property on the code in /repo, in parallel worker processes, and judges
every observed execution. Exit 0: held on everything observed. 1: VIOLATION. 2: inconclusive."""
import argparse
import glob
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'
WORKERS = 8
CAP = {'quick': 780, 'thorough': 3 * 3600}     # wall clock watchdog: firing is inconclusive
SOFT = {'quick': 240, 'thorough': 2 * 3600}    # stop starting new cases after this
EVENT_FLOOR = 20


def hashseed(seed, prop, w):
    return (seed * 7919 + int(prop[1:]) * 104729 + w * 15485863 + 1) % (2 ** 32 - 1)


# ---------------------------------------------------------------- worker
def load_fca():
    sys.path.insert(0, HERE)
    sys.path.insert(1, '/repo')
    import warnings
    warnings.simplefilter('ignore')
    import fca
    assert os.path.realpath(fca.__file__) == '/repo/fca/__init__.py', fca.__file__
    return fca


def plain(x, depth=0):
    """a JSON-able picture of a value"""
    if x is None or isinstance(x, (bool, int, float)) or isinstance(x, str) and len(x) < 600:
        return x
    if isinstance(x, dict) and depth < 6:
        return {(k if isinstance(k, str) else repr(k)): plain(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)) and depth < 6 and len(x) < 400:
        return [plain(v, depth + 1) for v in x]
    s = repr(x)
    return s if len(s) < 600 else s[:600] + '...'


def run_case(mod, core, prop, seed, tier, i, tmp):
    obs = core.Obs(tier, tmp)
    rng = random.Random('%d:%s:%d' % (seed, prop, i))
    random.seed('%d:%s:%d:global' % (seed, prop, i))
    core.STEPS.reset(getattr(mod, 'STEPS', core.DEFAULT_STEPS))
    err = None
    try:
        mod.case(rng, obs, i)
    except core.Violation as v:
        err = v
    except core.StepBudget:
        err = core.Violation('no answer within %d loop steps' % core.STEPS.budget)
    except MemoryError:
        raise
    except OSError as e:
        if e.errno in (12, 24, 28):
            raise
        err = core.Violation('observed behaviour could not be interpreted: %r' % e,
                             traceback=traceback.format_exc(limit=-6))
    except RecursionError as e:
        err = core.Violation('unbounded recursion', traceback=traceback.format_exc(limit=-6))
    except Exception as e:
        err = core.Violation('observed behaviour could not be interpreted: %s: %s'
                             % (type(e).__name__, str(e)[:300]), traceback=traceback.format_exc(limit=-6))
    core.STEPS.close_case()
    return obs, err


def worker(prop, tier, seed, w, n, tmp, out):
    real = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    sys.stdout = open(os.devnull, 'w')
    fca = load_fca()
    import core
    mod = importlib.import_module('props.' + prop.lower())
    core.STEPS.install()
    t0 = time.time()
    res = {'w': w, 'done': 0, 'checks': 0, 'apis': {}, 'tags': {}, 'events': 0, 'samples': [],
           'states': [], 'max_steps': 0, 'max_share': 0, 'lines': [], 'known': {}, 'violation': None, 'stopped': None}
    states = set()
    known = {f['mechanism']: f for f in known_findings()['findings'] if f['property'] == prop}
    slow = (0, -1)
    for i in range(w, n, WORKERS):
        if time.time() - t0 > SOFT[tier]:
            res['stopped'] = i
            break
        c0 = time.time()
        obs, err = run_case(mod, core, prop, seed, tier, i, tmp)
        slow = max(slow, (round(time.time() - c0, 2), i))
        res['done'] += 1
        res['checks'] += obs.checks
        res['events'] += len(obs.log) + obs.dropped
        for k, v in obs.apis.items():
            res['apis'][k] = res['apis'].get(k, 0) + v
        for k, v in obs.tags.items():
            res['tags'][k] = res['tags'].get(k, 0) + v
        states |= obs.states
        if obs.sample is not None and len(res['samples']) < 2 and i >= n // 3:
            res['samples'].append({'case': i, 'input': plain(obs.sample), 'first_events': obs.log[:6]})
        if err is not None:
            if err.mechanism in known:
                res['known'][err.mechanism] = res['known'].get(err.mechanism, 0) + 1
                continue
            res['violation'] = {'property': prop, 'tier': tier, 'seed': seed, 'case': i,
                                'hashseed': os.environ.get('PYTHONHASHSEED'), 'what': err.what,
                                'mechanism': err.mechanism, 'witness': err.witness,
                                'input': plain(obs.sample), 'events': obs.log[-120:]}
            break
    res['states'] = sorted(states)
    res['max_steps'] = core.STEPS.max_seen
    res['max_share'] = core.STEPS.max_share
    res['lines'] = sorted('%s:%d' % x for x in core.STEPS.lines)
    res['slowest'] = slow
    with open(out + '.part', 'w') as f:
        json.dump(res, f, default=repr)
    os.rename(out + '.part', out)
    os._exit(0)


# ---------------------------------------------------------------- parent
def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        return json.load(open(p))
    return {'findings': [], 'fixed': []}


def env_for(tmp, hs):
    e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    e.update(PYTHONHASHSEED=str(hs), PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=os.path.join(tmp, 'pyc'),
             PYTHONNOUSERSITE='1', PYTHONUTF8='0', LC_ALL='C.UTF-8', HOME=tmp, TMPDIR=tmp,
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    return e


def inconclusive(msg):
    print('INCONCLUSIVE: ' + msg)
    return 2


def replay(path):
    v = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix='rv-replay-')
    try:
        code = ("import sys; sys.argv[0]=%r; sys.path.insert(0,%r); import run; run.replay_in_process(%r,%r)"
                % (os.path.join(HERE, 'run.py'), HERE, path, tmp))
        return subprocess.call([PY, '-W', 'ignore', '-c', code], env=env_for(tmp, v['hashseed']), cwd=tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay_in_process(path, tmp):
    v = json.load(open(path))
    load_fca()
    import core
    mod = importlib.import_module('props.' + v['property'].lower())
    core.STEPS.install()
    obs, err = run_case(mod, core, v['property'], v['seed'], v['tier'], v['case'], tmp)
    print('input:', json.dumps(plain(obs.sample))[:3000])
    for e in obs.log[-40:]:
        print('  ', e)
    if err is None:
        print('replay: property=%s held on case %d' % (v['property'], v['case']))
        sys.exit(0)
    print('what:', err.what)
    for k, x in err.witness.items():
        print('  %s: %s' % (k, x))
    print('VIOLATION property=%s replay=%s' % (v['property'], path))
    sys.exit(1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--worker', nargs=4)       # w n tmp out
    a = ap.parse_args()
    if a.worker:
        return worker(a.prop, a.tier, a.seed, int(a.worker[0]), int(a.worker[1]), a.worker[2], a.worker[3])
    if a.replay:
        return replay(os.path.abspath(a.replay))
    t0 = time.time()
    sys.path.insert(0, HERE)
    meta = case_table()[a.prop]
    n = a.cases or meta['cases'][a.tier]
    tmp = tempfile.mkdtemp(prefix='rv-%s-' % a.prop)
    procs, outs = [], []
    try:
        for w in range(WORKERS):
            wt = os.path.join(tmp, 'w%d' % w)
            os.mkdir(wt)
            out = os.path.join(tmp, 'out%d.json' % w)
            outs.append(out)
            procs.append(subprocess.Popen(
                [PY, '-W', 'ignore', os.path.join(HERE, 'run.py'), a.prop, '--tier', a.tier, '--seed', str(a.seed),
                 '--worker', str(w), str(n), wt, out],
                env=env_for(wt, hashseed(a.seed, a.prop, w)), cwd=wt, stdout=subprocess.DEVNULL,
                stderr=open(os.path.join(tmp, 'err%d' % w), 'w')))
        results, failed, early = {}, {}, False
        while len(results) + len(failed) < WORKERS:
            time.sleep(0.05)
            for w, p in enumerate(procs):
                if w in results or w in failed or p.poll() is None:
                    continue
                if os.path.exists(outs[w]):
                    results[w] = json.load(open(outs[w]))
                    if results[w]['violation']:
                        early = True
                else:
                    failed[w] = open(os.path.join(tmp, 'err%d' % w)).read()[-1500:]
            if early or time.time() - t0 > CAP[a.tier]:
                break
        for p in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
        return finish(a, meta, n, results, failed, early, time.time() - t0)
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)


def case_table():
    """RULE and CASES of every property module, read without importing fca"""
    import ast
    out = {}
    for f in glob.glob(os.path.join(HERE, 'props', 'c*.py')):
        tree = ast.parse(open(f).read())
        d = {'cases': {'quick': 1000, 'thorough': 10000}, 'rule': ''}
        for n in tree.body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                if n.targets[0].id == 'CASES':
                    d['cases'] = ast.literal_eval(n.value)
                if n.targets[0].id == 'RULE':
                    d['rule'] = ast.literal_eval(n.value)
        out[os.path.basename(f)[:-3].upper()] = d
    return out


def add(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v


def finish(a, meta, n, results, failed, early, wall):
    apis, tags, known, states, lines = {}, {}, {}, set(), set()
    for r in results.values():
        add(apis, r['apis'])
        add(tags, r['tags'])
        add(known, r['known'])
        states.update(r['states'])
        lines.update(r['lines'])
    if os.environ.get('RV_LINES'):                # development: which lines this check reaches
        json.dump(sorted(lines), open(os.environ['RV_LINES'], 'w'))
    done = sum(r['done'] for r in results.values())
    per_file = {}
    for x in lines:
        f = x.rsplit(':', 1)[0]
        per_file[f] = per_file.get(f, 0) + 1
    viol = [r['violation'] for r in results.values() if r['violation']]
    samples = [s for r in sorted(results.values(), key=lambda r: r['w']) for s in r['samples']][:4]
    checks = sum(r['checks'] for r in results.values())
    ev = {
        'property': a.prop, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': done, 'distinct_nontrivial': len(states), 'rule': meta['rule'],
            'samples': samples, 'monitored_calls_by_api': apis, 'monitor_verdicts': checks,
            'events_recorded': sum(r['events'] for r in results.values()),
            'situations_observed': tags, 'fca_lines_reached': per_file,
            'loop_steps_max_share_of_allowance': round(max([r['max_share'] for r in results.values()] or [0]), 4),
            'loop_steps_max_in_one_case': max([r['max_steps'] for r in results.values()] or [0]),
            'hash_seeds': [hashseed(a.seed, a.prop, w) for w in range(WORKERS)],
            'slowest_case_s': max([r.get('slowest') or [0, None] for r in results.values()] or [0]),
            'stopped_early': sum(1 for r in results.values() if r['stopped'] is not None),
            'known_findings_seen': known,
        },
        'assumptions': ['verdicts cover the executions observed, not those never driven',
                        'the reference model in rv/model.py states the mathematics correctly'],
        'wall_s': round(wall, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', a.prop + '.json')
    with open(p + '.part', 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    os.rename(p + '.part', p)
    kf = {f['mechanism']: f for f in known_findings()['findings'] if f['property'] == a.prop}
    for m, c in sorted(known.items()):
        print('KNOWN-FINDING: property=%s %s (seen %d times)' % (a.prop, kf[m]['what'], c))
    if viol:
        v = min(viol, key=lambda v: v['case'])
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        rp = os.path.join(VERIF, 'replays', '%s-%s-s%d-%d.json' % (a.prop, a.tier, a.seed, v['case']))
        with open(rp, 'w') as f:
            json.dump(v, f, indent=1, default=repr)
        print('%s: %s' % (a.prop, v['what']))
        for k, x in (v['witness'] or {}).items():
            print('   %s: %s' % (k, str(x)[:1200]))
        print('   input: %s' % json.dumps(v['input'], default=repr)[:1500])
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
        return 1
    print('%s %s seed=%d: %d cases, %d verdicts, %d distinct non-trivial, %d api calls, %.1fs'
          % (a.prop, a.tier, a.seed, done, checks, len(states), sum(apis.values()), wall))
    if failed:
        w, e = sorted(failed.items())[0]
        return inconclusive('worker %d ended without a result: %s' % (w, e.strip()[-800:]))
    if len(results) < WORKERS:
        return inconclusive('watchdog after %d s, %d of %d workers done' % (wall, len(results), WORKERS))
    if sum(apis.values()) < EVENT_FLOOR or checks < EVENT_FLOOR or not states:
        return inconclusive('the monitor observed too little (%d calls, %d verdicts, %d states)'
                            % (sum(apis.values()), checks, len(states)))
    return 0


if __name__ == '__main__':
    sys.exit(main())
