#!/usr/bin/env python3
"""Development helper: plants the bugs described in a spec file, one at a time, in a private copy of /repo mounted
over /repo in a private mount namespace, and confirms that each one builds, passes the stable tests, and is shown by its
demonstration; runs the checks named on the command line (default: the bug's own property) against it.
Keeps a confirmed one in /verif/seeded/<id>/.

usage: seed.py SPEC.py [--only ID,ID] [--checks C01,C02] [-j N]
A spec file defines BUGS = [dict(id, prop, edits=[(file, old, new)...], demo, needs, breaks)]."""
import argparse, json, os, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

W = '/tmp/seedwork'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ROOT = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def inside(repo, verif, cmd, timeout=900):
    """run cmd with repo over /repo and verif over /verif"""
    full = 'mount --bind %s /repo && mount --bind %s /verif && %s' % (repo, verif, cmd)
    try:
        r = sh(['unshare', '-Urm', 'bash', '-c', full], timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
    return r.returncode, r.stdout


def one(b, checks):
    d = '%s/%s' % (W, b['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/seeded')
    sh('cp -a /repo %s/repo && cp -a /verif %s/verif' % (d, d))
    repo, verif = d + '/repo', d + '/verif'
    out = {'id': b['id'], 'prop': b['prop']}
    with open(d + '/seeded/demo.py', 'w') as f:
        f.write(b['demo'].lstrip('\n'))
    with open(d + '/seeded/demo.sh', 'w') as f:
        f.write('#!/bin/bash\n# exit 0: the property holds here; anything else: it is broken\n'
                'here="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\n'
                'd=$(mktemp -d); trap \'rm -rf "$d"\' EXIT\n'
                'timeout 120 /opt/venv/bin/python -W ignore "$here/demo.py" "$d"\n')
    os.chmod(d + '/seeded/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(d + '/seeded/meta.json', 'w'), indent=1)
    demo = 'cd /repo && bash %s/seeded/demo.sh' % d
    rc, o = inside(repo, verif, demo)
    if rc:
        out['bad'] = 'demo fails on the unchanged tree: ' + o[-400:]
        return finish(out, d, b)
    for f, old, new in b['edits']:
        p = repo + '/' + f
        s = open(p, newline="").read()
        if s.count(old) != 1:
            out['bad'] = '%s: old text occurs %d times: %r' % (f, s.count(old), old[:60])
            return finish(out, d, b)
        open(p, "w", newline="").write(s.replace(old, new))
    sh('git -C %s diff > %s/seeded/patch.diff' % (repo, d))
    # at least one changed line must be of the original repository
    orig = 0
    for f in {e[0] for e in b['edits']}:
        bl = sh('git -C /repo blame -l -s --abbrev=40 %s' % f).stdout.split('\n')
        cur = None
        for l in sh('git -C %s diff -U0 -- %s' % (repo, f)).stdout.split('\n'):
            if l.startswith('@@'):
                cur = int(l.split()[1].split(',')[0][1:])
            elif l.startswith('-') and not l.startswith('---'):
                if bl[cur - 1].lstrip('^').startswith(ROOT[:38]):
                    orig += 1
                else:
                    out.setdefault('mine', []).append(l)
                cur += 1
    out['orig_lines'] = orig
    rc, o = inside(repo, verif, 'bash /opt/vp/build.sh')
    if rc:
        out['bad'] = 'build: ' + o[-400:]
        return finish(out, d, b)
    rc, o = inside(repo, verif, 'bash /opt/vp/test.sh %s/t.json' % d)
    try:
        t = json.load(open(d + '/t.json'))
        passed = set(t.get('passed', []))
    except Exception as e:
        out['bad'] = 'tests: %r' % e
        return finish(out, d, b)
    lost = STABLE - passed
    if lost:
        out['bad'] = 'tests lost: %s' % sorted(lost)[:4]
        return finish(out, d, b)
    rc, o = inside(repo, verif, demo)
    out['demo_says'] = o[-200:].strip()
    if rc == 0:
        out['bad'] = 'demo passes with the patch'
        return finish(out, d, b)
    out['caught'] = {}
    for c in checks or [b['prop']]:
        rc, o = inside(repo, verif, 'cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 rv/run.py %s' % c)
        out['caught'][c] = rc
        if rc == 1:
            out.setdefault('says', {})[c] = o.split('\n')[0][:160]
        elif rc:
            out.setdefault('says', {})[c] = o[-300:]
    t = '/verif/seeded/' + b['id']
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d + '/seeded', t)
    return finish(out, d, b)


def finish(out, d, b):
    shutil.rmtree(d, ignore_errors=True)
    if 'bad' in out:
        print('%-28s INVALID %s' % (out['id'], out['bad']), flush=True)
    else:
        print('%-28s %-4s %s orig=%d%s | %s' % (out['id'], out['prop'], ' '.join('%s:%s' % (k, {1: 'CAUGHT', 0: 'missed'}.get(v, 'rc%d' % v))
              for k, v in out['caught'].items()), out['orig_lines'], ' MINE' if out.get('mine') else '', list(out.get('says', {}).values())[:1]), flush=True)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('spec', nargs='+')
    ap.add_argument('--only', default='')
    ap.add_argument('--checks', default='')
    ap.add_argument('-j', type=int, default=3)
    a = ap.parse_args()
    bugs = [b for s in a.spec for b in runpy.run_path(s)['BUGS']]
    if a.only:
        bugs = [b for b in bugs if b['id'] in a.only.split(',')]
    checks = [c for c in a.checks.split(',') if c]
    with ThreadPoolExecutor(a.j) as ex:
        res = list(ex.map(lambda b: one(b, checks), bugs))
    p = '/tmp/w/seedres.json'
    old = json.load(open(p)) if os.path.exists(p) else {}
    old.update({r['id']: r for r in res})
    json.dump(old, open(p, 'w'), indent=1)


if __name__ == "__main__":
    main()
