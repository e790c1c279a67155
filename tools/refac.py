#!/usr/bin/env python3
"""Development helper: applies behaviour-preserving edits, one set at a time, to a private copy of /repo mounted over /repo,
and runs the stable tests and all checks: every check has to stay quiet.

usage: refac.py SPEC.py [--only ID,ID] [--checks C01,..]     SPEC defines REFACS = [dict(id, edits=[(file, old, new)])]"""
import argparse, json, os, runpy, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import STABLE, inside, sh

W = '/tmp/refacwork'
ap = argparse.ArgumentParser()
ap.add_argument('spec')
ap.add_argument('--only', default='')
ap.add_argument('--checks', default='')
a = ap.parse_args()
todo = [r for r in runpy.run_path(a.spec)['REFACS'] if not a.only or r['id'] in a.only.split(',')]
checks = a.checks.split(',') if a.checks else ['C%02d' % i for i in range(1, 37)]
for r in todo:
    d = W + '/' + r['id']
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh('cp -a /repo %s/repo && cp -a /verif %s/verif' % (d, d))
    ok = True
    for f, old, new in r['edits']:
        p = '%s/repo/%s' % (d, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(r['id'], 'old text occurs', s.count(old), 'times in', f, repr(old[:70]))
            ok = False
            break
        open(p, 'w').write(s.replace(old, new))
    if ok:
        rc, o = inside(d + '/repo', d + '/verif', 'cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh %s/t.json > /dev/null 2>&1' % d)
        t = json.load(open(d + '/t.json'))
        passed = set(t.get('passed', t.get('pass', [])))
        if STABLE - passed:
            print(r['id'], 'breaks tests', sorted(STABLE - passed)[:3])
        for c in checks:
            rc, o = inside(d + '/repo', d + '/verif', 'cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 rv/run.py ' + c)
            if rc:
                print(r['id'], c, 'rc', rc, o[-1500:], flush=True)
        print(r['id'], 'done', flush=True)
    shutil.rmtree(d, ignore_errors=True)
