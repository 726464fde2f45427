#!/usr/bin/env python3
"""plant.py make NAME...   writes seeded/<NAME>/ from tools/bugs.py and confirms it in a scratch copy of /repo
   plant.py run NAME...    runs the property's check against the planted bug in a scratch copy"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = {}


def bug(name, prop, edits, demo, needs, breaks, stubs=False):
    BUGS[name] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, stubs=stubs)


exec(open(os.path.join(V, 'tools', 'bugs.py')).read())

DEMO_SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="%s$PWD"
exec timeout 250 /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def copy():
    d = tempfile.mkdtemp(prefix='plant_', dir='/tmp')
    sh('git clone -q /repo %s/repo' % d)
    return d


def make(name):
    b = BUGS[name]
    d = copy()
    repo = d + '/repo'
    out = os.path.join(V, 'seeded', name)
    try:
        for f, old, new in b['edits']:
            p = os.path.join(repo, f)
            s = open(p).read()
            assert s.count(old) == 1, (name, f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        patch = sh('git diff', cwd=repo).stdout
        # only lines of the original tree may change
        base = sh('git rev-list --max-parents=0 HEAD', cwd=repo).stdout.split()[-1]
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(patch)
        open(out + '/demo.py', 'w').write(b['demo'])
        open(out + '/demo.sh', 'w').write(DEMO_SH % ('$D/stubs:' if b['stubs'] else ''))
        os.chmod(out + '/demo.sh', 0o755)
        shutil.rmtree(out + '/stubs', ignore_errors=True)
        if b['stubs']:
            shutil.copytree(os.path.join(V, 'stubs'), out + '/stubs', ignore=shutil.ignore_patterns('__pycache__'))
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        bad = sh('bash %s/demo.sh' % out, cwd=repo)
        sh('sed "s#/repo#%s#g" /opt/vp/build.sh > %s/build.sh; sed "s#/repo#%s#g" /opt/vp/test.sh > %s/test.sh' % (repo, d, repo, d))
        bld = sh('bash %s/build.sh' % d)
        tst = sh('bash %s/test.sh %s/out.json' % (d, d))
        stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
        res = json.load(open(d + '/out.json'))
        sh('git checkout -q -- .', cwd=repo)
        good = sh('bash %s/demo.sh' % out, cwd=repo)
        ok = bad.returncode != 0 and good.returncode == 0 and bld.returncode == 0 and '22 passed, 0 failed' in tst.stdout
        print('%-28s %s  demo clean rc=%s, patched rc=%s, build rc=%s, tests: %s' % (
            name, 'OK ' if ok else 'BAD', good.returncode, bad.returncode, bld.returncode, tst.stdout.strip().splitlines()[-1:]))
        if good.returncode:
            print(good.stdout[-1500:])
        return ok
    finally:
        shutil.rmtree(d)


def run(name):
    b = BUGS[name]
    d = copy()
    try:
        r = sh('git apply %s/seeded/%s/patch.diff' % (V, name), cwd=d + '/repo')
        assert r.returncode == 0, r.stdout
        env = dict(os.environ, VERIF_REPO=d + '/repo')
        r = sh('python3 %s/check.py %s' % (V, b['prop']), env=env)
        lines = [ln for ln in r.stdout.splitlines() if ln.startswith('  clause') or 'MACHIN' in ln]
        print('%-28s %s rc=%s %s' % (name, b['prop'], r.returncode, 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + b['prop'] in r.stdout else 'MISSED'))
        for ln in lines[:4]:
            print('      ' + ln[:200])
        return r.returncode == 1
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    names = sys.argv[2:] or list(BUGS)
    if names == ['all']:
        names = list(BUGS)
    bad = [n for n in names if not {'make': make, 'run': run}[sys.argv[1]](n)]
    print('not ok:', bad)
