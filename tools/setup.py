#!/usr/bin/env python3
"""Nothing to build: checks that the toolchain is there and every specification parses."""
import glob
import os
import subprocess
import sys
import concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def sany(f):
    r = subprocess.run(['java', '-cp', CP, 'tla2sany.SANY', f], cwd=os.path.join(V, 'specs'), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    return f, r.returncode, r.stdout


files = sorted(glob.glob(os.path.join(V, 'specs', '*.tla')))
with cf.ThreadPoolExecutor(4) as ex:
    bad = [(f, out) for f, rc, out in ex.map(sany, files) if rc]
for f, out in bad:
    print(f, out[-2000:])
r = subprocess.run(['/opt/venv/bin/python', '-c', 'import numpy, traitlets, anytree'])
sys.exit(1 if bad or r.returncode else 0)
