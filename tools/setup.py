#!/usr/bin/env python3
"""Checks that the tools which the checks need are present, and that every specification parses."""
import glob, os, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in ('/opt/venv/bin/python', '/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar'):
    if not os.path.exists(p):
        sys.exit(f'missing: {p}')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
bad = 0
with tempfile.TemporaryDirectory() as d:
    for f in sorted(glob.glob(os.path.join(here, 'spec', '*.tla'))):
        r = subprocess.run(['java', f'-Djava.io.tmpdir={d}', '-cp', JARS, 'tla2sany.SANY', f],
                           cwd=os.path.dirname(f), capture_output=True, text=True)
        ok = r.returncode == 0 and 'error' not in r.stdout.lower().replace('no errors', '')
        print(('ok   ' if ok else 'BAD  ') + os.path.basename(f))
        if not ok:
            print(r.stdout[-2000:])
            bad += 1
os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
sys.exit(1 if bad else 0)
