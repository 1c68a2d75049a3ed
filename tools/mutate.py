#!/usr/bin/env python3
"""
Development aid: tries changes to the code against the checks.
usage: mutate.py MUTANTS.py [name...]
MUTANTS.py defines M = [(name, [properties], file, old, new), ...]
Works on a copy of /repo under /tmp.
"""
import os, subprocess, sys, shutil, runpy
ms = runpy.run_path(sys.argv[1])['M']
want = set(sys.argv[2:])
COPY = '/tmp/mutate-repo-%d' % os.getpid()
for name, props, file, old, new in ms:
    if want and name not in want:
        continue
    shutil.rmtree(COPY, ignore_errors=True)
    shutil.copytree(os.environ.get('BASE', '/repo'), COPY, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    p = os.path.join(COPY, file)
    s = open(p, encoding='utf-8').read()
    if s.count(old) < 1:
        print(name, 'DOES NOT APPLY', s.count(old)); continue
    open(p, 'w', encoding='utf-8').write(s.replace(old, new, 1))
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=COPY)
    t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'test'],
                       cwd=COPY, env=e, capture_output=True, text=True)
    tests = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
    e = dict(os.environ, VERIF_REPO=COPY)
    for prop in props:
        r = subprocess.run(['python3', '/verif/run.py', prop], cwd='/verif', env=e, capture_output=True, text=True)
        cl = [l for l in r.stdout.splitlines() if l.startswith('clause')]
        print('%-28s %s rc=%d %s | tests: %s' % (name, prop, r.returncode, (cl or [r.stderr[-300:]])[0][:150], tests), flush=True)
shutil.rmtree(COPY, ignore_errors=True)
