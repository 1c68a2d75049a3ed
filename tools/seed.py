#!/usr/bin/env python3
"""
Makes /verif/seeded/<name>/ from a definition file, after confirming in a
scratch copy that the change applies, touches original lines, passes the
stable tests, and that the demonstration tells the two trees apart.
usage: seed.py DEFS.py [name...]
DEFS.py: S = [dict(name, property, needs, breaks, edits=[(file, old, new)], demo=python source)]
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
S = runpy.run_path(sys.argv[1])['S']
want = set(sys.argv[2:])
BASE = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()
stable = json.load(open('/opt/vp/BASELINE.json'))


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True)


for s in S:
    if want and s['name'] not in want:
        continue
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        repo = d + '/repo'
        sh(['git', 'clone', '-q', '/repo', repo], d)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=repo, PYTHONPYCACHEPREFIX=d+'/pyc')
        demo = d + '/demo.py'
        open(demo, 'w').write(s['demo'])
        r0 = sh(['/opt/venv/bin/python', demo], repo, env)
        for f, old, new in s['edits']:
            p = os.path.join(repo, f)
            t = open(p, encoding='utf-8').read()
            assert t.count(old) == 1, (s['name'], f, t.count(old))
            open(p, 'w', encoding='utf-8').write(t.replace(old, new))
        diff = sh(['git', 'diff'], repo).stdout
        base = sh(['git', 'show', f'{BASE}:{s["edits"][0][0]}'], repo).stdout.splitlines()
        gone = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        orig = [l for l in gone if l.strip() and l in base]
        env['PYTHONPYCACHEPREFIX'] = d+'/pyc2'
        r1 = sh(['/opt/venv/bin/python', demo], repo, env)
        t = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'test'], repo, env)
        last = t.stdout.strip().splitlines()[-1]
        ok = r0.returncode == 0 and r1.returncode != 0 and ' failed' not in last and 'passed' in last
        print('%-26s demo %d/%d tests: %s; original lines removed: %d of %d%s' % (
            s['name'], r0.returncode, r1.returncode, last, len(orig), len(gone), '' if ok else '   *** REJECTED'))
        if r0.returncode:
            print(r0.stderr[-600:])
        if not ok:
            continue
        o = f'/verif/seeded/{s["name"]}'
        if not orig:
            # wouldn't count; kept elsewhere, to be tried all the same
            o = f'/tmp/w/nq/{s["name"]}'
            shutil.rmtree(f'/verif/seeded/{s["name"]}', ignore_errors=True)
        os.makedirs(o, exist_ok=True)
        open(o+'/patch.diff', 'w').write(diff)
        open(o+'/demo.py', 'w').write(s['demo'])
        open(o+'/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo; exit 0: the property holds here\n'
            'here=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
            'export PYTHONPYCACHEPREFIX=$(mktemp -d)\n/opt/venv/bin/python "$here/demo.py"\nrc=$?\nrm -rf "$PYTHONPYCACHEPREFIX"\nexit $rc\n')
        os.chmod(o+'/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(o+'/meta.json', 'w'), indent=1)
    finally:
        shutil.rmtree(d, ignore_errors=True)
