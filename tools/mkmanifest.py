#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from run import CHECKS
NOTES = json.load(open(os.path.join(here, 'tools', 'levels.json')))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        n = NOTES[i]
        checks.append(dict(
            property=i,
            quick_cmd=f'python3 run.py {i} quick',
            thorough_cmd=f'python3 run.py {i} thorough',
            evidence_file=f'evidence/{i}.json',
            technique=n['technique'],
            level='model_checking',
            level_note=n['note']))
    else:
        na.append(dict(property=i, reason='not yet claimed: its specification and driver are still being built'))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='TLA+ specifications in spec/, checked with TLC; drivers in checks/ run the code of /repo through its public interface. No hooks are needed in /repo. See DESIGN.md.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
