#!/usr/bin/env python3
"""
Writes spec/CatalogData.tla from the reference sample, which Synfig wrote
and which holds one layer of each type: run once, by hand, in order to
freeze what a layer of each type should have.
usage: /opt/venv/bin/python tools/mkcatalog.py /repo/test/pick-and-mix.sif > spec/CatalogData.tla
"""
import os, sys, json
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(here, 'lib'), '/repo']
import bs4
from drv import canon, kids

KINDS = {'real', 'integer', 'bool', 'angle', 'time', 'color', 'vector', 'string', 'gradient', 'composite', 'canvas'}
TODO = {('switch', 'canvas')}
soup = bs4.BeautifulSoup(open(sys.argv[1], 'rb').read(), features='xml')
types = {}


def q(s):
    return json.dumps(s)


def entry(t):
    params, todo = [], []
    for p in kids(t):
        if p.name != 'param':
            continue
        n = p['name']
        if not kids(p):
            sys.stderr.write(f'{t["type"]} {n}: no value\n')
            todo.append(n)
            continue
        v = kids(p)[0]
        base = n.split('[')[0]
        if v.name not in KINDS or (t['type'], n) in TODO:
            todo.append(n)
        else:
            d = 'canvas 0' if v.name == 'canvas' else v.name + ' ' + canon(v, 24)
            params.append((n, base, v.name, d))
    return dict(type=t['type'], version=t['version'], active=t['active'], exclude=t['exclude_from_rendering'], params=params, todo=todo)


for t in soup.find_all('layer'):
    e = entry(t)
    n = t['type'].lower().replace('_', '')
    types.setdefault(n, []).append(e)

out = ['---- MODULE CatalogData ----',
       '(***************************************************************************)',
       '(* What the reference sample (test/pick-and-mix.sif) shows Synfig giving   *)',
       '(* each type of layer.  Frozen: written by tools/mkcatalog.py.             *)',
       '(*   cls: the name of the class; type, version: attributes of the element; *)',
       '(*   key: the type, in lower case and without underscores, by characters;  *)',
       '(*   params: [name, base (without index), kind, def: kind and default];    *)',
       '(*   todo: parameters of kinds which are not implemented yet.              *)',
       '(***************************************************************************)',
       'Catalog == [']
rows = []
for n in sorted(types):
    e = types[n][0]
    for o in types[n][1:]:
        if o != e:
            sys.stderr.write(f'{n}: the sample has two which differ: {[p for p in o["params"] if p not in e["params"]]}\n')
    cls = '_'.join(w.capitalize() for w in e['type'].split('_'))
    ps = ',\n      '.join('[name |-> %s, base |-> %s, kind |-> %s, def |-> %s]' % tuple(map(q, p)) for p in e['params'])
    rows.append('%s |-> [cls |-> %s, type |-> %s, version |-> %s,\n   key |-> <<%s>>,\n   params |-> <<%s>>,\n   todo |-> {%s}]' % (
        'T_' + n, q(cls), q(e['type']), q(e['version']), ', '.join(q(ch) for ch in n), ps, ', '.join(map(q, e['todo']))))
out.append(',\n'.join(rows))
out += [']', '====']
print('\n'.join(out))
