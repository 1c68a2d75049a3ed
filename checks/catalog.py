import json, os, random, re
from vlib import Check, VERIF
from tour import tours


def run(prop, tier):
    c = Check(prop, tier)
    rng = random.Random(c.seed)
    c.model('CatalogMC', 'CatalogMC')
    emitted = c.model('CatalogMC', 'CatalogGen')
    cat = [e['catalog'] for e in emitted if 'catalog' in e][0]
    edges = [e for e in emitted if 'e' in e]
    hs, left = tours(edges, '<<>>', maxlen=40, rng=rng)
    assert left == 0
    known, texts = [], {}
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for line in f:
            m = re.match(r'known: property=C15 layer=(\S+) parameter=(\S+) (.*)', line)
            if m:
                known.append([m.group(1), m.group(2)])
                texts[m.group(1), m.group(2)] = line.split('property=C15 ', 1)[1].strip()
    with open(c.path('known.json'), 'w') as f:
        json.dump(known, f)
    tr = c.drive('drive_catalog.py', c.shards(dict(
        seed=c.seed, paths=[dict(ops=h) for h in hs], types=sorted(cat), catalog=cat, reps=10 if c.thorough else 2,
        random=1600 if c.thorough else 160, length=25), split=('paths', 'types')))
    c.sample_from(tr)
    out = c.validate('CatalogTrace', tr, env=dict(KNOWN=c.path('known.json')))
    seen = {(a, b) for a, b in re.findall(r'<<"KNOWN", "([^"]*)", "([^"]*)">>', out)}
    for (a, b), t in sorted(texts.items()):
        if (a, b) in seen or (b == '*' and any(x == a for x, _ in seen)):
            c.known_finding(t)
    c.notes['model transitions'] = len(edges)
    c.notes['model transitions replayed'] = sum(map(len, hs))
    c.notes['layer types'] = len(cat)
    c.assumptions = ['the reference sample is as it was when spec/CatalogData.tla was written',
                     'the type "scale", which the sample does not show, is not checked']
    return c.done()
