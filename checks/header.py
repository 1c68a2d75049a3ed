import random
from vlib import Check
from tour import tours


def run(prop, tier):
    c = Check(prop, tier)
    rng = random.Random(c.seed)
    c.model('HeaderMC', 'HeaderMC')
    edges = c.model('HeaderMC', 'HeaderGen')
    start = [e['p'] for e in edges if e['p']['fps'] == 0 and not (e['p']['begin'] or e['p']['end'] or e['p']['name'] or 'width' in e['p']['num'])][0]
    hs, left = tours(edges, start, maxlen=60, rng=rng)
    assert left == 0
    if not c.thorough:
        rng.shuffle(hs)
        hs = hs[:100]
    c.notes['model transitions'] = len(edges)
    c.notes['model transitions replayed'] = sum(map(len, hs))
    tr = c.drive('drive_header.py', c.shards(dict(
        seed=c.seed, paths=[dict(ops=h) for h in hs], random=6000 if c.thorough else 500, length=20)))
    c.sample_from(tr)
    c.validate('HeaderTrace', tr)
    c.assumptions = ['numbers in view boxes and backgrounds are separated by single spaces',
                     'frame rates have at most three decimals']
    return c.done()
