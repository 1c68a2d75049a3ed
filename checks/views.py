import random
from vlib import Check
from tour import tours


def run(prop, tier):
    c = Check(prop, tier)
    rng = random.Random(c.seed)
    c.model('ViewsMC', 'ViewsMC')
    edges = c.model('ViewsMC', 'ViewsGen')
    hs, left = tours(edges, dict(A=['g', 'y'], g=['h', 'x'], h=[]), maxlen=60, rng=rng)
    assert left == 0
    if not c.thorough:
        rng.shuffle(hs)
        hs = hs[:60]
    c.notes['model transitions'] = len(edges)
    c.notes['model transitions replayed'] = sum(map(len, hs))
    tr = c.drive('drive_views.py', c.shards(dict(
        seed=c.seed, paths=[dict(ops=h) for h in hs], random=1500 if c.thorough else 250, length=30)))
    c.sample_from(tr)
    c.validate('ViewsTrace', tr)
    c.assumptions = ['no layer has two parameters of the same name',
                     'the Python expression of a time is judged if it is less than a second']
    return c.done()
