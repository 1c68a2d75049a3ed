import random
from vlib import Check
from tour import tours


def run(prop, tier):
    c = Check(prop, tier)
    rng = random.Random(c.seed)
    c.model('GradientMC', 'GradientMC')
    edges = c.model('GradientMC', 'GradientGen')
    st = [[0, 'c1'], [1000000, 'c2']]
    hs, left = tours(edges, dict(a=st, b=st), maxlen=60, rng=rng)
    assert left == 0
    if not c.thorough:
        rng.shuffle(hs)
        hs = hs[:160]
    c.notes['model transitions'] = len(edges)
    c.notes['model transitions replayed'] = sum(map(len, hs))
    tr = c.drive('drive_gradient.py', c.shards(dict(
        seed=c.seed, paths=[dict(ops=h) for h in hs], random=4000 if c.thorough else 400, length=30)))
    c.sample_from(tr)
    c.validate('GradientTrace', tr)
    c.assumptions = ['positions have at most six significant digits, which is what the library stores']
    return c.done()
