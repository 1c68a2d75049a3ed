import random
from vlib import Check
from tour import tours


def run(prop, tier):
    c = Check(prop, tier)
    rng = random.Random(c.seed)
    c.model('ValuesMC', 'ValuesMC')
    edges = c.model('ValuesMC', 'ValuesGen')
    st = dict(v='v0', anim=False)
    hs, left = tours(edges, dict(a=st, b=st), maxlen=60, rng=rng)
    assert left == 0
    c.notes['model transitions replayed'] = f'all {len(edges)}, for each of ten kinds of value'
    tr = c.drive('drive_values.py', c.shards(dict(
        seed=c.seed, paths=[dict(ops=h) for h in hs], random=4000 if c.thorough else 320, length=25,
        sweeps=6 if c.thorough else 1)))
    c.sample_from(tr)
    c.validate('ValuesTrace', tr)
    c.assumptions = ['numbers are less than two thousand million; angles are kept to six decimals']
    return c.done()
