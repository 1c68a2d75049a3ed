import random
from vlib import Check
from tour import tours


def run(prop, tier):
    c = Check(prop, tier)
    rng = random.Random(c.seed)
    c.model('EqualityMC', 'EqualityMC')
    edges = c.model('EqualityMC', 'EqualityGen')
    st = dict(anim=False, v='v1', tl=[])
    hs, left = tours(edges, dict(a=st, b=st), maxlen=80, rng=rng)
    assert left == 0
    c.notes['model transitions replayed'] = f'all {len(edges)}, for ' + ('each' if c.thorough else 'four') + ' of nine kinds of value'
    tr = c.drive('drive_equality.py', c.shards(dict(
        seed=c.seed, paths=[dict(ops=h) for h in hs], random=4000 if c.thorough else 320, length=25, all=c.thorough)))
    c.sample_from(tr)
    c.validate('EqualityTrace', tr)
    c.assumptions = ['numbers which are equal only after rounding, or which differ by less than a thousandth, are not compared; '
                     'nor are values of different kinds']
    return c.done()
