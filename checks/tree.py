import random
from vlib import Check
from tour import tours


def run(prop, tier):
    c = Check(prop, tier)
    rng = random.Random(c.seed)
    c.model('TreeMC', 'TreeMC')
    edges = c.model('TreeMC', 'TreeGen')
    hs, left = tours(edges, dict(A=[], g=[], h=[]), rng=rng)
    assert left == 0
    c.notes['model transitions replayed'] = f'all {len(edges)}'
    paths = [dict(ops=h) for h in hs]
    tr = c.drive('drive_tree.py', c.shards(dict(
        seed=c.seed, paths=paths, random=1600 if c.thorough else 160, length=80 if c.thorough else 50)))
    c.sample_from(tr)
    c.validate('TreeTrace', tr)
    c.assumptions = ['layers are identified by their descriptions, which the histories do not change']
    return c.done()
