import random
from vlib import Check


def run(prop, tier):
    c = Check(prop, tier)
    rng = random.Random(c.seed)
    c.model('SearchMC', 'SearchMC')
    docs = c.model('SearchMC', 'SearchGen')
    docs.sort(key=str)
    if not c.thorough:
        rng.shuffle(docs)
        docs = docs[:400]
    c.notes['model documents replayed'] = len(docs)
    tr = c.drive('drive_search.py', c.shards(dict(
        seed=c.seed, docs=docs, random=2400 if c.thorough else 240, queries=40), split=('docs',)))
    c.sample_from(tr)
    c.validate('SearchTrace', tr)
    c.assumptions = ['values used as criteria are either equal or far apart (equality of values themselves is C05, C20 and C21)']
    return c.done()
