import random
from vlib import Check


def run(prop, tier):
    c = Check(prop, tier)
    rng = random.Random(c.seed)
    cases = c.model('BywordsMC', 'BywordsMC')
    cases.sort(key=repr)
    c.notes['model cases replayed'] = len(cases)
    tr = c.drive('drive_bywords.py', c.shards(dict(
        seed=c.seed, cases=cases, random=3000 if c.thorough else 280, length=6), split=('cases',)))
    c.sample_from(tr)
    c.validate('BywordsTrace', tr)
    c.assumptions = ['no two bywords groups have the same words, and none is inside another',
                     'the lines which match one group do not overlap in time',
                     'lines shorter than 200 characters, within ten hours, from 12 to 60 frames per second']
    return c.done()
