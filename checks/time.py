import random
from vlib import Check


def run(prop, tier):
    c = Check(prop, tier)
    job = dict(seed=c.seed, prop=prop, specs=[], random=1600 if c.thorough else 160)
    c.model('TimeMC', 'TimeMC')
    if prop == 'C12':
        specs = c.model('TimeMC', 'TimeGen')
        specs.sort(key=str)
        random.Random(c.seed).shuffle(specs)
        job['specs'] = specs
        job['random'] = 2400 if c.thorough else 240
    if prop == 'C13':
        job['pairs'] = 10**6 if c.thorough else 500
    if prop == 'C14':
        job['edge'] = 1.0 if c.thorough else 0.6
    tr = c.drive('drive_time.py', c.shards(job, split=('specs',)))
    c.sample_from(tr)
    c.validate('TimeTrace', tr)
    c.assumptions = ['times are compared to two millionths of a frame',
                     'mixed signs inside one specification are not specified']
    return c.done()
