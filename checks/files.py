import random
from vlib import Check
from tour import tours


def run(prop, tier):
    c = Check(prop, tier)
    rng = random.Random(c.seed)
    c.model('FilesMC', 'FilesMC')
    job = dict(seed=c.seed, length=60, length2=10)
    if prop == 'C02':
        edges = c.model('FilesMC', 'FilesGen')
        init = dict(disk={'p.sif': dict(fmt='sif', c='d1')}, anim=dict(a=dict(c='blank', file='', fmt='blank')))
        hs, left = tours(edges, init, rng=rng)
        assert left == 0
        c.notes['model transitions replayed'] = f'all {len(edges)}'
        job.update(paths=[dict(ops=h) for h in hs], saves=1200 if c.thorough else 120, untouched=16)
    else:
        job.update(saves=16, untouched=8000 if c.thorough else 800, samples=True)
    tr = c.drive('drive_files.py', c.shards(job, share=('saves', 'untouched')))
    c.sample_from(tr)
    c.validate('FilesTrace', tr)
    c.assumptions = ['documents have no document type declaration',
                     'a disk that has accepted opening a regular file for writing does not fill up while it is written']
    return c.done()
