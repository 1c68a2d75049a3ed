from vlib import Check


def run(prop, tier):
    c = Check(prop, tier)
    c.model('FrameMC', 'FrameMC')
    refused = c.model('FrameMC', 'FrameGen')
    c.notes['kinds of refused argument'] = len(refused)
    # more of the kinds which have many different calls
    pool = refused + [x for x in refused if x['arg'] == 'always']*4
    n = {'C03': 400, 'C04': 640, 'C06': 480}[prop] * (10 if c.thorough else 1)
    job = dict(seed=c.seed, random=n, length=30, refusals=6, refused=pool)
    if prop == 'C06':
        job.update(length=14, refusals=30)
    tr = c.drive('drive_frame.py', c.shards(job))
    c.sample_from(tr)
    c.validate('FrameTrace', tr)
    c.assumptions = ['the contents of a document are what its element tree contains, apart from white space between elements']
    return c.done()
