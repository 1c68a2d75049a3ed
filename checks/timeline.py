import random
from vlib import Check
from tour import tours


def run(prop, tier):
    c = Check(prop, tier)
    rng = random.Random(c.seed)
    c.model('TimelineMC', 'TimelineMC')
    pre = [dict(op='mkval', val='o1', v='v1'), dict(op='mkval', val='o2', v='v2'),
           dict(op='mkwp', w='w1', k=dict(f='num', n=5000), val='o1', b='constant', a='linear'),
           dict(op='mkwp', w='w2', k=dict(f='txt', n=-2000, ref=False), val='o2', b='auto', a='halt'),
           dict(op='mkwp', w='w3', k=dict(f='T', n=5000, fps=''), val='o2', b='linear', a='clamped')]
    paths = []
    for cfg, x in [('TimelineGen', 'a'), ('TimelineGenD', 'c')]:
        edges = c.model('TimelineMC', cfg)
        hs, left = tours(edges, {x: dict(an=False, val='v0', wp=[])}, rng=rng)
        assert left == 0
        if not c.thorough:
            rng.shuffle(hs)
            keep, total = [], 0
            for h in hs:
                keep.append(h)
                total += len(h)
                if total > (6000 if x == 'a' else 3000):
                    break
            c.notes['model transitions replayed (%s)' % x] = f'{total} steps of {sum(map(len, hs))}'
            hs = keep
        else:
            c.notes['model transitions replayed (%s)' % x] = f'all {len(edges)}'
        paths += [dict(targets=[x], pre=pre, ops=h) for h in hs]
    tr = c.drive('drive_timeline.py', c.shards(dict(
        seed=c.seed, paths=paths,
        random=1200 if c.thorough else 200, length=100 if c.thorough else 50)))
    c.sample_from(tr)
    c.validate('TimelineTrace', tr)
    c.assumptions = ['values are projected onto tokens by an XML reading which does not use the library',
                     'instants are compared to a thousandth of a frame']
    return c.done()
