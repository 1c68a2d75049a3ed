from vlib import Check


def run(prop, tier):
    c = Check(prop, tier)
    c.model('ColorMC', 'ColorMC')
    tr = c.drive('drive_color.py', c.shards(dict(
        seed=c.seed, bytes=list(range(256)), random=6000 if c.thorough else 500, length=30), split=('bytes',)))
    c.sample_from(tr)
    c.validate('ColorTrace', tr)
    c.notes['exhaustive'] = 'every byte in every place of three- and four-component colours'
    c.assumptions = ['components between 0 and 1']
    return c.done()
