import random
from vlib import Check


def run(prop, tier):
    c = Check(prop, tier)
    cases = c.model('ReplacerMC', 'ReplacerMC')
    c.model('ReplacerCrash', 'ReplacerCrash')
    c.model('ReplacerCrash', 'ReplacerCrashG')
    cases.sort(key=repr)
    c.notes['model cases replayed'] = len(cases)
    tr = c.drive('drive_replacer.py', c.shards(dict(
        seed=c.seed, cases=cases, random=4000 if c.thorough else 600, length=5,
        crashes=400 if c.thorough else 48, points=400 if c.thorough else 60),
        split=('cases',), share=('random', 'crashes')))
    c.sample_from(tr)
    c.validate('ReplacerTrace', tr)
    c.assumptions = ['the given texts have no block markers and no trailing spaces',
                     'how given lines and closing markers end (trailing spaces, kind of line ending) is left open',
                     'interruptions are those of the process, not of the machine; the file system renames atomically',
                     'files are UTF-8 with LF or CRLF line endings']
    return c.done()
