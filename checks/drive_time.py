"""Reads, compares and prints times in the real code (spec/TimeSpec.tla)."""
import bs4
import random, operator
from decimal import Decimal
from drv import *
from sangfroid.layer import Layer

M = 1000000
WRONG = [-2000000000, 0]


def six(x):
    """A float as a fixed-point number of six decimals."""
    try:
        r = int((Decimal(repr(float(x)))*M).to_integral_value())
    except Exception:
        return WRONG
    if abs(r) >= 2*10**9*M:
        return WRONG
    return list(divmod(r, M))


def dnum(p):
    return Decimal(p[0]) + Decimal(p[1])/M


def numtext(p, rng):
    d = dnum(p)
    s = format(d.normalize() if d else Decimal(0), 'f')
    r = rng.random()
    if '.' not in s:
        if r < 0.15:
            s += '.0'
        elif r < 0.2:
            s = '0' + s
        elif r < 0.25:
            s += '.000'
    elif s.startswith('0.') and r < 0.3:
        s = s[1:]
    elif r < 0.3:
        s += '0'
    return s


def render(sp, rng, plain=False):
    if plain:
        rng = random.Random(1)
    sep = rng.choice([' ', ' ', ' ', '', '  ', '\t', ' \n'])
    parts = [numtext(p['n'], rng) + p['u'] for p in sp['ps']]
    if sp['inneg']:
        parts = ['-'+x if x[-1] == 'f' else x for x in parts]
    s = sep.join(parts)
    if sp['neg']:
        s = '-' + s
    if rng.random() < 0.15:
        s = rng.choice([' ', '  ', '\n']) + s + rng.choice(['', ' '])
    return s


def P(u, n):
    return dict(u=u, n=list(n))


def spec(*ps, neg=False, inneg=False):
    return dict(f='parts', neg=neg, inneg=inneg, ps=list(ps))


JUNK = ['', ' ', '\n', '55', '5.5', '-', 'f', 's', '5x', 'x5f', '5f5', '5f x', '1.2.3f', '.f', '..5s', '--5f',
        '5 f', '1e3f', 'nan', 'nanf', 'inff', '5f,3s', '1s+2f', '1:30', 'banana', '12ff', '5sf', '1s 2', '1 s',
        '0x10f', '٥x', '1h2m3', 'h', '5f;', 'None', '1s 2f x', '5d', '3.2.1s', '- 5f', '+-5f']

DOCS = [
    ('24.000', 24000, None, None), ('25.000', 25000, None, None), ('30', 30000, None, None),
    ('23.976', 23976, None, None), ('29.970', 29970, None, None), ('12.000', 12000, None, None),
    ('1.000', 1000, None, None), ('60.000', 60000, None, None), (None, 24000, None, None),
    ('23', 23000, None, None), ('24.5', 24500, None, None), ('120', 120000, None, None), ('0.5', 500, None, None),
]
BEGINS = [spec(P('f', (0, 0))), spec(P('f', (0, 0))), spec(P('f', (12, 0))), spec(P('s', (1, 0))),
          spec(P('f', (5, 0)), neg=True), spec(P('s', (2, 500000))), spec(P('s', (0, 0)))]
ENDS = [spec(P('s', (5, 0))), spec(P('s', (5, 0))), spec(P('f', (100, 0))), spec(P('m', (1, 0)), P('s', (30, 0))),
        spec(P('f', (10, 500000))), spec(P('h', (1, 0)), P('f', (3, 0))), spec(P('f', (0, 0))),
        spec(P('s', (2, 0)), P('f', (12, 0)))]


def tag_of(x):
    return x if isinstance(x, bs4.Tag) else x.tag


class Doc:
    def __init__(self, rng, which=None):
        fps, self.fps, _, _ = which or rng.choice(DOCS)
        self.begin, self.end = rng.choice(BEGINS), rng.choice(ENDS)
        at = dict(begin_time=render(self.begin, rng, True).strip(), end_time=render(self.end, rng, True).strip())
        if fps is not None:
            at['fps'] = fps
        text = document(layer('circle', param('radius', el('real', {'value': '1'})), desc='c'),
                        group(layer('circle', param('radius', el('real', {'value': '1'})), desc='d'), desc='g'), **at)
        if fps is None:
            text = text.replace(' fps="24.000"', '')
        self.anim = open_text(text)
        self.cfg = dict(fps=self.fps, begin=self.begin, end=self.end)
        self.refs = [self.anim, self.anim.tag, self.anim.find(desc='c'), self.anim.find(desc='d').tag,
                     self.anim.find(desc='d').radius, self.anim.find(desc='d').radius.tag]
        self.norefs = [None, L.Circle(), L.Circle().tag, V.Real(3), L.Circle().radius.tag]

    def evolve(self, rng, other):
        """The same objects, later: in another document, in a document at last, or in one with another frame rate."""
        r = rng.random()
        if r < 0.45:
            top = rng.choice([self.anim, self.anim.find(desc='g')])
            for d in rng.choice(['c', 'd', 'g']):
                x = other.anim.find(desc=d)
                if x is None:
                    continue
                below = [y for y in [x]+x.find_all(True)]
                top.append(x)
                for y in below:
                    if hasattr(y, 'radius'):
                        self.refs += [z for z in other.refs if tag_of(z) is y.tag or tag_of(z) is y.radius.tag]
        elif r < 0.7:
            x = L.Circle()
            early = [x, x.tag, x.radius, x.radius.tag]
            for e in early:
                call(lambda: T('3f', ref=e))
            rng.choice([self.anim, self.anim.find(desc='g')]).append(x)
            self.refs += early
        else:
            fps, self.fps, _, _ = rng.choice([d for d in DOCS if d[0]])
            self.anim.fps = float(fps)
            self.cfg = dict(self.cfg, fps=self.fps)

    def ref(self, rng, has):
        return rng.choice(self.refs if has else self.norefs)


def parse(doc, sp, has, rng):
    loose = False
    if sp['f'] == 'num':
        d = dnum(sp['n'])
        x = int(d) if d == d.to_integral_value() and rng.random() < 0.7 else float(d)
    elif sp['f'] == 'junk':
        x = sp['text']
    else:
        x = render(sp, rng)
    ref = doc.ref(rng, has)
    if ref is None and rng.random() < 0.5:
        r, t = call(lambda: T(x))
    elif rng.random() < 0.5:
        r, t = call(lambda: T(x, ref))
    else:
        r, t = call(lambda: T(x, ref=ref))
    e = dict(op='parse', sp=sp, ref=has, text=repr(x), r=r, loose=loose, fr=WRONG, fl=WRONG, int=-1,
             secr='', sec=WRONG, tfps=-1)
    if r == 'ok':
        e['fr'] = six(t.frames)
        e['fl'] = six(float(t))
        try:
            e['int'] = int(t)
        except Exception:
            e['int'] = -1
        e['secr'], s = call(lambda: t.seconds)
        if e['secr'] == 'ok':
            e['sec'] = six(s)
        e['tfps'] = 0 if t.fps is None else int(round(t.fps*1000))
    return e


def make(doc, n, known, rng):
    """A time of n (fixed-point) frames."""
    d = dnum(n)
    s = format(d, 'f') + 'f'
    if known:
        return T(s, ref=doc.ref(rng, True))
    if d >= 0 and rng.random() < 0.5:
        return T(int(d) if d == int(d) else float(d))
    return T(s)


def tri(f, a, b):
    r, x = call(f, a, b)
    return r if r != 'ok' else ('T' if x is True else 'F' if x is False else '?%r' % (x,))


def compare(docs, a, b, rng):
    """a, b: (n, doc or None, isT)"""
    def obj(x):
        n, doc, isT = x
        if isT:
            return make(doc or docs[0], n, doc is not None, rng)
        d = dnum(n)
        return int(d) if d == int(d) and rng.random() < 0.6 else float(d)
    x, y = obj(a), obj(b)
    rec = lambda z: dict(n=list(z[0]), fps=z[1].fps if z[1] else 0, isT=z[2])
    e = dict(op='cmp', a=rec(a), b=rec(b))
    for o in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        e[o] = tri(getattr(operator, o), x, y)
    r, hs = call(lambda: hash(x) == hash(y))
    e['hash'] = 'same' if r == 'ok' and hs else 'diff'
    return e


def order(doc, ns, rng):
    ts = [make(doc, n, rng.random() < 0.7, rng) for n in ns]
    e = dict(op='order', ns=[list(n) for n in ns], sorted=[], distinct=-1, found=False)
    r, s = call(sorted, ts)
    if r == 'ok':
        e['sorted'] = [six(t.frames) for t in s]
    r, d = call(lambda: (len(set(ts)), len({t: 1 for t in ts})))
    if r == 'ok' and d[0] == d[1]:
        e['distinct'] = d[0]
    r, f = call(lambda: all(make(doc, n, rng.random() < 0.5, rng) in {t: 1 for t in ts} for n in ns))
    e['found'] = bool(r == 'ok' and f)
    return e


LEX = re.compile(r'([0-9]+)(?:\.([0-9]{1,6}))?([hmsf])$')


def prints(doc, n, known, rng):
    t = make(doc, n, known, rng)
    e = dict(op='print', n=list(n), fps=doc.fps if known else 0, lexed=False, back='', same=False,
             text=spec(), raw='')
    r, s = call(str, t)
    if r == 'ok' and isinstance(s, str):
        e['raw'] = s
        neg = s.startswith('-')
        ms = [LEX.match(p) for p in (s[1:] if neg else s).split(' ')]
        if all(ms) and all(len(m.group(1)) < 10 for m in ms):
            e['lexed'] = True
            e['text'] = spec(*[P(m.group(3), (int(m.group(1)), int((m.group(2) or '').ljust(6, '0'))))
                               for m in ms], neg=neg)
        r, b = call(lambda: T(s, ref=doc.ref(rng, True)) if known else T(s))
        e['back'] = r if r != 'ok' else tri(operator.eq, b, t)
        e['same'] = bool(repr(t) == s and r == 'ok' and str(b) == s)
    return e


def rand6(rng):
    r = rng.random()
    hi = rng.choice([0, 0, 1, 2, 5, rng.randrange(30), rng.randrange(1500), rng.randrange(90000), rng.randrange(9000000)])
    if r < 0.45:
        lo = 0
    elif r < 0.6:
        lo = 500000
    elif r < 0.85:
        lo = rng.randrange(1000)*1000
    else:
        lo = rng.choice([1, 999999, rng.randrange(M), 10, 50, 100, 499999, 500001])
    return hi, lo


def neg6(n):
    hi, lo = n
    return (-hi, 0) if lo == 0 else (-hi-1, M-lo)


def main():
    j = job()
    rng = random.Random(j['seed'])
    out = Writer()
    what = j['prop']
    docs = [Doc(rng, d) for d in DOCS]
    if what == 'C12':
        for n in range(0, len(j['specs']), 200):
            doc = rng.choice(docs)
            out.history('model-%d' % n, doc.cfg,
                        [parse(doc, sp, has, rng) for sp in j['specs'][n:n+200] for has in (True, False)])
        doc = None
        for n in range(j['random']):
            if doc is None or rng.random() < 0.7:
                other, doc = doc or Doc(rng), Doc(rng)
            if rng.random() < 0.5:
                for x in doc.refs+other.refs:
                    call(lambda: T('1s', ref=x))
                doc.evolve(rng, other)
            ev = []
            for _ in range(60):
                has = rng.random() < 0.75
                r = rng.random()
                if r < 0.25:
                    x = rand6(rng)
                    if rng.random() < 0.5:
                        x = neg6(x)
                    sp = dict(f='num', n=list(x))
                elif r < 0.4:
                    sp = dict(f='junk', text=rng.choice(JUNK))
                else:
                    us = [rng.choice('hmsf') for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
                    if rng.random() < 0.85:
                        us = sorted(set(us), key='hmsf'.index)
                        if rng.random() < 0.4:
                            rng.shuffle(us)
                    ps = []
                    for u in us:
                        hi, lo = rand6(rng)
                        hi = min(hi, {'h': 300, 'm': 5000, 's': 90000, 'f': 9000000}[u])
                        if u != 'f' and rng.random() < 0.5:
                            lo = rng.choice([0, 500000, 250000, 100000, 125000])
                        if u != 'f':
                            lo -= lo % 1000     # the sum is exact to a millionth of a frame
                        ps.append(P(u, (hi, lo)))
                    neg = rng.random() < 0.25
                    inneg = not neg and len(us) > 1 and 'f' in us and rng.random() < 0.1
                    if inneg:
                        # a negative frame part beside seconds, not at the front
                        ps.sort(key=lambda p: p['u'] == 'f')
                        ps = [p if p['u'] != 'f' or p['n'] != [0, 0] else P('f', (3, 0)) for p in ps]
                    sp = spec(*ps, neg=neg, inneg=inneg)
                ev.append(parse(doc, sp, has, rng))
            out.history('random-%d' % n, doc.cfg, ev)
        doc = docs[0]
        out.history('junk', doc.cfg, [parse(doc, dict(f='junk', text=t), has, rng) for t in JUNK for has in (True, False)])
    elif what == 'C13':
        base = [(0, 0), (1, 0), (2, 0), (23, 0), (24, 0), (24, 1), (24, 500000), (25, 0), (1440, 0), (86400, 0),
                (-1, 0), (-24, 0), (-25, 500000), (0, 1), (-1, 999999), (0, 500000)]
        holders = [None, docs[0], docs[1], docs[3], docs[9], docs[10]]
        pool = [(n, d, True) for n in base for d in holders] + [(n, None, False) for n in base]
        pairs = [(a, b) for a in pool for b in pool]
        pairs = pairs[j['shard']::8]
        rng.shuffle(pairs)
        pairs = pairs[:j['pairs']]
        for n in range(0, len(pairs), 100):
            out.history('pairs-%d' % n, docs[0].cfg, [compare(docs, a, b, rng) for a, b in pairs[n:n+100]])
        for n in range(j['random']):
            ev = []
            for _ in range(40):
                x = rand6(rng)
                y = x if rng.random() < 0.3 else rng.choice([(x[0]+1, x[1]), (x[0], (x[1]+1) % M), rand6(rng), (0, 0)])
                x, y = [neg6(z) if rng.random() < 0.3 else z for z in (x, y)]
                a = (x, rng.choice(holders), rng.random() < 0.85)
                b = (y, rng.choice(holders), rng.random() < 0.85)
                if not a[2]:
                    a = (x, None, False)
                if not b[2]:
                    b = (y, None, False)
                ev.append(compare(docs, a, b, rng))
            for _ in range(5):
                some = [rand6(rng) for _ in range(6)]
                ns = [rng.choice(some + [neg6(z) for z in some]) for _ in range(10)]
                ev.append(order(rng.choice(docs), ns, rng))
            out.history('random-%d' % n, docs[0].cfg, ev)
    elif what == 'C14':
        for doc in docs:
            ev = []
            f = doc.fps
            sec = Decimal(f)/1000
            edge = []
            for s in (1, 2, 59, 60, 61, 3599, 3600, 3601, 7325, 86399, 86400, 360000):
                for dlt in (0, 1, -1, Decimal('0.5'), Decimal('0.000001'), Decimal('-0.000001'), Decimal('0.001')):
                    x = int(((sec*s)+dlt)*M)
                    edge.append(divmod(x, M))
            edge += [(k, lo) for k in range(0, 130) for lo in (0, 500000)][j['shard']::8]
            for n in edge:
                for m in (n, neg6(n)):
                    for known in (True, False):
                        if rng.random() < j['edge']:
                            ev.append(prints(doc, m, known, rng))
            out.history('edges-%d' % f, doc.cfg, ev)
        for n in range(j['random']):
            doc = rng.choice(docs)
            ev = []
            for _ in range(60):
                x = rand6(rng)
                ev.append(prints(doc, neg6(x) if rng.random() < 0.4 else x, rng.random() < 0.8, rng))
            out.history('random-%d' % n, doc.cfg, ev)
    out.close()


main()
