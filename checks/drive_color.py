"""Colours in all their notations (see spec/Color.tla)."""
import random
from drv import *

BADC = ['x', None, 'nan?', [1], object]


class Maker:
    def __init__(self, rng):
        self.rng = rng
        self.anim = open_text(document(
            layer('circle', param('color', color_el((1, 1, 1, 1))), desc='c'),
            layer('linear_gradient', param('gradient', el('gradient', None, color_el((1, 1, 1, 1), pos='0'), color_el((0, 0, 0, 1), pos='1'))), desc='g')))

    def notation(self, py):
        """The notation of a python value, for the specification."""
        if isinstance(py, str):
            return dict(k='text', s=list(py))
        if isinstance(py, tuple):
            c = []
            for x in py:
                if isinstance(x, (int, float)) and not isinstance(x, bool):
                    c.append(int(Decimal('%.6f' % x)*1000000))
                else:
                    c.append(-999999999)
            return dict(k='tuple', c=c)
        if isinstance(py, V.Color):
            return dict(k='colour', n=self.src[id(py)][0])
        return dict(k='value') if isinstance(py, V.Value) else dict(k='other')

    src = {}

    def object_(self, py):
        c = V.Color(py)
        self.src[id(c)] = (self.notation(py), c)
        return c

    def make(self, py):
        r = self.rng
        e = dict(op='make', n=self.notation(py), py=repr(py)[:80])
        m = r.randrange(7)
        e['how'] = m

        def f():
            if m == 0 or m == 1:
                return V.Color(py)
            if m == 2 and isinstance(py, tuple) and len(py) > 1:
                return V.Color(*py)
            if m == 2 or m == 3:
                c = V.Color(r.choice(['#ffffff', '#01020304']))
                c.value = py
                return c
            l = self.anim.find(desc='c')
            if m == 4:
                if r.random() < 0.3:
                    l.color.is_animated = True
                l.color = py
                return self.anim.find(desc='c').color
            if m == 5:
                l['color'] = py
                return self.anim.find(desc='c')['color']
            if m == 6:
                g = self.anim.find(desc='g').gradient
                g[0.5] = py
                return self.anim.find(desc='g').gradient[0.5]
        e['r'], c = call(f)
        e['m'], e['tup'], e['hex'], e['str'] = [], [], [], []
        if e['r'] == 'ok':
            try:
                t = c.tag
                e['m'] = [self.mil(txt(k)) for k in kids(t)] if [k.name for k in kids(t)] == list('rgba') and t.name == 'color' else []
                e['tup'] = [self.mil('%.6f' % x) for x in c.as_tuple()]
                e['hex'] = list(c.value)
                e['str'] = list(str(c))
            except Exception as x:
                e['error'] = repr(x)[:200]
        return e

    def mil(self, s):
        x = Decimal(s.strip())*1000000
        if x != int(x) or abs(x) > 2**31-1:
            return -1
        return int(x)

    def cmp(self, a, b):
        c = V.Color(a)
        e = dict(op='cmp', n=self.notation(a), o=self.notation(b), py=[repr(a)[:60], repr(b)[:60]])
        f = lambda g: {True: 'T', False: 'F'}.get(g[1], '?') if g[0] == 'ok' else '!'+g[0]
        e['eq'] = f(call(lambda: c == b))
        e['ne'] = f(call(lambda: c != b))
        e['rev'] = f(call(lambda: b == c))
        return e


def texts(bs, rng):
    """texts for three or four bytes"""
    h = ''.join('%02x' % b for b in bs)
    h = ''.join(ch.upper() if rng.random() < 0.5 else ch for ch in h)
    return rng.choice(['', '#']) + h


def rand_good(rng, m, bs=None):
    k = rng.randrange(4)
    bs = bs or [rng.choice([0, 1, 2, 127, 128, 254, 255, rng.randrange(256)]) for _ in range(rng.choice([3, 4]))]
    if k == 0:
        return texts(bs, rng)
    if k == 1:
        t = tuple(b/255 for b in bs)
        if rng.random() < 0.5:
            t = tuple(round(x, 6) for x in t)
        return t
    if k == 2 and rng.random() < 0.5:
        return tuple(rng.choice([rng.random(), 0, 1, 0.0, 1.0, 0.5, 0.123456, 1e-6, 0.999999]) for _ in bs)
    return m.object_(rng.choice([texts(bs, rng), tuple(b/255 for b in bs)]))


def rand_bad(rng):
    bad = ['', '#', 'ff', '#ff', 'fff', '#fff', '#ffff', '#fffff', '#fffffff', '#fffffffff', 'gggggg', '#12345g', '12345 ', ' 12345', '+12345', '-12345',
           '1_2345', '0x1234', '##ffffff', '######', 'ffffff#', '\uff11\uff12\uff13\uff14\uff15\uff16', 'red', 'white', '#ff ff ff', '1.0,0', 'ffffffzz',
           '#\u0661\u0661\u0661\u0661\u0661\u0661', '\nff0000', 'ff0000\n', 'éééééé', '12 456 8', '１２３４５６７８',
           (1.0,), (1.0, 0.5), (0.1, 0.2, 0.3, 0.4, 0.5), ('a', 'b', 'c'), (None, 0.5, 0.5), (0.5, 0.5, [0.5]), ('#ff', 0.0, 0.0), (1.0, 0.0, 0.0, None),
           (0.5, {}, 0.5, 0.5),
           5, 0.5, None, [1.0, 0.0, 0.0], {}, {'r': 1}, b'ff0000', True, V.Real(1.0), V.X_Y((1.0, 0.5)), V.String('ff0000'), int, object()]
    b = rng.choice(bad)
    if rng.random() < 0.3:
        s = texts([rng.randrange(256) for _ in range(rng.choice([3, 4]))], rng)
        i = rng.randrange(len(s)+1)
        b = rng.choice([s[:i] + rng.choice('gGz #-+_.xX') + s[i+1:] if i else 'g' + s[1:], s[:-1], s + '0', s[1:] if s[0] != '#' else s[2:]])
        body = b[1:] if b.startswith('#') else b
        if len(body) in (6, 8) and all(c in '0123456789abcdefABCDEF' for c in body):
            return '#'
    return b


def main():
    j = job()
    rng = random.Random(j['seed'])
    out = Writer()
    m = Maker(rng)
    for b in j['bytes']:            # every byte in every place
        ev = []
        for place in range(4):
            for n in (3, 4):
                if place >= n:
                    continue
                bs = [rng.choice([0, 255, rng.randrange(256)]) for _ in range(n)]
                bs[place] = b
                ev.append(m.make(texts(bs, rng)))
                ev.append(m.make(tuple(x/255 for x in bs)))
                ev.append(m.cmp(texts(bs, rng), texts(bs, rng)))
                ev.append(m.cmp(texts(bs, rng), tuple(x/255 for x in bs)))
                near = list(bs)
                near[place] = b+1 if b < 255 else 254
                ev.append(m.cmp(texts(bs, rng), texts(near, rng)))
                if n == 4:
                    ev.append(m.cmp(texts(bs, rng), texts(bs[:3], rng)))
        out.history('byte-%d' % b, {}, ev)
    for n in range(j['random']):
        ev = []
        for _ in range(j['length']):
            r = rng.random()
            if r < 0.4:
                ev.append(m.make(rand_good(rng, m)))
            elif r < 0.65:
                ev.append(m.make(rand_bad(rng)))
            elif r < 0.75:
                ev.append(m.cmp(rand_good(rng, m), rand_bad(rng)))
            elif r < 0.85:
                ev.append(m.cmp(rand_good(rng, m), rand_good(rng, m)))
            else:
                bs = [rng.choice([0, 1, 128, 254, 255, rng.randrange(256)]) for _ in range(rng.choice([3, 4]))]
                ev.append(m.cmp(rand_good(rng, m, bs), rand_good(rng, m, bs)))
        out.history('random-%d-%d' % (j['seed'], n), {}, ev)
    out.close()


main()
