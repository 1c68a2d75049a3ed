"""
Compares values with each other, with python values and with other things,
while they are assigned, animated and given waypoints (see spec/Equality.tla).
"""
import copy, os, random
from drv import *
from drive_values import PAIRS, EL, CLS, element, exact, num as _num, comps

KINDS = [k for k in PAIRS if k != 'blend']
PART_KINDS = dict(offset='vector', angle='angle', skew_angle='angle', scale='vector')


class Other:
    pass


# For every kind: lists of python values, each list being ways of writing one value.
RED, GREEN, GREY, CLEAR = '#ff0000', '#00ff00', (0.5, 0.25, 0.75), (0.0, 0.0, 1.0, 0.2)
POOL = dict(
    real=[[0.0, 0, '0'], [1.0, 1, '1', '1.0'], [-1.0, -1], [0.5, '0.5'], [-2.5], [123456.789], [1.01, '1.01'], [1000000000.5], [0.002], [1.002], [0.502], [100000.0], [100005.0], [123460.0]],
    angle=[[0.0, 0, '0'], [90.0, 90, '90'], [-90.0, -90], [89.5, '89.5'], [360.0, 360], [12.345678], [450.0], [90.002], [12.348], [36000.0], [36001.0]],
    integer=[[0, '0'], [1, '1'], [-1, '-1'], [7, '7', 7.0], [255], [1000000000], [400]],
    bool=[[True, 'true', 'True', 'TRUE'], [False, 'false', 'False']],
    time=[[0, '0f', 0.0, '0s'], [12, '12f', 12.0], ['1s', '24f', 24, '1s 0f'], ['7.5f', 7.5], ['1m 1s', '1464f', '61s'], ['2s 3f', 51, '51f'],
          ['25f', 25], ['12.002f'], ['24.002f', 24.002], [5000, '5000f'], ['90000f', '3750s'], ['90001f']],
    color=[['#ff0000', 'ff0000', 'FF0000', '#FF0000FF', (1.0, 0.0, 0.0), (1, 0, 0, 1)], ['#00ff00', (0.0, 1.0, 0.0), '00FF00ff'],
           ['#ff000000', (1.0, 0.0, 0.0, 0.0)], ['#ff000080'], [(0.123456, 0.5, 1.0)], [(0.123456, 0.5, 1.0, 0.25)],
           ['#000000', (0, 0, 0)], ['#0000ff', (0.0, 0.0, 1.0)], ['#ffffff', (1.0, 1.0, 1.0), 'ffffffff'], ['#abcdef', 'ABCDEF'], ['#abcdfe']],
    vector=[[(0.0, 0.0), [0.0, 0.0], (0, 0)], [(1.0, 2.0), [1.0, 2.0], (1, 2)], [(2.0, 1.0), [2, 1]], [(1.0, -2.0)], [(1.0, 3.0)], [(3.0, 2.0)],
            [(0.5, 0.25), [0.5, 0.25]], [(1.002, 2.0)], [(1.0, 2.002)], [(1000000.125, -0.01)]],
    string=[[x] for x in ('a', 'A', '', 'a b', 'true', '5', 'caf\u00e9', 'a, b', 'x<y&z', '#ff0000', 'None')],
    gradient=[[{0.0: RED, 1.0: GREEN}, {0: RED, 1: (0.0, 1.0, 0.0)}, {1: '00FF00', 0: (1.0, 0.0, 0.0)}], [{0.0: GREEN, 1.0: RED}], [{0.0: RED, 0.5: GREEN}],
              [{0.0: RED, 0.5: GREY, 1.0: GREEN}, {1: GREEN, 0.5: GREY, 0: RED}], [{0.0: RED, 0.5: CLEAR, 1.0: GREEN}], [{0.25: RED, 1.0: GREEN}], [{0.0: RED, 0.502: GREEN}], [{0.0: RED, 1.0: '#00ff02'}],
              [{0.0: RED, 1.0: RED}], [{0.0: RED, 0.5: GREEN, 0.75: GREY, 1.0: GREEN}]],
)
JUNK = dict(
    real=[None, 'zz', '', (1.0,), {}, [1.0], 'true'],
    angle=[None, 'zz', '', (90.0,), {}, [90.0]],
    integer=[None, 'zz', '', 7.5, 0.5, 1.25, (1,), {}, '7.5'],
    bool=[None, 'zz', '', 'yes', 2, 'no', (True,), {}, 0.5, -1],
    time=[None, 'zz', '', 'tomorrow', (12,), {}, '12x', '12'],
    color=[None, 'red', '#ff00', '', (1.0, 0.0), (1.0, 0.0, 0.0, 1.0, 1.0), 5, {}, (1.0, 0.0, 'x'), '#ff00000', 'gg0000', 1.0, True],
    vector=[None, 'ab', '', (1.0,), (1.0, 2.0, 3.0), (), [], 5, {}, {0: RED, 1: GREEN}, {1.0: 0, 2.0: 0}, True, ('a', 'b'), [None, None]],
    string=[None, 5, ('a',), b'a', {}, ['a'], True],
    gradient=[None, 5, 'zz', {}, {0: RED}, [(0, RED), (1, GREEN)], (0, 1), {0: 'red', 1: 'green'}, {0: None, 1: None}, {'0': RED, '1': GREEN}],
    transformation=[None, 5, 'zz', {}, {'offset': (0.0, 0.0)}, {'a': 1, 'b': 2, 'c': 3, 'd': 4}, (1, 2, 3, 4), [1, 2, 3, 4],
                    {1: 1, 2: 2, 3: 3, 4: 4}, {0: RED, 1: GREEN}],
)


def number(x, prec=10):
    return _num(repr(x) if isinstance(x, float) else x, prec)


def colour(x):
    if isinstance(x, str):
        s = x.lstrip('#')
        c = [dict(k='b', b=int(s[i:i+2], 16)) for i in range(0, len(s), 2)]
        return c if len(c) == 4 else c + [number(1)]
    return [number(float(y)) for y in x] + ([number(1)] if len(x) == 3 else [])


def denote(kind, x, fps):
    if kind in ('real', 'angle'):
        return number(x)
    if kind == 'integer':
        return exact(int(x))
    if kind == 'bool':
        return exact(str(x).lower())
    if kind == 'string':
        return exact(x)
    if kind == 'time':
        return number(time_frames(x, fps) if isinstance(x, str) else x)
    if kind == 'vector':
        return dict(k='v', x=number(x[0]), y=number(x[1]))
    if kind == 'color':
        return dict(k='c', c=colour(x))
    if kind == 'gradient':
        return dict(k='g', stops=[dict(pos=number(float(p)), c=colour(x[p])) for p in sorted(x)])


def from_xml(kind, t, fps):
    if kind in ('real', 'angle'):
        return _num(t['value'])
    if kind == 'integer':
        return exact(int(t['value']))
    if kind == 'bool':
        return exact(t['value'].lower())
    if kind == 'time':
        return _num(time_frames(t['value'], fps))
    if kind == 'string':
        return exact(txt(t))
    if kind == 'vector':
        d = {k.name: _num(txt(k)) for k in kids(t)}
        return dict(k='v', x=d['x'], y=d['y'])
    if kind == 'color':
        return dict(k='c', c=comps(t))
    if kind == 'gradient':
        return dict(k='g', stops=sorted([dict(pos=_num(k['pos']), c=comps(k)) for k in kids(t)], key=lambda s: float(
            '%s%d.%05d%05d' % ('-' if s['pos']['neg'] else '', s['pos']['i'], s['pos']['d'][0], s['pos']['d'][1]))))


NOTHING = dict(k='?')


def item(kind, t, fps):
    """The item which an element is, read without the library."""
    try:
        if kind == 'transformation':
            return dict(kind=kind, anim=False, raw='', tl=[], v=dict(k='t', parts={
                p.name: item(PART_KINDS[p.name], kids(p)[0], fps) for p in kids(t)}))
        if t.name == 'animated':
            ws = [(time_frames(w['time'], fps), w) for w in kids(t)]
            ws.sort(key=lambda w: w[0])
            return dict(kind=kind, anim=True, raw=str(t), v=NOTHING, tl=[
                dict(t=_num(f), v=from_xml(kind, kids(w)[0], fps), i=w['before']+' '+w['after']) for f, w in ws])
        return dict(kind=kind, anim=False, raw='', v=from_xml(kind, t, fps), tl=[])
    except Exception as x:        # not this property's business
        return dict(kind='unreadable '+repr(x)[:60], anim=False, raw='', v=NOTHING, tl=[])


def plain(kind, x, fps):
    return dict(kind=kind, anim=False, raw='', v=denote(kind, x, fps), tl=[])


JUNK_ITEM = dict(kind='junk', anim=False, raw='', v=NOTHING, tl=[])


def truth(f):
    r, v = call(lambda: bool(f()))
    return r if r != 'ok' else 'T' if v else 'F'


def compare(how, l, li, r, ri):
    return dict(how=how, l=li, r=ri, eq=truth(lambda: l == r), ne=truth(lambda: l != r),
                qe=truth(lambda: r == l), en=truth(lambda: r != l))


def one_way(c):
    """Nothing is said about how Ts compare themselves with values."""
    return dict(c, qe=c['eq'], en=c['ne'])


_seen = set()


def fresh(cs):
    """Without those which went just like an earlier one: each is judged by itself."""
    out = []
    for c in cs:
        k = hash(json.dumps(c, sort_keys=True))
        if k not in _seen:
            _seen.add(k)
            out.append(c)
    return out


# ---- one kind -----------------------------------------------------------------------

class History:
    def __init__(self, rng, kind, start=None):
        self.rng, self.kind = rng, kind
        self.fps = 24
        p = PAIRS[kind]
        self.where = dict(a=p[0], b=p[1], c=p[0])
        start = start or {x: rng.choice(POOL[kind]) for x in 'abc'}
        self.anim = open_text(document(*[
            layer(lt, param(n, element(kind, [v for v in start[x] if not isinstance(v, list)][0], 24)), desc=x)
            for x, (lt, n, _) in self.where.items()], fps='24.000'))
        self.ev = []
        self.tokens = rng.sample(POOL[kind], 2)

    def value(self, x):
        for t in self.anim.tag.find_all('layer'):
            if t.get('desc') == x:
                return L.Layer.from_tag(t)[self.where[x][1]]

    def it(self, x):
        for t in self.anim.tag.find_all('layer'):
            if t.get('desc') == x:
                for p in kids(t):
                    if p.get('name') == self.where[x][1]:
                        return item(self.kind, kids(p)[0], self.fps)

    def assignable(self, ways):
        ways = [w for w in ways if not isinstance(w, list)]
        if self.kind == 'bool':
            ways = [w for w in ways if isinstance(w, bool)]
        return self.rng.choice(ways)

    def do(self, e, v=None):
        """v: the ways of writing the value to use"""
        x = self.value(e['x'])
        if e['op'] == 'set':
            def f():
                w = self.assignable(v)
                if self.rng.random() < 0.4:
                    x.value = w
                else:
                    l = [t for t in self.anim.tag.find_all('layer') if t.get('desc') == e['x']][0]
                    L.Layer.from_tag(l)[self.where[e['x']][1]] = w
        elif e['op'] in ('on', 'off'):
            f = lambda: setattr(x, 'is_animated', e['op'] == 'on')
        elif e['op'] == 'way':
            f = lambda: x.timeline.__setitem__('%df' % e['t'], self.loose(v))
        elif e['op'] == 'del':
            f = lambda: x.timeline.__delitem__('%df' % e['t'])
        elif e['op'] == 'curve':
            def f():
                ws = x.timeline.values()
                w = self.rng.choice(ws)
                setattr(w, self.rng.choice(['before', 'after']), self.rng.choice(['linear', 'constant', 'ease']))
                x.timeline = ws
        elif e['op'] == 'like':
            def f():
                y = self.value(e['y'])
                if y.is_animated:
                    x.timeline = y.timeline
                else:
                    x.value = y if self.kind != 'time' else y.value
        elif e['op'] == 'reload':
            def f():
                name = 'e%d.sif' % os.getpid()
                self.anim.save(name)
                self.anim = sangfroid.open(name)
                os.unlink(name)
        r = call(f)[0]
        self.ev.append(dict(op=e['op'], x=e['x'], r=r, cmp=fresh(self.look(e['x'])), ord=[]))
        if self.rng.random() < 0.2:
            self.waypoints()

    def loose(self, ways):
        ways = [w for w in ways if not isinstance(w, list)]
        if self.kind == 'time':
            ways = [w for w in ways if not isinstance(w, str) or w.endswith('f') and 's' not in w] or ['0f']
        if self.kind == 'bool':
            ways = [w for w in ways if isinstance(w, bool)]
        return CLS[self.kind](self.rng.choice(ways))

    def waypoints(self):
        """Compares timelines and waypoints."""
        out, order = [], []
        moving = {x: (self.value(x), self.it(x)) for x in self.where}
        moving = {x: y for x, y in moving.items() if y[1]['anim']}
        for x, (v, i) in moving.items():
            i = dict(i, kind='timeline')
            for y, (w, j) in moving.items():
                out.append(compare('timelines', v.timeline, i, w.timeline, dict(j, kind='timeline')))
            out.append(one_way(compare('timeline and its waypoints', v.timeline, i, list(v.timeline), i)))
            out.append(one_way(compare('timeline and no waypoints', v.timeline, i, [], dict(i, tl=[], raw='-'))))
        ws = [(w, dict(kind='waypoint', anim=True, v=NOTHING, raw=str(w.time.frames)+str(w.tag), tl=[q]))
              for v, i in moving.values() for w, q in zip(v.timeline, i['tl'])]
        for a, i in ws:
            for b, j in ws:
                out.append(compare('waypoints', a, i, b, j))
                order.append(dict(a=i['tl'][0]['t'], b=j['tl'][0]['t'], got=[
                    truth(lambda: a < b), truth(lambda: a <= b), truth(lambda: a > b), truth(lambda: a >= b)]))
            z = self.rng.choice([None, 5, 'zz', '12f', a.time, a.value, Other()])
            out.append(one_way(compare('waypoint and %s' % type(z).__name__, a, i, z, JUNK_ITEM)))
        self.ev.append(dict(op='read', x='', r='ok', cmp=fresh(out), ord=fresh(order)))

    def look(self, x):
        rng, k = self.rng, self.kind
        out = []
        r, v = call(self.value, x)
        if r != 'ok':
            return out
        i = self.it(x)
        for y in self.where:
            r, w = call(self.value, y)
            if r == 'ok':
                out.append(compare('%s and %s in the document' % (k, k), v, i, w, self.it(y)))
        w = type(v)(copy.copy(v.tag))
        if k != 'time':
            out.append(compare('%s and its copy' % k, v, i, w, i))
        for ways in self.tokens:
            w = rng.choice(ways)
            out.append(compare('%s and %s' % (k, repr(w)[:60]), v, i, w, plain(k, w, self.fps)))
            if k == 'time' and not isinstance(w, str):
                out.append(one_way(compare('time and T', v, i, T(w, ref=self.anim.tag), plain(k, w, self.fps))))
            if rng.random() < 0.5:
                continue
            o = self.loose(ways)
            out.append(compare('%s and another %s' % (k, k), v, i, o, item(k, o.tag, self.fps)))
            out.append(compare('%s alone and %s' % (k, repr(w)[:60]), o, item(k, o.tag, self.fps),
                               *((w, plain(k, w, self.fps)) if k != 'time' or not isinstance(w, str) or 's' not in w else (o, item(k, o.tag, self.fps)))))
        w = rng.choice(JUNK[k] + [Other(), object()])
        out.append(compare('%s and %s' % (k, repr(w)[:60]), v, i, w, JUNK_ITEM))
        other = rng.choice([n for n in KINDS if n != k])
        ow = rng.choice(POOL[other])
        if other != 'time':
            w = CLS[other](rng.choice([y for y in ow if not isinstance(y, list) and (other != 'bool' or isinstance(y, bool))]))
            out.append(compare('%s and %s' % (k, other), v, i, w, item(other, w.tag, self.fps)))
        if i['kind'] == k and not i['anim'] and rng.random() < 0.5:
            # exactly what it is, in all the ways of writing it
            for ways in POOL[k]:
                for w in ways:
                    if rng.random() < 0.15:
                        out.append(compare('%s and %s' % (k, repr(w)[:60]), v, i, w, plain(k, w, self.fps)))
        return out


def replay(rng, kind, ops):
    t = rng.sample(POOL[kind], 2)
    h = History(rng, kind, dict(a=t[0], b=t[0], c=t[1]))
    h.tokens = t
    for e in ops:
        h.do(e, {'v1': t[0], 'v2': t[1]}.get(e.get('v')))
    return h


def random_history(rng, length):
    kind = rng.choice(KINDS)
    h = History(rng, kind)
    for _ in range(length):
        r = rng.random()
        x, y = rng.sample('abc', 2)
        if r < 0.3:
            h.do(dict(op='set', x=x), rng.choice(POOL[kind]) if rng.random() < 0.5 else rng.choice(h.tokens))
        elif r < 0.4:
            h.do(dict(op='on', x=x))
        elif r < 0.5:
            h.do(dict(op='off', x=x))
        elif r < 0.68:
            h.do(dict(op='way', x=x, t=rng.choice([0, 5, 12, 48])), rng.choice(h.tokens))
        elif r < 0.74:
            h.do(dict(op='del', x=x, t=rng.choice([0, 5, 12, 48])))
        elif r < 0.8:
            h.do(dict(op='curve', x=x))
        elif r < 0.95:
            h.do(dict(op='like', x=x, y=y))
        else:
            h.do(dict(op='reload', x=x))
    return h


# ---- transformations -----------------------------------------------------------------

PARTVALUES = dict(vector=[v[0] for v in POOL['vector']][:5], angle=[v[0] for v in POOL['angle']][:5])


class Transformations:
    def __init__(self, rng):
        self.rng, self.fps, self.ev = rng, 24, []
        self.anim = open_text(document(*[group(desc=x) for x in 'ab'], fps='24.000'))
        self.mine = {x: dict(offset=(0.0, 0.0), angle=0.0, skew_angle=0.0, scale=(1.0, 1.0)) for x in 'ab'}

    def tag(self, x):
        for t in self.anim.tag.find_all('layer'):
            if t.get('desc') == x:
                return t

    def value(self, x):
        return L.Layer.from_tag(self.tag(x))['transformation']

    def it(self, x):
        for p in kids(self.tag(x)):
            if p.get('name') == 'transformation':
                return item('transformation', kids(p)[0], self.fps)

    def plain(self, d):
        return dict(kind='transformation', anim=False, raw='', tl=[], v=dict(k='t', parts={
            k: plain(PART_KINDS[k], v, self.fps) for k, v in d.items()}))

    def some(self, keys):
        return {k: self.rng.choice(PARTVALUES[PART_KINDS[k]]) for k in keys}

    def step(self):
        rng = self.rng
        x, y = rng.sample('ab', 2)
        p = rng.choice(list(PART_KINDS))
        r = rng.random()
        if r < 0.25:
            d = self.some(PART_KINDS)
            f = lambda: setattr(self.value(x), 'value', d)
        elif r < 0.5:
            d = self.some([p])
            f = lambda: setattr(self.value(x), 'value', d)
        elif r < 0.65:
            f = lambda: setattr(self.value(x)[p], 'is_animated', rng.random() < 0.5)
        elif r < 0.72:
            w = self.some([p])[p]
            f = lambda: self.value(x)[p].timeline.__setitem__('%df' % rng.choice([0, 12]), CLS[PART_KINDS[p]](w))
        else:
            f = lambda: setattr(self.value(x), 'value', dict(self.value(y).items()))
        r = call(f)[0]
        out = []
        v, i = self.value(x), self.it(x)
        for n in 'ab':
            out.append(compare('transformations', v, i, self.value(n), self.it(n)))
        out.append(compare('transformation and its copy', v, i, type(v)(copy.copy(v.tag)), i))
        d = {k: rng.choice(PARTVALUES[PART_KINDS[k]]) for k in PART_KINDS}
        for k in PART_KINDS:          # mostly what it is
            q = i['v'].get('parts', {}).get(k, {}) if isinstance(i['v'], dict) else {}
            for c in PARTVALUES[PART_KINDS[k]]:
                if not q.get('anim') and q.get('v') == denote(PART_KINDS[k], c, 24) and rng.random() < 0.9:
                    d[k] = c
        out.append(compare('transformation and dict', v, i, d, self.plain(d)))
        ks = list(d)
        rng.shuffle(ks)
        e = {k: CLS[PART_KINDS[k]](d[k]) for k in ks}
        out.append(compare('transformation and dict of values', v, i, e, self.plain(d)))
        o = V.Transformation(d)
        out.append(compare('transformation and another', v, i, o, item('transformation', o.tag, 24)))
        less = {k: d[k] for k in ks[:rng.choice([1, 2, 3])]}
        out.append(compare('transformation and part of one', v, i, less, self.plain(less)))
        out.append(compare('transformation and more than one', v, i, dict(d, **{rng.choice(['x', 'offset2', 'color']): rng.choice([0.0, (0.0, 0.0)])}), JUNK_ITEM))
        j = rng.choice(JUNK['transformation'] + [Other()])
        out.append(compare('transformation and %s' % repr(j)[:60], v, i, j, JUNK_ITEM))
        k = rng.choice(KINDS)
        if k != 'time':
            w = CLS[k](rng.choice([z for z in rng.choice(POOL[k]) if not isinstance(z, list)]))
            out.append(compare('transformation and %s' % k, v, i, w, item(k, w.tag, 24)))
        self.ev.append(dict(op='part', x=x, r=r, cmp=fresh(out), ord=[]))


def transformations(rng, length):
    h = Transformations(rng)
    for _ in range(length):
        h.step()
    return h


def main():
    j = job()
    rng = random.Random(j['seed'])
    out = Writer()
    for n, p in enumerate(j['paths']):
        for kind in (KINDS if j['all'] else rng.sample(KINDS, 4)):
            h = replay(rng, kind, p['ops'])
            out.history('model-%s-%d' % (kind, n), {}, h.ev)
    for n in range(j['random']):
        h = rng.choice([random_history]*4 + [transformations])(rng, j['length'])
        out.history('random-%d-%d' % (j['seed'], n), {}, h.ev)
    out.close()


if __name__ == '__main__':
    main()
