"""Runs histories of operations on gradients (see spec/Gradient.tla)."""
import os, random
from drv import *

COL = {'c1': '#ff0000', 'c2': (0.0, 0.25, 0.5), 'c3': '00ff0080', 'c4': (0.123456, 0.654321, 1.0, 0.999999), 'c5': '#FFFFFF', 'c6': (0, 0, 0, 0),
       'c7': (0.0005, 0.2505, 0.5005), 'c8': (0.123, 0.654, 1.0, 0.9995)}
NEAR = dict(c2='c7', c7='c2', c4='c8', c8='c4')   # the same in hex
BADCOL = ['wombat', 5, None, [1.0, 0.0, 0.0], '#12345', (1.0, 2.0), ('a', 'b', 'c'), V.Real(1.0), object(), 0.5, '', {}]
POS = [0, 1000000, 250000, 500000, 750000, 333333, 1, 999999, 123456, 900000, 100000, 50, -500000, 1500000, 20000]


def ctext(x):
    if isinstance(x, str):
        s = x.lstrip('#')
        c = [int(s[i:i+2], 16)/255 for i in range(0, len(s), 2)]
    else:
        c = [float(y) for y in x]
    c += [1.0]*(4-len(c))
    return ','.join('%.6f' % y for y in c)


def pos(n, rng):
    x = n/1000000
    if x == int(x) and rng.random() < 0.3:
        return int(x)
    return x


def milli6(x):
    return int(round(float(x)*1000000))


class History:
    def __init__(self, rng, start, kinds=None):
        self.rng = rng
        self.ev = []
        self.where = {}
        ls, self.objs = [], {}
        for x, q in start.items():
            self.where[x] = (kinds or {}).get(x) or rng.choice(['static', 'static', 'animated', 'loose', 'waypoint'])
            if self.where[x] == 'animated':
                self.where[x] = 'static'
            g = el('gradient', None, *[color_el([float(y) for y in ctext(COL[c]).split(',')], pos=dec(p/1000000)) for p, c in sorted(q)])
            if self.where[x] == 'loose':
                self.objs[x] = V.Gradient({p/1000000: COL[c] for p, c in q})
            elif self.where[x] == 'waypoint':
                w = el('animated', {'type': 'gradient'}, el('waypoint', dict(time='0f', before='clamped', after='clamped'), g),
                       el('waypoint', dict(time='24f', before='clamped', after='clamped'), el('gradient', None, color_el((0, 0, 0, 1), pos='0.3'),
                          color_el((0, 0, 1, 1), pos='0.4'), color_el((0, 1, 1, 1), pos='0.8'))))
                ls.append(layer('linear_gradient', param('gradient', w), desc=x))
            else:
                ls.append(layer(rng.choice(['linear_gradient', 'radial_gradient', 'noise']), param('gradient', g), desc=x))
        if rng.random() < 0.5:
            ls = [group(*ls, desc='g')]
        self.anim = open_text(document(*ls))
        self.cfg = dict(start={x: [[p, ctext(COL[c])] for p, c in q] for x, q in start.items()}, where=self.where)

    def layer(self, x):
        return self.anim.find(desc=x)

    def value(self, x):
        if self.where[x] == 'loose':
            return self.objs[x]
        l = self.layer(x)
        v = l.gradient if self.rng.random() < 0.5 else l['gradient']
        if self.where[x] == 'waypoint':
            return list(v.timeline)[0].value
        return v

    def colour(self, c):
        if c == 'bad':
            return self.rng.choice(BADCOL)
        v = COL[c]
        r = self.rng.random()
        if r < 0.3:
            return V.Color(v)
        return v

    def element(self, x):
        if self.where[x] == 'loose':
            return self.objs[x].tag
        for t in self.anim.tag.find_all('layer'):
            if t.get('desc') == x:
                p = [k for k in kids(t) if k.name == 'param' and k['name'] == 'gradient'][0]
                e = kids(p)[0]
                if self.where[x] == 'waypoint':
                    if e.name != 'animated':
                        raise ValueError('not animated')
                    e = kids(kids(e)[0])[0]
                if e.name != 'gradient':
                    raise ValueError(e.name)
                return e

    def assign(self, x, val):
        """by any route"""
        r = self.rng.random()
        if self.where[x] != 'static' or r < 0.4:
            self.value(x).value = val
        elif r < 0.7:
            self.layer(x).gradient = val
        else:
            self.layer(x)['gradient'] = val

    def do(self, e):
        e = dict(e)
        op, x = e['op'], e.get('x')
        if op == 'whole':
            d = {pos(p, self.rng): self.colour(c) for p, c in e['q']}
            if self.where[x] == 'static' and self.rng.random() < 0.3:
                call(lambda: setattr(self.value(x), 'is_animated', True))
            if self.rng.random() < 0.3:
                e['r'], _ = call(lambda: self.assign(x, V.Gradient(d)))
            else:
                e['r'], _ = call(lambda: self.assign(x, d))
            call(lambda: setattr(self.value(x), 'is_animated', False))
            e['q'] = [[p, 'bad' if c == 'bad' else ctext(COL[c])] for p, c in e['q']]
        elif op == 'copy':
            e['r'], _ = call(lambda: self.assign(x, self.value(e['y'])))
        elif op == 'stop':
            e['r'], _ = call(lambda: self.value(x).__setitem__(pos(e['p'], self.rng), self.colour(e['c'])))
            e['c'] = 'bad' if e['c'] == 'bad' else ctext(COL[e['c']])
        elif op == 'get':
            e['r'], c = call(lambda: self.value(x)[pos(e['p'], self.rng)])
            e['c'] = ','.join('%.6f' % y for y in c.as_tuple()) if e['r'] == 'ok' else ''
        elif op == 'bad':
            val = self.rng.choice([5, None, 'wombat', [('#ffffff', 0)], {}, {0.5: '#ffffff'}, {0.0: '#ffffff', 'x': '#000000'}, V.Color('#ffffff'),
                                   V.Real(3.0), (), (1, 2), {0.0: '#ffffff', 1.0: None}, {None: '#ffffff', 1.0: '#ffffff'}])
            if self.rng.random() < 0.2:
                short = open_text(document(layer('linear_gradient', param('gradient', el('gradient', None, *[
                    color_el((1, 0, 0, 1), pos='0.5')]*self.rng.randrange(2)))))).find('linear_gradient').gradient
                e['r'], _ = call(self.rng.choice([lambda: short.value, lambda: list(short.items()), lambda: short[0.5], lambda: short.keys(),
                                                  lambda: setattr(self.value(x), 'value', short), lambda: len(short), lambda: list(short)]))
            elif self.rng.random() < 0.3:
                e['r'], _ = call(lambda: V.Gradient(val))
            elif self.rng.random() < 0.2:
                e['r'], _ = call(lambda: self.value(x).__setitem__('wombat', '#ffffff'))
            else:
                e['r'], _ = call(lambda: self.assign(x, val))
        elif op == 'reload':
            name = 'g%d.sif' % os.getpid()

            def f():
                self.anim.save(name)
                self.anim = sangfroid.open(name)
                os.unlink(name)
            e['r'], _ = call(f)
        elif op == 'read':
            def f():
                v = self.value(x)
                str(v), repr(v), v == v, v.as_python_expression(), len(v), list(v)
            e['r'], _ = call(f)
        e['obs'] = {y: self.obs(y) for y in self.where}
        self.ev.append(e)

    def obs(self, x):
        o = dict(xml=[], items=[], value=[], keys=[], vals=[], iter=[], got=[], len=-1, miss='')
        try:
            o['xml'] = [[milli6(k['pos']), ','.join('%.6f' % float(txt(c)) for c in kids(k))] for k in kids(self.element(x))
                        if k.name == 'color' and [c.name for c in kids(k)] == list('rgba')]
            v = self.value(x)
            t = lambda c: ','.join('%.6f' % y for y in c.as_tuple())
            o['len'] = len(v)
            o['items'] = [[milli6(p), t(c)] for p, c in v.items()]
            o['value'] = [[milli6(p), t(c)] for p, c in v.value.items()]
            o['keys'] = [milli6(p) for p in v.keys()]
            o['vals'] = [t(c) for c in v.values()]
            o['iter'] = [milli6(p) for p in v]
            o['got'] = [[milli6(p), t(v[p])] for p in v.keys()]
            o['miss'] = call(lambda: v[0.7654321])[0]
        except Exception as q:
            o['error'] = repr(q)[:200]
        return o


def rand_stops(rng, bad=False):
    n = rng.choice([2, 2, 3, 4, 7, 12])
    ps = rng.sample(POS, n)
    return [[p, rng.choice(sorted(COL))] for p in ps]


def main():
    j = job()
    rng = random.Random(j['seed'])
    out = Writer()
    for n, p in enumerate(j['paths']):
        h = History(rng, dict(a=[[0, 'c1'], [1000000, 'c2']], b=[[0, 'c1'], [1000000, 'c2']]))
        for e in p['ops']:
            h.do(e)
        out.history('model-%d' % n, h.cfg, h.ev)
    for n in range(j['random']):
        h = History(rng, {x: rand_stops(rng) for x in 'abc'})
        for _ in range(j['length']):
            x, y = rng.choice('abc'), rng.choice('abc')
            c = rng.choice(sorted(COL)) if rng.random() < 0.85 else 'bad'
            r = rng.random()
            if r < 0.3:
                q = rand_stops(rng)
                if rng.random() < 0.15:
                    rng.choice(q)[1] = 'bad'
                if rng.random() < 0.05:
                    q = q[:rng.randrange(2)]
                e = dict(op='whole', x=x, q=q)
            elif r < 0.42:
                e = dict(op='copy', x=x, y=y)
            elif r < 0.75:
                e = dict(op='stop', x=x, p=rng.choice(POS), c=c)
                if c in NEAR and rng.random() < 0.5:
                    h.do(e)
                    e = dict(e, c=NEAR[c])
            elif r < 0.83:
                e = dict(op='get', x=x, p=rng.choice(POS))
            elif r < 0.92:
                e = dict(op='bad', x=x)
            elif r < 0.96:
                e = dict(op='read', x=x)
            else:
                e = dict(op='reload', x=x)
            h.do(e)
        out.history('random-%d-%d' % (j['seed'], n), h.cfg, h.ev)
    out.close()


main()
