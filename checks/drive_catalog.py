"""Makes, changes and reloads layers of every type (see spec/Catalog.tla)."""
import os, random
from drv import *
from sangfroid.layer.layer import Layer

KIND = [(V.Bool, 'bool'), (V.Integer, 'integer'), (V.Angle, 'angle'), (V.Real, 'real'), (V.Time, 'time'), (V.Color, 'color'), (V.Gradient, 'gradient'),
        (V.String, 'string'), (V.Transformation, 'composite'), (V.Canvas, 'canvas'), (V.Vector, 'vector')]


def text_of(tag):
    if tag.name == 'canvas':
        return 'canvas %d' % len([k for k in kids(tag) if k.name == 'layer'])
    return tag.name + ' ' + canon(tag, 24)


def api_text(v):
    for c, k in KIND:
        if isinstance(v, c):
            if k == 'canvas':
                return 'canvas %d' % len([t for t in kids(v.tag) if t.name == 'layer'])
            return k + ' ' + api_canon(v)
    return '?' + type(v).__name__


def spelling(rng, name):
    s = ''.join(rng.choice([c.upper(), c.lower()]) for c in name.replace('_', ''))
    out = ''
    for c in s:
        if rng.random() < 0.15:
            out += '_'*rng.choice([1, 1, 2])
        out += c
    return rng.choice([name, name.upper(), name.title(), s, out, out + '_', '_' + s])


class History:
    def __init__(self, rng, cat):
        self.rng, self.cat = rng, cat
        self.anim = open_text(document(group(desc='home'), layer('circle', param('radius', el('real', {'value': '1'})), desc='resident')))
        # layers which were there before, and say little
        self.bystanders = [Layer.from_tag(t) for t in open_text(document(*['<layer type="%s"/>' % x for x in ('circle', 'group', 'text', 'timeloop', 'switch')])).tag.find_all('layer')]
        self.cfg = dict(others=self.others())
        self.loose, self.placed, self.t, self.old = {}, set(), {}, 0
        self.ev = []

    def get(self, x):
        return self.anim.find(desc=x) if x in self.placed else self.loose[x]

    def others(self):
        return ['%s %s' % (type(l).__name__, [(n, repr(call(getattr, l, n))) for n in ('type_', 'version', 'active', 'exclude_from_rendering', 'desc',
                'amount', 'z_depth', 'parent')] + [sorted(l.keys()), str(l.tag)]) for l in self.bystanders]

    def element(self, x):
        if x in self.placed:
            return [t for t in self.anim.tag.find_all('layer') if t.get('desc') == x][0]
        return self.loose[x].tag

    def make(self, e):
        x, t = e['x'], e['t']
        c = self.cat[t]
        if x in self.placed:
            self.old += 1
            self.get(x).desc = 'old%d' % self.old
            self.placed.discard(x)
        self.loose.pop(x, None)
        self.t.pop(x, None)
        if self.rng.random() < 0.5:
            l = getattr(L, c['cls'])()
        else:
            l = Layer.handles_type.from_name(spelling(self.rng, c['type']))()
        self.t[x] = t
        r = self.rng.random()
        if r < 0.3:
            self.loose[x] = l
        else:
            l.desc = x
            (self.anim if r < 0.7 else self.anim.find(desc='home')).append(l)
            self.placed.add(x)

    def do(self, e):
        e = dict(e)
        op, rng = e['op'], self.rng
        if op == 'make':
            e['r'], _ = call(self.make, e)
        elif op == 'set':
            val = e.pop('py')
            l = self.get(e['x'])
            n = e['n']
            r = rng.random()
            if r < 0.4:
                e['r'], _ = call(lambda: l.__setitem__(n, val))
            elif r < 0.8:
                e['r'], _ = call(lambda: setattr(l, 'type_' if n == 'type' else n, val))
            else:
                e['r'], _ = call(lambda: setattr(l[n], 'value', val))
        elif op == 'reload':
            name = 'c%d%s' % (os.getpid(), rng.choice(['.sif', '.sifz']))

            def f():
                for x in list(self.loose):
                    if rng.random() < 0.5:
                        l = self.loose.pop(x)
                        l.desc = x
                        self.anim.append(l)
                        self.placed.add(x)
                self.anim.save(name)
                self.anim = sangfroid.open(name)
                os.unlink(name)
            e['r'], _ = call(f)
        elif op == 'name':
            nm = ''.join(e['name'])
            if rng.random() < 0.5:
                e['r'], c = call(lambda: Layer.handles_type.from_name(nm))
                e['cls'] = c.__name__ if e['r'] == 'ok' else ''
            else:
                a = open_text(document(layer(nm, desc='x')))
                e['r'], c = call(lambda: rng.choice([lambda: list(a.children), lambda: a.find_all()])()[0])
                e['cls'] = type(c).__name__ if e['r'] == 'ok' else ''
        e['obs'] = {x: self.obs(x) for x in self.t}
        now = self.others()
        e['others'] = next((x + '  was  ' + y for x, y in zip(now, self.cfg['others']) if x != y), 'same')
        self.ev.append(e)

    def obs(self, x):
        o = dict(cls='?', type='?', version='?', active='?', exclude='?', xml={}, item={}, attr={}, keys=False, twice=False)
        try:
            t = self.element(x)
            o['type'], o['version'] = t.get('type', '?'), str(t.get('version', '?'))
            o['active'], o['exclude'] = t.get('active', '?'), t.get('exclude_from_rendering', '?')
            names = []
            for p in kids(t):
                if p.name == 'param':
                    k = kids(p)
                    names.append(p['name'])
                    o['xml'][p['name']] = text_of(k[0]) if len(k) == 1 else '?'
            o['twice'] = len(set(names)) < len(names)
            l = self.get(x)
            o['cls'] = type(l).__name__
            o['keys'] = sorted(l.keys()) == sorted(names)
            for n in names:
                if x in self.loose and o['xml'][n].startswith('time'):
                    continue
                for w, f in (('item', lambda: l[n]), ('attr', lambda: getattr(l, 'type_' if n == 'type' else n))):
                    try:
                        o[w][n] = api_text(f())
                    except Exception as q:
                        o[w][n] = '!' + type(q).__name__
        except Exception as q:
            o['error'] = repr(q)[:300]
        return o


def rand_value(rng, kind):
    """(python value, kind and value as text)"""
    if kind == 'real':
        v = rng.choice([0.0, 1.0, 2.5, -3.25, 100.0, 0.1])
        return v, 'real ' + fdec(v, 10)
    if kind == 'integer':
        v = rng.choice([0, 1, 2, 3, 7, 20])
        return v, 'integer %d' % v
    if kind == 'bool':
        v = rng.choice([True, False])
        return v, 'bool ' + str(v).lower()
    if kind == 'angle':
        v = rng.choice([0.0, 45.0, -90.0, 12.5])
        return v, 'angle ' + fdec(v, 6)
    if kind == 'color':
        v = rng.choice([(1.0, 0.0, 0.5, 1.0), (0.25, 0.5, 0.75, 0.5), (0.0, 0.0, 0.0, 0.0)])
        return v, 'color c' + ','.join(fdec(x, 6) for x in v)
    if kind == 'vector':
        v = (rng.choice([0.0, 1.5, -2.0]), rng.choice([0.25, 3.0, -1.0]))
        return v, 'vector xx=%s;y=%s' % (fdec(v[0], 10), fdec(v[1], 10))
    if kind == 'string':
        v = rng.choice(['', 'hello', 'a & b', ' x ', 'é\nz'])
        return v, 'string s' + v
    if kind == 'gradient':
        return {0.0: (1.0, 0.0, 0.0), 0.5: (0.0, 1.0, 0.0), 1.0: (0.0, 0.0, 1.0, 0.5)}, 'gradient g0:c1,0,0,1;0.5:c0,1,0,1;1:c0,0,1,0.5'
    return None


PYVAL = {'real 2.5': 2.5, 'integer 3': 3, 'bool false': False, 'color c0,0.25,0.5,1': (0.0, 0.25, 0.5), 'vector xx=1.5;y=-2': (1.5, -2.0),
         'angle 45': 45.0, 'string shello': 'hello'}


def set_event(rng, h, x, cat):
    ps = [p for p in cat[h.t[x]]['params'] if '[' not in p['name'] and rand_value(rng, p['kind'])]
    if not ps:
        return None
    p = rng.choice(ps)
    v, t = rand_value(rng, p['kind'])
    return dict(op='set', x=x, n=p['name'], v=t, py=v)


def rand_name(rng, cat, kept):
    t = rng.choice(sorted(cat))
    s = spelling(rng, cat[t]['type'])
    if rng.random() < 0.5:
        return s
    bad = rng.choice(['', 'bogus', 'layer', 'animation', 'canvas', 'root', s + 'x', s[:-1], s.replace('_', '-') + '-', s + ' ', ' ' + s, s + '\n', '_', 'circle.', 'text2', 'circlecircle', '0'])
    return bad


def main():
    j = job()
    rng = random.Random(j['seed'])
    cat = j['catalog']
    for c in cat.values():
        c['params'] = list(c['params'])
    out = Writer()
    for n, p in enumerate(j['paths']):
        h = History(rng, cat)
        for e in p['ops']:
            if e['op'] == 'set':
                e = dict(e, py=PYVAL[e['v']])
            h.do(e)
        out.history('model-%d' % n, h.cfg, h.ev)
    for t in j['types']:
        for rep in range(j['reps']):
            h = History(rng, cat)
            h.do(dict(op='make', x='1', t=t))
            if '1' not in h.t:              # could not be made: judged by the specification
                out.history('type-%s-%d' % (t, rep), h.cfg, h.ev)
                continue
            h.do(dict(op='reload'))
            for _ in range(6):
                e = set_event(rng, h, '1', cat)
                if e:
                    h.do(e)
            h.do(dict(op='make', x='2', t=t))
            h.do(dict(op='reload'))
            h.do(dict(op='make', x='1', t=t))
            h.do(dict(op='reload'))
            for _ in range(4):
                h.do(dict(op='name', name=list(spelling(rng, cat[t]['type']))))
            out.history('type-%s-%d' % (t, rep), h.cfg, h.ev)
    for n in range(j['random']):
        h = History(rng, cat)
        for _ in range(j['length']):
            r = rng.random()
            if r < 0.4 or not h.t:
                t = rng.choice([k for k in sorted(cat) if k != 'T_halftone3'])
                h.do(dict(op='make', x=rng.choice('1234'), t=t))
            elif r < 0.7:
                e = set_event(rng, h, rng.choice(sorted(h.t)), cat)
                if e:
                    h.do(e)
            elif r < 0.8:
                h.do(dict(op='reload'))
            else:
                nm = rand_name(rng, cat, h)
                if nm.lower().replace('_', '') != 'scale':
                    h.do(dict(op='name', name=list(nm)))
        out.history('random-%d-%d' % (j['seed'], n), h.cfg, h.ev)
    out.close()


main()
