"""Layers as mappings, and values as collections (see spec/Views.tla)."""
import os, random
from drv import *
from sample import rand_layer, VALUES, animated
from drive_values import num, from_xml, EL

PART_KINDS = dict(offset='vector', angle='angle', skew_angle='angle', scale='vector')
NEW = [L.Circle, L.Rectangle, L.Text, L.Star, L.Blur, L.Rotate, L.Group, L.Outline if hasattr(L, 'Outline') else L.Circle, L.Timeloop]


def own(t):
    return [p for p in kids(t) if p.name == 'param']


def tree(t):
    """A parameter, less the layers inside it."""
    return [t.name, sorted((str(a), str(b)) for a, b in t.attrs.items()),
            [tree(k) if isinstance(k, bs4.Tag) else str(k) for k in t.contents
             if (k.name != 'layer' if isinstance(k, bs4.Tag) else t.name == 'string' or str(k).strip())]]


class History:
    def __init__(self, rng, texts, names=None, loose=()):
        """texts: animation -> its layers as text; names: of the layers, by description"""
        self.rng = rng
        self.doc, self.tags, self.ids = {}, {}, {}
        self.ev = []
        for a, ls in texts.items():
            self.doc[a] = open_text(document(*ls, fps=rng.choice(['24.000', '25', '30'])), rng.choice(['.sif', '.sifz']))
            for t in self.doc[a].tag.find_all('layer'):
                x = t['desc'] if names else 'L%d' % len(self.tags)
                self.tags[x] = t
        for o in loose:
            self.tags['L%d' % len(self.tags)] = o.tag
        self.cfg = dict(roots=sorted(self.doc), own={x: [p['name'] for p in own(t)] for x, t in self.tags.items()},
                        blank=[x for x, t in self.tags.items() if any(len(kids(p)) != 1 for p in own(t))],
                        start={k: self.inside(k) for k in self.containers()})
        self.names = sorted({n for q in self.cfg['own'].values() for n in q})
        self.before = self.contents()

    def containers(self):
        return sorted(self.doc) + sorted(x for x, t in self.tags.items() if t['type'].lower() == 'group')

    def canvas(self, k):
        if k in self.doc:
            return self.doc[k].tag
        for p in own(self.tags[k]):
            if p['name'] == 'canvas':
                return kids(p)[0]

    def inside(self, k):
        return [self.name(t) for t in kids(self.canvas(k)) if t.name == 'layer']

    def name(self, t):
        for x, u in self.tags.items():
            if u is t:
                return x
        return '?'

    def wrapper(self, l):
        return self.doc[l] if l in self.doc else L.Layer.from_tag(self.tags[l])

    def pid(self, value):
        """The parameter that a value object belongs to."""
        p = value.tag.parent
        if p is None or p.name != 'param':
            return ['?', str(p and p.name)]
        return [self.name(p.parent), p['name']]

    def contents(self):
        return {(x, p['name']): tree(p) for x, t in self.tags.items() for p in own(t)}

    def obs(self, l, some):
        w = self.wrapper(l)
        t = self.doc[l].tag if l in self.doc else self.tags[l]
        o = dict(xml=[p['name'] for p in own(t)], keys=['?'], values=[['?']], items=[['?']], has={}, sub={})

        def put(k, f):
            r, v = call(f)
            o[k] = v if r == 'ok' else ['!' + r]
        put('keys', lambda: list(w.keys()))
        if l not in self.cfg['blank']:
            put('values', lambda: [self.pid(v) for v in w.values()])
            put('items', lambda: [[n, self.pid(v)] for n, v in w.items()])
        blank = {(x, p['name']) for x in self.cfg['blank'] for p in own(self.tags[x]) if len(kids(p)) != 1}
        for n in some:
            o['has'][n] = bool(n in w)
            if n not in {b[1] for b in blank}:
                r, v = call(lambda: self.pid(w[n]))
                o['sub'][n] = v if r == 'ok' else [r]
        return o

    def do(self, e):
        rng = self.rng
        e = dict(e)
        op = e['op']
        if op == 'set':
            w = self.wrapper(e['l'])
            old = call(lambda: w[e['n']])[1]

            def f():
                w[e['n']] = self.fitting(old)
            e['r'], _ = call(f)
        elif op == 'move':
            e['r'], _ = call(lambda: self.wrapper(e['k']).append(self.wrapper(e['x'])))
        elif op == 'reload':
            def f():
                for a in self.doc:
                    names = [self.name(t) for t in self.doc[a].tag.find_all('layer')]
                    n = 'v%d%s' % (os.getpid(), rng.choice(['.sif', '.sifz']))
                    self.doc[a].save(n)
                    self.doc[a] = sangfroid.open(n)
                    os.unlink(n)
                    self.tags.update(zip(names, self.doc[a].tag.find_all('layer')))
            e['r'], _ = call(f)
        elif op in ('vector', 'parts', 'expr'):
            e['r'] = 'ok'
        now = self.contents()
        e['changed'] = [list(p) for p in now if now[p] != self.before.get(p)]
        self.before = now
        ls = sorted(self.doc) + sorted(self.tags)
        ls = ls if len(ls) <= 5 else rng.sample(ls, 3)
        for k in ('l', 'x', 'k'):
            if k in e and e[k] not in ls:
                ls.append(e[k])
        some = rng.sample(self.names, min(5, len(self.names))) + rng.sample(['zz', '', 'Canvas', 'param', 'x', 'color ', 'desc', 'name', 'type', 'layer', 'value'], 2)
        some = sorted(set(some + ([e['n']] if 'n' in e else [])))
        e['obs'] = {l: self.obs(l, some) for l in ls}
        self.ev.append(e)

    def fitting(self, old):
        rng = self.rng
        kind = type(old).__name__
        x = rng.choice([0.5, -2.0, 7.25, 100.0])
        v = {'Real': x, 'Angle': x, 'Integer': int(x), 'BlendMethod': 4, 'Bool': rng.random() < 0.5, 'Time': '%df' % abs(int(x)),
             'Color': rng.choice(['#ff0000', (0.0, 0.5, 1.0, 0.25)]), 'X_Y': (x, 1.0), 'String': 'text %s' % x,
             'Gradient': {0.0: '#000000', 1.0: rng.choice(['#ff0000', '#00ff00'])}, 'Transformation': {'angle': x}}.get(kind, x)
        if kind in ('Real', 'Angle', 'Integer', 'Color', 'X_Y', 'String', 'Gradient') and rng.random() < 0.3:
            v = type(old)(v)
        return v

    # ---- single values

    def look(self):
        """A look at a value in one of the layers."""
        rng = self.rng
        ps = []
        for x, t in self.tags.items():
            for p in own(t):
                if len(kids(p)) == 1:
                    ps.append((x, p['name'], kids(p)[0]))
        vs = [q for q in ps if q[2].name == 'vector']
        ts = [q for q in ps if q[2].name == 'composite']
        r = rng.random()
        if r < 0.3 and vs:
            x, n, t = rng.choice(vs)
            v = self.wrapper(x)[n]
            self.do(dict(op='vector', l=x, n=n, v=from_xml('vector', t, 24), o=vector_views(rng, v)))
        elif r < 0.5 and ts:
            x, n, t = rng.choice(ts)
            v = self.wrapper(x)[n]
            self.do(dict(op='parts', l=x, n=n, o=parts_views(rng, v, t)))
        else:
            ps = [q for q in ps if q[2].name in KIND]
            if not ps:
                return self.do(dict(op='reload'))
            q = rng.choice(ts) if rng.random() < 0.2 and ts else rng.choice(ps)
            e = self.expression(*q)
            self.do(e or dict(op='reload'))

    def expression(self, x, n, t):
        v = self.wrapper(x)[n]
        fps = 24
        kind = KIND.get(t.name)
        if t.name == 'composite':
            ks = kids(t)
            if any(kids(k)[0].name == 'animated' for k in ks):
                return None
            want = [from_xml(PART_KINDS[p], kids([k for k in ks if k.name == p][0])[0], fps) for p in sorted(PART_KINDS)]
        else:
            want = [from_xml(kind, t, fps)]
            if kind == 'time' and (time_frames(t['value'], fps) is None or time_frames(t['value'], fps) >= 20):
                return None
            if n == 'blend_method':
                v = V.BlendMethod(v.value)

        def f():
            text = v.as_python_expression()
            w = type(v)(eval(str(text), {'v': V}))
            if t.name == 'composite':
                return [from_xml(PART_KINDS[p], kids([k for k in kids(w.tag) if k.name == p][0])[0], fps) for p in sorted(PART_KINDS)]
            return [from_xml(kind, w.tag, fps)]
        r, got = call_any(f)
        return dict(op='expr', l=x, n=n, want=want, got=got if r == 'ok' else [], why=r)


KIND = {v: k for k, v in EL.items() if k not in ('blend', 'transformation')}


def call_any(f):
    try:
        return 'ok', f()
    except Exception as x:
        return repr(x)[:200], None


def vector_views(rng, v):
    o = {}

    def fl(x):
        return num('%.10f' % x) if isinstance(x, (int, float)) else dict(k='!', what=repr(x)[:50])

    def put(k, f, bad):
        r, x = call(f)
        o[k] = x if r == 'ok' else bad
    put('len', lambda: len(v), -1)
    put('keys', lambda: list(v.keys()), [])
    put('values', lambda: [fl(x) for x in v.values()], [])
    put('items', lambda: [fl(x) for _, x in v.items()], [])
    put('names', lambda: [n for n, _ in v.items()], [])
    put('iter', lambda: [fl(x) for x in v], [])
    put('tuple', lambda: [fl(x) for x in v.as_tuple()], [])
    put('sub', lambda: [fl(v['x']), fl(v['y'])], [])
    put('attr', lambda: [fl(v.x), fl(v.y)], [])
    put('get', lambda: [fl(v.get('x')), fl(v.get('y', 99))], [])
    o['at'] = []
    for j in (-4, -3, -2, -1, 0, 1, 2, 3):
        r, x = call(lambda: v[j])
        o['at'].append(dict(j=j, v=fl(x) if r == 'ok' else dict(k='!', what=r)))
    bad = rng.choice(['z', 'w', 'X', 'value', 'xy', 'vector'])
    o['miss'] = [call(lambda: v[bad])[0], call(lambda: getattr(v, rng.choice(['zz', 'X', 'Y', 'z', 'xy'])))[0], str(call(lambda: v.get(bad))[1]), str(call(lambda: v.get(bad, 7))[1])]
    return o


def parts_views(rng, v, t):
    o = dict(xml=[k.name for k in kids(t)])

    def part(x):
        p = x.tag.parent
        return p.name if p is not None and p.parent is t else '?'

    def put(k, f, bad):
        r, x = call(f)
        o[k] = x if r == 'ok' else bad
    put('len', lambda: len(v), -1)
    put('keys', lambda: list(v.keys()), [])
    put('values', lambda: [part(x) for x in v.values()], [])
    put('items', lambda: [[n, part(x)] for n, x in v.items()], [])
    for k, f in dict(sub=lambda n: v[n], attr=lambda n: getattr(v, n), get=lambda n: v.get(n)).items():
        o[k] = {n: call_any(lambda: part(f(n)))[1] or '?' for n in PART_KINDS}
    bad = rng.choice(['zz', 'skew', 'x', 'Angle', 'offset_angle', 'vector'])
    o['miss'] = [call(lambda: v[bad])[0], call(lambda: getattr(v, bad))[0], str(call(lambda: v.get(bad))[1]), str(call(lambda: v.get(bad, 7))[1])]
    return o


def rand_docs(rng):
    def docs():
        ls = [rand_layer(rng, depth=2) for _ in range(rng.choice([1, 2, 3]))]
        if rng.random() < 0.5:
            inner = [rand_layer(rng, depth=1) for _ in range(rng.choice([0, 1, 2]))]
            ps = [param('z_depth', VALUES['real'](rng)), param('radius', VALUES['real'](rng)), param('time', VALUES['time'](rng)),
                  param('transformation', transformation_el((rng.choice([0, 1.5]), rng.choice([-2, 0.25])), rng.choice([0, 30, 12.345678]), rng.choice([0, -7.5]), (2, rng.choice([1, 0.5])))),
                  param('origin', VALUES['vector'](rng)), param('blend_method', el('integer', {'value': str(rng.randrange(24)), 'static': 'true'}))]
            ps = rng.sample(ps, rng.randrange(1, len(ps)+1))
            ps.insert(rng.randrange(len(ps)+1), param('canvas', el('canvas', None, '\n', *inner)))
            ls.insert(rng.randrange(len(ls)+1), layer('group', *ps, desc='outer'))
        if rng.random() < 0.15:
            ls.insert(rng.randrange(len(ls)+1), layer('duplicate', '<param name="index" use="Index 1"/>', param('amount', VALUES['real'](rng)),
                                                      param('blend_method', el('integer', {'value': '0'}))))
        return ls
    return {a: docs() for a in (['A', 'B'] if rng.random() < 0.4 else ['A'])}


def model_docs(rng):
    def re(n):
        return param(n, rng.choice([VALUES['real'], lambda r: animated(r, 'real')])(rng))
    h = layer('group', param('canvas', el('canvas')), re('a'), desc='h')
    x = layer('circle', re('a'), re('c'), desc='x')
    g = layer('group', re('a'), param('canvas', el('canvas', None, h, x)), re('b'), desc='g')
    y = layer('circle', re('b'), re('c'), desc='y')
    return {'A': [g, y]}


def main():
    j = job()
    rng = random.Random(j['seed'])
    out = Writer()
    for n, p in enumerate(j['paths']):
        h = History(rng, model_docs(rng), names=True)
        for e in p['ops']:
            h.do(e)
        out.history('model-%d' % n, h.cfg, h.ev)
    for n in range(j['random']):
        h = History(rng, rand_docs(rng), loose=[c() for c in rng.sample(NEW, rng.choice([0, 1, 2]))])
        for _ in range(j['length']):
            l = rng.choice(sorted(h.doc) + sorted(h.tags))
            r = rng.random()
            if r < 0.4:
                ns = [q for q in h.names if q not in ('canvas', 'bline', 'index', 'segment_list', 'vector_list')]
                h.do(dict(op='set', l=l, n=rng.choice(ns) if ns and rng.random() < 0.9 else rng.choice(['zz', 'Amount', '', 'desc', 'x'])))
            elif r < 0.55 and h.tags:
                h.do(dict(op='move', k=rng.choice(h.containers()), x=rng.choice(sorted(h.tags))))
            elif r < 0.6:
                h.do(dict(op='reload'))
            else:
                h.look()
        out.history('random-%d-%d' % (j['seed'], n), h.cfg, h.ev)
    out.close()


main()
