"""
Runs histories of operations on layer trees in the real code and records
them (see spec/Tree.tla for the meaning of each operation).
"""
import os, random
from drv import *
from sample import canvas_attrs

LEAF = ['circle', 'rectangle', 'text', 'star', 'blur', 'SolidColor', 'linear_gradient', 'region', 'translate']
NEW = [L.Circle, L.Rectangle, L.Text, L.Star, L.Blur, L.Solid_Color, L.Rotate, L.Timeloop, L.Simple_Circle]


def leaf_text(name, desc, rng):
    p = [param('z_depth', el('real', {'value': '0.0'})), param('amount', el('real', {'value': '1.0'}))]
    if rng.random() < 0.2:
        # things inside a layer which look like other things
        p.append(param('bline', el('bline', {'type': 'bline_point', 'loop': 'true'}, el('entry', None, el('canvas')))))
    t = rng.choice(LEAF)
    if t == 'text':
        p.append(param('text', el('string', None, text=rng.choice(['words', 'words of ' + name]))))
    return layer(t, *p, desc=desc)


class History:
    def __init__(self, rng, anims, groups, leaves, kids0):
        self.rng = rng
        self.anims, self.groups, self.leaves = anims, groups, leaves
        self.ev = []
        self.alike = rng.random() < 0.6
        self.objs = {}
        self.doc = {}
        self.header = {}
        cfg = dict(anims=anims, groups=groups, leaves=leaves, kids={k: kids0.get(k, []) for k in anims+groups})
        self.cfg = cfg
        for a in anims:
            self.start(a, kids0)
        inside = {x for v in kids0.values() for x in v}
        for x in groups+leaves:
            if x not in self.objs:
                self.create(x, kids0)
        self.first = {x: self.own(x) for x in self.objs}

    def text_of(self, x, kids0):
        if x in self.groups:
            inner = ''.join(self.text_of(y, kids0) for y in reversed(kids0.get(x, [])))
            if self.rng.random() < 0.3:
                inner = '\n <!-- a comment -->\n' + inner
            text = group(inner, desc=self.desc_of(x), type_=self.rng.choice(['group', 'Group', 'GROUP']),
                         active=self.rng.choice(['true', 'true', 'false', None]), exclude_from_rendering=self.rng.choice(['false', 'true']))
            at = canvas_attrs(self.rng)
            if at:
                i = text.index('<canvas') + len('<canvas')
                text = text[:i] + attrs(at) + text[i:]
            return text
        return leaf_text(x, self.desc_of(x), self.rng)

    def desc_of(self, x):
        # nothing about a layer need tell it from the others
        return self.rng.choice([x, 'same', 'same', None, '']) if self.alike else x

    def order(self, xs, kids0):
        """The layers in and below xs, in the order of the file."""
        out = []
        for x in reversed(xs):
            out.append(x)
            out += self.order(kids0.get(x, []), kids0)
        return out

    def start(self, a, kids0):
        if not kids0.get(a) and self.rng.random() < 0.4:
            self.doc[a] = sangfroid.Animation()
        else:
            head = self.rng.choice(['', '<desc>words</desc>\n<!-- note -->\n', '<bones><bone/></bones>\n',
                                    '<meta name="grid_show" content="0"/>\n<keyframe time="0f" active="true">start</keyframe>\n'])
            body = '\n'.join(self.text_of(x, kids0) for x in reversed(kids0.get(a, [])))
            self.doc[a] = open_text(document(body, head=head), self.rng.choice(['.sif', '.sifz']))
        self.header[a] = self.heads(a)
        self.fetch(a, self.order(kids0.get(a, []), kids0))

    def heads(self, a):
        out = []
        for t in self.doc[a].tag.children:
            if isinstance(t, bs4.Tag):
                if t.name == 'layer':
                    break
                out.append(str(t))
        return out

    def fetch(self, a, names):
        """Wrappers for the layers in a document, found without the library."""
        ts = self.doc[a].tag.find_all('layer')
        if len(ts) != len(names):
            ts = []                 # the observations will show it
        for t, x in zip(ts, names):
            if x in self.groups+self.leaves:
                self.objs[x] = L.Layer.from_tag(t)

    def create(self, x, kids0):
        o = L.Group() if x in self.groups else self.rng.choice(NEW)()
        o.desc = self.desc_of(x)
        self.objs[x] = o
        for y in kids0.get(x, []):
            self.create(y, kids0)
            o.append(self.objs[y])

    def own(self, x):
        """All of a layer but the layers inside it."""
        def tree(t):
            return [t.name, sorted((str(a), str(b)) for a, b in t.attrs.items()),
                    [tree(k) if isinstance(k, bs4.Tag) else str(k) for k in t.contents
                     if (k.name != 'layer' if isinstance(k, bs4.Tag) else str(k).strip() and not isinstance(k, bs4.Comment))]]
        return tree(self.objs[x].tag)

    def container(self, k):
        return self.doc[k] if k in self.doc else self.obj(k)

    def obj(self, x):
        o = self.objs[x]
        if self.rng.random() < 0.3:
            o = type(o)(o.tag) if not isinstance(o, sangfroid.Animation) else o   # another wrapper
        return o

    def do(self, e):
        e = dict(e)
        op = e['op']
        if op == 'append':
            r, _ = call(lambda: self.container(e['k']).append(self.obj(e['x'])))
        elif op == 'insert':
            r, _ = call(lambda: self.container(e['k']).insert(e['i'], self.obj(e['x'])))
        elif op == 'assign':
            def f():
                xs = [self.obj(x) for x in e['xs']]
                m = self.rng.randrange(4)
                k = self.container(e['k'])
                if m == 0:
                    k.canvas = xs
                elif m == 1:
                    k.canvas.value = tuple(xs)
                elif m == 2:
                    k['canvas'] = xs
                else:
                    k['canvas'].value = iter(xs)
            r, _ = call(f)
        elif op == 'appendleaf':
            r, _ = call(lambda: self.obj(e['x']).append(self.obj(e['y'])))
        elif op == 'badlayer':
            k = self.container(e['k'])
            thing = {'none': None, 'text': 'circle', 'tag': lambda: None, 'anim': sangfroid.Animation(),
                     'class': L.Circle, 'list': [L.Circle()], 'bs4': L.Circle().tag,
                     'self': self.doc[self.anims[0]]}[e['what']]
            if e['how'] == 'append' or len(k) == 0:
                r, _ = call(lambda: k.append(thing))
            else:
                r, _ = call(lambda: k.insert(0, thing))
        elif op == 'badindex':
            k = self.container(e['k'])
            idx = {'text': 'z', 'none': None, 'float': 0.0, 'slice': slice(0, 1)}[e['what']]
            r, _ = call(lambda: k.insert(idx, L.Circle()))
        elif op == 'badcanvas':
            def g():
                self.container(e['k']).canvas = {'mixed': [L.Circle(), 'no'], 'number': 5, 'text': 'circle',
                                                 'tag': [L.Circle().tag], 'anim': [sangfroid.Animation()],
                                                 'self': [L.Circle(), self.doc[self.anims[0]]], 'none': None}[e['what']]
            r, _ = call(g)
        elif op == 'read':
            def g():
                k = self.container(e['k'])
                repr(k), list(k.descendants), k.find_all(True), k.find('circle'), list(k.keys()), len(k)
                for x in k:
                    repr(x), x.parent, len(x), list(x), x.tag_depth
            r, _ = call(g)
        elif op == 'reload':
            def g():
                a = self.doc[e['k']]
                n = 'tmp' + e['ext']
                names = self.below(e['k'])
                a.save(n)
                self.doc[e['k']] = sangfroid.open(n)
                os.unlink(n)
                self.fetch(e['k'], names)
            r, _ = call(g)
        elif op == 'rename':
            r = 'ok'
            call(lambda: setattr(self.doc[e['k']], 'name', 'hello & goodbye'))
            if self.header[e['k']]:
                self.header[e['k']] = self.heads(e['k'])
        else:
            raise KeyError(op)
        e['r'] = r
        e['altered'] = sorted(x for x in self.objs if self.own(x) != self.first.setdefault(x, self.own(x)))
        e['obs'] = {k: self.observe(k) for k in self.anims+self.groups}
        e['parents'] = {x: self.parent(x) for x in self.groups+self.leaves}
        e['tags'] = {x: self.place(x) for x in self.groups+self.leaves}
        e['all'] = {k: self.below(k) for k in self.anims+self.groups}
        self.ev.append(e)

    def name(self, o):
        return self.name_of(o.tag)

    def name_of(self, t):
        for x, o in self.objs.items():
            if o.tag is t:
                return x
        return '?%s' % (t.get('desc'),)

    def parent(self, x):
        r, p = call(lambda: self.objs[x].parent)
        if r != 'ok':
            return '!'+r
        return 'none' if p is None else self.name(p)

    def place(self, x):
        """Where the layer's tag is, according to the tree."""
        t = self.objs[x].tag
        if t.parent is None:
            return 'none'
        for a in self.anims:
            if t.parent is self.doc[a].tag:
                return a
        p = t.parent
        if p.name == 'canvas' and p.parent is not None and p.parent.name == 'param' and p.parent.get('name') == 'canvas':
            for g in self.groups:
                if self.objs[g].tag is p.parent.parent:
                    return g
        return '?'

    def below(self, k):
        t = self.container(k).tag
        return [self.name_of(x) for x in t.find_all('layer')]

    def canvas(self, k):
        if k in self.doc:
            return self.doc[k].tag
        for p in kids(self.objs[k].tag):
            if p.name == 'param' and p.get('name') == 'canvas':
                return kids(p)[0]

    def observe(self, k):
        g = self.doc[k] if k in self.doc else self.objs[k]
        o = dict(children=['?'], iter=['?'], index=['?'], negative=['?'], len=-1, beyond='', before='', xml=['?'], header=True)
        try:
            o['children'] = [self.name(x) for x in g.children]
            o['iter'] = [self.name(x) for x in g]
            n = len(o['children'])
            o['len'] = len(g)
            o['index'] = [self.name(g[i]) for i in range(n)]
            o['negative'] = [self.name(g[i-n]) for i in range(n)]
            o['beyond'] = call(lambda: g[n])[0]
            o['before'] = call(lambda: g[-n-1])[0]
        except Exception as x:
            o['error'] = repr(x)[:200]
        o['xml'] = [self.name_of(t) for t in kids(self.canvas(k)) if t.name == 'layer']
        o['canvas'] = o['xml']
        if k not in self.doc and all(t.name == 'layer' for t in kids(self.canvas(k))):
            o['canvas'] = call(lambda: [self.name(x) for x in g.canvas.value])[1] or []
        if k in self.doc:
            o['header'] = (self.heads(k) == self.header[k] and
                           all(t.name == 'layer' for t in kids(self.doc[k].tag)[len(self.header[k]):]))
        return o


def rand_op(rng, h):
    k = rng.choice(h.anims+h.groups)
    x = rng.choice(h.groups+h.leaves)
    n = len(h.ev[-1]['obs'][k]['xml']) if h.ev else 2
    ops = [(10, dict(op='append', k=k, x=x)),
           (14, dict(op='insert', k=k, x=x, i=rng.choice(list(range(-n, n)) or [0]) if rng.random() < 0.9 else rng.choice([n, -n-1, 99, -99]))),
           (2, dict(op='assign', k=rng.choice(h.groups), xs=rng.sample(h.groups+h.leaves, rng.randrange(4)))),
           (1, dict(op='appendleaf', x=rng.choice(h.leaves), y=x)),
           (1, dict(op='badlayer', k=k, how=rng.choice(['append', 'insert']),
                    what=rng.choice(['none', 'text', 'tag', 'anim', 'class', 'list', 'bs4', 'self']))),
           (1, dict(op='badindex', k=k, what=rng.choice(['text', 'none', 'float', 'slice']))),
           (1, dict(op='badcanvas', k=rng.choice(h.groups), what=rng.choice(['mixed', 'number', 'text', 'tag', 'anim', 'self', 'none']))),
           (1, dict(op='read', k=k)),
           (1, dict(op='reload', k=rng.choice(h.anims), ext=rng.choice(['.sif', '.sifz']))),
           (0.5, dict(op='rename', k=rng.choice(h.anims)))]
    return rng.choices([o for _, o in ops], [w for w, _ in ops])[0]


def main():
    j = job()
    rng = random.Random(j['seed'])
    out = Writer()
    for n, p in enumerate(j.get('paths', [])):
        h = History(rng, ['A'], ['g', 'h'], ['x'], {})
        for e in p['ops']:
            h.do(e)
        out.history('model-%d' % n, h.cfg, h.ev)
    for n in range(j['random']):
        big = rng.random() < 0.3
        groups = ['g%d' % i for i in range(1, 6 if big else 4)]
        leaves = ['x%d' % i for i in range(1, 9 if big else 5)]
        anims = ['A', 'B'] if rng.random() < 0.5 else ['A']
        kids0 = {}
        placed = list(anims)
        for x in groups+leaves:
            if rng.random() < 0.8:
                kids0.setdefault(rng.choice(placed), []).append(x)
            if x in groups:
                placed.append(x)
        h = History(rng, anims, groups, leaves, kids0)
        for _ in range(j['length']):
            h.do(rand_op(rng, h))
        out.history('random-%d' % n, h.cfg, h.ev)
    out.close()


main()
