"""
Runs histories of edits, reads and refused calls in the real code, and
records which parts of which objects each of them changed (see
spec/Frame.tla).  The parts are found by walking the trees.
"""
import os, random
from drv import *
from reading import read_everything
from sample import rand_layer, canvas_attrs, VALUES
from xmlgen import rand_text, canon_soup, canon_bytes

W = V.Waypoint
CLASSES = dict(real=V.Real, angle=V.Angle, integer=V.Integer, bool=V.Bool, time=V.Time, color=V.Color, vector=V.X_Y,
               string=V.String, gradient=V.Gradient)


# ---- values ------------------------------------------------------------------

def good(r, kind):
    if kind == 'real':
        return r.choice([0, 1, -2.5, 0.1234567891, 1e6, '2.5', 1e-9, True])
    if kind == 'angle':
        return r.choice([0, 90.0, -45.5, 12.345678, 400, '7'])
    if kind in ('integer', 'blend'):
        return r.choice([0, 1, 7, -3, 400, '12'])
    if kind == 'bool':
        return r.choice([True, False, 1, 0])
    if kind == 'time':
        return r.choice(['0f', '12f', 5, '1s 3f', '2.5f', T('7f'), -1])
    if kind == 'color':
        return r.choice(['#ff0000', '01020380', (0.123456, 0.5, 1.0), (0.0, 0.25, 0.5, 0.75), 'ABCDEF'])
    if kind == 'vector':
        return r.choice([(1.5, -2.25), (0, 7), {'x': 0.1234567891, 'y': 3}, {'y': 1.0, 'x': 2.0}])
    if kind == 'string':
        return rand_text(r)
    if kind == 'gradient':
        return r.choice([{0.0: '#ff0000', 1.0: '#00ff0080'}, {0.5: (0.1, 0.2, 0.3), 0.0: '#000000', 1.0: (1.0, 1.0, 1.0, 0.5)}])
    if kind == 'transformation':
        d = {'offset': (1.0, 2.5), 'angle': 30.0, 'skew_angle': -7.5, 'scale': (2.0, 0.5)}
        return {k: d[k] for k in r.sample(sorted(d), r.choice([1, 2, 4]))}
    raise KeyError(kind)


BAD = {
    'word': 'wombat', 'object': object(), 'list': [1, 2], 'dict': {'x': 1}, 'pair': (1, 2), 'class': int, 'number': 5, 'none': None,
    'five components': (1.0, 0.5, 0.5, 1.0, 1.0), 'five digits': '#12345', 'digits and junk': '#12345g', 'words': ('a', 'b', 'c'),
    'two of a unit': '3f 4f', 'one component': (1.0,), 'three components': (1.0, 2.0, 3.0), 'x only': {'x': 1.0},
    'x y z': {'x': 1.0, 'y': 2.0, 'z': 3.0}, 'x y words': {'x': 1.0, 'y': 'wombat'},
    'no stops': {}, 'one stop': {0.0: '#ffffff'}, 'stop of a word': {0.0: '#ffffff', 1.0: 'wombat'},
    'stop of a number': {0.0: '#ffffff', 1.0: 5}, 'position of a word': {'a': '#ffffff', 'b': '#000000'},
    'unknown part': {'wombat': 1.0}, 'bad part': {'angle': 'wombat'}, 'good and bad part': {'offset': (9.0, 9.0), 'scale': 'wombat'},
}


def bad(arg, kind):
    if arg == 'colour value':
        return V.Color('#ff0000')
    if arg == 'vector value':
        return V.X_Y((1.0, 2.0))
    if arg == 'real value':
        return V.Real(1.5)
    if arg == 'words' and kind == 'vector':
        return ('a', 'b')
    if arg == 'animated value':
        v = V.String('zz')
        v.is_animated = True
        return v
    return BAD[arg]


# ---- the world --------------------------------------------------------------------

def tree(t):
    """Literal contents of an element, less the white space between elements."""
    ks = []
    for k in t.contents:
        if isinstance(k, bs4.Tag):
            ks.append(tree(k))
        elif t.name == 'string' or str(k).strip() or isinstance(k, bs4.Comment):
            if ks and isinstance(ks[-1], str):
                ks[-1] += str(k)
            else:
                ks.append(str(k))
    return [str(t.name), sorted((str(a), str(b)) for a, b in t.attrs.items()), ks]


def lit(x):
    return json.dumps(x)


class World:
    def __init__(self, rng):
        self.rng = rng
        self.docs, self.uids, self.n = {}, {}, 0
        self.loose, self.wps, self.made, self.held = {}, {}, {}, []
        self.ev = []
        text = self.document(rng)
        self.docs['A'] = open_text(text, rng.choice(['.sif', '.sifz']))
        self.docs['B'] = open_text(text if rng.random() < 0.5 else self.document(rng)) if rng.random() < 0.8 else sangfroid.Animation()
        for i, k in enumerate(CLASSES):
            if rng.random() < 0.5:
                self.loose['v%d' % i] = (k, CLASSES[k](good(rng, k) if k != 'time' else '5f'))
                self.wps['w%d' % i] = (k, W(rng.choice([0, 5, '12f']), CLASSES[k](good(rng, k) if k != 'time' else '9f')))
        self.before = self.comps()
        self.cfg = dict(docs=2)

    def document(self, rng):
        ls = [rand_layer(rng, depth=2, desc=rng.choice(['one', 'two', None])) for _ in range(rng.choice([1, 2, 3]))]
        # a group which has parameters of the same names as the layers inside it
        inner = layer('circle', param('z_depth', VALUES['real'](rng)), param('amount', VALUES['real'](rng)),
                      param('color', VALUES['color'](rng)), param('radius', VALUES['real'](rng)),
                      param('origin', VALUES['vector'](rng)), desc='inner')
        ps = [param('z_depth', VALUES['real'](rng)), param('amount', VALUES['real'](rng)), param('origin', VALUES['vector'](rng)),
              param('blend_method', el('integer', {'value': '0', 'static': 'true'})),
              param('transformation', transformation_el())]
        k = rng.randrange(len(ps)+1)
        ps.insert(k, param('canvas', el('canvas', canvas_attrs(rng), inner, rand_layer(rng, depth=1))))
        ls.insert(rng.randrange(len(ls)+1), layer('group', *ps, desc='outer'))
        if rng.random() < 0.4:
            # exactly alike
            ls.insert(rng.randrange(len(ls)+1), rng.choice(ls))
        head = '<desc>%s</desc>\n<meta name="grid_show" content="0"/>\n' % (rng.choice(['', 'about']),)
        for _ in range(rng.choice([1, 1, 2, 4])):
            head += el('keyframe', {k: v for k, v in dict(
                time=rng.choice(['0f', '0s', '24f', '36f', '1s', '1s 0f', '0s 36f', '2.5s', '1.5f', '1s12f', ' 5f', '0h 0m 1s']),
                active=rng.choice(['true', 'true', 'false', 'TRUE', None])).items() if v is not None},
                text=rng.choice(['start', '', ' a  b ', 'x &amp; y'])) + '\n'
        text = document(*ls, head=head, fps=rng.choice(['24.000', '25', '29.97']))
        if rng.random() < 0.3:
            # names and descriptions which are not those of the animation
            defs = '<defs><canvas id="x"><name>within</name><desc>within</desc><keyframe time="3f">k</keyframe></canvas></defs>\n'
            i = text.index('<name>')
            text = text[:i] + defs + text[i:]
            for n in ('name', 'desc'):
                if rng.random() < 0.5:
                    i, j = text.rindex('<%s>' % n), text.rindex('</%s>' % n)
                    text = text[:i] + text[j+len(n)+3:]
        return text

    # ---- components

    def uid(self, t):
        u = self.uids.get(id(t))
        if u is None or u[1] is not t:
            self.n += 1
            u = self.uids[id(t)] = ('L%d' % self.n, t)
        return u[0]

    def comps(self):
        c = {}
        self.layers = {}
        self.conts = {}
        for d, a in self.docs.items():
            t = a.tag
            for k, v in t.attrs.items():
                c[d, '@'+str(k)] = lit(str(v))
            other = []
            for k in kids(t):
                if k.name in ('name', 'desc'):
                    c[d, '#'+k.name] = lit(tree(k))
                elif k.name != 'layer':
                    other.append(tree(k))
            c[d, 'other'] = lit(other)
            self.canvas(c, d, t)
            self.conts[d] = a
        for u, l in self.made.items():
            if l.tag.parent is None:
                self.layer(c, l.tag)
        for u, (k, v) in self.loose.items():
            c[u, 'value'] = lit(tree(v.tag))
        for u, (k, w) in self.wps.items():
            c[u, 'time'] = str(w.time)
            c[u, 'before'] = str(w.before)
            c[u, 'after'] = str(w.after)
            c[u, 'value'] = lit(tree(w.value.tag))
        return c

    def canvas(self, c, o, t):
        ls = [k for k in kids(t) if k.name == 'layer']
        c[o, 'order'] = lit([self.uid(k) for k in ls])
        for k in ls:
            self.layer(c, k)

    def layer(self, c, t):
        u = self.uid(t)
        self.layers[u] = t
        for k, v in t.attrs.items():
            c[u, '@'+str(k)] = lit(str(v))
        names, other = [], []
        for p in t.contents:
            if not isinstance(p, bs4.Tag):
                if str(p).strip():
                    other.append(str(p))
                continue
            if p.name != 'param':
                other.append(tree(p))
                continue
            n = str(p.get('name'))
            names.append(n)
            vs = kids(p)
            if n == 'canvas' and len(vs) == 1 and vs[0].name == 'canvas':
                self.canvas(c, u, vs[0])
                self.conts[u] = None
                c[u, 'p:canvas'] = lit(sorted(vs[0].attrs.items()))
            elif len(vs) == 1 and vs[0].name == 'composite':
                c[u, 'p:'+n] = lit([sorted(vs[0].attrs.items()), [str(k.name) for k in kids(vs[0])]])
                for k in kids(vs[0]):
                    c[u, 'p:%s.%s' % (n, k.name)] = lit(tree(k))
            else:
                c[u, 'p:'+n] = lit(tree(p))
        c[u, 'params'] = lit(names)
        c[u, 'other'] = lit(other)

    # ---- finding things

    def wrapper(self, u):
        return L.Layer.from_tag(self.layers[u])

    def params(self):
        """(layer, parameter, part or '', kind, value element)"""
        out = []
        for u, t in self.layers.items():
            for p in kids(t):
                if p.name != 'param':
                    continue
                n, vs = str(p.get('name')), kids(p)
                if len(vs) != 1 or n == 'canvas':
                    continue
                v = vs[0]
                k = v.get('type') if v.name == 'animated' else v.name
                if n == 'blend_method' and k == 'integer':
                    out.append((u, n, '', 'blend', v))
                elif k in CLASSES:
                    out.append((u, n, '', k, v))
                elif k == 'composite':
                    out.append((u, n, '', 'transformation', v))
                    for x in kids(v):
                        e = kids(x)[0]
                        out.append((u, n, str(x.name), e.get('type') if e.name == 'animated' else str(e.name), e))
        return out

    def container(self, k):
        return self.docs[k] if k in self.docs else self.wrapper(k)

    def has_field(self, l, n):
        from sangfroid.field import ParamTagField
        return any(isinstance(vars(c).get(n), ParamTagField) for c in type(l).__mro__)

    # ---- recording

    def record(self, op, f, o='', p=(), k=(), kind='', arg='good', what=''):
        e = dict(op=op, o=o, p=list(p), k=list(k), kind=kind, arg=arg, what=what)
        e['r'], got = call(f)
        after = self.comps()
        e['diff'] = [dict(o=a, p=b) for a, b in sorted(set(self.before) | set(after))
                     if self.before.get((a, b)) != after.get((a, b))][:12]
        if e['diff']:
            x = (e['diff'][0]['o'], e['diff'][0]['p'])
            e['first'] = [str(self.before.get(x))[:300], str(after.get(x))[:300]]
        self.before = after
        self.ev.append(e)
        return e

    # ---- operations

    def value_of(self, u, n, part, how=None):
        l = self.wrapper(u)
        r = self.rng.random()
        if r < 0.4 and self.has_field(l, n):
            v = getattr(l, n)
        else:
            v = l[n]
        if part:
            r = self.rng.random()
            v = getattr(l, part) if r < 0.3 and isinstance(l, L.Group) else v[part] if r < 0.7 else getattr(v, part)
        return v

    def targets(self, n, part):
        if part:
            return ['p:%s.%s' % (n, part)]
        return ['p:'+n]

    def pick(self, kind=None, part=None):
        ps = [x for x in self.params() if (kind is None or x[3] == kind) and (part is None or bool(x[2]) == part)]
        return self.rng.choice(ps) if ps else None

    def transformation_parts(self, u, n, x):
        return ['p:%s.%s' % (n, k) for k in x] if hasattr(x, 'keys') else []

    def set_param(self, x, val, arg, kind, what='', routes=None):
        u, n, part, k, e = x
        l = self.wrapper(u)
        rs = ['value']
        if part:
            if isinstance(l, L.Group):
                rs.append('shortcut')
            rs.append('whole')
        else:
            rs.append('item')
            if self.has_field(l, n):
                rs.append('attribute')
        if routes:
            rs = [r for r in rs if r in routes]
        route = self.rng.choice(rs)
        tg = self.targets(n, part)
        if k == 'transformation':
            # only the parts which are mentioned
            tg = self.transformation_parts(u, n, val.value if isinstance(val, V.Value) else val)

        def f():
            if route == 'value':
                v = self.value_of(u, n, part)
                if self.rng.random() < 0.2:
                    self.held.append((x, v))
                v.value = val
            elif route == 'item':
                l[n] = val
            elif route == 'attribute':
                setattr(l, n, val)
            elif route == 'shortcut':
                setattr(l, part, val)
            elif route == 'whole':
                if self.rng.random() < 0.5:
                    l[n] = {part: val}
                elif self.has_field(l, n):
                    setattr(l, n, {part: val})
                else:
                    l[n].value = {part: val}
        return self.record('param', f, o=u, p=tg, kind=kind, arg=arg, what=what or '%s %s %s=%s' % (route, n, part, repr(val)[:60]))

    def objects(self, k):
        """Value objects of kind k, none of them animated, which belong to someone."""
        out = [v for kk, v in self.loose.values() if kk == k]
        out += [w.value for kk, w in self.wps.values() if kk == k]
        out += [call(lambda: self.value_of(*y[:3]))[1] for y in self.params() if y[3] == k]
        if k == 'color':
            for y in self.params():
                if y[3] == 'gradient':
                    out += call(lambda: list(self.value_of(*y[:3]).values()))[1] or []
            for kk, v in self.loose.values():
                if kk == 'gradient':
                    out += call(lambda: list(v.values()))[1] or []
        return [v for v in out if isinstance(v, V.Value) and call(lambda: v.is_animated)[1] is False]

    def composite(self, k):
        """A value put together from objects which belong to someone else."""
        r = self.rng
        if k == 'gradient':
            cs = self.objects('color') or [V.Color('#abcdef')]
            return {p: r.choice(cs) if r.random() < 0.8 else good(r, 'color') for p in r.sample([0.0, 0.25, 0.5, 0.75, 1.0], r.randint(2, 4))}
        out = {}
        for part, kk in (('offset', 'vector'), ('angle', 'angle'), ('skew_angle', 'angle'), ('scale', 'vector')):
            if r.random() < 0.6:
                out[part] = r.choice(self.objects(kk) or [good(r, kk)])
        return out or {'angle': good(r, 'angle')}

    def good_param(self):
        x = self.pick()
        if x is None:
            return
        k = x[3]
        r = self.rng.random()
        if k in ('gradient', 'transformation') and r < 0.5:
            val, what = self.composite(k), 'made of objects'
        elif r < 0.55:
            val, what = good(self.rng, k), ''
        elif r < 0.75 and k in CLASSES:
            val, what = CLASSES[k](good(self.rng, k) if k != 'time' else '3f'), 'a value object'
        else:
            same = [y for y in self.params() if y[3] == k and not (y[0] == x[0] and y[1] == x[1])]
            ls = [v for kk, v in self.loose.values() if kk == k]
            if same and (not ls or self.rng.random() < 0.7):
                y = self.rng.choice(same)
                val, what = self.value_of(*y[:3]), 'from %s %s %s' % (y[0], y[1], y[2])
            elif ls:
                val, what = self.rng.choice(ls), 'a loose value'
            else:
                return
        if k == 'transformation' and isinstance(val, V.Value):
            # the whole, with everything in it
            u, n = x[0], x[1]
            self.record('param', (lambda: setattr(self.wrapper(u), n, val)) if self.rng.random() < 0.5
                        else (lambda: self.wrapper(u).__setitem__(n, val)), o=u,
                        p=['p:'+n] + ['p:%s.%s' % (n, q) for q in ('offset', 'angle', 'skew_angle', 'scale')], kind='transformation', what=what)
            return
        self.set_param(x, val, 'good', k, what and what + ' to %s %s' % (x[1], x[2]))

    def held_param(self):
        if not self.held:
            return
        x, v = self.rng.choice(self.held)
        if x[3] == 'transformation':
            return
        val = good(self.rng, x[3])

        def f():
            v.value = val
        self.record('param', f, o=x[0], p=self.targets(x[1], x[2]), kind=x[3], what='a value object fetched before')

    def bad_param(self, kind, arg):
        x = self.pick(kind)
        if x is None:
            return
        val = bad(arg, kind)
        routes = ('attribute', 'value') if arg == 'animated value' else None
        self.set_param(x, val, arg, kind, routes=routes)

    def bad_loose(self, kind, arg):
        vs = [(u, v) for u, (k, v) in self.loose.items() if k == kind]
        if not vs:
            return
        u, v = self.rng.choice(vs)
        if arg == 'class' and kind == 'time':
            return

        def f():
            v.value = bad(arg, kind)
        self.record('loose', f, o=u, p=['value'], kind=kind, arg=arg, what='loose value')

    def bad_new(self, kind, arg):
        if kind not in CLASSES:
            return
        self.record('create', lambda: CLASSES[kind](bad(arg, kind)), o='nothing', kind=kind, arg=arg, what='a new value')

    def timeline(self):
        x = self.pick()
        if x is None or x[3] == 'transformation':
            return
        u, n, part, k, e = x
        k = 'integer' if k == 'blend' else k
        v = self.value_of(u, n, part)
        r = self.rng
        t = r.choice([0, 3, '12f', '1s', 2.5, T('7f'), -1])
        w = W(r.choice([1, '2f', 9]), CLASSES[k](good(r, k) if k != 'time' else '8f'), r.choice(['linear', 'clamped', 'halt']))
        keys = call(lambda: v.timeline.keys())[1] or []

        def assign(q):
            v.timeline = q
        others = [y for y in self.params() if y[3] == k]
        y = r.choice(others) if others else x

        def onoff(b):
            v.is_animated = b
        f, what = r.choice([
            (lambda: v.timeline.__setitem__(t, good(r, k)), 'set'),
            (lambda: v.timeline.__setitem__(t, CLASSES[k](good(r, k) if k != 'time' else '8f')), 'set to an object'),
            (lambda: v.timeline.__setitem__(t, w), 'set to a waypoint'),
            (lambda: v.timeline.add(w), 'add'), (lambda: v.timeline.add([w], overwrite=True), 'add over'),
            (lambda: v.timeline.__delitem__(r.choice(keys) if keys else 0), 'delete'),
            (lambda: assign([w]), 'replace'), (lambda: assign(self.value_of(*y[:3]).timeline), 'copy from %s %s %s' % y[:3]),
            (lambda: onoff(True), 'on'), (lambda: onoff(False), 'off'), (lambda: assign([]), 'empty'),
            (lambda: v.timeline.__setitem__(t, r.choice([q for kk, q in self.loose.values() if kk == k])), 'set to a loose value'),
            (lambda: v.timeline.__setitem__(t, r.choice([q for kk, q in self.wps.values() if kk == k])), 'set to a loose waypoint'),
            (lambda: v.timeline.add([q for kk, q in self.wps.values() if kk == k], overwrite=True), 'add loose waypoints'),
        ])
        self.record('timeline', f, o=u, p=self.targets(n, part), kind=k, what='%s %s %s' % (what, n, part))

    def edit_waypoint_value(self):
        """The value of a waypoint that was read back is in the document."""
        x = self.pick()
        if x is None or x[3] in ('transformation', 'blend'):
            return
        u, n, part, k, e = x
        ws = call(lambda: self.value_of(u, n, part).timeline.values())[1]
        if not ws:
            return
        w = self.rng.choice(ws)

        def f():
            w.value.value = good(self.rng, k)
        self.record('param', f, o=u, p=self.targets(n, part), kind=k, what='value of a waypoint read back')

    def attr(self):
        if not self.layers:
            return
        u = self.rng.choice(sorted(self.layers))
        l = self.wrapper(u)
        a = self.rng.choice(['active', 'desc', 'exclude_from_rendering', 'version', 'desc'])
        x = {'active': self.rng.random() < 0.5, 'exclude_from_rendering': self.rng.random() < 0.5, 'version': self.rng.choice([0.1, 0.3, 1]),
             'desc': self.rng.choice([None, '', rand_text(self.rng)])}[a]
        self.record('attr', lambda: setattr(l, a, x), o=u, p=['@'+a], kind='attribute', what='%s=%r' % (a, x))

    def header(self):
        d = self.rng.choice(sorted(self.docs))
        a = self.docs[d]
        f, p, v = self.rng.choice([
            ('width', '@width', 640), ('height', '@height', 99), ('xres', '@xres', 1000.5), ('yres', '@yres', 2.25),
            ('gamma_r', '@gamma-r', 2.2), ('gamma_g', '@gamma-g', 0.5), ('gamma_b', '@gamma-b', 1.25), ('fps', '@fps', 30.0),
            ('fps', '@fps', 12), ('begin_time', '@begin-time', '1s'), ('end_time', '@end-time', '3s 2f'), ('end_time', '@end-time', 55),
            ('antialias', '@antialias', 2), ('view_box', '@view-box', '-1.0 2.0 3.0 -4.0'), ('bgcolor', '@bgcolor', '0.1 0.2 0.3 1.0'),
            ('version', '@version', 1.1), ('name', '#name', rand_text(self.rng)), ('desc', '#desc', rand_text(self.rng)),
            ('name', '#name', ''), ('desc', '#desc', rand_text(self.rng, 5))])
        if f == 'fps' and self.rng.random() < 0.7:
            return
        self.record('header', lambda: setattr(a, f, v), o=d, p=[p], kind='header', what='%s=%r' % (f, v))

    def bad_header(self, kind, arg):
        d = self.rng.choice(sorted(self.docs))
        a = self.docs[d]
        f = self.rng.choice({'header number': ['width', 'height', 'xres', 'yres', 'gamma_r', 'gamma_g', 'gamma_b', 'fps', 'antialias', 'version'],
                             'header time': ['begin_time', 'end_time'], 'header text': ['name', 'desc']}[kind])
        p = ('#' if kind == 'header text' else '@') + f.replace('_', '-')
        self.record('header', lambda: setattr(a, f, BAD[arg]), o=d, p=[p], kind=kind, arg=arg, what='%s=%s' % (f, arg))

    def loose_edit(self):
        r = self.rng
        if self.loose and r.random() < 0.5:
            u, (k, v) = r.choice(sorted(self.loose.items(), key=lambda x: x[0]))

            def f():
                if k == 'gradient' and r.random() < 0.5:
                    if r.random() < 0.5:
                        r.choice(list(v.values())).value = good(r, 'color')
                    else:
                        v.value = self.composite(k)
                elif r.random() < 0.6:
                    v.value = good(r, k) if k != 'time' else '%df' % r.randrange(99)
                elif r.random() < 0.5:
                    v.is_animated = not v.is_animated
                else:
                    v.timeline[r.randrange(5)] = good(r, k) if k != 'time' else '4f'
            self.record('loose', f, o=u, p=['value'], kind=k, what='loose value')
        elif self.wps:
            u, (k, w) = r.choice(sorted(self.wps.items(), key=lambda x: x[0]))
            which = r.choice(['time', 'before', 'after', 'value'])

            def f():
                if which == 'time':
                    w.time = T('%df' % r.randrange(50))
                elif which == 'value':
                    w.value.value = good(r, k) if k != 'time' else '%df' % r.randrange(99)
                else:
                    setattr(w, which, r.choice(['tcb', 'halt', 'linear', 'constant']))
            self.record('loose', f, o=u, p=[which], kind=k, what='loose waypoint')

    def stop(self):
        x = self.pick('gradient')
        if x is None:
            return
        u, n, part, k, e = x
        r = self.rng
        v = self.value_of(u, n, part)
        c = r.choice(['#123456', (0.1, 0.2, 0.3), V.Color('#fedcba98')] + self.objects('color'))
        pos = r.choice([0.0, 1.0, 0.25, 0.75])

        def f():
            if r.random() < 0.5:
                v[pos] = c
            else:
                list(v.values())[0].value = c
        self.record('param', f, o=u, p=self.targets(n, part), kind='stop', what='gradient stop')

    def create(self):
        cls = self.rng.choice([L.Circle, L.Rectangle, L.Text, L.Group, L.Star, L.Linear_Gradient, L.Rotate, L.Timeloop])
        made = []

        def f():
            made.append(cls())
            u = self.uid(made[0].tag)
            self.made[u] = made[0]
        e = self.record('create', f, o='L%d' % (self.n+1), kind='layer', what=cls.__name__)

    def place(self):
        r = self.rng
        ks = sorted(self.conts)
        k = r.choice(ks)
        c = self.container(k)
        x = r.choice(sorted(self.made) if self.made and r.random() < 0.6 else sorted(self.layers) or ['none'])
        if x == 'none':
            return
        l = self.wrapper(x) if x in self.layers else self.made[x]
        old = [q for q in ks if x in json.loads(self.before[q, 'order'])]
        n = len(json.loads(self.before[k, 'order']))
        if r.random() < 0.5 or n == 0:
            f = lambda: c.append(l)
        else:
            i = r.randrange(-n, n)
            f = lambda: c.insert(i, l)
        self.record('place', f, o=x, k=[k]+old, kind='layer', what='%s to %s' % (x, k))

    def read(self):
        r = self.rng
        d = r.choice(sorted(self.docs))
        a = self.docs[d]

        def compare():
            ps = self.params()
            vs = [self.value_of(*r.choice(ps)[:3]) for _ in range(6)]
            for v in vs:
                for w in vs + [5, 'x', None, (1, 2)]:
                    call(lambda: v == w)
                    call(lambda: v != w)
                    call(lambda: w in v)
                    call(lambda: v.timeline == w.timeline)
                    call(lambda: v < w)

        def search():
            for args, kw in (((), {}), ((True,), {}), ((False,), {}), (('circle',), {}), ((L.Group,), {}), (('text',), dict(text='a')),
                             ((), dict(desc='one', recursive=False)), ((lambda t: True,), {}), ((), dict(amount=1.0)),
                             ((), dict(attrs=dict(radius=2.5))), ((), dict(color='#ff0000')), ((), dict(origin=(0, 0)))):
                call(lambda: a.find_all(*args, **kw))
                call(lambda: a.find(*args, **kw))
                call(lambda: a(*args, **kw))

        def things():
            for l in a.descendants:
                repr(l), str(l), l.keys(), l.items(), l.values(), l.parent, len(l), list(l), l.tag_depth, 'radius' in l, l == l, hash(l)
                for n in l.keys():
                    call(lambda: l.get(n))
            for u, (k, v) in list(self.loose.items()) + [(u, (k, w.value)) for u, (k, w) in self.wps.items()]:
                for f in (repr, len, list, float, int, bool, hash, lambda x: x == x, lambda x: x.timeline.values(), lambda x: x.as_python_expression()):
                    call(f, v)
            for u, (k, w) in self.wps.items():
                repr(w), w.tag, w == w, w < w, w.before
        f, what = r.choice([(lambda: read_everything(a), 'everything'), (compare, 'compare'), (search, 'search'), (things, 'things')])
        self.record('read', lambda: call(f), kind='any', what=what)

    # things which are always refused
    def always(self, kind):
        r = self.rng
        x = self.pick()
        ls = sorted(self.layers)
        if x is None or not ls:
            return
        u, n, part, k, e = x
        l = self.wrapper(r.choice(ls))
        conts = sorted(self.conts)
        ck = r.choice(conts)
        c = self.container(ck)
        v = self.value_of(u, n, part)
        d = self.docs[r.choice(sorted(self.docs))]
        acts = []
        k1 = 'integer' if k == 'blend' else k
        wrong = V.String('zz') if k != 'string' else V.Real(1)
        if kind == 'missing':
            acts = [('item', lambda: l['wombat']), ('set item', lambda: l.__setitem__('wombat', 5)),
                    ('set item to a value', lambda: l.__setitem__('wombat', V.Real(5))),
                    ('time', lambda: v.timeline[777777]), ('delete', lambda: v.timeline.__delitem__(777777)),
                    ('delete in text', lambda: v.timeline.__delitem__('88888f')),
                    ('time by name', lambda: v.timeline['wombat']), ('set at a name', lambda: v.timeline.__setitem__('wombat', v)),
                    ('set at two of a unit', lambda: v.timeline.__setitem__('3f 3f', CLASSES[k1](good(r, k1) if k1 != 'time' else '8f'))),
                    ('unknown type', lambda: d.find_all(type='wombat') or 1/0),
                    ('layer type', lambda: L.Layer.handles_type.from_name(name='wombat'))]
            acts = [a for a in acts if a[0] != 'unknown type']
            if k == 'gradient':
                acts += [('stop', lambda: v[0.987654])]*3
            if k == 'vector':
                acts += [('member', lambda: v['z']), ('member attribute', lambda: v.z)]
        elif kind == 'read only':
            acts = [('tag', lambda: setattr(l, 'tag', c.tag)), ('type', lambda: setattr(l, 'type_', 'circle'))]
            if isinstance(l, L.Layer) and hasattr(type(l), 'type') and type(l).__name__ == 'Circle':
                acts.append(('type', lambda: setattr(l, 'type', 'group')))
        elif kind == 'waypoint':
            if k == 'transformation':
                return
            good_w = W(3, CLASSES[k1](good(r, k1) if k1 != 'time' else '8f'))
            anim = CLASSES[k1](good(r, k1) if k1 != 'time' else '8f')
            anim.is_animated = True

            def tl(q):
                v.timeline = q
            acts = [('add a number', lambda: v.timeline.add(5)), ('add a mixture', lambda: v.timeline.add([good_w, 5], overwrite=True)),
                    ('add a mixture', lambda: v.timeline.add([good_w, W(4, wrong)], overwrite=True)),
                    ('add the wrong type', lambda: v.timeline.add(W(4, wrong), overwrite=True)),
                    ('set the wrong type', lambda: v.timeline.__setitem__(4, W(4, wrong))),
                    ('replace by a number', lambda: tl(5)), ('replace by text', lambda: tl('wombat')), ('replace by numbers', lambda: tl([1, 2])),
                    ('replace by the wrong type', lambda: tl([good_w, W(4, wrong)])), ('replace by none', lambda: tl(None)),
                    ('make with a number', lambda: W(0, 5)), ('make with an animated value', lambda: W(0, anim)),
                    ('set to an animated value', lambda: v.timeline.__setitem__(3, anim)),
                    ('make with a bad time', lambda: W(object(), V.Real(1))), ('make with a bad time', lambda: W('wombat', V.Real(1))),
                    ('make with a bad interpolation', lambda: W(0, V.Real(1), 'wombat')),
                    ('make with a bad interpolation', lambda: W(0, V.Real(1), after='undefined')),
                    ('set at none', lambda: v.timeline.__setitem__(None, good_w)), ('set at an object', lambda: v.timeline.__setitem__(object(), good_w)),
                    ('add with a bad time', lambda: v.timeline.add([good_w, W(T('1h'), good_w.value)], overwrite=True)) if False else
                    ('iadd a number', lambda: v.timeline.__iadd__(5))]
            if k in ('real', 'angle', 'color', 'vector', 'gradient', 'integer', 'blend'):
                acts += [('set to a word', lambda: v.timeline.__setitem__(3, 'wombat'))]*2
            if self.wps:
                wu = r.choice(sorted(self.wps))
                lw = self.wps[wu][1]
                acts += [('interpolation', lambda: setattr(lw, 'before', 'wombat')), ('interpolation', lambda: setattr(lw, 'after', 'undefined')),
                         ('interpolation', lambda: setattr(lw, 'after', None))]
        elif kind == 'not a layer':
            n0 = len(json.loads(self.before[ck, 'order']))
            things = [5, None, 'circle', L.Circle, V.Real(1), [L.Circle()], d]
            t = r.choice(things)
            acts = [('append', lambda: c.append(t))]
            if n0:
                acts.append(('insert', lambda: c.insert(0, t)))
            if ck not in self.docs:
                acts += [('canvas', lambda: setattr(c, 'canvas', [L.Circle(), 5])), ('canvas', lambda: setattr(c, 'canvas', 5)),
                         ('canvas', lambda: setattr(c, 'canvas', [d])), ('canvas', lambda: setattr(c.canvas, 'value', [L.Circle(), d]))]
                if ls:
                    o = self.wrapper(r.choice(ls))
                    acts += [('canvas', lambda: c.__setitem__('canvas', [o, 5])), ('canvas', lambda: setattr(c, 'canvas', [o, d]))]
            leaves = [q for q in ls if q not in self.conts]
            if leaves:
                q = self.wrapper(r.choice(leaves))
                acts.append(('append to a leaf', lambda: q.append(L.Circle())))
        elif kind == 'inside itself':
            gs = [q for q in conts if q not in self.docs]
            if not gs:
                return
            g = r.choice(gs)
            gt = self.layers[g]
            inside = [g] + [q for q in gs if any(p is gt for p in self.layers[q].parents)]
            h = self.wrapper(r.choice(inside))
            acts = [('append', lambda: h.append(self.wrapper(g))), ('canvas', lambda: setattr(h, 'canvas', [self.wrapper(g)]))]
            if len(h):
                acts.append(('insert', lambda: h.insert(0, self.wrapper(g))))
                acts.append(('insert', lambda: h.insert(-1, self.wrapper(g))))
            o = self.wrapper(r.choice(ls))
            acts.append(('canvas', lambda: h.canvas.__class__.value.fset(h.canvas, [o, self.wrapper(g)])))
        elif kind == 'index':
            n0 = len(json.loads(self.before[ck, 'order']))
            fresh = self.rng.choice(sorted(self.made)) if self.made else None
            fl = L.Circle() if fresh is None else self.made[fresh]
            acts = [('beyond', lambda: c[n0]), ('before', lambda: c[-n0-1]), ('insert beyond', lambda: c.insert(n0, fl)),
                    ('insert before', lambda: c.insert(-n0-1, fl)), ('insert at a word', lambda: c.insert('wombat', fl)),
                    ('insert at none', lambda: c.insert(None, fl))]
            if fresh is not None and any(p is fl.tag for p in c.tag.parents) or fl.tag is c.tag:
                return
        elif kind == 'animate whole':
            y = self.pick('transformation')
            if y is None:
                return
            tv = self.value_of(*y[:3])

            def on():
                tv.is_animated = True
            acts = [('animate', on), ('set waypoint', lambda: tv.timeline.__setitem__(0, tv))]
        elif kind == 'clash':
            keys = call(lambda: v.timeline.keys())[1]
            if not keys:
                return
            t = r.choice(keys)
            nw = W('777f', CLASSES[k1](good(r, k1) if k1 != 'time' else '8f'))
            w = W('%sf' % dec('%.6f' % t.frames), CLASSES[k1](good(r, k1) if k1 != 'time' else '8f'))
            acts = [('clash', lambda: v.timeline.add(w)), ('clash', lambda: v.timeline.add([nw, w]))]
        elif kind == 'criteria':
            acts = [('two', lambda: d.find_all('circle', 'text')), ('number', lambda: d.find_all(5)),
                    ('both', lambda: d.find_all('circle', type='text')), ('both', lambda: d.find_all(desc='x', attrs={'desc': 'y'}))]
        if not acts:
            return
        what, f = r.choice(acts)
        self.record('fail', f, kind=kind, arg='always', what=what)

    def save(self):
        r = self.rng
        d = r.choice(sorted(self.docs))
        a = self.docs[d]
        name = 'save%d%s' % (os.getpid(), r.choice(['.sif', '.sifz']))
        e = self.record('save', lambda: a.save(name), o=d, kind='save', what=name[-5:])
        e['api'] = e['xml'] = 'same'
        if e['r'] == 'ok':
            with open(name, 'rb') as f:
                b = f.read()
            if name.endswith('z'):
                b = gzip.decompress(b)
            m, fl = canon_soup(a.tag), canon_bytes(b)
            if m != fl:
                e['xml'] = first_difference(m, fl or [])
            res, a2 = call(sangfroid.open, name)
            if res != 'ok':
                e['api'] = res
            else:
                p1, p2 = api(a), api(a2)
                if p1 != p2:
                    e['api'] = first_difference(p1, p2)
                if r.random() < 0.4:
                    t1 = a.tag.find_all('layer')
                    t2 = a2.tag.find_all('layer')
                    if len(t1) == len(t2) and e['xml'] == 'same':
                        for x, y in zip(t1, t2):
                            u = self.uid(x)
                            self.uids[id(y)] = (u, y)
                            self.made.pop(u, None)
                        self.docs[d] = a2
                        self.gone = getattr(self, 'gone', []) + [a]      # keep the identities
                        self.held = []
                        self.before = self.comps()
            os.unlink(name)


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return '%d: %s / %s' % (i, repr(x)[:300], repr(y)[:300])
    return 'lengths %d and %d' % (len(a), len(b))


def api(a):
    """What the interface reports about a document, as a list."""
    out = []

    def put(where, f):
        r, x = call(f)
        out.append((where, x if r == 'ok' else '!'+r))
    for f in ('name', 'desc', 'width', 'height', 'xres', 'yres', 'gamma_r', 'gamma_g', 'gamma_b', 'view_box', 'antialias', 'fps', 'bgcolor',
              'size', 'viewbox', 'framecount', 'version'):
        put(f, lambda: getattr(a, f))
    put('begin', lambda: str(a.begin_time))
    put('end', lambda: str(a.end_time))
    put('background', lambda: a.background.as_tuple())
    put('keyframes', lambda: [(str(k.time), k.name, k.active) for k in a.keyframes])

    def value(w, v):
        put(w+' animated', lambda: v.is_animated)
        put(w+' class', lambda: type(v).__name__)
        put(w+' length', lambda: len(v.timeline))
        if v.is_animated:
            for i, p in enumerate(v.timeline):
                put('%s waypoint %d' % (w, i), lambda: ('%.6f' % p.time.frames, p.before, p.after, api_canon(p.value)))
        elif isinstance(v, V.Transformation):
            for k in ('offset', 'angle', 'skew_angle', 'scale'):
                value(w+'.'+k, v[k])
        else:
            put(w, lambda: api_canon(v) if type(v).__name__ not in ('Bline', 'Canvas') else '')

    def layer_(w, l):
        put(w+' class', lambda: type(l).__name__)
        for f in ('active', 'exclude_from_rendering', 'desc', 'version', 'type_'):
            put(w+' '+f, lambda: getattr(l, f) if f != 'type_' else l.tag['type'])
        ks = []
        put(w+' keys', lambda: (ks.extend(l.keys()), list(ks))[1])
        for k in ks:
            r, v = call(lambda: l[k])
            if r == 'ok':
                value(w+' '+k, v)
            else:
                out.append((w+' '+k, '!'+r))
        put(w+' len', lambda: len(list(l.children)))
        for i, x in enumerate(l.children):
            layer_(w+'/%d' % i, x)
    put('len', lambda: len(a))
    for i, x in enumerate(a.children):
        layer_('%d' % i, x)
    return out


def main():
    j = job()
    rng = random.Random(j['seed'])
    out = Writer()
    refused = list(j['refused'])
    for n in range(j['random']):
        w = World(rng)
        todo = rng.sample(refused, min(len(refused), j['refusals'])) if refused else []
        plan = ['refuse']*len(todo)
        weights = dict(good_param=22, held_param=3, timeline=14, edit_waypoint_value=2, attr=6, header=6, loose_edit=7, stop=3, create=4,
                       place=6, read=6, save=6)
        names = list(weights)
        plan += rng.choices(names, [weights[k] for k in names], k=j['length'])
        rng.shuffle(plan)
        for p in plan:
            if p != 'refuse':
                getattr(w, p)()
                continue
            x = todo.pop()
            kind, arg = x['kind'], x['arg']
            if arg == 'always':
                w.always(kind)
            elif kind.startswith('header'):
                w.bad_header(kind, arg)
            else:
                rng.choice([w.bad_param]*4 + [w.bad_loose, w.bad_new])(kind, arg)
        w.save()
        out.history('random-%d-%d' % (j['seed'], n), w.cfg, w.ev)
    out.close()


main()
