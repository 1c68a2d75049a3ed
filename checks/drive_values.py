"""
Assigns values to parameters by every route and reads them back by every
route (see spec/Values.tla).
"""
import os, random
from drv import *
from sample import PARAMS
from xmlgen import rand_text
from sangfroid.field import ParamTagField
from sangfroid.layer.layer import Layer

LIM = 2000000000
EL = dict(real='real', angle='angle', integer='integer', blend='integer', bool='bool', time='time', color='color', vector='vector',
          string='string', gradient='gradient')
CLS = dict(real=V.Real, angle=V.Angle, integer=V.Integer, blend=V.BlendMethod, bool=V.Bool, time=V.Time, color=V.Color, vector=V.X_Y,
           string=V.String, gradient=V.Gradient)


# ---- values as the specification has them -----------------------------------------

def num(x, prec=10):
    """x: Decimal, float, int or text"""
    try:
        d = Decimal(x) if not isinstance(x, str) else Decimal(x.strip())
    except InvalidOperation:
        return dict(k='?', what=repr(x)[:80])
    if not d.is_finite() or abs(d) >= LIM:
        return dict(k='?', what=repr(x)[:80])
    s = format(abs(d), 'f')
    i, _, f = s.partition('.')
    f = (f + '0'*15)[:15]
    return dict(k='n', neg=d < 0, i=int(i), d=[int(f[0:5]), int(f[5:10]), int(f[10:15])], prec=prec)


def exact(x):
    return dict(k='e', s=str(x))


UNKNOWN = dict(k='?')


METHODS = ('COMPOSITE STRAIGHT BRIGHTEN DARKEN ADD SUBTRACT MULTIPLY DIVIDE COLOR HUE SATURATION LUMINANCE BEHIND ONTO ALPHA_BRIGHTEN '
           'ALPHA_DARKEN SCREEN HARD_LIGHT DIFFERENCE ALPHA_OVER OVERLAY STRAIGHT_ONTO ADD_COMPOSITE ALPHA').split()


class Method(int):
    """A blend method by name: the number which the library has for it."""
    def __new__(cls, name):
        n = getattr(V.BlendMethod, name, -999)
        x = super().__new__(cls, n)
        x.method = name
        return x


def want(kind, x, fps):
    """The denotation of a python value, without the library."""
    if kind == 'real':
        return num(x)
    if kind == 'angle':
        return num(x, 6)
    if isinstance(x, Method):
        return dict(k='m', m=x.method)
    if kind in ('integer', 'blend'):
        return exact(int(x))
    if kind == 'bool':
        return exact(str(bool(x)).lower())
    if kind == 'string':
        return exact(x)
    if kind == 'time':
        if isinstance(x, str):
            return num(time_frames(x, fps), 6)
        return num(x, 6)
    if kind == 'vector':
        if isinstance(x, dict):
            return dict(k='v', x=num(x['x']), y=num(x['y']))
        return dict(k='v', x=num(x[0]), y=num(x[1]))
    if kind == 'color':
        return dict(k='c', c=colour(x))
    if kind == 'gradient':
        return dict(k='g', stops=[dict(pos=num(p, 6), c=colour(x[p])) for p in sorted(x)])
    raise KeyError(kind)


def colour(x):
    if isinstance(x, str):
        s = x.lstrip('#')
        c = [dict(k='b', b=int(s[i:i+2], 16)) for i in range(0, len(s), 2)]
    else:
        c = [num(float(y)) for y in x]
    if len(c) == 3:
        c.append(num(1))
    return c


def from_xml(kind, t, fps):
    """What a static value element denotes, without the library."""
    try:
        if t.name != EL[kind]:
            return dict(k='?', what=str(t)[:100])
        if kids(t) and kind not in ('vector', 'color', 'gradient'):
            return UNKNOWN
        if kind in ('real', 'angle'):
            return num(t['value'], 10 if kind == 'real' else 6)
        if kind in ('integer', 'blend'):
            return exact(int(t['value']))
        if kind == 'bool':
            return exact(t['value']) if t['value'] in ('true', 'false') else UNKNOWN
        if kind == 'time':
            return num(time_frames(t['value'], fps), 6)
        if kind == 'string':
            return exact(txt(t))
        if kind == 'vector':
            d = {k.name: num(txt(k)) for k in kids(t)}
            return dict(k='v', x=d['x'], y=d['y']) if len(d) == 2 == len(kids(t)) else UNKNOWN
        if kind == 'color':
            return dict(k='c', c=comps(t))
        if kind == 'gradient':
            return dict(k='g', stops=[dict(pos=num(k['pos'], 6), c=comps(k)) for k in kids(t)])
    except Exception as x:
        return dict(k='?', what=repr(x)[:100])


def comps(t):
    ks = kids(t)
    return [num(txt(k)) for k in ks] if [k.name for k in ks] == list('rgba') else []


def from_api(kind, v):
    """What a static value reports through its interface: several readings which should be the same."""
    out = []

    def fl(x, p=10):
        return num('%.10f' % float(x), p)

    def put(how, f):
        try:
            out.append((how, f()))
        except Exception as x:
            out.append((how, dict(k='?', what=repr(x)[:100])))
    if kind in ('real', 'angle'):
        p = 10 if kind == 'real' else 6
        put('value', lambda: fl(v.value, p))
        put('float', lambda: fl(float(v), p))
    elif kind in ('integer', 'blend'):
        put('value', lambda: exact(v.value) if isinstance(v.value, int) else UNKNOWN)
        put('int', lambda: exact(int(v)))
    elif kind == 'bool':
        put('value', lambda: exact(str(v.value).lower()) if v.value in (True, False) else UNKNOWN)
        put('bool', lambda: exact(str(bool(v)).lower()))
    elif kind == 'string':
        put('value', lambda: exact(v.value))
    elif kind == 'time':
        put('value', lambda: num(v.value.frames, 6))
    elif kind == 'vector':
        put('value', lambda: dict(k='v', x=fl(v.value['x']), y=fl(v.value['y'])))
        put('item', lambda: dict(k='v', x=fl(v['x']), y=fl(v['y'])))
        put('index', lambda: dict(k='v', x=fl(v[0]), y=fl(v[1])))
        put('attribute', lambda: dict(k='v', x=fl(v.x), y=fl(v.y)))
        put('tuple', lambda: dict(k='v', x=fl(v.as_tuple()[0]), y=fl(v.as_tuple()[1])))
        put('list', lambda: dict(k='v', x=fl(list(v)[0]), y=fl(list(v)[1])))
        put('items', lambda: dict(k='v', x=fl(dict(v.items())['x']), y=fl(dict(v.items())['y'])))
    elif kind == 'color':
        put('tuple', lambda: dict(k='c', c=[num('%.6f' % x) for x in v.as_tuple()]))
    elif kind == 'gradient':
        put('items', lambda: dict(k='g', stops=[dict(pos=num(p, 6), c=[num('%.6f' % x) for x in c.as_tuple()]) for p, c in v.items()]))
        put('value', lambda: dict(k='g', stops=[dict(pos=num(p, 6), c=[num('%.6f' % x) for x in v.value[p].as_tuple()]) for p in v.value]))
    return out


# ---- python values -------------------------------------------------------------------

REALS = [0.0, 1.0, -1.0, 0.5, 2, -7, 1e-10, 4.9e-11, 5.1e-11, -1e-10, 0.1, 1/3, 2/3, -2.5, 123456.7890123456, 0.12345678905, 0.99999999995,
         1000000000.5, 1e9, -1e-9, 3.0000000001, 1e-5, 12345678, 0.1+0.2, '2.5', '-0.25', 1e-12]
ANGLES = [0.0, 90, -45.5, 12.345678, 359.999999, 400, 1/3, -0.5, 1e-6, 180.0, '30', 720.125]
TIMES = ['0f', '12f', '7.5f', 5, 100, '1s', '1s 3f', '2m 1s', '1h', '0.25f', 2.5, '33.333f', '119f', 0, '1m', '-3f', '-1s']
HEX = ['#ff0000', '#00FF00', '0000ff', '#01020304', 'FFFFFF80', '#ffffff00', '#abcdef', '#ABCDEF01', '808080', '#000000ff', '#7f7f7f7f']
TUPLES = [(1.0, 0.0, 0.0), (0.123456, 0.5, 1.0), (0.1234564, 0.1234566, 0.0), (0.0, 0.25, 0.5, 0.75), (1, 0, 1), (0, 0, 0, 0),
          (0.333333, 0.666667, 0.999999), (1e-6, 4e-7, 6e-7, 1.0), (1, 1, 1, 0.5)]


def rand_value(r, kind):
    if kind == 'real':
        return r.choice(REALS) if r.random() < 0.6 else r.uniform(-10, 10)*10**r.randrange(-9, 8)
    if kind == 'angle':
        return r.choice(ANGLES) if r.random() < 0.6 else r.uniform(-720, 720)
    if kind == 'integer':
        return r.choice([0, 1, -1, 7, 255, 1000000, -400, 2**31, 10**12, '12', r.randrange(-999, 999)])
    if kind == 'blend':
        return r.choice([0, 1, 4, 13, 23, r.randrange(24)] + [Method(m) for m in METHODS])
    if kind == 'bool':
        return r.choice([True, False])
    if kind == 'time':
        return r.choice(TIMES) if r.random() < 0.7 else '%df' % r.randrange(5000)
    if kind == 'color':
        if r.random() < 0.25:
            s = ''.join(r.choice('0123456789abcdefABCDEF') for _ in range(r.choice([6, 8])))
            return r.choice(['', '#']) + s
        if r.random() < 0.25:
            return tuple(r.random() for _ in range(r.choice([3, 4])))
        return r.choice(HEX+TUPLES)
    if kind == 'vector':
        a = lambda: r.choice([x for x in REALS if not isinstance(x, str)]) if r.random() < 0.6 else r.uniform(-100, 100)
        x, y = a(), a()
        return r.choice([(x, y), (x, y), {'x': x, 'y': y}, {'y': y, 'x': x}])
    if kind == 'string':
        return rand_text(r)
    if kind == 'gradient':
        ps = r.sample([0.0, 0.25, 0.5, 0.333333, 0.75, 1.0, 1e-6, 0, 1, -0.5, 1.5, 0.123457], r.choice([2, 3, 4, 6]))
        ps = sorted(set(ps)) if r.random() < 0.5 else list({float(p): p for p in ps}.values())
        while len(ps) < 2:
            ps.append(0.987654)
        return {p: rand_value(r, 'color') for p in ps}
    raise KeyError(kind)


def element(kind, x, fps):
    """A value element with this value, made without the library."""
    if kind == 'real':
        return el('real', {'value': '%.10f' % float(x)})
    if kind == 'angle':
        return el('angle', {'value': '%f' % float(x)})
    if kind == 'integer':
        return el('integer', {'value': str(int(x))})
    if kind == 'blend':
        return el('integer', {'value': str(int(x)), 'static': 'true'})
    if kind == 'bool':
        return el('bool', {'value': str(bool(x)).lower()})
    if kind == 'time':
        return el('time', {'value': x if isinstance(x, str) else '%sf' % dec(x)})
    if kind == 'string':
        return el('string', None, text=x)
    if kind == 'vector':
        w = (x['x'], x['y']) if isinstance(x, dict) else x
        return vector_el(*[float(y) for y in w])
    if kind == 'color':
        return color_el([c['b']/255 if c['k'] == 'b' else float('%s%d.%05d%05d%05d' % ('-' if c['neg'] else '', c['i'], *c['d'])) for c in colour(x)])
    if kind == 'gradient':
        return el('gradient', None, *[element('color', x[p], fps).replace('<color>', '<color pos="%.6f">' % p) for p in sorted(x)])
    raise KeyError(kind)


def formed(r, kind, x, doc):
    """The same value as an object of the library's."""
    if kind == 'time' and r.random() < 0.5 and not (isinstance(x, (int, float)) and x < 0):
        return T(x, ref=doc.tag) if r.random() < 0.7 or not (isinstance(x, (int, float)) or x.endswith('f') and ' ' not in x) else T(x)
    if kind == 'time':
        t = V.Time('0f')
        if isinstance(x, str) and not x.endswith('f') or isinstance(x, str) and ' ' in x:
            return T(x, ref=doc.tag)
        return V.Time(x)
    if kind == 'color' and isinstance(x, tuple) and r.random() < 0.3:
        return V.Color(*x)
    if kind == 'vector' and isinstance(x, tuple) and r.random() < 0.5:
        return V.X_Y(*x)
    return CLS[kind](x)


# ---- histories -------------------------------------------------------------------------

class History:
    """params: [(name of the target, layer desc, parameter, part, kind)]"""

    def __init__(self, rng, anim, params, start):
        self.rng, self.anim = rng, anim
        self.fps = float(anim.tag['fps']) if anim is not None else 24
        self.params = {p[0]: p for p in params}
        self.cfg = dict(start=start, element={p[0]: EL[p[4]] for p in params})
        self.seen = {}
        self.ev = []

    def layer(self, desc):
        for t in self.anim.tag.find_all('layer'):
            if t.get('desc') == desc:
                return t
        raise KeyError(desc)

    def wrapper(self, desc):
        return L.Layer.from_tag(self.layer(desc))

    def field(self, l, n):
        for c in type(l).__mro__:
            f = vars(c).get(n)
            if f is not None:
                return f if isinstance(f, ParamTagField) else None

    def attr_of(self, l, n):
        for c in type(l).__mro__:
            for k, f in vars(c).items():
                if isinstance(f, ParamTagField) and f.name == n and self.field(l, k) is f:
                    return k

    def element(self, x):
        _, d, n, part, kind = self.params[x]
        for p in kids(self.layer(d)):
            if p.name == 'param' and p.get('name') == n:
                e = kids(p)[0]
                if part:
                    e = [kids(k)[0] for k in kids(e) if k.name == part][0]
                return e
        raise KeyError(x)

    def handles(self, x):
        """The ways of getting at the value object."""
        _, d, n, part, kind = self.params[x]
        l = self.wrapper(d)
        a = self.attr_of(l, n)
        out = {}
        if part:
            out['item item'] = lambda: l[n][part]
            out['item attribute'] = lambda: getattr(l[n], part)
            if a:
                out['attribute item'] = lambda: getattr(l, a)[part]
                out['attribute attribute'] = lambda: getattr(getattr(l, a), part)
            if isinstance(l, L.Group):
                out['shortcut'] = lambda: getattr(l, part)
            out['value'] = lambda: l[n].value[part]
            out['items'] = lambda: dict(l[n].items())[part]
        else:
            if a:
                out['attribute'] = lambda: getattr(l, a)
            out['item'] = lambda: l[n]
            out['items'] = lambda: dict(l.items())[n]
        return out

    def routes(self, x):
        _, d, n, part, kind = self.params[x]
        l = self.wrapper(d)
        a = self.attr_of(l, n)
        rs = ['value']
        if part:
            rs += ['whole item', 'whole value'] + (['whole attribute'] if a else []) + (['shortcut'] if isinstance(l, L.Group) else [])
        else:
            rs += ['item'] + (['attribute'] if a else [])
        return rs

    def assign(self, x, val, route=None):
        _, d, n, part, kind = self.params[x]
        rs = self.routes(x)
        if part and route:
            route = self.rng.choice({'attribute': ['shortcut', 'whole attribute'], 'item': ['whole item', 'whole value'], 'value': ['value']}[route])
        if route not in rs:
            route = self.rng.choice(rs)
        l = self.wrapper(d)
        a = self.attr_of(l, n)

        def f():
            if route == 'value':
                h = self.rng.choice(list(self.handles(x).values()))()
                h.value = val
            elif route == 'item':
                l[n] = val
            elif route == 'attribute':
                setattr(l, a, val)
            elif route == 'shortcut':
                setattr(l, part, val)
            elif route == 'whole item':
                l[n] = {part: val}
            elif route == 'whole value':
                l[n].value = {part: val}
            elif route == 'whole attribute':
                setattr(l, a, {part: val})
        return route, call(f)[0]

    def set(self, x, v, route=None, obj=False):
        _, d, n, part, kind = self.params[x]
        e = dict(op='set', x=x, v=want(kind, v, self.fps), py=repr(v)[:200])
        if obj:
            r, val = call(formed, self.rng, kind, v, self.anim)
            if r != 'ok':
                e['r'] = r
                return self.record(e)
        else:
            val = v
        e['route'], e['r'] = self.assign(x, val, route)
        e['obj'] = obj and type(val).__name__ or ''
        self.record(e)

    def parts(self, vs):
        """vs: target -> python value, all parts of one transformation"""
        xs = sorted(vs)
        _, d, n, part, kind = self.params[xs[0]]
        e = dict(op='parts', vs={x: want(self.params[x][4], vs[x], self.fps) for x in xs})
        whole = {self.params[x][3]: (vs[x] if self.rng.random() < 0.6 else formed(self.rng, self.params[x][4], vs[x], self.anim)) for x in xs}
        if len(xs) == 4 and self.rng.random() < 0.4:
            whole = V.Transformation(whole)
        l = self.wrapper(d)

        def f():
            r = self.rng.randrange(3)
            if r == 0 and self.attr_of(l, n):
                setattr(l, self.attr_of(l, n), whole)
            elif r == 1:
                l[n] = whole
            else:
                l[n].value = whole
        e['r'], _ = call(f)
        self.record(e)

    def copy(self, x, y, route=None):
        e = dict(op='copy', x=x, y=y)
        val = self.rng.choice(list(self.handles(y).values()))()
        e['route'], e['r'] = self.assign(x, val, route)
        self.record(e)

    def switch(self, x, on):
        e = dict(op='on' if on else 'off', x=x)

        def f():
            self.rng.choice(list(self.handles(x).values()))().is_animated = on
        e['r'], _ = call(f)
        self.record(e)

    def read(self, x):
        self.record(dict(op='read', x=x, r='ok'))

    def reload(self):
        name = 'v%d%s' % (os.getpid(), self.rng.choice(['.sif', '.sifz']))

        def f():
            self.anim.save(name)
            self.anim = sangfroid.open(name)
            os.unlink(name)
        self.record(dict(op='reload', r=call(f)[0]))

    def record(self, e, only=None):
        xs = sorted(self.params)
        if len(xs) > 4:
            main = [x for x in xs if x == e.get('x') or x in e.get('vs', {})]
            rest = [x for x in xs if x not in main]
            if e['op'] != 'reload':
                xs = main + self.rng.sample(rest, 3 if len(rest) > 3 else len(rest))
        e['obs'] = {}
        for x in xs:
            o = self.obs(x)
            # what was not assigned and looks as it did when it was last judged need not be judged again
            if x == e.get('x') or x in e.get('vs', {}) or self.seen.get(x) != o:
                e['obs'][x] = self.seen[x] = o
        self.ev.append(e)

    def obs(self, x):
        kind = self.params[x][4]
        o = dict(anim=False, element='?', xml=UNKNOWN, reads=[], equal=True)
        try:
            t = self.element(x)
            o['anim'] = t.name == 'animated'
            if o['anim']:
                o['element'] = t.get('type')
                ws = [w for w in kids(t) if w.name == 'waypoint']
                ws.sort(key=lambda w: time_frames(w['time'], self.fps))
                s = kids(ws[0])[0]
            else:
                o['element'] = t.name + (' with a type' if t.get('type') else '')
                s = t
            o['xml'] = from_xml(kind, s, self.fps)
        except Exception as q:
            o['xml'] = dict(k='?', what=repr(q)[:100])
        vs = []
        for how, f in self.handles(x).items():
            r, v = call(f)
            if r != 'ok':
                o['reads'].append(dict(how=how, anim=o['anim'], v=dict(k='?', what=r)))
                continue
            vs.append(v)
            r, an = call(lambda: v.is_animated)
            if an:
                r, w = call(lambda: list(v.timeline)[0].value)
                rs = from_api(kind, w) if r == 'ok' else [('', UNKNOWN)]
            else:
                rs = from_api(kind, v)
            for h2, val in rs:
                for q in o['reads']:
                    if q['anim'] == bool(an) and q['v'] == val:
                        break               # the same as another way
                else:
                    o['reads'].append(dict(how=how+', '+h2, anim=bool(an), v=val))
        if not o['anim']:
            for v in vs[1:]:
                r, q = call(lambda: vs[0] == v and v == vs[0])
                if r != 'ok' or q is not True and bool(q) is not True:
                    o['equal'] = False
        return o


# where there are two parameters of the same kind
PAIRS = {
    'real': [('circle', 'radius', ''), ('circle', 'feather', '')], 'angle': [('rotate', 'amount', ''), ('star', 'angle', '')],
    'integer': [('text', 'weight', ''), ('super_sample', 'width', '')], 'blend': [('group', 'blend_method', ''), ('circle', 'blend_method', '')],
    'bool': [('circle', 'invert', ''), ('linear_gradient', 'loop', '')], 'time': [('timeloop', 'link_time', ''), ('timeloop', 'duration', '')],
    'color': [('circle', 'color', ''), ('rectangle', 'color', '')], 'vector': [('circle', 'origin', ''), ('text', 'size', '')],
    'string': [('text', 'text', ''), ('text', 'family', '')], 'gradient': [('linear_gradient', 'gradient', ''), ('noise', 'gradient', '')],
}
PARTS = {'vector': [('group', 'transformation', 'offset'), ('group', 'transformation', 'scale')],
         'angle': [('group', 'transformation', 'angle'), ('group', 'transformation', 'skew_angle')]}


def waypoints(r, kind, fps, first, others):
    ts = sorted(r.sample(range(0, 200), len(others)+1))
    return el('animated', {'type': EL[kind]},
              *[el('waypoint', dict(time='%df' % t, before='clamped', after='linear'), element(kind, v, fps).replace(' static="true"', ''))
                for t, v in zip(ts, [first]+others)])


def start_value(r, kind, fps, animated, v=None):
    v = rand_value(r, kind) if v is None else v
    while kind == 'string' and v.strip() != v:
        v = rand_text(r, space=False)
    if animated:
        e = waypoints(r, kind, fps, v, [rand_value(r, kind) for _ in range(r.choice([0, 1, 2]))])
    else:
        e = element(kind, v, fps)
    # what the text just made denotes
    t = bs4.BeautifulSoup(e, 'xml').find(recursive=False)
    s = t
    if animated:
        s = kids(kids(t)[0])[0]
    return e, dict(v=from_xml(kind, s, fps), anim=animated)


def build(rng, pairs, kind, anims=(False, False), vals=(None, None)):
    """Two parameters of one kind, in one document."""
    fps = rng.choice(['24.000', '25', '29.97'])
    start, params, ls = {}, [], []
    for name, (lt, n, part), an, v in zip('ab', pairs, anims, vals):
        e, start[name] = start_value(rng, kind, float(fps), an, v)
        if part:
            d = dict(offset=vector_el(0, 0), angle=el('angle', {'value': '0.000000'}), skew_angle=el('angle', {'value': '0.000000'}),
                     scale=vector_el(1, 1))
            d[part] = e
            p = param(n, el('composite', {'type': 'transformation'}, *[el(k, None, x) for k, x in d.items()]))
        else:
            p = param(n, e)
        extra = [param('canvas', '<canvas/>')] if lt == 'group' else []
        ls.append(layer(lt, p, *extra, desc=name))
        params.append((name, name, n, part, kind))
    if rng.random() < 0.5:
        ls = [group(*ls, desc='g')]
    anim = open_text(document(*ls, fps=fps))
    return History(rng, anim, params, start)


def replay(rng, kind, ops, n):
    vals = {}
    while len(vals) < 2:
        v = rand_value(rng, kind)
        w = json.dumps(want(kind, v, 24))
        vals.setdefault(w, v)
    v1, v2 = vals.values()
    h = build(rng, rng.choice([PAIRS[kind]]*2 + [PARTS[kind]] if kind in PARTS else [PAIRS[kind]]), kind)
    for e in ops:
        if e['op'] == 'set':
            h.set(e['x'], v1 if e['v'] == 'v1' else v2, e['route'], e['form'] == 'object')
        elif e['op'] == 'copy':
            h.copy(e['x'], e['y'], e['route'])
        elif e['op'] == 'read':
            h.read(e['x'])
        else:
            h.switch(e['x'], e['op'] == 'on')
    return h


def random_history(rng, length):
    kind = rng.choice(list(PAIRS))
    pairs = rng.choice([PAIRS[kind]]*2 + [PARTS[kind]] if kind in PARTS else [PAIRS[kind]])
    h = build(rng, pairs, kind, (rng.random() < 0.5, rng.random() < 0.5))
    state = {x: h.cfg['start'][x]['anim'] for x in 'ab'}
    last = {}
    for _ in range(length):
        x, y = rng.sample('ab', 2)
        r = rng.random()
        if r < 0.55:
            v = last[x] if x in last and rng.random() < 0.25 else rand_value(rng, kind)
            h.set(x, v, None, rng.random() < 0.4)
            state[x] = False
            last[x] = v
        elif r < 0.7 and not state[y]:
            h.copy(x, y)
            state[x] = False
            last.pop(x, None)
            if y in last:
                last[x] = last[y]
        elif r < 0.85:
            state[x] = rng.random() < 0.6
            h.switch(x, state[x])
        elif r < 0.93:
            h.read(x)
        else:
            h.reload()
    return h


def transformation(rng, length):
    fps = rng.choice(['24.000', '25'])
    kinds = dict(offset='vector', angle='angle', skew_angle='angle', scale='vector')
    start, params, parts = {}, [], []
    for k, kind in kinds.items():
        e, start[k] = start_value(rng, kind, float(fps), rng.random() < 0.4)
        parts.append(el(k, None, e))
        params.append((k, 'g', 'transformation', k, kind))
    if rng.random() < 0.5:
        rng.shuffle(parts)
    lt = rng.choice(['group', 'Group', 'text'])
    tr = param('transformation', el('composite', {'type': 'transformation'}, *parts))
    inner = layer('group', param('transformation', transformation_el((9, 9), 99, 99, (9, 9))), param('canvas', '<canvas/>'), desc='inner')
    if lt == 'text':
        lay = layer('text', param('text', el('string', None, text='x')), tr, desc='g')
    else:
        lay = layer(lt, *([param('canvas', el('canvas', None, inner)), tr] if rng.random() < 0.5 else [tr, param('canvas', el('canvas', None, inner))]), desc='g')
    h = History(rng, open_text(document(lay, fps=fps)), params, start)
    anim = {k: start[k]['anim'] for k in kinds}
    for _ in range(length):
        r = rng.random()
        x = rng.choice(list(kinds))
        if r < 0.35:
            h.set(x, rand_value(rng, kinds[x]), None, rng.random() < 0.4)
            anim[x] = False
        elif r < 0.7:
            xs = rng.sample(list(kinds), rng.choice([1, 2, 3, 4, 4]))
            h.parts({k: rand_value(rng, kinds[k]) for k in xs})
            for k in xs:
                anim[k] = False
        elif r < 0.8:
            y = dict(offset='scale', scale='offset', angle='skew_angle', skew_angle='angle')[x]
            if not anim[y]:
                h.copy(x, y)
                anim[x] = False
        elif r < 0.93:
            anim[x] = rng.random() < 0.6
            h.switch(x, anim[x])
        else:
            h.reload()
    return h


class Attributes(History):
    """The attributes of layers themselves, in a document and out of one."""
    ATTRS = dict(active='bool', exclude_from_rendering='bool', desc='desc', version='real')

    def __init__(self, rng):
        self.rng, self.fps = rng, 24
        self.anim = open_text(document(group(desc='g'), fps='24'))
        r = lambda k, vs: {k: rng.choice(vs)} if rng.random() < 0.6 else {}
        ls = []
        for n in 'ab':
            at = {**r('active', ['true', 'false']), **r('exclude_from_rendering', ['true', 'false']), **r('desc', ['', 'x', 'a & b']),
                  'version': rng.choice(['0.1', '0.2', '1.5'])}
            t = rng.choice(['circle', 'rectangle', 'group', 'text'])
            if rng.random() < 0.5:
                lay = getattr(L, t.title())()
                for k, v in at.items():
                    lay.tag[k] = v
                self.how = 'class'
            else:
                x = bs4.BeautifulSoup('<layer type="%s"/>' % t, 'xml').find().extract()
                for k, v in at.items():
                    x[k] = v
                lay = L.Layer.from_tag(x)
            ls.append(lay)
        self.lays = ls
        self.place = [None, None]
        self.params = {n+'.'+a: (n+'.'+a, i, a, '', k) for i, n in enumerate('ab') for a, k in self.ATTRS.items()}
        start = {x: dict(v=self.said(x), anim=False) for x in self.params}
        self.cfg = dict(start=start, element={x: 'attribute' for x in self.params})
        self.seen, self.ev = {}, []

    def said(self, x):
        """What the element says, or the default"""
        _, i, a, _, k = self.params[x]
        l = self.lays[i]
        return self.conv(k, l.tag.attrs[a]) if a in l.tag.attrs else \
            exact(dict(active='true', exclude_from_rendering='false', desc='-').get(a))

    def conv(self, k, v):
        if k == 'bool':
            return exact(str(v).lower()) if str(v).lower() in ('true', 'false') else UNKNOWN
        if k == 'desc':
            return exact('='+v) if isinstance(v, str) else exact('-') if v is None else UNKNOWN
        return num(str(v))

    def step(self):
        x = self.rng.choice(sorted(self.params))
        _, i, a, _, k = self.params[x]
        r = self.rng.random()
        l = self.lays[i]
        if r < 0.7:
            v = {'bool': self.rng.choice([True, False, True, False, 1, 0]), 'desc': self.rng.choice([None, '', 'x', rand_text(self.rng), rand_text(self.rng)]),
                 'real': self.rng.choice([0.1, 0.25, 1, 1.5, 2])}[k]
            w = l if self.rng.random() < 0.6 else L.Layer.from_tag(l.tag)
            self.record(dict(op='set', x=x, v=self.conv(k, bool(v) if k == 'bool' else v), py=repr(v)[:200], r=call(setattr, w, a, v)[0]))
        elif r < 0.85:
            g = [t for t in self.anim if isinstance(t, L.Group)]
            g = self.rng.choice([self.anim] + [t for t in g if t.tag is not l.tag])
            if self.place[1-i] is not None and (g.tag is self.lays[1-i].tag):
                g = self.anim
            self.place[i] = True
            self.record(dict(op='read', x=x, r=call(g.append, l)[0]))
        else:
            name = 'w%d.sif' % os.getpid()

            def f():
                for j in (0, 1):
                    if self.place[j]:
                        self.lays[j].tag['verif-mark'] = str(j)
                self.anim.save(name)
                self.anim = sangfroid.open(name)
                os.unlink(name)
                for j in (0, 1):
                    if self.place[j]:
                        self.lays[j] = L.Layer.from_tag(self.anim.tag.find('layer', attrs={'verif-mark': str(j)}))
            self.record(dict(op='reload', r=call(f)[0]))

    def record(self, e):
        e['obs'] = {}
        for x in sorted(self.params):
            o = self.obs(x)
            if x == e.get('x') or self.seen.get(x) != o:
                e['obs'][x] = self.seen[x] = o
        self.ev.append(e)

    def obs(self, x):
        _, i, a, _, k = self.params[x]
        l = self.lays[i]
        o = dict(anim=False, element='attribute', xml=UNKNOWN, reads=[], equal=True)
        o['xml'] = call(self.said, x)[1] or UNKNOWN
        for how, w in (('attribute', l), ('another wrapper', L.Layer.from_tag(l.tag)), ('its own class', type(l)(l.tag))):
            r, v = call(getattr, w, a)
            v = self.conv(k, v) if r == 'ok' else dict(k='?', what=r)
            if k == 'bool' and r == 'ok' and not isinstance(getattr(w, a), bool):
                v = UNKNOWN
            if not any(q['v'] == v for q in o['reads']):
                o['reads'].append(dict(how=how, anim=False, v=v))
        return o


def attributes(rng, length):
    h = Attributes(rng)
    for _ in range(length):
        h.step()
    return h


def kind_of(f):
    for k, c in (('blend', V.BlendMethod), ('real', V.Real), ('angle', V.Angle), ('integer', V.Integer), ('bool', V.Bool), ('time', V.Time),
                 ('color', V.Color), ('vector', V.X_Y), ('string', V.String), ('gradient', V.Gradient)):
        if f.type_ is c:
            return k


def sweep(rng, cls):
    """Every parameter of a new layer of a class."""
    given = None
    try:
        if cls is L.Text and rng.random() < 0.7:
            given = rand_value(rng, 'string') if rng.random() < 0.6 else rng.choice(['', ' ', '0', 'False'])
            l = cls(given)
        else:
            l = cls()
    except Exception:
        return None          # see C15
    l.desc = 'l'
    a = open_text(document(group(desc='g'), fps='24.000'))
    (a if rng.random() < 0.5 else a.find(desc='g')).append(l)
    params, start = [], {}
    for p in kids(l.tag):
        if p.name != 'param':
            continue
        n = str(p['name'])
        e = kids(p)[0]
        kind = {k: k for k in EL}.get(e.name)
        if n == 'blend_method':
            kind = 'blend'
        if kind:
            params.append((n, 'l', n, '', kind))
            start[n] = dict(v=from_xml(kind, e, 24.0), anim=False)
        elif e.name == 'composite':
            for q in kids(e):
                k2 = kids(q)[0].name
                params.append(('%s.%s' % (n, q.name), 'l', n, str(q.name), k2))
                start['%s.%s' % (n, q.name)] = dict(v=from_xml(k2, kids(q)[0], 24.0), anim=False)
    if not params:
        return None
    if given is not None:
        start['text'] = dict(v=want('string', given, 24.0), anim=False)
    h = History(rng, a, params, start)
    h.read('text' if given is not None else params[0][0])
    order = list(params)
    rng.shuffle(order)
    for x, _, n, part, kind in order:
        rs = h.routes(x)
        h.set(x, rand_value(rng, kind), rng.choice(['attribute', 'item', 'value']), rng.random() < 0.3)
    h.reload()
    return h


def main():
    j = job()
    rng = random.Random(j['seed'])
    out = Writer()
    for n, p in enumerate(j['paths']):
        for kind in p.get('kinds', list(PAIRS)):
            h = replay(rng, kind, p['ops'], n)
            out.history('model-%s-%d' % (kind, n), h.cfg, h.ev)
    for n in range(j['random']):
        f = rng.choices([random_history, transformation, attributes], [12, 4, 3])[0]
        h = f(rng, j['length'])
        out.history('random-%d-%d' % (j['seed'], n), h.cfg, h.ev)
    classes = []
    for name in sorted(dir(L)):
        c = getattr(L, name)
        if isinstance(c, type) and issubclass(c, Layer) and c not in (Layer,) and c not in classes:
            classes.append(c)
    for c in classes[j['shard']::8]:
        for k in range(j['sweeps']*(8 if c is L.Text else 1)):
            h = sweep(rng, c)
            if h is not None:
                out.history('sweep-%s-%d' % (c.__name__, k), h.cfg, h.ev)
    out.close()


if __name__ == "__main__":
    main()
