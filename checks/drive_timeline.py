"""
Runs histories of timeline operations in the real code and records them
(see spec/Timeline.tla for the meaning of each operation).
"""
import random, sys
from fractions import Fraction
from drv import *

W = V.Waypoint

G1 = {0.0: (1.0, 0.0, 0.0), 1.0: (0.0, 0.0, 1.0, 0.5)}
G2 = {0.0: '#102030', 0.25: '#ffffff80', 1.0: (0.123456, 0.654321, 0.5)}
G0 = {0.0: '#ffffff', 1.0: '#000000'}

# kind -> (class, python values for v0, v1, ..., element for v0, ways there)
KINDS = {
    'real':    (V.Real, [0.5, 2, 0.1234567891, -3.25, 1000000.0, 1e-9]),
    'angle':   (V.Angle, [0.0, 90, 12.345678, -45.5, 0.1, 359.999999]),
    'integer': (V.Integer, [0, 1, -7, 255, 1000000]),
    'bool':    (V.Bool, [False, True]),
    'color':   (V.Color, ['#ffffff', '#ff0000', (0.123457, 0.5, 0.25), '#01020380',
                          (0.0, 1.0, 0.333333, 0.666667)]),
    'vector':  (V.X_Y, [(0.0, 0.0), (1.5, -2.25), (0.1234567891, 3), (-1e-9, 1000.5), (2, 7)]),
    'string':  (V.String, ['zero', 'hello', '', 'a<b & "c" \'d\'', 'one\ntwo  three ', '  ']),
    'time':    (V.Time, ['0f', '12f', '7.5f', '100f', '33.333f']),
    'gradient': (V.Gradient, [G0, G1, G2]),
}


def expect(kind, x):
    """Canonical text of a python value, without the library."""
    if kind in ('real', 'angle'):
        return fdec(float(x), 10)
    if kind == 'integer':
        return dec(x)
    if kind == 'bool':
        return str(x).lower()
    if kind == 'string':
        return 's' + x
    if kind == 'time':
        return 't%s' % milli(time_frames(x, 24))
    if kind == 'vector':
        return 'x' + ';'.join('%s=%s' % (k, fdec(float(y), 10)) for k, y in zip('xy', x))
    if kind == 'color':
        if isinstance(x, str):
            s = x.lstrip('#')
            x = tuple(int(s[i:i+2], 16)/255 for i in range(0, len(s), 2))
        x = tuple(x) + (1.0,)*(4-len(x))
        return 'c' + ','.join(fdec(y, 6) for y in x)
    if kind == 'gradient':
        return 'g' + ';'.join('%s:%s' % (fdec(p, 6), expect('color', c)) for p, c in sorted(x.items()))
    raise KeyError(kind)


def element(kind, x):
    if kind == 'real':
        return el('real', {'value': '%.10f' % x})
    if kind == 'angle':
        return el('angle', {'value': '%f' % x})
    if kind == 'integer':
        return el('integer', {'value': x})
    if kind == 'bool':
        return el('bool', {'value': str(x).lower()})
    if kind == 'string':
        return el('string', None, text=x)
    if kind == 'time':
        return el('time', {'value': x})
    if kind == 'vector':
        return vector_el(*x)
    if kind == 'color':
        return color_el([float(y) for y in expect('color', x)[1:].split(',')])
    if kind == 'gradient':
        return el('gradient', None, *[element('color', c).replace('<color>', '<color pos="%f">' % p)
                                      for p, c in sorted(x.items())])


WHERE = {   # kind -> [(layer type, parameter)]
    'real': [('circle', 'radius'), ('circle', 'z_depth')],
    'angle': [('rotate', 'amount'), ('transformation', 'angle')],
    'integer': [('text', 'weight'), ('supersample', 'width')],
    'bool': [('circle', 'invert')],
    'color': [('circle', 'color')],
    'vector': [('circle', 'origin'), ('transformation', 'offset')],
    'string': [('text', 'text')],
    'time': [('freetime', 'time')],
    'gradient': [('linear_gradient', 'gradient')],
}


class History:
    def __init__(self, kind, rng, fps='24.000', end='5s', dur=121000, held=None, which=None, names='abc', preset=False):
        self.kind, self.rng = kind, rng
        self.cls, self.py = KINDS[kind]
        self.fps = float(fps)
        self.canon = [expect(kind, x) for x in self.py]
        self.held = rng.random() < 0.4 if held is None else held
        ltype, pname = which or rng.choice(WHERE[kind])
        self.pname, self.tr = pname, ltype == 'transformation'
        v0 = element(kind, self.py[0])
        start = {x: dict(val='v0', wp=[]) for x in names}
        elems = {x: v0 for x in names}
        if preset:
            for x in names:
                if x != 'c' and rng.random() < 0.7:
                    ts = rng.sample([0, 1000, 5000, 24000, 12500, 12250, 12750, -2000, -2500, 100000], rng.choice([1, 2, 3, 4]))
                    if rng.random() < 0.7:
                        ts.sort()
                    wp = [dict(t=t, v=self.alias('v%d' % rng.randrange(len(self.py))),
                               b=rng.choice(['tcb', 'auto', 'halt', 'ease', 'linear', 'constant', 'clamped']),
                               a=rng.choice(['tcb', 'auto', 'halt', 'ease', 'linear', 'constant', 'clamped']))
                          for t in ts]
                    start[x] = dict(val='', wp=wp)
                    ws = [el('waypoint', dict(time=self.timetext(w['t'], rng), before=w['b'], after=w['a']),
                             element(kind, self.py[int(w['v'][1:])])) for w in wp]
                    elems[x] = el('animated', {'type': kind}, '\n', *[w + rng.choice(['\n', '']) for w in ws])

        def lay(desc):
            if self.tr:
                parts = dict(offset=vector_el(0, 0), angle=el('angle', {'value': '0.000000'}),
                             skew_angle=el('angle', {'value': '0.000000'}), scale=vector_el(1, 1))
                parts[pname] = elems.get(desc, v0)
                return layer('group',
                             param('transformation', el('composite', {'type': 'transformation'},
                                   *[el(k, None, x) for k, x in parts.items()])),
                             param('canvas', '<canvas/>'), desc=desc)
            return layer(ltype, param(pname, elems.get(desc, v0)), desc=desc)

        self.anim = open_text(document(lay('a'), layer('circle', param('radius', el('real', {'value': '1.0'}))),
                                       group(lay('b'), desc='g'), fps=fps, end_time=end))
        other = '25.000' if float(fps) != 25 else '24.000'
        self.other = open_text(document(fps=other, end_time='9s'))
        self.targets = [x for x in names]
        self.obj = {}
        for x in self.targets:
            if x == 'c':
                self.obj[x] = self.cls(self.py[0])
            else:
                self.obj[x] = self.fetch(x)
        self.valnames, self.wpnames = ['o1', 'o2', 'o3'], ['w1', 'w2', 'w3']
        self.vals = {n: self.cls(self.py[0]) for n in self.valnames}
        self.wps = {n: W(0, self.vals['o1']) for n in self.wpnames}
        self.cfg = dict(att=[x for x in self.targets if x != 'c'], dur=dur,
                        tgt=start,
                        valnames=self.valnames, wpnames=self.wpnames, kind=kind, fps=fps,
                        param=pname)
        self.ev = []

    def timetext(self, n, rng):
        f = Fraction(n, 1000)
        s = f/Fraction(str(self.fps))
        if rng.random() < 0.5 and f > 0 and self.fps == int(self.fps):
            secs, fr = divmod(f, Fraction(self.fps))
            return ('%ds %sf' % (secs, dec(float(fr)))) if fr else '%ds' % secs
        return dec(float(f)) + 'f'

    def fetch(self, x):
        lay = self.anim.find(desc=x)
        if self.tr:
            if self.rng.random() < 0.5:
                return lay['transformation'][self.pname]
            return getattr(lay, self.pname)
        if self.rng.random() < 0.5 and self.pname != 'type':
            return lay[self.pname]
        return getattr(lay, self.pname)

    def value(self, x):
        if x == 'c' or self.held:
            return self.obj[x]
        return self.fetch(x)

    def tok(self, c):
        return 'v%d' % self.canon.index(c) if c in self.canon else c

    def alias(self, t):
        i = int(t[1:]) % len(self.py)
        return 'v%d' % self.canon.index(self.canon[i])

    def plain(self, t):
        """A python object denoting token t: plain, or a value object."""
        x = self.py[int(t[1:])]
        r = self.rng.random()
        if r < 0.25:
            return self.cls(x)
        return x

    def key(self, k):
        if 'text' in k and k['f'] == 'txt':
            return k['text']
        n = Fraction(k['n'], 1000)
        if k['f'] == 'num':
            return int(n) if n.denominator == 1 and self.rng.random() < 0.7 else float(n)
        if k['f'] == 'txt':
            if k['ref']:
                return dec(float(n/Fraction(self.fps))) + 's'
            return self.rng.choice(['%sf', ' %sf', '%sf ']) % (dec(float(n)),)
        spec = dec(float(n)) + 'f'
        return {'': lambda: T(spec), 'same': lambda: T(spec, ref=self.anim.tag),
                'other': lambda: T(spec, ref=self.other.tag)}[k['fps']]()

    # ---- operations

    def do(self, e):
        e = dict(e)
        op = e['op']
        for f in ('v',):
            if f in e:
                e[f] = self.alias(e[f])
        got = None
        r = 'ok'
        if op == 'set':
            r, _ = call(lambda: self.value(e['x']).timeline.__setitem__(self.key(e['k']), self.plain(e['v'])))
        elif op == 'setval':
            r, _ = call(lambda: self.value(e['x']).timeline.__setitem__(self.key(e['k']), self.vals[e['val']]))
        elif op == 'setwp':
            r, _ = call(lambda: self.value(e['x']).timeline.__setitem__(self.key(e['k']), self.wps[e['w']]))
        elif op == 'copywp':
            r, _ = call(lambda: self.value(e['y']).timeline.__setitem__(
                self.key(e['k2']), self.value(e['x']).timeline[self.key(e['k'])]))
        elif op == 'del':
            r, _ = call(lambda: self.value(e['x']).timeline.__delitem__(self.key(e['k'])))
        elif op == 'get':
            r, got = call(lambda: self.value(e['x']).timeline[self.key(e['k'])])
            e['got'] = self.wp(got) if r == 'ok' else dict(t=0, v='', b='', a='')
        elif op == 'add':
            ws = [self.wps[w] for w in e['ws']]
            if len(ws) == 1 and self.rng.random() < 0.5:
                ws = ws[0]
            if e['over'] is False and self.rng.random() < 0.5:
                r, _ = call(lambda: self.value(e['x']).timeline.add(ws))
            else:
                r, _ = call(lambda: self.value(e['x']).timeline.add(ws, overwrite=e['over']))
        elif op == 'iadd':
            ws = [self.wps[w] for w in e['ws']]
            if len(ws) == 1 and self.rng.random() < 0.5:
                ws = ws[0]

            def iadd():
                v = self.value(e['x'])
                if self.rng.random() < 0.5:
                    v.timeline += ws
                else:
                    tl = v.timeline
                    tl += ws
            r, _ = call(iadd)
        elif op == 'replace':
            ws = [self.wps[w] for w in e['ws']]

            def rep():
                v = self.value(e['x'])
                if self.rng.random() < 0.3 and len(ws) <= 1:
                    v.timeline = {w.time: w for w in ws}
                else:
                    v.timeline = ws
            r, _ = call(rep)
        elif op == 'copytl':
            def cp():
                self.value(e['y']).timeline = self.value(e['x']).timeline
            r, _ = call(cp)
        elif op in ('on', 'off'):
            def sw():
                self.value(e['x']).is_animated = (op == 'on')
            r, _ = call(sw)
        elif op == 'assign':
            def asg():
                self.value(e['x']).value = self.plain(e['v'])
            r, _ = call(asg)
        elif op == 'mkval':
            r, o = call(lambda: self.cls(self.py[int(e['v'][1:])]))
            if r == 'ok':
                self.vals[e['val']] = o
                # other waypoint objects keep the old value object
                for n in self.wpnames:
                    if self.wval[n] == e['val']:
                        self.wps[n].value = o
        elif op == 'mutval':
            def mv():
                self.vals[e['val']].value = self.py[int(e['v'][1:])]
            r, _ = call(mv)
        elif op == 'mkwp':
            kw = dict(before=e['b'], after=e['a'])
            if e['b'] == e['a'] == 'clamped':
                kw = {}
            r, o = call(lambda: W(self.key(e['k']), self.vals[e['val']], **kw))
            if r == 'ok':
                self.wps[e['w']] = o
                self.wval[e['w']] = e['val']
        elif op == 'mutbefore':
            def f():
                self.wps[e['w']].before = e['b']
            r, _ = call(f)
        elif op == 'mutafter':
            def f():
                self.wps[e['w']].after = e['a']
            r, _ = call(f)
        elif op == 'mutwpval':
            self.wps[e['w']].value = self.vals[e['val']]
            self.wval[e['w']] = e['val']
        elif op == 'mutwptime':
            self.wps[e['w']].time = self.key(e['k'])
        elif op == 'bad':
            r, _ = call(self.bad, e['what'], e['x'])
        elif op == 'read':
            v = self.value(e['x'])
            for f in (str, repr, len, lambda x: str(x.timeline), lambda x: x.timeline == x.timeline,
                      lambda x: list(x.timeline.items())):
                call(f, v)
        else:
            raise KeyError(op)
        e['r'] = r
        e['obs'] = {x: self.obs(x) for x in self.targets}
        e['pool'] = []
        for n, w in self.wps.items():
            r, p = call(lambda: dict(w=n, b=str(w.before), a=str(w.after), n=milli(w.time.frames),
                                     v=self.tok(api_canon(w.value))))
            e['pool'].append(p if r == 'ok' else dict(w=n, b='?', a='?', n=BAD_TIME, v='?'))
        self.ev.append(e)

    wval = None

    def bad(self, what, x):
        tl = self.value(x).timeline
        wrong = V.String('zzz') if self.kind != 'string' else V.Real(3)
        good = self.cls(self.py[1])
        if what == 'add-number':
            tl.add(5)
        elif what == 'add-list':
            tl.add([self.wps['w1'], 'x'], overwrite=True)
        elif what == 'add-none':
            tl.add(None)
        elif what == 'set-wrong-wp':
            tl[17] = W(17, wrong)
        elif what == 'add-wrong-wp':
            tl.add([W(400, good), W(401, wrong)])
        elif what == 'assign-number':
            self.value(x).timeline = 7
        elif what == 'assign-list':
            self.value(x).timeline = [1, 2]
        elif what == 'assign-wrong':
            self.value(x).timeline = [W(3, good), W(4, wrong)]
        elif what == 'set-banana':
            tl['banana'] = good
        elif what == 'del-banana':
            del tl['banana']
        elif what == 'get-none':
            tl[None]
        elif what == 'set-none-key':
            tl[None] = good
        elif what == 'animated-in-waypoint':
            v = self.cls(self.py[1])
            v.is_animated = True
            W(3, v)
        elif what == 'waypoint-of-plain':
            W(3, 5)
        elif what == 'waypoint-at-none':
            W(None, good)
        elif what == 'set-object':
            tl[5] = object()
            if self.kind == 'string':
                del tl[5]
                raise TypeError

    BAD = ['add-number', 'add-list', 'add-none', 'set-wrong-wp', 'add-wrong-wp', 'assign-number',
           'assign-list', 'assign-wrong', 'set-banana', 'del-banana', 'get-none', 'set-none-key',
           'animated-in-waypoint', 'waypoint-of-plain', 'waypoint-at-none']

    # ---- observation

    def wp(self, w):
        return dict(t=milli(w.time.frames), v=self.tok(api_canon(w.value)), b=str(w.before), a=str(w.after))

    def obs(self, x):
        o = dict(api=[dict(t=BAD_TIME, v='', b='', a='')], keys=[BAD_TIME], vals=[BAD_TIME], items=[BAD_TIME],
                 itemvals=[BAD_TIME], len=-1, truth=False, look=[BAD_TIME], an=False, xan=False, val='?', xval='?',
                 xml=[dict(t=BAD_TIME, v='', b='', a='')])
        try:
            v = self.value(x)
            tl = v.timeline
            o['an'] = bool(v.is_animated)
            o['val'] = '' if o['an'] else self.tok(api_canon(v))
            o['api'] = [self.wp(w) for w in tl]
            o['keys'] = [milli(t.frames) for t in tl.keys()]
            o['vals'] = [milli(w.time.frames) for w in tl.values()]
            o['items'] = [milli(t.frames) for t, w in tl.items()]
            o['itemvals'] = [milli(w.time.frames) for t, w in tl.items()]
            o['len'] = len(tl)
            o['truth'] = bool(tl)
            o['look'] = [milli(tl[t].time.frames) for t in tl.keys()]
        except Exception as ex:
            o['error'] = repr(ex)[:200]
        try:
            tag = self.value(x).tag
            o['xan'] = tag.name == 'animated'
            fps = None if x == 'c' else self.fps
            if o['xan']:
                o['xval'] = ''
                o['xml'] = [dict(t=milli(time_frames(k['time'], fps)), v=self.tok(canon(kids(k)[0], fps)),
                                 b=k['before'], a=k['after']) for k in kids(tag)]
            else:
                o['xml'] = []
                o['xval'] = self.tok(canon(tag, fps))
        except Exception as ex:
            o['xerror'] = repr(ex)[:200]
        return o


def rand_key(rng, hist, ref_ok=True):
    fps = Fraction(hist.cfg['fps'])
    r = rng.random()
    ns = [0, 0, 1000, 5000, 5000, 12500, 24000, 100000, 33333, 12250, 12750, 1, 1999, 5001, 4999, 86400000, 1000000000]
    if r < 0.3:
        return dict(f='num', n=rng.choice(ns))
    if r < 0.4:
        return dict(f='num', n=-rng.choice([1000, 1000, 2000, 5000, 121000, 130000, 1500]))
    if r < 0.55:
        return dict(f='txt', n=rng.choice(ns+[-2000, -5000, -7500]), ref=False)
    if r < 0.75:
        text, secs, fr = rng.choice([('1s', 1, 0), ('2.5s', Fraction(5, 2), 0), ('1m', 60, 0), ('1m 2s 3f', 62, 3),
                                     ('0s', 0, 0), ('1h', 3600, 0), ('1h 1f', 3600, 1), ('0s 5f', 0, 5),
                                     ('0s 0f', 0, 0), ('1s 12.5f', 1, Fraction(25, 2)), ('-1s', -1, 0),
                                     ('5f 1s', 1, 5), ('-1s 2f', -1, -2)])
        n = (secs*fps+fr)*1000
        if n.denominator != 1:
            return dict(f='num', n=5000)
        return dict(f='txt', n=int(n), ref=True, text=text)
    return dict(f='T', n=rng.choice(ns+[-2000, -5000]), fps=rng.choice(['', 'same', 'same', 'other']))


def rand_op(rng, hist):
    x = rng.choice(hist.targets)
    y = rng.choice(hist.targets)
    w = rng.choice(hist.wpnames)
    o = rng.choice(hist.valnames)
    v = 'v%d' % rng.randrange(len(hist.py))
    k = rand_key(rng, hist)
    names = ['tcb', 'clamped', 'constant', 'linear', 'ease', 'auto', 'halt', 'tcb', 'linear', 'ease', 'constant']
    if rng.random() < 0.06:
        names = ['undefined', 'wombat', '', 'Linear']
    b, a = rng.choice(names), rng.choice(['clamped', 'tcb', 'constant', 'linear', 'ease', 'auto', 'halt'])
    ws = [rng.choice(hist.wpnames) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3]))]
    ops = [
        (12, dict(op='set', x=x, k=k, v=v)), (5, dict(op='setval', x=x, k=k, val=o)),
        (6, dict(op='setwp', x=x, k=k, w=w)), (5, dict(op='copywp', x=x, y=y, k=k, k2=rand_key(rng, hist))),
        (8, dict(op='del', x=x, k=k)), (6, dict(op='get', x=x, k=k)),
        (7, dict(op='add', x=x, ws=ws, over=rng.random() < 0.5)), (5, dict(op='iadd', x=x, ws=ws)),
        (3, dict(op='replace', x=x, ws=ws)), (3, dict(op='copytl', x=x, y=y)),
        (3, dict(op='on', x=x)), (3, dict(op='off', x=x)), (3, dict(op='assign', x=x, v=v)),
        (2, dict(op='mkval', val=o, v=v)), (5, dict(op='mutval', val=o, v=v)),
        (9, dict(op='mkwp', w=w, k=k, val=o, b=b, a=a)),
        (3, dict(op='mutbefore', w=w, b=b)), (3, dict(op='mutafter', w=w, a=b)),
        (2, dict(op='mutwpval', w=w, val=o)),
        (2, dict(op='mutwptime', w=w, k=dict(f='T', n=rng.choice([0, 3000, 5000, 7500]), fps=rng.choice(['', 'same'])))),
        (3, dict(op='bad', what=rng.choice(hist.BAD), x=x)), (2, dict(op='read', x=x)),
    ]
    # mostly use keys which exist
    e = rng.choices([o for _, o in ops], [n for n, _ in ops])[0]
    if e['op'] == 'mkwp' and rng.random() < 0.4:      # often several at the same instant
        e['k'] = rng.choice([dict(f='num', n=5000), dict(f='T', n=5000, fps=''), dict(f='txt', n=5000, ref=False)])
    if e['op'] in ('del', 'get', 'copywp', 'setwp', 'set') and rng.random() < 0.5:
        ts = [w['t'] for w in hist.ev[-1]['obs'][x]['xml']] if hist.ev else []
        ts = [t for t in ts if t != BAD_TIME]
        if ts:
            t = rng.choice(ts)
            att = x != 'c'
            form = rng.choice(['num', 'txt', 'T', 'end'])
            if form == 'num' and t >= 0:
                e['k'] = dict(f='num', n=t)
            elif form == 'end' and att and t < hist.cfg['dur']:
                e['k'] = dict(f='num', n=t-hist.cfg['dur'])
            elif form == 'T':
                e['k'] = dict(f='T', n=t, fps=rng.choice(['', 'same']))
            else:
                e['k'] = dict(f='txt', n=t, ref=False)
    return e


def main():
    j = job()
    rng = random.Random(j['seed'])
    out = Writer()
    n = 0
    kinds = list(KINDS)
    for path in j.get('paths', []):
        kind = kinds[n % len(kinds)]
        n += 1
        names = sorted(path['targets'])
        hist = History(kind, rng, names=names)
        hist.wval = {w: 'o1' for w in hist.wpnames}
        for e in path['pre']+path['ops']:
            hist.do(e)
        out.history('model-%d-%s' % (n, kind), hist.cfg, hist.ev)
    for m in range(j['random']):
        kind = kinds[m % len(kinds)]
        fps, end, dur = rng.choice([('24.000', '5s', 121000), ('25.000', '4s', 101000), ('30.000', '1m', 1801000),
                                    ('23.976', '0f', 1000), ('12', '10f', 11000), ('1', '2s', 3000),
                                    ('29.97', '150f', 151000), ('60.000', '2s 30f', 151000)])
        hist = History(kind, rng, fps, end, dur, preset=rng.random() < 0.5)
        hist.wval = {w: 'o1' for w in hist.wpnames}
        for _ in range(j['length']):
            hist.do(rand_op(rng, hist))
        out.history('random-%d-%s' % (m, kind), hist.cfg, hist.ev)
    out.close()


main()
