"""Header items and keyframes (see spec/Header.tla)."""
import hashlib, os, random
from drv import *

M = 1000000
WRONG = [-2000000000, 0]
NUM = {'version': float, 'width': int, 'height': int, 'xres': float, 'yres': float,
       'gamma_r': float, 'gamma_g': float, 'gamma_b': float, 'antialias': int}
ATTR = {k: k.replace('_', '-') for k in NUM}
PY = {'box': 'view_box', 'bg': 'bgcolor', 'begin': 'begin_time', 'end': 'end_time'}
TEXTS = ['', 'n1', 'A longer name', ' spaced out ', 'é ü 漢字 🐨', '<b>&amp;"\'', 'two\nlines', 'tab\there', '0', 'None', ']]>', 'x'*300]
_P = re.compile(r'\s*(-?)([0-9]+(?:\.[0-9]*)?|\.[0-9]+)([hmsf])')


def lex(text):
    s, pos, ps, neg, inneg = str(text).strip(), 0, [], False, False
    while pos < len(s):
        m = _P.match(s, pos)
        if not m:
            return dict(f='junk')
        if m.group(1):
            if pos == 0:
                neg = True
            else:
                inneg = True
        d = Decimal(m.group(2))*M
        if d != int(d) or d > 2*10**9*M:
            return dict(f='junk')
        ps.append(dict(u=m.group(3), n=list(divmod(int(d), M))))
        pos = m.end()
    return dict(f='parts', neg=neg, inneg=inneg, ps=ps) if ps else dict(f='junk')


def render(sp):
    if sp['f'] == 'num':
        x = Decimal(sp['n'][0]) + Decimal(sp['n'][1])/M
        return int(x) if x == int(x) else float(x)
    return ('-' if sp['neg'] else '') + ' '.join(dec(Decimal(p['n'][0]) + Decimal(p['n'][1])/M) + p['u'] for p in sp['ps'])


def six(x):
    try:
        r = int((Decimal(repr(float(x)))*M).to_integral_value())
    except Exception:
        return WRONG
    return list(divmod(r, M)) if abs(r) < 2*10**9*M else WRONG


def says(tag):
    """What a document says, read without the library."""
    a = {k: str(v) for k, v in tag.attrs.items()}
    s = dict(num={k: dec(a[ATTR[k]]) for k in NUM if ATTR[k] in a})
    s['fps'] = 0
    if 'fps' in a:
        try:
            s['fps'] = int((Decimal(a['fps'])*1000).to_integral_value())
        except Exception:
            s['fps'] = -1
    for k, n in (('box', 'view-box'), ('bg', 'bgcolor')):
        s[k] = [dict(t=a[n], l=[dec(x) for x in a[n].split()])] if n in a else []
    for k in ('begin', 'end'):
        s[k] = [lex(a[k+'-time'])] if k+'-time' in a else []
    for k in ('name', 'desc'):
        s[k] = [txt(t) for t in kids(tag) if t.name == k]
    s['kf'] = [dict(time=lex(t.get('time')), name=txt(t), active=t.get('active', 'true') == 'true')
               for t in kids(tag) if t.name == 'keyframe']
    return s


def digest(tag):
    """Everything but the attributes of the root, its name and its description."""
    out = []

    def walk(t, top):
        for c in t.children:
            if isinstance(c, bs4.Tag):
                if top and c.name in ('name', 'desc'):
                    continue
                out.append((c.name, sorted((k, str(v)) for k, v in c.attrs.items())))
                walk(c, False)
                out.append('/')
            elif not top:
                out.append(str(c))
    walk(tag, True)
    return hashlib.sha1(repr(out).encode()).hexdigest()


class History:
    def __init__(self, rng, text=None):
        self.rng = rng
        self.anim = open_text(text, rng.choice(['.sif', '.sifz'])) if text else sangfroid.Animation()
        self.other = open_text(document(layer('circle', param('radius', el('real', {'value': '1'}))), fps='30', end_time='10s'))
        self.ev = []
        self.cfg = dict(start=says(self.anim.tag), raw=self.raw(), rest=self.rest())

    def raw(self):
        return {k: str(v) for k, v in self.anim.tag.attrs.items()}

    def rest(self):
        return digest(self.anim.tag) + digest(self.other.tag) + repr(sorted(self.other.tag.attrs.items()))

    def report(self):
        a = self.anim

        def get(f, fallback):
            try:
                return f()
            except Exception:
                return fallback

        def num(k):
            x = getattr(a, k)
            return dec(repr(x)) if type(x) is NUM[k] else '?%r' % (x,)
        r = dict(num={k: get(lambda: num(k), '?') for k in NUM})
        r['fps'] = get(lambda: int((Decimal(repr(float(a.fps)))*1000).to_integral_value()), -1)
        r['size'] = get(lambda: [dec(repr(x)) for x in a.size], [])
        r['view_box'] = get(lambda: str(a.view_box), '!')
        r['viewbox'] = get(lambda: [dec(repr(x)) for x in a.viewbox], [])
        r['bgcolor'] = get(lambda: str(a.bgcolor), '!')
        r['background'] = get(lambda: [dec(repr(x)) for x in a.background.as_tuple()], [])
        r['begin'] = get(lambda: six(a.begin_time.frames), WRONG)
        r['end'] = get(lambda: six(a.end_time.frames), WRONG)
        r['framecount'] = get(lambda: a.framecount if isinstance(a.framecount, int) else -2, -1)
        r['last'] = get(lambda: six(T(-1, ref=a).frames), WRONG)
        r['second'] = get(lambda: six(T('1s', ref=a.tag).frames), WRONG)
        r['name'] = get(lambda: a.name, '!')
        r['desc'] = get(lambda: a.desc, '!')
        for k in ('name', 'desc'):
            if not isinstance(r[k], str):
                r[k] = '!%r' % (r[k],)
        r['kf'] = get(lambda: [dict(time=get(lambda: six(k.time.frames), WRONG), name=get(lambda: str(k.name), '!'), active=bool(k.active))
                               for k in a.keyframes], [])
        r['nkf'] = get(lambda: len(a.keyframes), -1)
        return r

    def do(self, e):
        e = dict(e)
        rng, a = self.rng, self.anim
        if e['op'] == 'set':
            x, v = e['x'], e['v']
            if x in NUM:
                v = NUM[x](v)
                val = rng.choice([v, v, str(v), int(v) if v == int(v) else v])
            elif x == 'fps':
                val = rng.choice([v/1000, dec(Decimal(v)/1000), v//1000 if v % 1000 == 0 else v/1000])
            elif x in ('begin', 'end'):
                val = render(v)
                if rng.random() < 0.4:
                    val = T(val, ref=rng.choice([a, a.tag]))
                elif rng.random() < 0.3 and (v['f'] == 'num' and v['n'][0] >= 0):
                    val = T(val)
            elif x in ('box', 'bg'):
                val = v['t']
            else:
                val = v
            e['val'] = repr(val)
            e['r'], _ = call(lambda: setattr(a, PY.get(x, x), val))
        elif e['op'] == 'bad':
            e['r'], _ = call(lambda: setattr(a, *e.pop('with_')))
        elif e['op'] == 'reload':
            suffix = rng.choice(['.sif', '.sifz'])
            name = 'h%d%s' % (os.getpid(), suffix)

            def f():
                a.save(name)
                if rng.random() < 0.8:
                    self.anim = sangfroid.open(name)
                os.unlink(name)
            e['r'], _ = call(f)
        else:
            def f():
                repr(a), str(a), repr(a.keyframes), [str(k) for k in a.keyframes], a.size, a.viewbox, a.background
            e['r'], _ = call(f)
        e['rep'] = self.report()
        if rng.random() < 0.5:
            e['rep'] = self.report()            # reading again
        e['doc'], e['raw'], e['rest'] = says(self.anim.tag), self.raw(), self.rest()
        self.ev.append(e)


FPS = ['24.000', '25', '30', '29.970', '23.976', '12', '1', '60.000', '24.5', '0.5', '120', '47.952']


def rand_time(rng):
    r = rng.random()
    if r < 0.25:
        return dict(f='num', n=list(divmod(rng.choice([0, 1, 5, 36, 100, 1000, 2.5, 10.125, 100000])*M, M))) if rng.random() < 0.7 \
            else dict(f='num', n=[-rng.choice([1, 2, 5]), 0])
    us = rng.sample('hmsf', rng.choice([1, 1, 2, 3, 4]))
    us.sort(key='hmsf'.index)
    ps = [dict(u=u, n=[rng.choice([0, 1, 2, 5, 12, 23, 24, 59, 61, 100]) if u != 'h' else rng.randrange(3),
                       rng.choice([0, 0, 0, 500000, 250000, 125000])]) for u in us]
    neg = rng.random() < 0.1 and (len(ps) == 1 or ps[0]['u'] != 'f')
    return dict(f='parts', neg=neg, inneg=False, ps=ps)


def fix(t):
    t['n'] = [int(x) for x in t['n']] if t['f'] == 'num' else None
    if t['f'] != 'num':
        del t['n']
    return t


def rand_text_time(rng):
    while True:
        t = rand_time(rng)
        if t['f'] == 'parts':
            return t


def rand_value(rng, x):
    if x in ('width', 'height'):
        return str(rng.choice([1, 480, 640, 1920, 100, 0, 7, 99999]))
    if x == 'antialias':
        return str(rng.choice([0, 1, 2, 31]))
    if x in NUM:
        return dec(rng.choice(['1', '2.2', '0.5', '2834.645669', '72.123456', '1000', '0.001', '1.25', '0', '-1.5', '300']))
    if x == 'fps':
        return int(Decimal(rng.choice(FPS))*1000)
    if x in ('begin', 'end'):
        return fix(rand_time(rng))
    if x == 'box':
        l = [rng.choice(['-4.0', '2.25', '-4.000000', '0', '10', '1.5', '-0.125', '3.141593']) for _ in range(4)]
        return dict(t=' '.join(l), l=[dec(y) for y in l])
    if x == 'bg':
        l = [rng.choice(['0', '1', '0.5', '0.500000', '0.123456', '1.000000', '0.25']) for _ in range(rng.choice([3, 4, 4]))]
        return dict(t=' '.join(l), l=[dec(y) for y in l])
    return rng.choice(TEXTS)


ITEMS = list(NUM) + ['fps', 'begin', 'end', 'box', 'bg', 'name', 'desc']
BADS = [('width', 'wombat'), ('width', None), ('height', ''), ('height', []), ('xres', 'x'), ('yres', None), ('gamma_r', 'one'), ('gamma_g', {}),
        ('gamma_b', '1,5'), ('fps', 'fast'), ('fps', None), ('fps', ''), ('begin_time', '5x'), ('begin_time', ''), ('begin_time', None), ('end_time', 'later'),
        ('end_time', []), ('end_time', '1s 1s'), ('end_time', object()), ('name', 5), ('name', None), ('desc', None), ('desc', ['x']), ('desc', b'x'), ('antialias', 'yes'),
        ('version', 'new'), ('width', '12.5.1'), ('end_time', '5')]


def rand_doc(rng):
    at = {'gen': 'yes', 'zoom': 'x'} if rng.random() < 0.3 else {}
    full = rng.random()
    for x in ITEMS:
        if x in ('name', 'desc') or rng.random() < full:
            continue
        v = rand_value(rng, x)
        if x in NUM:
            if x in ('width', 'height') and rng.random() < 0.1:
                v = ' %s ' % v
            elif NUM[x] is float and rng.random() < 0.4:
                v = '%.6f' % float(v)
            at[ATTR[x]] = v
        elif x == 'fps':
            at['fps'] = rng.choice([dec(Decimal(v)/1000), '%.3f' % (v/1000)])
        elif x in ('begin', 'end'):
            at[x+'-time'] = render(rand_text_time(rng))
        else:
            at[{'box': 'view-box', 'bg': 'bgcolor'}[x]] = v['t']
    order = list(at)
    rng.shuffle(order)
    at = {k: at[k] for k in order}
    parts = []
    for n in ('name', 'desc'):
        if rng.random() < 0.7:
            parts.append(el(n, None, text=rng.choice(TEXTS)))
    k = None
    for _ in range(rng.choice([0, 0, 1, 2, 5])):
        k = dict(time=k['time'] if k and rng.random() < 0.2 else render(rand_text_time(rng)))
        if rng.random() < 0.8:
            k['active'] = rng.choice(['true', 'false'])
        parts.append(el('keyframe', k, text=rng.choice(TEXTS)))
    inner = el('canvas', dict(width='1', fps='7') if rng.random() < 0.5 else None, '<name>inner</name>', '<desc>inner</desc>')
    parts.append(layer('group', param('canvas', inner), desc='inner'))
    if rng.random() < 0.5:
        parts.append('<defs>%s</defs>' % el('canvas', dict(id='x', fps='3'), '<name>deeper</name>'))
    parts.append('<meta name="grid_show" content="1"/>')
    if rng.random() < 0.5:
        rng.shuffle(parts)
    return '<?xml version="1.0" encoding="UTF-8"?>\n<canvas%s>\n%s\n</canvas>\n' % (attrs(at), '\n'.join(parts))


def main():
    j = job()
    rng = random.Random(j['seed'])
    out = Writer()
    for n, p in enumerate(j['paths']):
        h = History(rng, '<?xml version="1.0"?><canvas height="100"><desc>d</desc><keyframe time="1s 1f" active="true">k</keyframe></canvas>')
        for e in p['ops']:
            h.do(e)
        out.history('model-%d' % n, h.cfg, h.ev)
    for n in range(j['random']):
        h = History(rng, rand_doc(rng) if rng.random() < 0.93 else None)
        for _ in range(j['length']):
            r = rng.random()
            if r < 0.7:
                x = rng.choice(ITEMS + ['fps', 'begin', 'end'])
                e = dict(op='set', x=x, v=rand_value(rng, x))
            elif r < 0.8:
                e = dict(op='bad', with_=rng.choice(BADS))
            elif r < 0.9:
                e = dict(op='reload')
            else:
                e = dict(op='read')
            h.do(e)
        out.history('random-%d-%d' % (j['seed'], n), h.cfg, h.ev)
    out.close()


main()
