"""Runs bywords (see spec/Bywords.tla)."""
import hashlib, os, random, runpy, sys, logging, io, contextlib
import pysrt
from drv import *
from bywords.adjust import adjust
from bywords.bywords import Bywords

M = 1000000
FPS = ['24.000', '25', '30', '29.970', '23.976', '12', '60.000', '24.5']


def six(d):
    if d is None:
        return [-2000000000, 0]
    r = int((d*M).to_integral_value())
    return list(divmod(r, M))


def dig(tag, skip=()):
    out = []

    def walk(t):
        out.append((t.name, sorted((k, str(v)) for k, v in t.attrs.items())))
        for c in t.children:
            if isinstance(c, bs4.Tag):
                if any(c is s for s in skip):
                    out.append('*')
                else:
                    walk(c)
            elif isinstance(out[-1], str) and out[-1][:1] == '=':
                out[-1] += str(c)
            elif str(c):
                out.append('=' + str(c))
        out.append('/')
    walk(tag)
    return hashlib.sha1(repr(out).encode()).hexdigest()


def text_layer(desc, rng, before):
    """before: what the text parameter is at first"""
    if before == 'static':
        v = el('string', None, text=rng.choice(['', 'old text', 'a']))
    else:
        v = el('animated', {'type': 'string'}, *[
            el('waypoint', dict(time=t, before=rng.choice(['clamped', 'constant', 'halt']), after='linear'), el('string', None, text=x))
            for t, x in rng.sample([('0f', ''), ('1s', 'old'), ('2s 3f', 'older'), ('30f', 'x')], rng.choice([1, 2, 4]))])
    ps = [param('text', v), param('color', color_el((0, 0, 0, 1))), param('family', el('string', None, text='Sans Serif')),
          param('size', vector_el(0.25, 0.25))]
    rng.shuffle(ps)
    return layer('text', *ps, desc=desc, **attributes(rng))


def attributes(rng):
    if rng.random() < 0.6:
        return {}
    return dict(active=rng.choice(['true', 'false', 'false', None]), exclude_from_rendering=rng.choice(['true', 'false', None]),
                version=rng.choice(['0.1', '0.4', None]), guid=rng.choice([None, 'ABC']))


class History:
    def __init__(self, rng, groups, extras=True):
        """groups: lists of descriptions (None: has none), in reading order"""
        self.rng = rng
        self.fps = rng.choice(FPS) if rng.random() < 0.7 else '24.000'
        self.ev = []
        self.order = []            # (group number, description) in document order
        body = []
        for n, descs in enumerate(groups):
            body.append(self.group(n, descs))
        if extras:
            for _ in range(rng.choice([0, 1, 2])):
                body.insert(rng.randrange(len(body)+1), ('x', self.extra(groups)))
        else:
            body.append(('x', (layer('circle', desc='c'), [])))
        text = document(*[b[1][0] for b in body], fps=self.fps)
        for who, (_, ds) in body:
            self.order += [(who, d) for d in ds]
        self.anim = open_text(text)
        gs = []
        for n in range(len(groups)):
            g = [dict(id='t%d' % i, desc=list(d or '')) for i, (w, d) in enumerate(self.order) if w == n]
            g.reverse()            # the file holds the layers backwards
            gs.append(g)
        o = self.obs()
        self.cfg = dict(fps=int(Decimal(self.fps)*1000), groups=gs, raw=o['raw'], rest=o['rest'])

    def group(self, n, descs):
        rng = self.rng
        back = list(reversed(descs))
        kidsx, order = [], []
        j = 0
        while j < len(back):
            if rng.random() < 0.15:
                kidsx.append(layer('circle', param('radius', el('real', {'value': '1'})), desc=rng.choice(['', 'text', back[j] or 'x'])))
            if rng.random() < 0.12:       # a group inside
                k = rng.randrange(1, len(back)-j+1)
                kidsx.append(group(*[text_layer(d, rng, rng.choice(['static', 'animated'])) for d in back[j:j+k]], desc=rng.choice(['inner', None]), **attributes(rng)))
                order += back[j:j+k]
                j += k
            else:
                kidsx.append(text_layer(back[j], rng, rng.choice(['static', 'static', 'animated'])))
                order.append(back[j])
                j += 1
        name = rng.choice(['bywords-%d', 'Bywords %d', 'BYWORDS%d', 'bywords-line %d', 'bywords_%d']) % n
        g = group(*kidsx, desc=name, **attributes(rng))
        while rng.random() < 0.2:         # anywhere in the document
            g = group(g, *[layer('circle', desc='c')][:rng.randrange(2)], desc=rng.choice(['verse', None, 'by words']), **attributes(rng))
        return n, (g, order)

    def extra(self, groups):
        """things that bywords should leave alone"""
        rng = self.rng
        d = rng.choice(['how can i', 'other', 'no such line', 'sing'])
        k = rng.randrange(4)
        if k == 0:
            ds = rng.choice([[d], [d], [d, d], list(reversed(rng.choice(groups)))])
            return group(*[text_layer(x, rng, rng.choice(['static', 'animated'])) for x in ds],
                         desc=rng.choice(['notbywords', None, 'by words', ' bywords', 'not bywords-1', 'byword-1', 'words'])), ds
        if k == 1:
            return text_layer(d, rng, 'animated'), [d]
        return layer('circle', param('radius', el('real', {'value': '1'})), desc='bywords'), []

    def texts(self):
        return [t for t in self.anim.tag.find_all('layer') if t.get('type') == 'text']

    def obs(self):
        o = dict(tl={}, raw={}, rest='')
        skip = []
        for i, t in enumerate(self.texts()):
            p = [k for k in kids(t) if k.name == 'param' and k.get('name') == 'text'][0]
            skip.append(p)
            x = 't%d' % i
            o['raw'][x] = dig(p)
            o['tl'][x] = []
            v = kids(p)[0]
            if v.name == 'animated':
                o['tl'][x] = [dict(at=six(time_frames(w['time'], self.fps)), text=list(txt(kids(w)[0])),
                                   before=str(w.get('before')), after=str(w.get('after'))) for w in kids(v)]
        o['rest'] = dig(self.anim.tag, skip)
        return o

    def srt(self, lines):
        def t(ms):
            return '%02d:%02d:%02d,%03d' % (ms//3600000, ms//60000 % 60, ms//1000 % 60, ms % 1000)
        return ''.join('%d\n%s --> %s\n%s\n\n' % (n+1, t(l['start']), t(l['start']+l['dur']), l['text']) for n, l in enumerate(lines))

    def do(self, e):
        rng = self.rng
        if e['op'] == 'run':
            text = self.srt(e['lines'])
            subs = pysrt.from_string(text)
            assert len(subs) == len(e['lines']), text
            out = dict(op='run', letters=e['letters'], lines=[
                dict(start=l['start'], dur=l['dur'], text=list(s.text)) for l, s in zip(e['lines'], subs)])
            # on a copy, because looking for matches may already change something
            self.anim.save('copy%d.sif' % os.getpid())
            copy = sangfroid.open('copy%d.sif' % os.getpid())
            _, bw = call(lambda: Bywords(sif=copy, srt=subs, letter_at_a_time=e['letters']))
            out['unmatched'] = [[list(w) for w in x.split()] for x in bw.no_matches] if bw else [['!']]
            if rng.random() < 0.3:
                out['how'] = 'command'
                out['r'] = self.command(text, e['letters'])
            else:
                out['how'] = 'adjust'
                out['r'], _ = call(lambda: adjust(subs, self.anim, letter_at_a_time=e['letters']) if e['letters'] or rng.random() < 0.5 else adjust(subs, self.anim))
        else:
            out = dict(e)

            def f():
                n = 'b%d%s' % (os.getpid(), rng.choice(['.sif', '.sifz']))
                self.anim.save(n)
                self.anim = sangfroid.open(n)
                os.unlink(n)
            out['r'], _ = call(f)
        out.update(self.obs())
        self.ev.append(out)

    def command(self, srt, letters):
        rng = self.rng
        base = rng.choice(['m%d', 'my.song%d', './m%d', 'v1.2.m%d', 'dir.sif/m%d', os.getcwd()+'/dir.sif/m.%d']) % os.getpid()
        os.makedirs('dir.sif', exist_ok=True)
        sif = base + rng.choice(['.sif', '.sifz'])
        self.anim.save(sif)
        sub = rng.choice([base + '.srt', 'other%d.srt' % os.getpid()])
        with open(sub, 'w', encoding='utf-8') as f:
            f.write(srt)
        argv = ['bywords', sif]
        if not sub.startswith(base):
            argv.append(sub)
        if letters:
            argv.append(rng.choice(['-l', '--letter']))
        if rng.random() < 0.5:
            argv += rng.choice([['-v'], ['-v', '-v'], ['-vv'], ['--verbose']])
        old = sys.argv
        from bywords.__main__ import main

        def f():
            sys.argv = argv
            with contextlib.redirect_stdout(io.StringIO()):
                main()
        r, _ = call(f)
        sys.argv = old
        logging.getLogger('bywords').setLevel(logging.NOTSET)
        self.anim = sangfroid.open(sif)
        for n in (sif, sub):
            os.unlink(n)
        return r


WORDS = ['How', 'can', 'I', 'sing', 'GIRL?', "don't", "rock'n'roll", '1984', 'a', 'É', '世界', '-', '...', 'U2', 'well-known', 'ooooooooooooooh', 'like', 'B', 'the', '(x)', '"no"', 'éa', 'straße', 'ﬁn', 'x²', 'ſo']
import re as _re


def tidy(s):
    return ' '.join(_re.sub('[^a-z0-9 \t\n]', '', s.lower()).split())


def rand_desc(rng):
    ws = [rng.choice(WORDS) if rng.random() < 0.7 else
          ''.join(rng.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789') for _ in range(rng.choice([1, 2, 5, 9]))) for _ in range(rng.choice([1, 1, 2, 3, 6]))]
    s = ''.join(w + rng.choice([' ', ' ', '  ', '\n', '\t']) for w in ws)
    s = s.strip() if rng.random() < 0.7 else s
    return rng.choice(['', '', ' ', '  ']) + s


def rand_groups(rng):
    out, seen = [], set()
    for _ in range(rng.choice([1, 2, 3, 4, 4]) if rng.random() < 0.93 else 12):
        ds = [rng.choice([None, '', ' ']) if rng.random() < 0.08 else rand_desc(rng) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
        w = ' '.join(x for x in (tidy(d or '') for d in ds) if x)
        if w in seen or sum(len(d or '') for d in ds) > 180:
            continue
        seen.add(w)
        out.append(ds)
    return out or [['How can I']]


def respell(rng, descs):
    ws = []
    for d in descs:
        for w in (d or '').split():
            w = ''.join(rng.choice([c.upper(), c.lower(), c]) if c.isascii() else c for c in w)
            if rng.random() < 0.2:
                w = rng.choice(['"', "'", '¿', '']) + w + rng.choice(['!', '...', ',', '?'])
            if rng.random() < 0.1:
                i = rng.randrange(len(w)+1)
                w = w[:i] + rng.choice("'-.ß²éſ") + w[i:]
            if rng.random() < 0.1:
                w = ''.join(c for c in w if c.isascii())
            ws.append(w)
    out = ''
    for w in ws:
        out += w + rng.choice([' ', ' ', ' ', '  ', '\n', '\t'])
    out = '\n'.join(x for x in out.split('\n') if x.strip())
    return out.strip() or '...'


def rand_lines(rng, groups):
    lines = []
    now = rng.choice([0, 0, 1, 500, 61001, 1200000, 2147999, 3600500, 3599990, 7325250, 36000000])
    for _ in range(rng.choice([1, 2, 3, 5]) if rng.random() < 0.97 else 25):
        g = rng.choice(groups)
        r = rng.random()
        if r < 0.75:
            t = respell(rng, g)
        elif r < 0.82:
            t = respell(rng, g + ['extra'])
        elif r < 0.85:
            t = respell(rng, g[:-1])
        elif r < 0.9:
            t = ''.join(respell(rng, g).split()) or '-'
        else:
            t = rng.choice(['...', 'no such line', 'No such LINE!', 'other', 'how can I', '12', '--', 'é'])
        dur = rng.choice([0, 10, 37, 1000, 1001, 2500, 9999])
        lines.append(dict(start=now, dur=dur, text=t))
        now += dur + rng.choice([1, 40, 777, 5000])
    if rng.random() < 0.3:
        rng.shuffle(lines)
    return lines


def main():
    j = job()
    rng = random.Random(j['seed'])
    out = Writer()
    for n, c in enumerate(j['cases']):
        h = History(rng, [[''.join(l['desc']) for l in c['g']]], extras=False)
        l = dict(c['line'], text=''.join(c['line']['text']).strip())
        h.do(dict(op='run', letters=c['letters'], lines=[l]))
        out.history('model-%d' % n, h.cfg, h.ev)
    for n in range(j['random']):
        groups = rand_groups(rng)
        h = History(rng, groups)
        prev = None
        for _ in range(j['length']):
            r = rng.random()
            if r < 0.15:
                h.do(dict(op='reload'))
                continue
            if prev is None or r < 0.6:
                prev = dict(op='run', letters=rng.random() < 0.4, lines=rand_lines(rng, groups))
            h.do(prev)
        out.history('random-%d-%d' % (j['seed'], n), h.cfg, h.ev)
    out.close()


main()
