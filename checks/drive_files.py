"""Runs histories of opening and saving in the real code and records them (see spec/Files.tla)."""
import glob, os, random, shutil, tempfile, zipfile
from drv import *
from xmlgen import *
from reading import read_everything

EXT = {'p.sif': 'sif', 'q.sifz': 'sifz', 'C.SIF': 'sif', 'd.SifZ': 'sifz', 'a b é.sif': 'sif', 'two.dots.sifz': 'sifz',
       'sub/e.sif': 'sif', 'sif': 'other', 'r.txt': 'other', 'x.sif.bak': 'other', 'y.sifzz': 'other', 'z.si': 'other', 'z.sif~': 'other', 'z.xsif': 'other', 'sifz': 'other', '.sif': 'other', 'sif.': 'other', 'z.sif.gz': 'other', 'z.sif_': 'other',
       'w.': 'other', 't.sfg': 'sfg', 'T.SFG': 'sfg',
       'dir.sif': 'sif', 'dir.sifz': 'sifz', 'missing/h.sif': 'sif', 'missing/h.sifz': 'sifz', 'n'*300+'.sif': 'sif',
       'full.sif': 'sif', 'full.sifz': 'sifz'}
BLOCKED = ['dir.sif', 'dir.sifz', 'missing/h.sif', 'missing/h.sifz', 'n'*300+'.sif']
FULL = ['full.sif', 'full.sifz']
PLACES = ['p.sif', 'q.sifz', 'C.SIF', 'd.SifZ', 'a b é.sif', 'two.dots.sifz', 'sub/e.sif']
SAMPLES = sorted(glob.glob(os.path.join(os.path.dirname(os.path.dirname(sangfroid.__file__)), 'test', '*.sif*')))


class History:
    def __init__(self, rng):
        self.rng = rng
        self.dir = tempfile.mkdtemp(dir=os.getcwd())
        os.mkdir(self.dir+'/dir.sif')
        os.mkdir(self.dir+'/dir.sifz')
        os.mkdir(self.dir+'/sub')
        for f in FULL:
            os.symlink('/dev/full', self.dir+'/'+f)
        self.tokens = {}            # digest -> token
        self.unwritable = set()
        self.anims = {}
        self.ev = []
        self.n = 0
        self.blank = None
        self.cfg = None

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, n):
        r = self.rng.random()
        if r < 0.3:
            return os.path.join(self.dir, n)
        if r < 0.4:
            return './' + n
        return n

    def put(self, n, b):
        with open(os.path.join(self.dir, n), 'wb') as f:
            f.write(b)

    def token(self, dig, make=True):
        if dig is None:
            return '?'
        if dig not in self.tokens:
            if not make:
                return '?'
            self.tokens[dig] = 'c%d' % (len(self.tokens)+1)
        return self.tokens[dig]

    def listing(self):
        d, raw = {}, {}
        for base, dirs, files in os.walk(self.dir):
            for f in files:
                p = os.path.join(base, f)
                n = os.path.relpath(p, self.dir)
                if os.path.islink(p):
                    if n not in FULL:
                        d[n] = dict(fmt='link', c='?')
                    continue
                with open(p, 'rb') as g:
                    b = g.read()
                raw[n] = b
                d[n] = self.describe(b)
            for x in dirs:
                n = os.path.relpath(os.path.join(base, x), self.dir)
                if n not in ('sub', 'dir.sif', 'dir.sifz'):
                    d[n] = dict(fmt='dir', c='?')
        return d, raw

    def describe(self, b):
        f, dig = decode(b)
        if f in ('sif', 'sifz'):
            if dig is None:
                return dict(fmt='broken', c='?')
            return dict(fmt=f, c=self.token(dig, make=False))
        return dict(fmt=f, c='-')

    def content(self, a):
        return self.token(digest(canon_soup(a.tag)), make=False)

    def setup(self, docs):
        for n, b in docs.items():
            f, dig = decode(b)
            if dig:
                self.token(dig)
            self.put(n, b)
        d, self.raw = self.listing()
        self.disk0 = d
        self.blank = self.token(digest(canon_soup(sangfroid.Animation().tag)))

    def finish(self):
        ext = dict(EXT)
        return dict(ext=ext, blocked=BLOCKED, full=FULL, unwritable=sorted(self.unwritable), disk=self.disk0)

    def edit(self, a, bad):
        self.n += 1
        rng = self.rng
        if bad:
            a.name = 'lone \ud800 %d' % self.n
            return
        k = rng.randrange(4)
        if k == 0:
            a.name = 'edit %d %s' % (self.n, rand_text(rng))
        elif k == 1:
            c = L.Circle()
            c.desc = 'new %d %s' % (self.n, rand_text(rng))
            a.append(c)
        elif k == 2 and len(a):
            a[0].desc = 'desc %d %s' % (self.n, rand_text(rng))
        else:
            a.desc = 'about %d' % self.n
        if '\ud800' in a.name:
            a.name = 'mended %d' % self.n

    def do(self, e):
        e = dict(e)
        cwd = os.getcwd()
        os.chdir(self.dir)
        try:
            self.step(e)
        finally:
            os.chdir(cwd)
        d, raw = self.listing()
        e['bytes'] = raw == self.raw if e['op'] in ('open', 'read', 'new') else True
        self.raw = raw
        e['disk'] = d
        e['anim'] = {a: self.content(x) for a, x in self.anims.items()}
        self.ev.append(e)

    def step(self, e):
        op = e['op']
        r = 'ok'
        if op == 'new':
            r, x = call(sangfroid.Animation)
            e['c'] = self.blank
            if r == 'ok':
                self.anims[e['a']] = x
        elif op == 'open':
            f = self.rng.choice([sangfroid.open, sangfroid.Animation])
            r, x = call(f, self.path(e['n']))
            if r == 'ok':
                self.anims[e['a']] = x
        elif op == 'edit':
            a = self.anims[e['a']]
            self.edit(a, e.get('bad', False))
            e['c'] = self.token(digest(canon_soup(a.tag)))
            if e.get('bad'):
                self.unwritable.add(e['c'])
        elif op == 'save':
            r, _ = call(self.anims[e['a']].save)
        elif op == 'saveas':
            r, _ = call(self.anims[e['a']].save, self.path(e['n']))
        elif op == 'remove':
            os.unlink(e['n'])
        elif op == 'put':
            b = e.pop('data')
            f, dig = decode(b)
            if dig:
                self.token(dig)
            self.put(e['n'], b)
            x = self.describe(b)
            e['fmt'], e['c'] = x['fmt'], x['c']
        elif op == 'read':
            read_everything(self.anims[e['a']])
        e['r'] = r


BROKEN = [b'<?xml version="1.0"?>', gzip.compress(b'<?xml version="1.0"?><canvas/>'*9)[:30], b'\x1f\x8b', gzip.compress(b'')]
JUNK = [b'GIF89a', b'<', b'\0\0\0', b'canvas', b' <?xml version="1.0"?><canvas/>']


def simple_doc(rng, n):
    t = document(group(layer('circle', param('radius', el('real', {'value': '1.0'})), desc='c%d' % n), desc='g'),
                 layer('text', param('text', el('string', None, text='words %d' % n))), head='<desc>doc %d</desc>' % n)
    b = t.encode()
    return b


def known_layers(rng):
    from sample import rand_layers
    return rand_layers(rng)


def as_format(rng, n, b):
    if EXT.get(n) == 'sifz':
        if rng.random() < 0.2:
            k = len(b)//2
            return gzip.compress(b[:k]) + gzip.compress(b[k:])     # several members
        return gzip.compress(b, mtime=rng.choice([0, None]))
    return b


def rand_saves(rng, h):
    a = rng.choice('ab')
    if a not in h.anims:
        return rng.choice([dict(op='new', a=a), dict(op='open', a=a, n=rng.choice(PLACES))])
    last = h.ev[-1]
    if last['op'] in ('save', 'saveas', 'open') and last['r'] != 'ok' and last['a'] in h.anims and rng.random() < 0.6:
        a = last['a']
        return rng.choice([dict(op='save', a=a), dict(op='edit', a=a)])
    have = sorted(last['disk'])
    ops = [(3, dict(op='open', a=a, n=rng.choice(PLACES+have))), (1, dict(op='open', a=a, n=rng.choice(sorted(EXT)))),
           (1, dict(op='new', a=a)), (5, dict(op='edit', a=a)), (0.7, dict(op='edit', a=a, bad=True)),
           (6, dict(op='save', a=a)), (4, dict(op='saveas', a=a, n=rng.choice(PLACES))),
           (3, dict(op='saveas', a=a, n=rng.choice(sorted(EXT)))), (1, dict(op='read', a=a))]
    if have:
        ops.append((1, dict(op='remove', n=rng.choice(have))))
    n = rng.choice(PLACES)
    b = rng.choice([lambda: as_format(rng, n, simple_doc(rng, rng.randrange(99))), lambda: b'', lambda: rng.choice(JUNK),
                    lambda: rng.choice(BROKEN), lambda: b'PK\x03\x04zip',
                    lambda: gzip.compress(simple_doc(rng, 7)), lambda: simple_doc(rng, 8)])()
    ops.append((2, dict(op='put', n=n, data=b)))
    return rng.choices([o for _, o in ops], [w for w, _ in ops])[0]


def rand_untouched(rng, h):
    a = rng.choice('ab')
    have = sorted(h.ev[-1]['disk']) if h.ev else sorted(h.disk0)
    if a not in h.anims:
        return dict(op='open', a=a, n=rng.choice(have))
    return rng.choices([dict(op='open', a=a, n=rng.choice(have)), dict(op='read', a=a), dict(op='save', a=a),
                        dict(op='saveas', a=a, n=rng.choice(PLACES))], [3, 2, 1, 3])[0]


def main():
    j = job()
    rng = random.Random(j['seed'])
    out = Writer()
    for n, p in enumerate(j.get('paths', [])):
        h = History(rng)
        h.setup({'p.sif': simple_doc(rng, 1)})
        h.do(dict(op='new', a='a'))
        for e in p['ops']:
            if e['op'] == 'edit':
                e = dict(op='edit', a=e['a'], bad=e['c'] == 'u')
            h.do(e)
        h.close()
        out.history('model-%d' % n, h.finish(), h.ev)
    for n in range(j.get('saves', 0)):
        h = History(rng)
        h.setup({x: as_format(rng, x, simple_doc(rng, k)) for k, x in enumerate(PLACES) if rng.random() < 0.4})
        for _ in range(j['length']):
            h.do(rand_saves(rng, h))
        h.close()
        out.history('saves-%d' % n, h.finish(), h.ev)
    for n in range(j.get('untouched', 0)):
        h = History(rng)
        docs = {}
        for x in rng.sample(PLACES, 2):
            docs[x] = as_format(rng, x, rand_document(rng, known=known_layers(rng) if rng.random() < 0.7 else '', big=rng.random() < 0.05))
        h.setup(docs)
        for _ in range(j['length2']):
            h.do(rand_untouched(rng, h))
        h.close()
        out.history('untouched-%d' % n, h.finish(), h.ev)
    if j.get('shard', 0) == 0 and j.get('samples'):
        for s in SAMPLES:
            with open(s, 'rb') as f:
                b = f.read()
            h = History(rng)
            h.setup({('p.sif' if b[:2] == b'<?' else 'q.sifz'): b})
            for e in (dict(op='open', a='a', n=next(iter(h.disk0))), dict(op='read', a='a'), dict(op='saveas', a='a', n='C.SIF'),
                      dict(op='open', a='b', n='C.SIF'), dict(op='saveas', a='b', n='d.SifZ'), dict(op='open', a='a', n='d.SifZ'),
                      dict(op='save', a='a')):
                h.do(e)
            h.close()
            out.history('sample-' + os.path.basename(s), h.finish(), h.ev)
    out.close()


main()
