"""Runs the block replacer on scratch files (see spec/Replacer.tla)."""
import contextlib, io, os, random, re, resource, shutil, signal, sys, tempfile
from drv import job, Writer, call
from sangfroid.template.replacer import Replacer

NAMES = ['A', 'Bee', 'foo_1', 'Cls9', 'Z', '_x', 'LongClassName_With_Parts', 'bar']


# ---- files

def split_lines(s):
    out = []
    for part in re.findall('[^\r\n]*(?:\r\n|\n|\r)|[^\r\n]+$', s):
        m = re.match('([^\r\n]*)(.*)$', part, re.S)
        out.append(dict(t=list(m[1]), nl=m[2]))
    return out


def read_tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as h:
                b = h.read()
            try:
                s = b.decode('utf-8')
            except UnicodeDecodeError:
                s = '!' + b.hex()
            out[os.path.relpath(p, root)] = s
    return out


def write_tree(root, files):
    shutil.rmtree(root, ignore_errors=True)
    for n, s in files.items():
        p = os.path.join(root, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(s.encode('utf-8'))


class World:
    def __init__(self, files):
        self.root = tempfile.mkdtemp(prefix='repl', dir=os.getcwd())
        self.files = files
        write_tree(self.root, files)
        self.scope = sorted(n for n in files if n.startswith('sangfroid/') and n.endswith('.py'))
        self.cfg = dict(files={n: split_lines(s) for n, s in files.items()}, scope=self.scope)
        self.ev = []
        self.replacer = None

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def make(self, rng, fields):
        d = {f['name']: '\n'.join(f['lines']) for f in fields}
        verbose = rng.random() < 0.1
        if rng.random() < 0.5:
            return Replacer(d, verbose=verbose)
        r = Replacer(verbose=verbose)
        for k, v in d.items():
            r.add(k, v)
        return r

    def event(self, e, r, asked=False, missing=()):
        now = read_tree(self.root)
        fs = {n: split_lines(now[n]) for n in self.files if n in now}
        self.ev.append(dict(
            op=e['op'], file=e.get('file', ''), how=e['how'],
            fields=[dict(name=list(f['name']), lines=[list(l) for l in f['lines']]) for f in e['fields']],
            files=fs, extra=sorted(set(now) - set(self.files)), r=r, asked=asked,
            missing=[list(m) for m in missing]))
        return now

    def work(self, rep, e):
        if e['op'] == 'all':
            rep.handle_all_files()
        else:
            rep.handle(e['file'])

    def plain(self, rng, e, rep=None):
        new = rep is None
        rep = rep or self.make(rng, e['fields'])
        here = os.getcwd()
        os.chdir(self.root)
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf):
                r, _ = call(self.work, rep, e)
            asked = new and r == 'ok' and bool(e['fields'])
            missing = []
            if asked:
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    call(rep.check_everything_was_seen)
                missing = [f['name'] for f in e['fields']
                           if re.search(r'(?<![\w-])%s(?![\w-])' % re.escape(f['name']), buf.getvalue())]
        finally:
            os.chdir(here)
        self.event(e, r, asked, missing)
        return rep

    def child(self, rng, e, stop=None, limit=None):
        """Runs in another process, stopping at one of its moments.
        Without one, returns the number of moments before and after the
        first file was opened for writing."""
        rep = self.make(rng, e['fields'])
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(rfd)
                os.chdir(self.root)
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(null, 2)
                sys.stdout = open(os.devnull, 'w')
                if limit is not None:
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                n = [0, None]

                def tick():
                    n[0] += 1
                    if stop is not None and n[0] == stop:
                        if e['how'] == 'kill':
                            os._exit(9)
                        sys.settrace(None)
                        sys.setprofile(None)
                        raise KeyboardInterrupt

                on = [False]

                def audit(name, args):
                    if not on[0] or name.startswith(('sys.', 'object.', 'import', 'compile', 'code.')):
                        return
                    if n[1] is None and (name in ('os.rename', 'os.remove', 'os.truncate', 'os.link') or
                                         name == 'open' and (set(str(args[1] or '')) & set('wax+') or (isinstance(args[2], int) and args[2] & 3))):
                        n[1] = n[0]
                    tick()

                def trace(frame, what, arg):
                    if what == 'line':
                        tick()
                    return trace

                def profile(frame, what, arg):
                    if what in ('c_call', 'c_return'):
                        tick()

                if limit is None:
                    sys.addaudithook(audit)
                try:
                    if limit is None:
                        on[0] = True
                        sys.settrace(trace)
                        sys.setprofile(profile)
                    self.work(rep, e)
                    code = 0
                except BaseException as x:
                    code = 4
                finally:
                    on[0] = False
                    sys.settrace(None)
                    sys.setprofile(None)
                if stop is None:
                    os.write(wfd, b'%d %d' % (n[0] if n[1] is None else n[1], n[0]))
            finally:
                os._exit(code)
        os.close(wfd)
        data = b''
        while True:
            b = os.read(rfd, 100)
            if not b:
                break
            data += b
        os.close(rfd)
        _, st = os.waitpid(pid, 0)
        if stop is None and limit is None:
            return [int(x) for x in data.split()]
        code = os.waitstatus_to_exitcode(st)
        return {0: 'ok', 4: 'raised'}.get(code, 'killed')


# ---- making things up

def rand_name(rng):
    return rng.choice(NAMES) if rng.random() < 0.9 else ''.join(rng.choice('abcXYZ019_') for _ in range(3))


def rand_line(rng):
    k = rng.random()
    n = rand_name(rng)
    ind = ' '*rng.choice([0, 0, 4, 4, 8, 1, 12])
    if k < 0.4:
        return ind + rng.choice(['x = 1', 'def f(self):', 'return None', '', '# ' + n, '"""A \'quote\'"""', "'é世界 \u2028 x'", 'a\x0cb', 'x = "\\n"  ', '\ty = 2', 'pass\t'])
    if k < 0.55:
        return rng.choice(['class %s:', 'class %s(Layer):', 'class %s', 'class %s (object) :']) % n
    if k < 0.65:      # nearly
        return rng.choice([' class %s:', 'classy %s:', 'class  %s:', '# class %s:', 'class é%s:', '\tclass %s:', 'Class %s:', 'x = "class %s"']) % n
    if k < 0.75:
        return rng.choice(['\t### {{{ %s', '## {{{ %s', '### {{ %s', 'x ### {{{ %s', '###  {{{ %s', '#### {{{ %s', '### {{{{'[:6] + ' %s', '###{{{ %s', '# ### {{{ %s']) % n
    if k < 0.8:
        return rng.choice(['\t### }}}', '## }}}', '### }} }', 'x ### }}}', '###}}}', '"### }}}"', '# ### }}}'])
    return ind + '# filler ' + n


def open_line(rng, n):
    ind = ' '*rng.choice([0, 4, 4, 8, 3])
    if n is None:
        return ind + rng.choice(['### {{{', '### {{{   ', '### {{{ - x', '### {{{\tfoo_1', '### {{{ (A)'])
    return ind + rng.choice(['### {{{ %s', '### {{{%s', '### {{{   %s', '### {{{ %s and more', '### {{{ %s.b', '### {{{ %s ###', '### {{{ %s\t', '### {{{ %s-x']) % n


def close_line(rng):
    return ' '*rng.choice([0, 4, 4, 8, 5]) + rng.choice(['### }}}', '### }}}', '### }}} end', '### }}}  ', '### }}}}', '### }}}x'])


def rand_file(rng, bad=False):
    lines = []
    cls = False
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        for _ in range(rng.choice([0, 1, 2, 4])):
            lines.append(rand_line(rng))
        n = rand_name(rng) if rng.random() < 0.6 else None
        if rng.random() < (0.15 if n is None else 0.85):
            pass
        elif n is None or rng.random() < 0.5:
            lines.append('class %s:' % rand_name(rng))
            for _ in range(rng.choice([0, 0, 1])):
                lines.append('    # c')
        lines.append(open_line(rng, n))
        for _ in range(rng.choice([0, 1, 2, 5])):
            lines.append(rand_line(rng))
        lines.append(close_line(rng))
    for _ in range(rng.choice([0, 1, 3])):
        lines.append(rand_line(rng))
    if bad:
        k = rng.randrange(3)
        at = rng.randrange(len(lines)+1)
        if k == 0:
            lines.insert(at, close_line(rng))
        elif k == 1:
            lines.insert(at, open_line(rng, rng.choice([None, rand_name(rng)])))
        elif lines:
            del lines[rng.randrange(len(lines))]
    nl = rng.choice(['\n', '\n', '\n', '\r\n'])
    s = nl.join(lines)
    if lines and rng.random() < 0.85:
        s += nl
    if rng.random() < 0.05:
        s = s.replace('\r\n', '\n', 1)
    return s


def rand_fields(rng):
    out, used = [], set()
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        n = rand_name(rng) if rng.random() < 0.9 else 'no-such'
        if n in used:
            continue
        used.add(n)
        ls = [rng.choice(['y = 2', '', '    indented', 'é', '# comment', 'class New:', 'class A(B):', 'def g():', '"""', '\\1 \\g<0> %s {}', '   x'])
              for _ in range(rng.choice([1, 1, 2, 3, 6]))]
        if rng.random() < 0.1:
            ls = ['']
        out.append(dict(name=n, lines=ls))
    return out


def rand_world(rng):
    files = {}
    pool = ['sangfroid/a.py', 'sangfroid/b.py', 'sangfroid/layer/c.py', 'sangfroid/layer/deep/er/d.py', 'sangfroid/value/__init__.py', 'sangfroid/z_1.py']
    ps = rng.choice([0, 0, 0, 0.3])
    for n in rng.sample(pool, rng.choice([1, 2, 3])):
        files[n] = rand_file(rng, bad=rng.random() < ps)
    for n in rng.sample(['sangfroid/readme.txt', 'other/x.py', 'sangfroid/a.pyi', 'x.py', 'sangfroid/a.py.bak', 'test/test_a.py', 'sangfroid2/a.py', 'sangfroid/b.py~'], rng.choice([0, 1, 2])):
        files[n] = rand_file(rng)
    return files


def main():
    j = job()
    rng = random.Random(j['seed'])
    out = Writer()

    def text(lines):
        return ''.join(''.join(l['t']) + l['nl'] for l in lines)

    def fld(fs):
        return [dict(name=''.join(f['name']), lines=[''.join(x) for x in f['lines']]) for f in fs]

    for n, c in enumerate(j['cases']):
        w = World({'sangfroid/m.py': text(c['file'])})
        f = fld(c['fields'])
        e = rng.choice([dict(op='all'), dict(op='one', file='sangfroid/m.py')])
        w.plain(rng, dict(e, how='plain', fields=f))
        if n % 4 == 0:
            w.plain(rng, dict(e, how='plain', fields=f))
        w.close()
        out.history('model-%d' % n, w.cfg, w.ev)

    for n in range(j['random']):
        w = World(rand_world(rng))
        f = rand_fields(rng)
        rep = None
        for _ in range(j['length']):
            if rng.random() < 0.4:
                f = rand_fields(rng)
                rep = None
            e = dict(op='all') if rng.random() < 0.6 else dict(op='one', file=rng.choice(list(w.files)))
            rep = w.plain(rng, dict(e, how='plain', fields=f), rep if rng.random() < 0.4 else None)
        w.close()
        out.history('random-%d-%d' % (j['seed'], n), w.cfg, w.ev)

    points = 0
    for n in range(j['crashes']):
        files = rand_world(rng)
        f = rand_fields(rng) or [dict(name='A', lines=['z'])]
        for s in list(files):     # make sure that there is something to do
            if s.startswith('sangfroid/') and s.endswith('.py') and rng.random() < 0.7:
                files[s] = '### {{{ %s\nold\n### }}}\n' % f[0]['name'] + files[s]
                if rng.random() < 0.3:
                    files[s] += '# ' + '-'*60 + '\n'
        w = World(files)
        e = dict(op='all', fields=f, how='kill') if rng.random() < 0.8 else dict(op='one', fields=f, how='kill', file=rng.choice(w.scope))
        first, last = w.child(rng, e)
        w.close()
        after = list(range(first, last+1))
        if len(after) > j['points']:
            after = sorted(rng.sample(after, j['points']))
        stops = [('kill', x) for x in after] + [('raise', x) for x in after[::2]] + [('kill', rng.randrange(1, first+1)) for _ in range(2)]
        size = max(len(s.encode()) for s in files.values())
        stops += [('limit', x) for x in {0, 1, size//2, max(0, size-1), size, size+20}]
        done = set()
        for how, at in stops:
            w = World(files)
            x = dict(e, how=how)
            points += 1
            r = w.child(rng, x, limit=at) if how == 'limit' else w.child(rng, x, stop=at)
            now = w.event(x, r)
            key = (how, r, tuple(sorted((n, now.get(n)) for n in files)))
            if key not in done:        # and then without interruption
                done.add(key)
                w.plain(rng, dict(e, how='plain'))
                out.history('crash-%d-%d-%s-%d' % (j['seed'], n, how, at), w.cfg, w.ev)
            w.close()
    print(points)
    out.close()


main()
