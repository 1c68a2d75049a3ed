"""Runs searches in the real code and records them (see spec/Search.tla)."""
import random
from drv import *

# attribute or parameter -> token -> (document form, python forms)
num = {t: (el('real', {'value': t}), [float(t), t, V.Real(float(t))]) for t in ('1', '0.5', '2', '-3.25')}
ang = {t: (el('angle', {'value': t}), [float(t), t, V.Angle(float(t))]) for t in ('1', '0.5', '2')}
vec = {'1;2': (vector_el(1, 2), [(1.0, 2.0), (1, 2), V.X_Y(1.0, 2.0)]),
       '0;0': (vector_el(0, 0), [(0.0, 0.0), V.X_Y(0.0, 0.0)]),
       '2;1': (vector_el(2, 1), [(2.0, 1.0)])}
col = {'red': (color_el((1, 0, 0, 1)), ['#ff0000', 'FF0000', (1.0, 0.0, 0.0), V.Color('#ff0000')]),
       'half': (color_el((1, 0, 0, 0.5)), ['#ff000080', (1.0, 0.0, 0.0, 0.5)]),
       'green': (color_el((0, 1, 0, 1)), ['#00ff00', (0.0, 1.0, 0.0, 1.0)])}
boo = {t: (el('bool', {'value': t}), [t == 'true', V.Bool(t == 'true')]) for t in ('true', 'false')}
stg = {t: (el('string', None, text=t), [t, V.String(t)]) for t in ('hello', 'a b', 'Hello', '<&>')}
intg = {t: (el('integer', {'value': t}), [int(t), t, V.Integer(int(t))]) for t in ('0', '3', '400')}

TYPES = {   # class name -> parameters
    'Group': dict(amount=num, z_depth=num, origin=vec, outline_grow=num, z_range=boo),
    'Circle': dict(amount=num, z_depth=num, radius=num, color=col, origin=vec, invert=boo, feather=num),
    'Text': dict(amount=num, z_depth=num, text=stg, color=col, weight=intg, origin=vec, invert=boo),
    'Rotate': dict(amount=ang, origin=vec),
    'Simple_Circle': dict(radius=num, color=col, amount=num),
    'Radial_Blur': dict(origin=vec, size=num, fade_out=boo, amount=num),
    'Super_Sample': dict(width=intg, height=intg),
    'Linear_Gradient': dict(amount=num, z_depth=num, p1=vec, loop=boo),
    'Switch': dict(amount=num, z_depth=num, origin=vec, layer_depth=intg),
    'Filter_Group': dict(amount=num, z_depth=num, origin=vec),
    'Stroboscope': dict(frequency=num),
}
NESTING = ('Group', 'Switch', 'Filter_Group')
DESC = ['a', 'b', 'A', '', 'a b', 'é<&">']


def spell(rng, name):
    f = rng.choice([str, str.lower, str.lower, str.upper, str.title])
    s = f(name)
    if rng.random() < 0.4:
        s = s.replace('_', '')
    if rng.random() < 0.2:
        s = s[:2] + '_' + s[2:]
    if rng.random() < 0.1:
        s = s + '_'
    return s


def norm(s):
    return s.lower().replace('_', '')


def cls_of(type_):
    return next(c for c in TYPES if norm(c) == norm(type_))


def render(d, j):
    """The text of layer j (1-based) of a document, and everything in it."""
    l = d[j-1]
    at = dict(type=''.join(l['type']))
    ps = []
    c = cls_of(at['type'])
    for k, t in l['at'].items():
        if k in ('desc', 'active', 'exclude_from_rendering'):
            at[k] = t
        elif k == 'version':
            at[k] = t
        elif t == 'animated':
            ps.append(param(k, el('animated', {'type': 'real'}, el('waypoint', dict(time='0s', before='clamped', after='clamped'),
                                                                  el('real', {'value': '0.5'})))))
        else:
            ps.append(param(k, TYPES[c][k][t][0]))
    inner = ''.join(render(d, k) for k in range(1, len(d)+1) if d[k-1]['par'] == j)
    if c in NESTING:
        ps.append(param('canvas', el('canvas', None, '\n' + inner)))
    at = {k: v for k, v in at.items() if not (k in l.get('implicit', ()))}
    return el('layer', at, *[p+'\n' for p in ps]) + '\n'


class Doc:
    def __init__(self, d):
        for l in d:
            at = l['at']
            imp = l.setdefault('implicit', [])
            # a layer without these attributes has the defaults
            if 'active' not in at:
                at['active'] = 'true'
                imp.append('active')
            if 'exclude_from_rendering' not in at:
                at['exclude_from_rendering'] = 'false'
                imp.append('exclude_from_rendering')
        self.d = d
        self.a = open_text(document(''.join(render(d, j) for j in range(1, len(d)+1) if d[j-1]['par'] == 0)))
        self.tags = self.a.tag.find_all('layer')
        assert len(self.tags) == len(d)

    def index(self, o):
        if not isinstance(o, L.Layer):
            return 0
        for j, t in enumerate(self.tags):
            if t is o.tag:
                return j+1
        return 0

    def class_ok(self, o):
        j = self.index(o)
        return j != 0 and norm(type(o).__name__) == norm(''.join(self.d[j-1]['type']))


BAD = [5, None, 2.5, [], {}, ('circle',), b'circle']


def run_query(doc, rng, q):
    """q: from, rec, types, crit, special, sel, fault."""
    args, kw, attrs = [], {}, {}
    ty = None
    if q['types']:
        t = q['types'][0]
        ty = ''.join(t['n'])
        if t['f'] == 'class':
            ty = L.Layer if norm(ty) == 'layer' else sangfroid.Animation if ty == 'Animation' else getattr(L, ty)
    if q['special'] == 'true':
        args.append(True)
    elif q['special'] == 'false':
        args.append(False)
    elif q['special'] == 'call':
        sel = [doc.tags[j-1] for j in q['sel']]
        yes, no = rng.choice([(True, False), (1, 0), ('yes', ''), ([1], None)])
        args.append(lambda tag: yes if any(tag is t for t in sel) else no)
    where = rng.choice(['pos', 'kw', 'attrs'])
    if ty is not None:
        if args and where == 'pos':
            where = 'kw'
        if where == 'pos':
            args.append(ty)
        elif where == 'kw':
            kw['type'] = ty
        else:
            attrs['type'] = ty
    for c in q['crit']:
        k, t = c['k'], c['v']
        if k in ('active', 'exclude_from_rendering'):
            w = t == 'true'
        elif k == 'desc':
            w = t
        elif k == 'version':
            w = float(t)
        else:
            w = rng.choice(FORMS[k][t])
        (kw if rng.random() < 0.5 else attrs)[k] = w
    f = q['fault']
    if f == 'two positional':
        args = (args+['circle', 'text', True])[:2]
    elif f == 'type twice':
        args, kw['type'] = ['circle'], 'circle'
        attrs.pop('type', None)
    elif f == 'type in attrs twice':
        attrs['type'] = 'circle'
        if rng.random() < 0.5:
            args, _ = ['circle'], kw.pop('type', None)
        else:
            kw['type'] = 'text'
    elif f == 'attrs twice':
        kw['desc'] = 'a'
        attrs['desc'] = 'a'
    elif f == 'not a criterion':
        args = [rng.choice(BAD)]
    if not q['rec']:
        kw['recursive'] = False
    elif rng.random() < 0.2:
        kw['recursive'] = True
    before = dict(attrs)
    if attrs or rng.random() < 0.05:
        kw['attrs'] = attrs
    src = doc.a if q['from'] == 0 else L.Layer.from_tag(doc.tags[q['from']-1])
    q['single'] = rng.random() < 0.25
    g = src.find_all if not q['single'] else src if rng.random() < 0.5 else src.find
    calls = doc.__dict__.setdefault('calls', [])
    if q['fault'] == 'none':
        calls.append((dict(q), src, [doc.tags[j-1] for j in q['sel']], g, args, kw, attrs))
        del calls[:-6]
    return finish(doc, q, g, args, kw, attrs, before)


def again(doc, rng):
    """The very same search as one before, of a document which may have changed since."""
    q, src, sel, g, args, kw, attrs = rng.choice(doc.calls)
    q = dict(q)
    place = lambda t: next((j+1 for j, x in enumerate(doc.tags) if x is t), 0)
    q['from'] = place(src.tag)
    q['sel'] = [place(t) for t in sel]
    return finish(doc, q, g, args, kw, attrs, dict(attrs))


def finish(doc, q, g, args, kw, attrs, before):
    r, got = call(g, *args, **kw)
    if q['single']:
        got = [] if got is None else [got]
    else:
        got = list(got or [])
    q['op'] = 'find'
    q['r'] = r
    q['got'] = [doc.index(o) for o in got]
    q['classes'] = all(doc.class_ok(o) for o in got)
    q['args'] = attrs.keys() == before.keys() and all(attrs[k] is before[k] for k in attrs)
    return q


FORMS = {}
for ps in TYPES.values():
    for k, v in ps.items():
        for t, (_, forms) in v.items():
            FORMS.setdefault(k, {}).setdefault(t, [])
            if v is not ang:
                FORMS[k][t] += [x for x in forms if not isinstance(x, V.Value) or k != 'amount']


def rand_doc(rng, n):
    d, open_ = [], [0]
    for j in range(1, n+1):
        # pick where it goes: somewhere on the path to the last layer
        par = rng.choice(open_)
        open_ = open_[:open_.index(par)+1]
        c = rng.choice(list(TYPES) + ['Group', 'Group', 'Circle', 'Text'])
        at = {}
        for k, v in TYPES[c].items():
            if rng.random() < 0.6:
                at[k] = rng.choice(list(v))
                if v is num and rng.random() < 0.1:
                    at[k] = 'animated'
        if rng.random() < 0.7:
            at['desc'] = rng.choice(DESC)
        if rng.random() < 0.7:
            at['active'] = rng.choice(['true', 'false'])
        if rng.random() < 0.5:
            at['exclude_from_rendering'] = rng.choice(['true', 'false'])
        at['version'] = rng.choice(['0.1', '0.2'])
        d.append(dict(par=par, type=list(spell(rng, c)), at=at))
        if c in NESTING:
            open_.append(j)
    return d


def rand_query(rng, doc):
    d = doc.d
    froms = [0, 0, 0] + list(range(1, len(d)+1))
    fr = rng.choice(froms)
    rec = rng.random() < 0.75
    if fr and cls_of(''.join(d[fr-1]['type'])) in ('Switch', 'Filter_Group'):
        rec = True      # whether these have children isn't specified
    types, crit = [], []
    if rng.random() < 0.55:
        c = rng.choice(list(TYPES)+['Layer'])
        if d and rng.random() < 0.5:
            c = cls_of(''.join(rng.choice(d)['type']))
        if rng.random() < 0.05:
            types.append(dict(f='class', n=list('Animation')))
        elif rng.random() < 0.4:
            types.append(dict(f='class', n=list(c)))
        elif c != 'Layer':
            types.append(dict(f='name', n=list(spell(rng, c))))
        else:
            types.append(dict(f='name', n=list(rng.choice(['wombat', 'layer', '', 'circles', '*']))))
    keys = list(FORMS) + ['desc']*8 + ['active']*3 + ['exclude_from_rendering']*2 + ['amount']*6 + ['version']
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        k = rng.choice(keys)
        if any(c['k'] == k for c in crit):
            continue
        toks = [l['at'][k] for l in d if k in l['at'] and l['at'][k] != 'animated']
        if k == 'desc':
            toks = toks*2 + DESC
        elif k in ('active', 'exclude_from_rendering'):
            toks = ['true', 'false']
        elif k == 'version':
            toks = ['0.1', '0.2', '7.5']
        else:
            toks = toks*3 + list(FORMS[k])
        toks = [t for t in toks if k not in FORMS or FORMS[k].get(t)]
        if toks:
            crit.append(dict(k=k, v=rng.choice(toks)))
    special = rng.choice(['none', 'none', 'none', 'true', 'false', 'call', 'call']) if rng.random() < 0.6 else 'none'
    sel = [j for j in range(1, len(d)+1) if rng.random() < 0.5]
    fault = 'none'
    if rng.random() < 0.08:
        fault = rng.choice(['two positional', 'type twice', 'type in attrs twice', 'attrs twice', 'not a criterion'])
        if fault != 'none':
            special = 'none'
    q = {'from': fr, 'rec': rec, 'types': types, 'crit': crit, 'special': special, 'sel': sel, 'fault': fault}
    return q


def subtree(d, j):
    out = [j]
    for k in range(j+1, len(d)+1):
        if d[k-1]['par'] in out:
            out.append(k)
    return out


def edit(doc, rng):
    """Changes the document through the library, and the driver's own idea of it."""
    d = doc.d
    op = rng.choice(['set', 'set', 'put', 'move'])
    if not d:
        op = 'put'
    if op == 'set':
        j = rng.randrange(len(d))+1
        l = L.Layer.from_tag(doc.tags[j-1])
        k = rng.choice(['desc', 'active', 'exclude_from_rendering'] + [k for k in d[j-1]['at'] if k in TYPES[cls_of(''.join(d[j-1]['type']))]])
        if k == 'desc':
            v = rng.choice(DESC)
            w = v
        elif k in ('active', 'exclude_from_rendering'):
            v = rng.choice(['true', 'false'])
            w = v == 'true'
        else:
            f = TYPES[cls_of(''.join(d[j-1]['type']))][k]
            v = rng.choice(list(f))
            w = f[v][1][0]
        e = dict(op='set', j=j, k=k, v=v)
        e['r'], _ = call(setattr, l, k, w)
        d[j-1]['at'][k] = v
    elif op == 'put':
        l = rand_doc(rng, 1)[0]
        l['at'].setdefault('active', 'true')
        l['at'].setdefault('exclude_from_rendering', 'false')
        l['implicit'] = []
        t = bs4.BeautifulSoup(render([l], 1), 'xml').find().extract()
        e = dict(op='put', l=l)
        e['r'], _ = call(lambda: doc.a.append(L.Layer.from_tag(t)))
        for x in d:
            x['par'] += x['par'] > 0
        d.insert(0, json.loads(json.dumps(l)))
        doc.tags.insert(0, t)
    else:
        j = rng.randrange(len(d))+1
        e = dict(op='move', j=j)
        l = L.Layer.from_tag(doc.tags[j-1])
        e['r'], _ = call(lambda: doc.a.append(l))
        q = subtree(d, j)
        q += [k for k in range(1, len(d)+1) if k not in q]
        d[j-1]['par'] = 0
        doc.tags = [doc.tags[k-1] for k in q]
        pos = {k: n+1 for n, k in enumerate(q)}
        d[:] = [dict(d[k-1], par=pos.get(d[k-1]['par'], 0)) for k in q]
    return e


def main():
    j = job()
    rng = random.Random(j['seed'])
    out = Writer()
    lc = lambda s: list(s)
    for n, d in enumerate(j.get('docs', [])):
        for l in d:
            l['at'] = dict(l['at'])
        doc = Doc(d)
        ev = []
        for fr in range(len(d)+1):
            for rec in (True, False):
                for types in ([], [dict(f='name', n=lc('TEXT'))], [dict(f='class', n=lc('Circle'))], [dict(f='name', n=lc('circle'))],
                              [dict(f='class', n=lc('Group'))]):
                    for crit in ([], [dict(k='desc', v='a')], [dict(k='amount', v='1')],
                                 [dict(k='desc', v='a'), dict(k='amount', v='1')]):
                        special = 'none' if types or crit else rng.choice(['true', 'call'])
                        ev.append(run_query(doc, rng, {'from': fr, 'rec': rec, 'types': types, 'crit': crit,
                                                      'special': special, 'sel': [1, 3] if len(d) == 3 else [1], 'fault': 'none'}))
        if len(ev) > 60:
            ev = rng.sample(ev, 60)
        out.history('model-%d' % n, dict(layers=d), ev)
    for n in range(j['random']):
        doc = Doc(rand_doc(rng, rng.choice([0, 1, 3, 5, 8, 12, 20])))
        start = json.loads(json.dumps(doc.d))
        ev = []
        for _ in range(j['queries']):
            if rng.random() < 0.15:
                ev.append(edit(doc, rng))
                for _ in range(4):
                    if doc.__dict__.get('calls'):
                        ev.append(again(doc, rng))
            ev.append(run_query(doc, rng, rand_query(rng, doc)))
        out.history('random-%d' % n, dict(layers=start), ev)
    out.close()


main()
