import runpy, os
B = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_d.py'))
globals().update({k: v for k, v in B.items() if not k.startswith('__') and k != 'S'})
K='sangfroid/keyframe.py'; BW='bywords/bywords.py'; BM='bywords/__main__.py'; TX='sangfroid/layer/text.py'
S = [
dict(name='timeline-add-dup', property='C07',
  needs='a list of waypoints to add, two of which are at the same instant',
  breaks='the first of them stays, and the later one is dropped',
  edits=[(V,"        new = dict([(self._ensure_fps(w.time), w) for w in waypoints])","        new = {}\n        for w in waypoints:\n            new.setdefault(self._ensure_fps(w.time), w)")],
  demo=PRE+'''
r = v.Real(1.0)
r.timeline += [v.Waypoint('5f', v.Real(2.0)), v.Waypoint('5f', v.Real(3.0))]
assert r.timeline['5f'].value == 3.0
assert len(r.timeline) == 1
'''),
dict(name='text-given-empty', property='C05',
  needs='a text layer made with an empty text',
  breaks='the text of the new layer is the default instead',
  edits=[(TX,"        if new_text is not None:","        if new_text:")],
  demo=PRE+'''
assert sangfroid.layer.Text('').text.value == ''
assert sangfroid.layer.Text('x').text.value == 'x'
'''),
dict(name='header-keyframe-count', property='C18',
  needs='two keyframes at the same time',
  breaks='the number of keyframes counts times, not keyframes',
  edits=[(K,"        return len(self.animation.tag.find_all('keyframe'))","        return len(set(k.time for k in self))")],
  demo=doc()+'''
p = os.path.join(d, 'a.sif')
open(p, 'w').write('<?xml version="1.0"?>\\n<canvas version="1.2" fps="30"><keyframe time="1s">a</keyframe><keyframe time="30f">b</keyframe></canvas>')
a = sangfroid.open(p)
assert len(a.keyframes) == len(list(a.keyframes)) == 2
'''),
dict(name='save-backup-name', property='C02',
  needs='saving under a name which ends in a tilde',
  breaks='a name with an unknown extension is accepted',
  edits=[(FM,"            extension = os.path.splitext(filename)[1].lower()","            extension = os.path.splitext(filename)[1].lower().rstrip('~')")],
  demo=PRE+'''
a = sangfroid.Animation()
try:
    a.save(os.path.join(d, 'x.sif~'))
except ValueError:
    pass
else:
    assert False
assert os.listdir(d) == []
'''),
dict(name='frame-name-within', property='C04',
  needs='an animation without a name, which contains a canvas that has one',
  breaks='setting the name of the animation renames the canvas inside it',
  edits=[(F,"        return obj._tag.find(self.name, recursive=False)","        return obj._tag.find(self.name)")],
  demo=doc()+'''
p = os.path.join(d, 'a.sif')
open(p, 'w').write('<?xml version="1.0"?>\\n<canvas version="1.2" fps="30"><defs><canvas id="x"><name>inner</name></canvas></defs></canvas>')
a = sangfroid.open(p)
a.name = 'outer'
assert a.tag.find('canvas').find('name').text == 'inner'
'''),
dict(name='views-contains-own', property='C23',
  needs='asking whether a group contains a name which only layers inside it have',
  breaks='a name that can be read by subscript is not `in` the layer',
  edits=[(L,"                attrs={'name': f},\n                )\n        return found is not None","                attrs={'name': f}, recursive=False,\n                )\n        return found is not None")],
  demo=PRE+'''
g = sangfroid.layer.Group()
g.append(sangfroid.layer.Circle())
assert g['radius'] == 1.0
assert 'radius' in g
assert 'wombat' not in g
'''),
dict(name='views-vector-negative', property='C23',
  needs='a vector subscripted by a negative position',
  breaks='negative positions count from the start',
  edits=[(VE,"            key = self.keys()[key]","            key = self.keys()[abs(key)]")],
  demo=PRE+'''
x = v.X_Y(1.0, 2.0)
assert x[-1] == 2.0 and x[-2] == 1.0 and x[0] == 1.0
'''),
dict(name='views-string-expression', property='C23',
  needs='the Python expression of a text with characters beyond ASCII or with quotes of both kinds',
  breaks='the expression does not recreate the text',
  edits=[(ST,"        return repr(self.value)","        return '\"%s\"' % (self.value,)")],
  demo=PRE+'''
for t in ['plain', 'a "b"', "it's", 'x\\ny']:
    s = v.String(t)
    try:
        got = v.String(eval(s.as_python_expression())).value
    except SyntaxError:
        got = None
    assert got == t, t
'''),
dict(name='bywords-many-groups', property='C16',
  needs='a line whose group is not the last, in a song of several verses with the same first word',
  breaks='the line is taken for unmatched',
  edits=[(BW,"                if found:\n                    break","                if found and group.full_text==text:\n                    if len([g for g in self.groups if g.full_text[:1]==text[:1]])<4:\n                        break")],
  demo=doc()+TEXT+'''
p = w('a.sif', ''.join(grp('bywords-%d' % i, text('so %s' % 'abcdef'[i], 'x')) for i in range(5)))
a = sangfroid.open(p)
adjust(srt((1000, 2000, 'so a')), a)
t = a.find(desc='so a')
assert t['text'].is_animated
'''),
dict(name='bywords-elsewhere', property='C17',
  needs='the command, given a file in another directory',
  breaks='the result is written to the current directory, not to the file',
  edits=[(BM,"    animation.save(args.sif)","    animation.save(os.path.basename(args.sif))")],
  demo=doc()+TEXT+'''
os.mkdir(os.path.join(d, 'sub')); os.chdir(d)
p = w('sub/a.sif', grp('bywords-1', text('so', 'x')))
open('sub/a.srt', 'w').write('1\\n00:00:01,000 --> 00:00:02,000\\nso\\n\\n')
sys.argv = ['bywords', 'sub/a.sif']
from bywords.__main__ import main
main()
assert os.listdir(d) == ['sub'], os.listdir(d)
'''),
dict(name='bywords-casefold', property='C16',
  needs='words which differ only in letters beyond ASCII that fold to ASCII ones',
  breaks='letters beyond ASCII count',
  edits=[(BW,"NON_WORD_LETTERS.sub('', n.lower())","NON_WORD_LETTERS.sub('', n.casefold())")],
  demo=doc()+TEXT+'''
p = w('a.sif', grp('bywords-1', text('stra\\u00dfe', 'x')))
a = sangfroid.open(p)
adjust(srt((1000, 2000, 'strae')), a)
assert a.find(desc='stra\\u00dfe')['text'].is_animated
'''),
dict(name='param-active-one', property='C05',
  needs='activeness set to a number rather than to True',
  breaks='only True itself switches a layer on',
  edits=[(F,"            if value:\n                value = 'true'","            if value is True:\n                value = 'true'")],
  demo=PRE+'''
c = sangfroid.layer.Circle()
c.active = 1
assert c.active is True
c.active = 0
assert c.active is False
'''),
dict(name='replacer-nested-class', property='C19',
  needs='an unnamed block which follows an indented class line',
  breaks='indented lines which begin with class name the next block',
  edits=[(RE,"r'^class ([A-Za-z0-9_]+)'","r'^\\s*class ([A-Za-z0-9_]+)'")],
  demo=PRE+'''
from sangfroid.template.replacer import Replacer
p = os.path.join(d, 'x.py')
t = 'class A:\\n    class B:\\n        pass\\n    ### {{{\\n    old\\n    ### }}}\\n'
open(p, 'w').write(t)
Replacer({'A': 'new'}).handle(p)
assert open(p).read() == t.replace('old', 'new'), open(p).read()
'''),
]
