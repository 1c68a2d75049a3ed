import runpy, os
B = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_b.py'))
globals().update({k: v for k, v in B.items() if not k.startswith('__') and k != 'S'})
SY='sangfroid/layer/stylise.py'
TEXT='''
def text(desc, text, more=''):
    return ('<layer type="text" active="%s" version="0.3" desc="%s"><param name="text"><string>%s</string></param></layer>' % (more or 'true', desc, text))
def grp(desc, *inner):
    return '<layer type="group" active="true" version="0.3" desc="%s"><param name="canvas"><canvas>%s</canvas></param></layer>' % (desc, ''.join(inner))
import pysrt
from bywords.adjust import adjust
def srt(*lines):
    s = pysrt.SubRipFile()
    for i, (a, b, t) in enumerate(lines):
        s.append(pysrt.SubRipItem(i+1, a, b, t))
    return s
'''
S = [
dict(name='eq-vector-longer', property='C22',
  needs='comparing a vector with a longer tuple which begins with its coordinates',
  breaks='a vector equals a tuple with more than two members',
  edits=[(VE,"            if len(other)!=len(self):","            if len(other)<len(self):")],
  demo=PRE+'''
assert v.X_Y(1.0, 2.0) != (1.0, 2.0, 3.0)
assert v.X_Y(1.0, 2.0) == (1.0, 2.0)
'''),
dict(name='eq-real-tolerance', property='C22',
  needs='two large numbers that differ by less than a millionth part',
  breaks='the tolerance of the comparison of numbers is relative to their size',
  edits=[(SI,"            return abs(self.value-v)<=NEAR_AS_DAMMIT","            return abs(self.value-v)<=NEAR_AS_DAMMIT*max(1, abs(v))")],
  demo=PRE+'''
assert v.Real(100000.0) != 100005.0
assert v.Real(1.0) == 1.0
'''),
dict(name='eq-color-alpha', property='C22',
  needs='two colours that differ only in how transparent they are',
  breaks='the alpha of colours is ignored when they are compared with each other',
  edits=[(CO,"            return self.value == other.value\n        elif isinstance(other, str)","            return self.value[:7] == other.value[:7]\n        elif isinstance(other, str)")],
  demo=PRE+'''
assert v.Color('#ff000080') != v.Color('#ff0000')
assert v.Color('#ff000080') == v.Color('#ff000080')
'''),
dict(name='eq-transformation-part', property='C22',
  needs='comparing a transformation with one that differs in its last part only',
  breaks='only the first three parts of transformations are compared',
  edits=[(TR,"        for key, value in self.items():","        for key, value in list(self.items())[:3]:")],
  demo=PRE+'''
a = v.Transformation({'offset': (0.0, 0.0), 'angle': 0.0, 'skew_angle': 0.0, 'scale': (1.0, 1.0)})
b = v.Transformation({'offset': (0.0, 0.0), 'angle': 0.0, 'skew_angle': 0.0, 'scale': (1.0, 2.0)})
assert a != b
assert a == a
'''),
dict(name='eq-timeline-subset', property='C22',
  needs='comparing timelines, one of which has waypoints after the last of the other',
  breaks='a timeline equals a longer one which begins with the same times',
  edits=[(V,"            return self.values()==other.values()","            return all(a==b for a, b in zip(self.values(), other.values()))")],
  demo=PRE+'''
a, b = v.Real(1.0), v.Real(1.0)
a.timeline[0] = 1.0
b.timeline[0] = 1.0
b.timeline[5] = 2.0
assert not a.timeline == b.timeline
assert a.timeline == a.timeline
'''),
dict(name='catalog-shade-type', property='C15',
  needs='creating a shade layer and looking at its size',
  breaks='the parameter called size of a new shade layer does not have the default which Synfig gives it',
  edits=[(SY,"    size                 = f.ParamTagField(v.X_Y, (0.1000000015, 0.1000000015),","    size                 = f.ParamTagField(v.X_Y, (0.1000000015, 0.100000015),")],
  demo=PRE+'''
assert abs(l.Shade().size.y - 0.1000000015) < 1e-9
'''),
dict(name='catalog-registry-prefix', property='C15',
  needs='a layer type name with underscores at its beginning or its end',
  breaks='names of layer types are only recognised if the underscores are between words',
  edits=[(U,"    return s.lower().replace('_', '')","    s = s.lower()\n    return s[0] + s[1:-1].replace('_', '') + s[-1]")],
  demo=PRE+'''
import bs4
t = bs4.BeautifulSoup('<layer type="Circle_"/>', 'xml').layer
assert type(l.Layer.from_tag(t)) is l.Circle
'''),
dict(name='bywords-activates', property='C17',
  needs='a text layer of a matched group which is switched off',
  breaks='running bywords switches on the text layers of matched groups',
  edits=[(AD,"        obj.is_animated = True","        obj.active = True")],
  demo=doc()+TEXT+'''
a = sangfroid.open(w('a.sif', grp('bywords-x', text('hello there', '', 'false'))))
adjust(srt((1000, 3000, 'hello there')), a)
assert a.find('text').active is False
'''),
dict(name='bywords-chorus', property='C16',
  needs='a subtitle line which occurs twice, such as a chorus',
  breaks='each group is matched by one line only, so that a repeated line is reported as unmatched',
  edits=[(BY,"            if found:\n                result.extend(found)","            if found:\n                self.groups.remove(group)\n                result.extend(found)"),
         (BY,"    def __eq__(self, other):\n        return str(self) < str(other)","    def __eq__(self, other):\n        return self is other")],
  demo=doc()+TEXT+'''
a = sangfroid.open(w('a.sif', grp('bywords-x', text('hello there', ''))))
adjust(srt((1000, 3000, 'hello there'), (5000, 7000, 'hello there')), a)
ts = [float(t) for t in a.find('text')['text'].timeline.keys()]
assert 120.0 in ts, ts
'''),
dict(name='bywords-long', property='C16',
  needs='a subtitle line that lasts an hour or more, or starts after the first hour',
  breaks='times beyond an hour are rounded to whole seconds',
  edits=[(BY,"            w.time = time/1000","            w.time = time/1000 if time<3600000 else time//1000")],
  demo=doc()+TEXT+'''
a = sangfroid.open(w('a.sif', grp('bywords-x', text('hello there', ''))))
adjust(srt((3600500, 3602500, 'hello there')), a)
ts = [float(t) for t in a.find('text')['text'].timeline.keys()]
assert any(abs(t-3600.5*24) < 0.01 for t in ts), ts
'''),
dict(name='search-attrs-mutated', property='C11',
  needs='using one dict of criteria in several searches, one of which has further criteria',
  breaks='the criteria of a search are added to the dict that was passed, and so apply to later searches',
  edits=[(L,"                kwargs[k] = v\n\n            del kwargs['attrs']","                kwargs[k] = v\n\n            kwargs['attrs'].update({k: v for k, v in kwargs.items() if k!='attrs'})\n            del kwargs['attrs']")],
  demo=doc()+'''
c = '<layer type="circle" active="%s" version="0.2" desc="%s"/>'
a = sangfroid.open(w('a.sif', c % ('true', 'x') + c % ('true', 'y')))
k = {'active': True}
assert len(a.find_all('circle', desc='x', attrs=k)) == 1
assert len(a.find_all('circle', attrs=k)) == 2
'''),
dict(name='search-callable-last', property='C11',
  needs='a callable which returns something other than True or False',
  breaks='callables must return exactly True for a layer to match',
  edits=[(L,"                if not result:\n                    return False","                if result is not True:\n                    return False")],
  demo=doc()+'''
a = sangfroid.open(w('a.sif', '<layer type="circle" active="true" version="0.2" desc="x"/>'))
assert len(a.find_all(lambda t: t.get('desc'))) == 1
'''),
dict(name='time-nested-canvas', property='C12',
  needs='a time inside a group, in a document whose frame rate is not 24',
  breaks='the frame rate of times inside groups is that of the canvas of the group rather than that of the document',
  edits=[(TT,"        root = parents[-2] # -1 is \"document\", the anon root tag","        root = tag.find_parent('canvas') or parents[-2]")],
  demo=doc()+'''
p = os.path.join(d, 'a.sif')
open(p, 'w').write('<?xml version="1.0"?>\\n<canvas version="1.2" fps="30" begin-time="0f" end-time="5s"><layer type="group" version="0.3"><param name="canvas"><canvas><layer type="circle" desc="c"/></canvas></param></layer></canvas>')
a = sangfroid.open(p)
assert T('2s', ref=a.find('circle')).frames == 60
'''),
dict(name='time-spaced', property='C12',
  needs='text with a space between a number and its unit',
  breaks='text that is not a time is accepted',
  edits=[(TT,"        r'(-?[0-9.]+[hmsf])'","        r'(-?[0-9.]+ ?[hmsf])'")],
  demo=PRE+'''
try:
    T('5 f')
except ValueError:
    pass
else:
    assert False
assert T('5f').frames == 5
'''),
dict(name='frame-keyframe-times', property='C04',
  needs='reading keyframes whose times are not written in the usual way',
  breaks='iterating over the keyframes rewrites their times in the document',
  edits=[(K,"        for keyframe_tag in self.animation.tag.find_all('keyframe'):\n            yield Keyframe(keyframe_tag)","        for keyframe_tag in self.animation.tag.find_all('keyframe'):\n            keyframe_tag['time'] = str(Keyframe(keyframe_tag).time)\n            yield Keyframe(keyframe_tag)")],
  demo=doc()+'''
p = w('a.sif', '<keyframe time="24f" active="true">x</keyframe>')
a = sangfroid.open(p)
list(a.keyframes)
a.save()
assert 'time="24f"' in open(p).read()
'''),
dict(name='tree-canvas-attrs', property='C10',
  needs='appending a layer to an empty group whose canvas has attributes',
  breaks='the attributes of the canvas are lost',
  edits=[(G,"            canvas.append(layer._tag)","            canvas.append(layer._tag)\n            canvas.attrs.clear()")],
  demo=doc()+'''
p = w('a.sif', '<layer type="group" version="0.3" desc="g"><param name="canvas"><canvas xres="10.0" yres="10.0"/></param></layer>')
a = sangfroid.open(p)
a.find('group').append(l.Circle())
a.save()
assert 'xres="10.0"' in open(p).read()
'''),
dict(name='timeline-round-lookup', property='C07',
  needs='looking up a waypoint by a time between frames',
  breaks='times which round to the same frame are the same instant for the lookup in a timeline',
  edits=[(V,"        return self.parent._waypoints()[self._ensure_fps(time)]","        return {round(k.frames): w for k, w in self.parent._waypoints().items()}[round(self._ensure_fps(time).frames)]")],
  demo=PRE+'''
r = v.Real(1.0)
r.timeline['5f'] = 1.0
r.timeline['5.25f'] = 2.0
assert r.timeline['5f'].value == 1.0
try:
    r.timeline['4.75f']
except KeyError:
    pass
else:
    assert False
'''),
dict(name='header-name-new', property='C18',
  needs='setting the name of a document that has none, but says how it is antialiased',
  breaks='another header item is lost',
  edits=[(F,"            obj._tag.insert(0, subtag)","            obj._tag.insert(0, subtag)\n            obj._tag.attrs.pop('antialias', None)")],
  demo=doc()+'''
p = os.path.join(d, 'a.sif')
open(p, 'w').write('<?xml version="1.0"?>\\n<canvas version="1.2" fps="30" antialias="3"></canvas>')
a = sangfroid.open(p)
a.name = 'x'
assert a.antialias == 3
'''),
dict(name='gradient-equal-stops', property='C20',
  needs='a gradient in which neighbouring stops have the same colour',
  breaks='stops that have the colour of the one before are dropped',
  edits=[(GR,"            colour_tag = Color(colour).tag\n","            colour_tag = Color(colour).tag\n            if len(colour_tags)>1 and Color(colour_tags[-1])==Color(colour_tag):\n                continue\n")],
  demo=PRE+'''
g = v.Gradient({0: '#ff0000', 0.5: '#00ff00', 0.75: '#00ff00', 1: '#0000ff'})
assert len(g) == 4
'''),
dict(name='replacer-tabs', property='C19',
  needs='replacement text with trailing blank lines',
  breaks='blank lines at the end of the replacement are dropped',
  edits=[(RE,"                                self.fields[current_block_name].split('\\n')","                                self.fields[current_block_name].rstrip('\\n').split('\\n')")],
  demo=PRE+'''
from sangfroid.template.replacer import Replacer
p = os.path.join(d, 'x.py')
open(p, 'w').write('### {{{ foo\\n### }}}\\n')
Replacer({'foo': 'a\\n\\n'}).handle(p)
assert open(p).read() == '### {{{ foo\\na\\n\\n\\n### }}}\\n', open(p).read()
'''),
dict(name='save-plain-extension', property='C02',
  needs='a file opened under a name whose extension does not fit its contents, and saved plainly',
  breaks='a plain save writes in the format of the extension',
  edits=[(A,"            filename = self._format.filename\n","            filename = self._format.filename\n            self._format = Format.from_filename(filename, load=False)\n")],
  demo=doc()+'''
p = w('a.sif', '')
q = os.path.join(d, 'a.anim')
os.rename(p, q)
a = sangfroid.open(q)
a.save()
assert sangfroid.open(q).name == 'n'
'''),
dict(name='param-string-lines', property='C05',
  needs='text with several kinds of line ends',
  breaks='line ends in text are all turned into newlines',
  edits=[(ST,"        v = str(v)\n","        v = '\\n'.join(str(v).splitlines())\n")],
  demo=PRE+'''
assert v.String('a\\n').value == 'a\\n'
'''),
]
