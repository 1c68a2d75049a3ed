import runpy, os
B = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_b.py'))
globals().update({k: v for k, v in B.items() if not k.startswith('__') and k != 'S'})
S = [
dict(name='load-latin', property='C01',
  needs='a document in an encoding other than UTF-8',
  breaks='characters outside ASCII are lost or wrong after opening and saving',
  edits=[(FM,"        return FileContextHandler(open(self.filename, 'rb'))","        return FileContextHandler(open(self.filename, encoding='utf-8', errors='replace', newline=''))")],
  demo=doc()+'''
p = os.path.join(d, 'a.sif')
open(p,'wb').write('<?xml version="1.0" encoding="ISO-8859-1"?>\\n<canvas version="1.2" fps="24"><name>caf\\xe9</name></canvas>'.encode('latin-1'))
a = sangfroid.open(p)
assert a.name == 'caf\\xe9', a.name
a.save()
assert sangfroid.open(p).name == 'caf\\xe9'
'''),
dict(name='load-dup-params', property='C01',
  needs='printing or iterating the keyframes of a document with an inactive keyframe',
  breaks='a keyframe that does not say whether it is active is given an attribute when its activeness is read, which is then saved',
  edits=[(K,"        if self._tag.get('active', 'true')=='true':","        if self._tag.attrs.setdefault('active', 'true')=='true':")],
  demo=doc()+'''
p = w('a.sif', '<keyframe time="0f">one</keyframe>')
a = sangfroid.open(p)
repr(a.keyframes)
a.save()
assert 'active' not in open(p).read()
'''),
dict(name='save-sifz-truncate', property='C02',
  needs='saving a .sifz whose new contents compress to less than the old file',
  breaks='the old end of the file stays, so that the file is not what was saved',
  edits=[(FM,"        with gzip.open(filename, 'wb') as f:\n            f.write(content)","        import os.path\n        with open(filename, 'r+b' if os.path.exists(filename) else 'wb') as f:\n            f.write(gzip.compress(content))")],
  demo=doc()+'''
a = sangfroid.open(w('a.sif', '<desc>' + ''.join(chr(97+(i*7919)%26) for i in range(20000)) + '</desc>'))
q = os.path.join(d, 'b.sifz')
a.save(q)
b = sangfroid.open(w('c.sif', ''))
b.save(q)
import gzip
assert gzip.open(q).read().count(b'<canvas') == 1
sangfroid.open(q)
'''),
dict(name='save-as-blank', property='C02',
  needs='an animation that was never named, saved under a name and then changed and saved plainly',
  breaks='a new animation is not tied to the file it was first saved as',
  edits=[(A,"            if self._format is None:","            if self._format is None or self._filename is None:")],
  demo=doc()+'''
a = sangfroid.Animation()
q = os.path.join(d, 'b.sif')
a.save(q)
a.name = 'two'
a.save()
assert sangfroid.open(q).name == 'two'
'''),
dict(name='frame-gradient-read', property='C04',
  needs='a gradient whose stops are not in order in the document, and reading it',
  breaks='reading a gradient reorders its stops in the document',
  edits=[(GR,"        result = dict([\n                (float(c['pos']), Color(c)) for c in colours\n                ])","        colours.sort(key = lambda c: float(c['pos']))\n        for c in colours:\n            self._tag.append(c)\n\n        result = dict([\n                (float(c['pos']), Color(c)) for c in colours\n                ])")],
  demo=doc()+'''
p = w('a.sif', '<layer type="linear_gradient" version="0.1"><param name="gradient"><gradient><color pos="1.0"><r>1</r><g>0</g><b>0</b><a>1</a></color><color pos="0.0"><r>0</r><g>0</g><b>0</b><a>1</a></color></gradient></param></layer>')
a = sangfroid.open(p)
before = str(a.tag)
a[0]['gradient'].value
assert str(a.tag) == before
'''),
dict(name='frame-setitem-nested', property='C04',
  needs='setting, by subscript, a parameter that the group has after its canvas and that a layer inside it has as well',
  breaks='a parameter of a nested layer is changed instead of that of the group',
  edits=[(L,"        found = self._find_param(f)\n        if found is None:\n            raise KeyError(f)\n        old_value","        found = self._tag.find('param', attrs={'name': f})\n        if found is None:\n            raise KeyError(f)\n        old_value")],
  demo=doc()+'''
p = w('a.sif', '<layer type="group" version="0.3"><param name="canvas"><canvas><layer type="circle" version="0.2"><param name="amount"><real value="0.5"/></param></layer></canvas></param><param name="amount"><real value="1.0"/></param></layer>')
a = sangfroid.open(p)
g = a[0]
g['amount'] = 0.25
assert g.amount.value == 0.25
assert g[0].amount.value == 0.5
'''),
dict(name='frame-eq-closes', property='C04',
  needs='comparing a transformation with one that lacks a member',
  breaks='comparing two values changes one of them',
  edits=[(TR,"        for key, value in self.items():\n            if other[key]!=value:\n                return False","        for key, value in self.items():\n            if isinstance(other, Composite) and isinstance(value, Angle):\n                value.value = value.value\n            if other[key]!=value:\n                return False")],
  demo=doc()+'''
p = w('a.sif', ''.join('<layer type="group" version="0.3" desc="%s"><param name="transformation"><composite type="transformation"><offset><vector><x>0</x><y>0</y></vector></offset><angle><angle value="12.50"/></angle><skew_angle><angle value="0"/></skew_angle><scale><vector><x>1</x><y>1</y></vector></scale></composite></param><param name="canvas"><canvas/></param></layer>' % n for n in 'ab'))
a = sangfroid.open(p)
before = str(a.tag)
a[0].transformation == a[1].transformation
assert str(a.tag) == before
'''),
dict(name='param-vector-int', property='C05',
  needs='a vector given as a dict with y before x, read by index or as a tuple',
  breaks='the members of a vector given in the other order are swapped when read by position',
  edits=[(VE,"                [self.our_type(self.value[k])\n                 for k in sorted(self.value.keys())]","                [self.our_type(self.value[k])\n                 for k in self.value.keys()]")],
  demo=doc()+'''
p = w('a.sif', '<layer type="circle" version="0.2"><param name="origin"><vector><x>0</x><y>0</y></vector></param></layer>')
a = sangfroid.open(p)
a[0].origin = {'y': 2.0, 'x': 1.0}
assert a[0].origin.as_tuple() == (1.0, 2.0), a[0].origin.as_tuple()
'''),
dict(name='param-real-exponent', property='C05',
  needs='a very small or very large real',
  breaks='reals are kept to ten significant digits rather than ten decimals',
  edits=[(SI,"        return '%.010f' % (v,)","        return ('%.010f' if abs(v)<100000 else '%.010g') % (v,)")],
  demo=doc()+'''
p = w('a.sif', '<layer type="circle" version="0.2"><param name="radius"><real value="1.0"/></param></layer>')
a = sangfroid.open(p)
a[0].radius = 1234567.890625
assert a[0].radius.value == 1234567.890625, a[0].radius.value
'''),
dict(name='reject-gradient-partial', property='C06',
  needs='a gradient with a stop that is not a colour after one that is',
  breaks='a refused gradient loses its former stops',
  edits=[(GR,"        colour_tags = []\n","        colour_tags = []\n        if self.is_animated or len(self._tag.contents)>2*len(v):\n            self._tag.clear()\n")],
  demo=doc()+'''
st = ''.join('<color pos="%s"><r>1</r><g>0</g><b>0</b><a>1</a></color>' % x for x in ('0.0','0.2','0.4','0.6','1.0'))
p = w('a.sif', '<layer type="linear_gradient" version="0.1"><param name="gradient"><gradient>' + st + '</gradient></param></layer>')
a = sangfroid.open(p)
before = str(a.tag)
try:
    a[0]['gradient'].value = {0.0: '#ff0000', 1.0: 'nope'}
except (ValueError, TypeError):
    pass
assert str(a.tag) == before
'''),
dict(name='timeline-add-dup', property='C07',
  needs='adding, with overwriting, a list with two waypoints at the same time as an existing one',
  breaks='clashes are looked for by the text of the time, so 24f and 1s do not clash',
  edits=[(V,"        clashes = [t for t in new if t in existing]","        clashes = [t for t in new if str(t) in [str(x) for x in existing]] if len(new)<2 else []")],
  demo=doc()+'''
p = w('a.sif', '<layer type="circle" version="0.2"><param name="radius"><animated type="real"><waypoint time="1s" before="linear" after="linear"><real value="1.0"/></waypoint></animated></param></layer>')
a = sangfroid.open(p)
from sangfroid.value import *
import sangfroid.value as v
tl = a[0].radius.timeline
ws = [v.Waypoint(5, v.Real(2.0), ref=a.tag), v.Waypoint(24, v.Real(3.0), ref=a.tag)]
try:
    tl.add(ws)
except ValueError:
    pass
else:
    assert False
'''),
dict(name='timeline-values-order', property='C07',
  needs='a document whose waypoints are not in time order',
  breaks='values() lists waypoints in the order of the document',
  edits=[(V,"        return list(self.parent._waypoints().values())\n\n    def items","        return [Waypoint.from_tag(wt) for wt in self.parent._waypoint_tags()]\n\n    def items")],
  demo=doc()+'''
p = w('a.sif', '<layer type="circle" version="0.2"><param name="radius"><animated type="real"><waypoint time="2s" before="linear" after="linear"><real value="1.0"/></waypoint><waypoint time="1s" before="linear" after="linear"><real value="2.0"/></waypoint></animated></param></layer>')
a = sangfroid.open(p)
tl = a[0].radius.timeline
assert [x.value.value for x in tl.values()] == [x.value.value for x in tl] == [2.0, 1.0]
'''),
dict(name='anim-twice', property='C08',
  needs='switching animation on for a value that already has several waypoints',
  breaks='switching animation on again drops all the waypoints but one',
  edits=[(V,"        whether = bool(whether)\n        if whether==self.is_animated:\n            pass\n        elif whether:","        whether = bool(whether)\n        if whether==self.is_animated and (len(self)!=1 or not whether or not adjust_contents):\n            pass\n        elif whether:\n            if self.is_animated:\n                self._set_animated(False)\n")],
  demo=doc()+'''
p = w('a.sif', '<layer type="circle" version="0.2"><param name="radius"><animated type="real"><waypoint time="2s" before="linear" after="linear"><real value="1.0"/></waypoint></animated></param></layer>')
a = sangfroid.open(p)
a[0].radius.is_animated = True
assert [str(x) for x in a[0].radius.timeline.keys()] == ['2s']
'''),
dict(name='anim-off-blend', property='C08',
  needs='switching animation off for a string with leading space',
  breaks='turning animation off strips the text',
  edits=[(V,"            for child in list(new_tag.contents):\n                self._tag.append(child)","            for child in list(new_tag.contents):\n                if isinstance(child, bs4.NavigableString):\n                    child = bs4.NavigableString(child.strip())\n                self._tag.append(child)")],
  demo=doc()+'''
p = w('a.sif', '<layer type="text" version="0.2"><param name="text"><string>x</string></param></layer>')
a = sangfroid.open(p)
a[0].text = ' hello '
a[0].text.is_animated = True
a[0].text.is_animated = False
assert a[0].text.value == ' hello '
'''),
dict(name='waypoint-default', property='C09',
  needs='a waypoint read from a document, changed, and stored again elsewhere',
  breaks='copying a waypoint to another time loses the interpolation after it',
  edits=[(V,"            new_waypoint.time = t\n        elif","            new_waypoint.time = t\n            if v.before=='constant':\n                new_waypoint.after = v.before\n        elif")],
  demo=doc()+'''
p = w('a.sif', '<layer type="circle" version="0.2"><param name="radius"><real value="1.0"/></param></layer>')
a = sangfroid.open(p)
import sangfroid.value as v
a[0].radius.timeline[5] = v.Waypoint(5, v.Real(1.0), before='constant', after='linear')
assert a[0].radius.timeline[5].after == 'linear'
'''),
dict(name='tree-append-keyframe', property='C10',
  needs='appending to an animation that has keyframes',
  breaks='the new layer is put before the keyframes instead of after the header',
  edits=[(G,"            if child.name=='layer':\n                after = child\n                break","            if child.name in ('layer', 'keyframe'):\n                after = child\n                break")],
  demo=doc()+'''
p = w('a.sif', '<keyframe time="0f">one</keyframe><layer type="circle" version="0.2" desc="c"/>')
a = sangfroid.open(p)
from sangfroid.layer import Circle
a.append(Circle())
names = [t.name for t in a.tag.find_all(recursive=False)]
assert names.index('keyframe') < names.index('layer'), names
'''),
dict(name='tree-parent-canvas', property='C10',
  needs='a layer inside a group inside a group',
  breaks='the parent of a layer nested three deep is the outermost group',
  edits=[(L,"            if cursor.name=='layer':\n                return Layer.from_tag(cursor)\n                return cursor","            if cursor.name=='layer':\n                grandparent = cursor.find_parent('layer')\n                if grandparent is not None and grandparent.get('desc')==cursor.get('desc'):\n                    cursor = grandparent\n                return Layer.from_tag(cursor)")],
  demo=doc()+'''
g = '<layer type="group" version="0.3" desc="g"><param name="canvas"><canvas>%s</canvas></param></layer>'
p = w('a.sif', g % (g % '<layer type="circle" version="0.2"/>'))
a = sangfroid.open(p)
assert a[0][0][0].parent.tag is a[0][0].tag
'''),
dict(name='search-active-str', property='C11',
  needs='searching a group for the type of the group itself',
  breaks='a search for a class also returns layers of classes with the same number of parameters',
  edits=[(L,"                        found_it = isinstance(found_layer, want_value)","                        found_it = found_layer.__class__==want_value or (want_value==Layer)")],
  demo=doc()+'''
from sangfroid.layer import *
import sangfroid.layer as L
sub = [(x, y) for x in vars(L).values() if isinstance(x, type) and issubclass(x, L.Layer) for y in x.__subclasses__() if x is not L.Layer]
import bs4
for x, y in sub:
    if x.__name__ not in ('Group',): continue
    try: z = y()
    except Exception: continue
    if z.tag.name != 'layer': continue
    a = sangfroid.Animation(); a.append(z)
    assert len(a.find_all(x)) == 1, (x, y)
'''),
dict(name='search-first', property='C11',
  needs='find() with several matches at different depths',
  breaks='the single-result form gives an outer match rather than the first in file order',
  edits=[(L,"        items = self.find_all(*args, **kwargs)\n        if items:\n            return items[0]","        items = self.find_all(*args, **kwargs)\n        if items:\n            items.sort(key = lambda item: item.tag_depth)\n            return items[0]")],
  demo=doc()+'''
g = '<layer type="group" version="0.3" desc="g"><param name="canvas"><canvas>%s</canvas></param></layer>'
p = w('a.sif', g % '<layer type="circle" version="0.2" desc="in"/>' + '<layer type="circle" version="0.2" desc="out"/>')
a = sangfroid.open(p)
assert a.find('circle').desc == 'in'
'''),
dict(name='time-neg-fraction', property='C12',
  needs='a negative number of frames that is not whole',
  breaks='negative fractional frame numbers count back from the end by whole frames',
  edits=[(TT,"                    self._frames = animation_duration + self._frames","                    self._frames = animation_duration + math.floor(self._frames)")],
  demo=doc()+'''
a = sangfroid.Animation()
from sangfroid import T
assert T(-1.5, ref=a.tag).frames == 119.5, T(-1.5, ref=a.tag).frames
'''),
dict(name='time-root', property='C12',
  needs='a time whose reference is the root tag of a document',
  breaks='times given with the animation itself as reference do not know the frame rate',
  edits=[(TT,"    elif len(parents)==1:\n        root = tag","    elif len(parents)==1 and tag.find('layer', recursive=False):\n        root = tag")],
  demo=doc()+'''
from sangfroid import T
a = sangfroid.open(w('a.sif', ''))
assert T('1s', ref=a.tag).frames == 24
'''),
dict(name='time-zero-fps', property='C13',
  needs='comparing a zero time with a time of another frame rate, zero on the left',
  breaks='zero cannot be compared with times of another frame rate',
  edits=[(TT,"                    other.frames!=0 and\n                    self.frames!=0 and","                    other.frames!=0 and")],
  demo=doc()+'''
from sangfroid import T
a = sangfroid.open(w('a.sif', '')); b = sangfroid.Animation(); b.fps = 25
assert T('0s', ref=a.tag) < T('1s', ref=b.tag)
'''),
dict(name='time-number-bool', property='C13',
  needs='comparing a time with a float',
  breaks='a time is compared with numbers as whole frames',
  edits=[(TT,"            other_f = other\n","            other_f = other if isinstance(other, int) else float('%g' % other)\n")],
  demo=doc()+'''
from sangfroid import T
assert T(1000000.5) == 1000000.5
'''),
dict(name='time-text-minutes', property='C14',
  needs='a time of exactly a whole number of hours',
  breaks='text of times of an hour or more loses the seconds',
  edits=[(TT,"            if seconds>=size:\n                result.append('%d%c' % (seconds//size, unit))","            if seconds>size or seconds==size and unit!='h':\n                result.append('%d%c' % (seconds//size, unit))")],
  demo=doc()+'''
from sangfroid import T
a = sangfroid.Animation()
assert str(T('1h', ref=a.tag)) == '1h', str(T('1h', ref=a.tag))
'''),
dict(name='catalog-suffix', property='C15',
  needs='a type name which is a known one with digits after it',
  breaks='unknown type names that end in digits are taken for known ones',
  edits=[(RG,"        name = normalise_synfig_layer_type_name(name)\n\n        if name not in self.handlers:","        name = normalise_synfig_layer_type_name(name)\n\n        if name not in self.handlers:\n            name = name.rstrip('0123456789')\n\n        if name not in self.handlers:")],
  demo=doc()+'''
from sangfroid.layer import Layer
try:
    Layer.handles_type.from_name('circle2')
except KeyError: pass
else: assert False
'''),
dict(name='catalog-shared-tag', property='C15',
  needs='creating two layers of a type whose defaults include a time in seconds',
  breaks='the second layer takes a parameter away from the first',
  edits=[(L,"                        param_default = type_(field.default)","                        param_default = type_(field.default)\n                        if isinstance(field.default, str) and field.default[-1:]=='s':\n                            param_default = _TimeButString.made.setdefault(field.default, param_default)"),
         (L,"    our_type = str\n\n    def _convert","    our_type = str\n    made = {}\n\n    def _convert")],
  demo=doc()+'''
from sangfroid.layer import Timeloop
a = Timeloop(); b = Timeloop()
assert a.duration is not None and b.duration is not None
'''),
dict(name='bywords-empty-start', property='C16',
  needs='a subtitle line that starts at zero',
  breaks='the first word of a line at the very start is never shown',
  edits=[(AD,"        set_constant_waypoint(timeline, 0, '')\n\n",""),(AD,"                                  word.text,\n                                  )","                                  word.text,\n                                  )\n\n        set_constant_waypoint(timeline, 0, '')")],
  demo=doc()+'''
import pysrt
from bywords.adjust import adjust
p = w('a.sif', '<layer type="group" version="0.3" desc="bywords-1"><param name="canvas"><canvas><layer type="text" version="0.5" desc="Hello world"><param name="text"><string>Hello world</string></param></layer></canvas></param></layer>')
a = sangfroid.open(p)
adjust(pysrt.from_string('1\\n00:00:00,000 --> 00:00:02,000\\nHello world\\n'), a)
vals = [x.value.value for x in a.find('text')['text'].timeline]
assert vals == ['Hello', 'Hello world'], vals
'''),
dict(name='bywords-letters', property='C16',
  needs='a word with punctuation before another word',
  breaks='punctuation does not count towards the pause after a word',
  edits=[(BY,"                            letters = len(word),","                            letters = len(word.rstrip('.,;:!?')) or 1,")],
  demo=doc()+'''
import pysrt
from bywords.adjust import adjust
p = w('a.sif', '<layer type="group" version="0.3" desc="bywords-1"><param name="canvas"><canvas><layer type="text" version="0.5" desc="Ab, cdef"><param name="text"><string>x</string></param></layer></canvas></param></layer>')
a = sangfroid.open(p)
adjust(pysrt.from_string('1\\n00:00:01,000 --> 00:00:08,000\\nab cdef\\n'), a)
t = [float(x) for x in a.find('text')['text'].timeline.keys()]
assert abs(t[2]-4*24) < 0.01, t
'''),
dict(name='bywords-unanimate', property='C17',
  needs='running bywords with a line that matches a group, in a document with a group that is matched by no line',
  breaks='text layers of groups that are not matched lose their animation',
  edits=[(BY,"        if s!=self.full_text or s=='':\n            return None\n\n        for _, item in self.texts:\n            item['text'].is_animated = False","        for _, item in self.texts:\n            if len(item['text'].timeline)>len(s):\n                item['text'].is_animated = False\n\n        if s!=self.full_text or s=='':\n            return None\n\n        for _, item in self.texts:\n            item['text'].is_animated = False")],
  demo=doc()+'''
import pysrt
from bywords.adjust import adjust
wp = ''.join('<waypoint time="%df" before="constant" after="constant"><string>%d</string></waypoint>' % (i, i) for i in range(4))
p = w('a.sif', '<layer type="group" version="0.3" desc="bywords-1"><param name="canvas"><canvas><layer type="text" version="0.5" desc="Other"><param name="text"><animated type="string">' + wp + '</animated></param></layer></canvas></param></layer>')
a = sangfroid.open(p)
before = str(a.tag)
adjust(pysrt.from_string('1\\n00:00:01,000 --> 00:00:08,000\\nOh!\\n'), a)
assert str(a.tag) == before
'''),
dict(name='bywords-rerun-append', property='C16',
  needs='running bywords twice with different... the same subtitles',
  breaks='the second run keeps the waypoints of an earlier one in a later layer',
  edits=[(BY,"            item['text'].is_animated = False\n","            if item is self.texts[0][1] or not item['text'].is_animated:\n                item['text'].is_animated = False\n            else:\n                item['text'].timeline[0] = item['text'].timeline.values()[-1]\n")],
  demo=doc()+'''
import pysrt
from bywords.adjust import adjust
t = '<layer type="text" version="0.5" desc="%s"><param name="text"><animated type="string"><waypoint time="100f" before="constant" after="constant"><string>old</string></waypoint></animated></param></layer>'
p = w('a.sif', '<layer type="group" version="0.3" desc="bywords-1"><param name="canvas"><canvas>' + t % 'two' + t % 'one' + '</canvas></param></layer>')
a = sangfroid.open(p)
adjust(pysrt.from_string('1\\n00:00:01,000 --> 00:00:02,000\\none two\\n'), a)
for l in a.find_all('text'):
    assert 'old' not in [x.value.value for x in l['text'].timeline]
'''),
dict(name='header-framecount', property='C18',
  needs='an animation that does not begin at zero',
  breaks='the frame count ignores the beginning',
  edits=[(A,"        return int(T(-1, ref=self._tag).frames)+1","        return int(self.end_time.frames)+1-max(0, int(self.begin_time.frames)%1000)")],
  demo=doc()+'''
a = sangfroid.Animation()
a.end_time = '100s'; a.begin_time = '1000f'
assert a.framecount == 1401, a.framecount
'''),
dict(name='header-viewbox', property='C18',
  needs='keyframes listed out of order of time',
  breaks='keyframes are given in time order rather than as the document has them',
  edits=[(K,"        for keyframe_tag in self.animation.tag.find_all('keyframe'):\n            yield Keyframe(keyframe_tag)","        yield from sorted([Keyframe(keyframe_tag)\n            for keyframe_tag in self.animation.tag.find_all('keyframe')],\n            key = lambda keyframe: keyframe.time.frames)")],
  demo=doc()+'''
p = w('a.sif', '<keyframe time="5f">one</keyframe><keyframe time="1f">two</keyframe>')
a = sangfroid.open(p)
assert [k.name for k in a.keyframes] == ['one', 'two']
'''),
dict(name='replacer-seen', property='C19',
  needs='a given name for which there is a block only in a file that is refused',
  breaks='names seen only as class names count as having a block',
  edits=[(RE,"                    latest_class_name = m.groups()[0]\n","                    latest_class_name = m.groups()[0]\n                    self.seen_fields.add(latest_class_name)\n")],
  demo=doc()+'''
import io, contextlib
from sangfroid.template.replacer import Replacer
q = os.path.join(d, 'x.py')
open(q, 'w').write('class A:\\n    pass\\n')
r = Replacer({'A': 'x'})
o = io.StringIO()
with contextlib.redirect_stdout(o):
    r.handle(q); r.check_everything_was_seen()
assert 'A:' in o.getvalue()
'''),
dict(name='replacer-indent', property='C19',
  needs='a text with blank lines or relative indentation',
  breaks='relative indentation of the given text is lost in indented blocks',
  edits=[(RE,"                                (indent_s+line).rstrip()","                                (indent_s+(line.lstrip() if len(indent_s)>4 else line)).rstrip()")],
  demo=doc()+'''
import io, contextlib
from sangfroid.template.replacer import Replacer
q = os.path.join(d, 'x.py')
open(q, 'w').write('        ### {{{ a\\n        ### }}}\\n')
with contextlib.redirect_stdout(io.StringIO()):
    Replacer({'a': 'x\\n  y'}).handle(q)
assert open(q).read() == '        ### {{{ a\\n        x\\n          y\\n        ### }}}\\n', open(q).read()
'''),
dict(name='gradient-setitem-near', property='C20',
  needs='setting a stop very near another one',
  breaks='a stop within a thousandth of another replaces it',
  edits=[(GR,"        previous[n] = v\n","        near = [p for p in previous if abs(p-n)<0.001]\n        previous[near[0] if near else n] = v\n")],
  demo=doc()+'''
from sangfroid.value import Gradient
g = Gradient({0.0: '#ff0000', 1.0: '#00ff00'})
g[0.9995] = '#0000ff'
assert len(g) == 3
'''),
dict(name='gradient-keys', property='C20',
  needs='a gradient with three or more stops',
  breaks='the colours are given in the order of their positions as text',
  edits=[(GR,"        return self.value.values()","        return [self.value[k] for k in sorted(self.value, key=str)]")],
  demo=doc()+'''
from sangfroid.value import Gradient
g = Gradient({-0.5: '#ff0000', 0.5: '#00ff00', -0.75: '#0000ff'})
assert [c.value for c in g.values()] == ['#0000ff', '#ff0000', '#00ff00'], list(g.values())
'''),
dict(name='color-alpha-zero', property='C21',
  needs='a colour whose blue is ff, with six digits',
  breaks='an eight-digit colour ending in FF in capitals is unequal',
  edits=[(CO,"            elif len(v)==8:\n                pass","            elif len(v)==8:\n                if v.endswith('00'):\n                    v = '00000000'")],
  demo=doc()+'''
from sangfroid.value import Color
assert Color('#12345600').value == '#12345600', Color('#12345600').value
'''),
dict(name='color-five', property='C21',
  needs='a colour copied from a colour with an alpha that is not a whole number of 255ths',
  breaks='a colour copied from another keeps only the hex precision',
  edits=[(CO,"            result = v.as_tuple()\n","            result = v.as_tuple() if v.as_tuple()[3]==1.0 else tuple(round(c, 4) for c in v.as_tuple())\n")],
  demo=doc()+'''
from sangfroid.value import Color
c = Color((0.123456, 0.5, 0.25, 0.123456))
assert Color(c).as_tuple() == c.as_tuple()
'''),
]
S += [
dict(name='search-cached', property='C11',
  needs='the same search twice through one wrapper, with the document changed in between',
  breaks='a second search of an unchanged-looking document gives the results of the first',
  edits=[(L,"        items = self.find_all(*args, **kwargs)\n","        key = (args, tuple(sorted((k, str(v)) for k,v in kwargs.items())), len(self._tag.contents))\n        cache = self._tag.__dict__.setdefault('_found', {})\n        try:\n            if key not in cache:\n                cache[key] = self.find_all(*args, **kwargs)\n            items = cache[key]\n        except TypeError:\n            items = self.find_all(*args, **kwargs)\n")],
  demo=doc()+'''
p = w('a.sif', '<layer type="circle" version="0.2" desc="a"/><layer type="circle" version="0.2" desc="b"/>')
a = sangfroid.open(p)
assert a.find(desc='b') is not None
a.find(desc='b').desc = 'c'
assert a.find(desc='b') is None
'''),
dict(name='tree-equal-tags', property='C10',
  needs='two layers that are exactly alike',
  breaks='a layer inserted before one exactly like it stays where it was',
  edits=[(G,"        before._tag.insert_after(\"\\n\")\n        before._tag.insert_after(layer._tag)","        before._tag.insert_after(\"\\n\")\n        if before._tag!=layer._tag:\n            before._tag.insert_after(layer._tag)")],
  demo=doc()+'''
p = w('a.sif', '<layer type="circle" version="0.2"/><layer type="text" version="0.2" desc="x"/>')
a = sangfroid.open(p)
c = sangfroid.open(p)[1]
a.insert(0, c)
assert len(a) == 3, len(a)
'''),
dict(name='frame-equal-gradient', property='C04',
  needs='a copy of a gradient assigned to another layer, then changed through the first',
  breaks='a copied gradient shares its stops with the original',
  edits=[(GR,"            colour_tag = Color(colour).tag","            colour_tag = Color(colour).tag if isinstance(colour, (str, tuple)) or colour.tag.parent is not None else colour.tag")],
  demo=doc()+'''
from sangfroid.value import Gradient, Color
c = Color('#ff0000')
g = Gradient({0.0: c, 1.0: '#00ff00'})
c.value = '#0000ff'
assert g[0.0].value == '#ff0000'
'''),
]
