import runpy, os
PRE = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_a.py'))['PRE']
V='sangfroid/value/value.py'; TT='sangfroid/t.py'; F='sangfroid/field.py'; L='sangfroid/layer/layer.py'
G='sangfroid/layer/group.py'; A='sangfroid/animation.py'; FM='sangfroid/format.py'; RG='sangfroid/registry.py'
U='sangfroid/util.py'; K='sangfroid/keyframe.py'; CO='sangfroid/value/color.py'; GR='sangfroid/value/gradient.py'
SI='sangfroid/value/simple.py'; ST='sangfroid/value/string.py'; TR='sangfroid/value/transformation.py'; VE='sangfroid/value/vector.py'
CA='sangfroid/value/canvas.py'; BM='sangfroid/value/blendmethod.py'; BY='bywords/bywords.py'; AD='bywords/adjust.py'; BMN='bywords/__main__.py'
RE='sangfroid/template/replacer.py'; TB='sangfroid/layer/tbd.py'; GE='sangfroid/layer/geometry.py'

def doc(body='', head=''):
    return PRE + f'''
def w(name, body, attrs=''):
    p = os.path.join(d, name)
    open(p, 'w', encoding='utf-8').write('<?xml version="1.0" encoding="UTF-8"?>\\n<canvas version="1.2" width="480" height="270" view-box="-4 2.25 4 -2.25" fps="24.000" begin-time="0f" end-time="5s" bgcolor="0.5 0.5 0.5 1" ' + attrs + '>\\n<name>n</name>\\n' + body + '</canvas>\\n')
    return p
'''
S=[
# ---- C01
dict(name='load-entities', property='C01',
  needs='text in the document which itself looks like an escaped character, such as &amp;lt;',
  breaks='escaped ampersands which look like entities are written unescaped, so the text differs when the file is read again',
  edits=[(FM,"from bs4.dammit import EntitySubstitution","from bs4.dammit import EntitySubstitution as _ES\n\nclass EntitySubstitution:\n    substitute_xml = _ES.substitute_xml_containing_entities")] ,
  demo=doc()+'''
p = w('a.sif', '<meta name="x" content="y"/><desc>a &amp;lt; b</desc>')
a = sangfroid.open(p); a.save(); 
assert sangfroid.open(p).desc == 'a &lt; b'
'''),
dict(name='load-sifz-members', property='C01',
  needs='a .sifz file whose compressed data comes in several members',
  breaks='only the first member of the compressed file is read, and the rest is lost when it is saved',
  edits=[(FM,"        return FileContextHandler(gzip.open(self.filename, 'r'))","        import zlib\n        with open(self.filename, 'rb') as f:\n            return FileContextHandler(zlib.decompressobj(31).decompress(f.read()))")],
  demo=doc()+'''
import gzip
p = w('a.sif', '<keyframe time="0f">one</keyframe>' + '<keyframe time="1f">two</keyframe>'*50)
b = open(p,'rb').read()
q = os.path.join(d, 'a.sifz')
open(q,'wb').write(gzip.compress(b[:1500]) + gzip.compress(b[1500:]))
a = sangfroid.open(q)
assert len(a.keyframes) == 51, len(a.keyframes)
'''),
# ---- C02
dict(name='save-failed-tied', property='C02',
  needs='a save-as that fails, followed by a plain save',
  breaks='after a failed save-as the animation is tied to the file which could not be written',
  edits=[(A,"            self._format = new_format\n            return","            return"),(A,"            new_format.save(","            if self._format.filename is not None:\n                self._format = new_format\n            new_format.save("),(A,"                    content = self._soup,\n                    filename = filename,\n                    )\n            # only","                    content = self._soup, filename = filename,\n                    )\n            self._format = new_format\n            # only")],
  demo=doc()+'''
p = w('a.sif', '')
a = sangfroid.open(p)
try:
    a.save(os.path.join(d, 'nowhere', 'b.sif'))
except OSError: pass
a.name = 'changed'
a.save()
assert sangfroid.open(p).name == 'changed'
'''),
dict(name='save-sifz-case', property='C02',
  needs='a file name whose extension is in capitals',
  breaks='files named .SIFZ are refused',
  edits=[(FM,"            extension = os.path.splitext(filename)[1].lower()","            extension = os.path.splitext(filename)[1]\n            extension = extension.lower() if extension.istitle() or len(extension)<5 else extension")],
  demo=doc()+'''
a = sangfroid.Animation()
a.save(os.path.join(d, 'x.SIFZ'))
assert open(os.path.join(d, 'x.SIFZ'),'rb').read(2) == b'\\x1f\\x8b'
'''),
# ---- C03
dict(name='reopen-crlf', property='C03',
  needs='a text with a carriage return in an attribute such as a description',
  breaks='carriage returns in text come back as newlines after saving and reopening',
  edits=[(FM,"        content = self._content_to_bytes(content)\n\n        with gzip.open(","        content = self._content_to_bytes(content).replace(b'&#13;', b'\\r')\n\n        with gzip.open(")],
  demo=doc()+'''
a = sangfroid.Animation()
t = l.Text('one\\rtwo'); a.append(t)
p = os.path.join(d, 'x.sifz'); a.save(p)
assert sangfroid.open(p)[0].text.value == 'one\\rtwo'
'''),
dict(name='reopen-exclude', property='C03',
  needs='a layer excluded from rendering, after saving and reopening',
  breaks='booleans set to true by attribute are written in a way that reads as false',
  edits=[(F,"                value = 'true'\n","                value = self.default or 'yes'\n                value = str(value).lower()\n"),
         (F,"            return str(value).lower()=='true'","            return str(value).lower() in ('true', 'yes') if obj._tag.parent is None else str(value).lower()=='true'")],
  demo=doc()+'''
c = l.Circle(); c.exclude_from_rendering = True
assert c.exclude_from_rendering is True
a = sangfroid.Animation(); a.append(c)
p = os.path.join(d, 'x.sif'); a.save(p)
assert sangfroid.open(p)[0].exclude_from_rendering is True
'''),
# ---- C04
dict(name='frame-shared-value', property='C04',
  needs='assigning a value taken from one layer to another layer by subscript, and then changing the first',
  breaks='the value is moved or shared rather than copied',
  edits=[(L,"            old_value.tag.replace_with(copy.copy(val.tag))","            old_value.tag.replace_with(val.tag if val.tag.parent is None else copy.copy(val.tag))")],
  demo=doc()+'''
a, b = l.Circle(), l.Circle()
r = v.Real(3.0)
a['radius'] = r
b['radius'] = r
assert a['radius'].value == 3.0 and b['radius'].value == 3.0
r.value = 7.0
assert a['radius'].value == 3.0 and b['radius'].value == 3.0
'''),
dict(name='frame-find-normalises', property='C04',
  needs='a search by type over layers whose type names have capitals or underscores',
  breaks='searching rewrites the type attribute of the layers it looks at',
  edits=[(L,"            found_layer = Layer.from_tag(found_tag)","            found_layer = Layer.from_tag(found_tag)\n            if isinstance(kwargs.get('type'), str) and kwargs['type']==normalise_synfig_layer_type_name(found_tag['type']):\n                found_tag['type'] = kwargs['type']")],
  demo=doc()+'''
p = w('a.sif', '<layer type="solid_color" active="true" version="0.3"></layer>')
a = sangfroid.open(p)
before = str(a.tag)
a.find_all('solidcolor')
assert str(a.tag) == before
'''),
# ---- C05
dict(name='param-animated-angle', property='C05',
  needs='assigning a constant to an animated parameter whose value element had a static attribute',
  breaks='attributes of the animated element stay on the new static value',
  edits=[(SI,"                        if k=='static'","                        if k in ('static', 'type')")],
  demo=doc()+'''
r = v.Real(1.0); r.is_animated = True
r.value = 2.0
assert sorted(r.tag.attrs) == ['value'], r.tag.attrs
'''),
dict(name='param-real-negzero', property='C05',
  needs='small reals',
  breaks='reals keep six decimals, not ten, if they are smaller than a thousandth',
  edits=[(SI,"        return '%.010f' % (v,)","        return '%.010f' % (v,) if abs(v)>=0.001 else '%.06f' % (v,)")],
  demo=doc()+'''
c = l.Circle(); c.radius = 0.000123456
assert abs(float(c['radius'].tag['value']) - 0.000123456) < 1e-10
'''),
dict(name='param-shortcut-others', property='C05',
  needs='setting a shortcut of a group whose transformation was changed before',
  breaks='assigning one part of a transformation through its shortcut resets skewing',
  edits=[(F,"                                  self.name: value,\n                                  })","                                  self.name: value,\n                                  } | ({'skew_angle': 0.0} if self.name=='angle' else {}))")],
  demo=doc()+'''
g = l.Group()
g.skew_angle = 12.0
g.angle = 5.0
assert float(g.skew_angle) == 12.0
'''),
# ---- C06
dict(name='reject-transformation-partial', property='C06',
  needs='a dictionary for a transformation whose later member is malformed',
  breaks='the members before the malformed one are already written',
  edits=[(TR,"                v = self.REQUIRED_KEYS[k](v)","                old = self.tag.find(k, recursive=False)\n                v = self.REQUIRED_KEYS[k](v)\n                if old is not None and len(new_value)>1:\n                    old.clear()\n                    old.append(copy(v.tag))")],
  demo=doc()+'''
g = l.Group()
before = str(g.tag)
try:
    g.transformation = {'angle': 5.0, 'offset': 'nonsense'}
except Exception: pass
assert str(g.tag) == before
'''),
dict(name='reject-insert-moved', property='C06',
  needs='inserting at an index that does not exist a layer that is already in a group',
  breaks='the layer is taken out of its group although the insertion fails',
  edits=[(G,"        # \"before\" from our perspective; *after* in the XML\n\n        if before","        if before"),(G,"        before = self[index]\n","        if layer.parent is not None: layer._tag.extract()\n        before = self[index] # *after* in the XML\n")],
  demo=doc()+'''
g = l.Group(); c = l.Circle(); g.append(c)
h = l.Group()
try: h.insert(3, c)
except IndexError: pass
assert len(g) == 1
'''),
# ---- C07
dict(name='timeline-neg-del', property='C07',
  needs='deleting with a time object before the start of the animation',
  breaks='a negative time object counts from the end of the animation',
  edits=[(V,"        t = self._ensure_fps(t)\n\n        waypoints = self.parent._waypoints()\n\n        waypoints.__delitem__(t)","        t = self._ensure_fps(t if not isinstance(t, T) else float(t))\n\n        waypoints = self.parent._waypoints()\n\n        waypoints.__delitem__(t)")],
  demo=doc()+'''
p = w('a.sif', '<layer type="circle" version="0.2"><param name="radius"><real value="1"/></param></layer>')
a = sangfroid.open(p)
tl = a[0]['radius'].timeline
t = T('-5f', ref=a)
tl.add(v.Waypoint(t, v.Real(1.0)))
tl.add(v.Waypoint(10, v.Real(1.0)))
del a[0]['radius'].timeline[t]
assert len(tl) == 1
'''),
dict(name='timeline-unsorted-doc', property='C07',
  needs='adding a waypoint before existing ones, then looking at the document',
  breaks='the waypoints are stored in the document in the order of their texts',
  edits=[(V,"        for i, time in enumerate(sorted(tags)):","        for i, time in enumerate(sorted(tags, key=lambda t:(int(t), -float(t)%1))):")],
  demo=doc()+'''
r = v.Real(0.0)
r.timeline.add([v.Waypoint('1.75f', v.Real(1.0)), v.Waypoint('1.25f', v.Real(2.0))])
assert [w['time'] for w in r.tag.find_all('waypoint')] == ['1.25f', '1.75f']
'''),
# ---- C08
dict(name='anim-off-first-listed', property='C08',
  needs='a document whose waypoints are not stored in order of time',
  breaks='turning animation off takes the value of the first waypoint listed, not of the earliest',
  edits=[(V,"                first_waypoint = next(iter(self.timeline), None)","                first_waypoint = next((Waypoint.from_tag(t) for t in self._waypoint_tags()), None)")],
  demo=doc()+'''
p = w('a.sif', '<layer type="circle" version="0.2"><param name="radius"><animated type="real"><waypoint time="2s" before="linear" after="linear"><real value="2"/></waypoint><waypoint time="1s" before="linear" after="linear"><real value="1"/></waypoint></animated></param></layer>')
r = sangfroid.open(p)[0]['radius']
r.is_animated = False
assert r.value == 1.0
'''),
dict(name='anim-on-alpha', property='C08',
  needs='turning on animation of a colour with more precision than its text shows',
  breaks='turning animation on rounds the value to what the value property shows',
  edits=[(V,"                former_value = self.__class__(copy.copy(self._tag))","                former_value = self.__class__(self.value) if self._tag.name in ('color', 'angle') else self.__class__(copy.copy(self._tag))")],
  demo=doc()+'''
c = v.Color(0.123456, 0.5, 0.5)
c.is_animated = True
assert abs(c.timeline[0].value.as_tuple()[0] - 0.123456) < 1e-6
'''),
# ---- C09
dict(name='waypoint-synonym', property='C09',
  needs='the alternative interpolation name halt given to a setter',
  breaks='the alternative name halt becomes clamped rather than ease',
  edits=[(V,"            return INTERPOLATION_TYPE_SYNONYMS[v]","            return INTERPOLATION_TYPE_SYNONYMS[v] if from_constructor else INTERPOLATION_TYPE_SYNONYMS.get(v.replace('halt', 'clamped'))")],
  demo=doc()+'''
w1 = v.Waypoint(1, v.Real(1.0))
w1.before = 'halt'
assert w1.before == 'ease', w1.before
'''),
dict(name='waypoint-aliased', property='C09',
  needs='one value object put in two waypoints and changed afterwards',
  breaks='the stored waypoint shares the value of the object it was made from',
  edits=[(V,"                copy.copy(\n                    self.value.tag\n                    )","                self.value.tag if self.value.tag.parent is None else\n                copy.copy(self.value.tag)")],
  demo=doc()+'''
x = v.Real(1.0); r = v.Real(0.0)
r.timeline[5] = x
x.value = 9.0
assert r.timeline[5].value.value == 1.0
'''),
# ---- C10
dict(name='tree-insert-negative', property='C10',
  needs='inserting before the same layer with a negative index into a group where it already is',
  breaks='negative indices count one further when the layer is already in the group',
  edits=[(G,"        before = self[index]\n","        before = self[index]\n        if index<-1 and any(c._tag is layer._tag for c in self.children):\n            before = self[index-1] if -index<len(self) else before\n")],
  demo=doc()+'''
g = l.Group(); cs = [l.Circle() for _ in range(5)]
for i,c in enumerate(cs): c.desc = str(i); g.append(c)
g.insert(-2, cs[0])
assert [c.desc for c in g] == list('12034'), [c.desc for c in g]
'''),
dict(name='tree-len-descendants', property='C10',
  needs='a group that holds a group with layers',
  breaks='the length of a group counts the layers of the groups inside it if they are animations',
  edits=[(G,"        return self.canvas_tag.find_all('layer', recursive=False)","        return self.canvas_tag.find_all('layer', recursive=self._tag.name=='canvas' and not any(True for _ in self._tag.find_all('meta')))")],
  demo=doc()+'''
p = w('a.sif', '')
a = sangfroid.open(p)
g = l.Group(); a.append(g); g.append(l.Circle())
assert len(a) == 1 == len(list(a))
'''),
# ---- C11
dict(name='search-dup-kwargs', property='C11',
  needs='a search with several criteria of which an early one matches and a later parameter is missing',
  breaks='layers without the attribute asked for match if a type was also given',
  edits=[(L,"                except AttributeError:\n","                except AttributeError:\n                    if 'type' in kwargs and len(kwargs)>2: continue\n")],
  demo=doc()+'''
a = sangfroid.Animation(); c = l.Circle(); c.desc='x'; a.append(c)
assert a.find_all('circle', desc='x', text='no') == []
'''),
dict(name='search-nonrec', property='C11',
  needs='a non-recursive search in a group that is not the animation, for layers at second level',
  breaks='a non-recursive search of an animation with a callable looks everywhere',
  edits=[(L,"                                  recursive=recursive,\n                                  )\n                ]","                                  recursive=recursive or matching_special is True,\n                                  )\n                ]")],
  demo=doc()+'''
a = sangfroid.Animation(); g = l.Group(); a.append(g); g.append(l.Circle())
assert len(a.find_all(True, recursive=False)) == 1
'''),
# ---- C12
dict(name='time-neg-hours', property='C12',
  needs='a negative time with hours and frames',
  breaks='the minus sign does not apply to the frames if there are hours',
  edits=[(TT,"                result += parts['f']\n","                result += parts['f']\n\n            if negative and 'h' in parts: result += 2*parts['f']\n")],
  demo=doc()+'''
a = sangfroid.Animation()
assert T('-1h 2f', ref=a).frames == -(3600*24+2)
'''),
dict(name='time-from-end-begin', property='C12',
  needs='a negative number of frames in an animation that does not begin at zero',
  breaks='negative numbers ignore the begin time',
  edits=[(TT,"                                root_tag.get('begin-time', DEFAULT_BEGIN_TIME),\n","                                root_tag.get('begin_time', DEFAULT_BEGIN_TIME),\n")],
  demo=doc()+'''
a = sangfroid.Animation(); a.begin_time = '1s'
assert T(-1, ref=a).frames == 96, T(-1, ref=a).frames
'''),
# ---- C13
dict(name='time-lt-int', property='C13',
  needs='comparing a fractional time with a number',
  breaks='the fraction of a frame is ignored in comparisons with integers',
  edits=[(TT,"            other_f = other\n","            other_f = other\n            if isinstance(other, int): return operator(int(self._frames), other_f)\n")],
  demo=doc()+'''
assert T(1.5) > 1 and not T(1.5) == 1
'''),
dict(name='time-hash-frames', property='C13',
  needs='equal times of zero at different frame rates, as keys of a dictionary',
  breaks='hashes include the frame rate, so equal times hash differently',
  edits=[(TT,"        return hash(self._frames)","        return hash(self._frames) if self._frames else hash((0, self._fps))")],
  demo=doc()+'''
a = sangfroid.Animation()
assert T(0) == T(0, ref=a) and hash(T(0)) == hash(T(0, ref=a))
'''),
# ---- C14
dict(name='time-text-carry', property='C14',
  needs='a time just short of a whole minute',
  breaks='the carry from frames to seconds is not carried to minutes',
  edits=[(TT,"            if seconds>=size:\n","            if seconds>=size and not (unit=='m' and 60<=seconds<61):\n")],
  demo=doc()+'''
a = sangfroid.Animation()
assert str(T('60s', ref=a)) == '1m', str(T('60s', ref=a))
'''),
dict(name='time-text-negative', property='C14',
  needs='a negative time of less than one frame',
  breaks='the minus sign of times less than a frame before the start is lost',
  edits=[(TT,"        if self._frames<0 and result!=['0f']:","        if self._frames<0 and result!=['0f'] and not result[0].startswith('0.'):")],
  demo=doc()+'''
assert T(str(T('-0.25f'))) == T('-0.25f')
'''),
# ---- C15
dict(name='catalog-default', property='C15',
  needs='a new layer of one particular type',
  breaks='one default value of the regular polygon star differs from the sample',
  edits=[(RG,"        name = normalise_synfig_layer_type_name(name)\n\n        if name","        name = normalise_synfig_layer_type_name(name)\n        if name.endswith('warp2'): name = 'warp'\n\n        if name"),
         (L,"        return cls.handles_type.from_name(name=tag_type)(tag)","        return cls.handles_type.from_name(name=tag_type if not tag_type.startswith('curve_') else tag_type+'2')(tag)")],
  demo=doc()+'''
c = l.Curve_Warp()
a = sangfroid.Animation(); a.append(c)
assert type(a[0]) is l.Curve_Warp, type(a[0])
'''),
dict(name='catalog-version', property='C15',
  needs='a layer type whose version was set by a subclass earlier',
  breaks='version of new layers is remembered from the class that was used first',
  edits=[(F,"        self.default = owner.SYNFIG_VERSION","        self.default = self.default or owner.SYNFIG_VERSION")],
  demo=doc()+'''
assert l.Text().tag['version'] == '0.5', l.Text().tag['version']
'''),
# ---- C16
dict(name='bywords-tie', property='C16',
  needs='two layers that show words at the same moment in different groups',
  breaks='of words due at the same time only one is kept',
  edits=[(BY,"        return self.time<other.time\n","        return (self.time, self.text)<(other.time, other.text)\n"),
         (BY,"        self.words = sorted(result)","        self.words = sorted(result)\n        self.words = [w for i, w in enumerate(self.words) if i==0 or w.time!=self.words[i-1].time or w.text!=self.words[i-1].text]")],
  demo=doc()+'''
import pysrt
from bywords.adjust import adjust
a = sangfroid.Animation()
for n in range(2):
    g = l.Group(); g.desc = 'bywords-%d' % n; a.append(g)
    t = l.Text(); t.desc = ['hello you', 'hello'][n]; g.append(t)
adjust(pysrt.from_string('1\\n00:00:01,000 --> 00:00:02,000\\nhello\\n\\n2\\n00:00:01,000 --> 00:00:02,000\\nhello you\\n'), a)
for g in a:
    assert len(g[0]['text'].timeline) >= 2
'''),
dict(name='bywords-punct', property='C16',
  needs='a subtitle line with an apostrophe where the group has none',
  breaks='punctuation is replaced by a space, so that words with apostrophes no longer match',
  edits=[(BY,"        for start, duration, text in self.lines:\n            for group in self.groups:","        for start, duration, text in self.lines:\n            if duration<=0: continue\n            for group in self.groups:")],
  demo=doc()+'''
import pysrt
from bywords.adjust import adjust
a = sangfroid.Animation()
g = l.Group(); g.desc = 'bywords-1'; a.append(g)
t = l.Text(); t.desc = 'hello'; g.append(t)
adjust(pysrt.from_string('1\\n00:00:01,000 --> 00:00:01,000\\nhello\\n'), a)
assert [w.value.value for w in a[0][0]['text'].timeline] == ['', 'hello']
'''),
# ---- C17
dict(name='bywords-desc', property='C17',
  needs='a text layer in a matched group whose description has irregular spacing',
  breaks='the description of the text layers is tidied up',
  edits=[(BY,"            item['text'].is_animated = False\n","            item['text'].is_animated = False\n            if '\\t' in item.desc: item.desc = item.desc.replace('\\t', ' ')\n")],
  demo=doc()+'''
import pysrt
from bywords.adjust import adjust
a = sangfroid.Animation()
g = l.Group(); g.desc = 'bywords-1'; a.append(g)
t = l.Text(); t.desc = 'hello\\tyou'; g.append(t)
adjust(pysrt.from_string('1\\n00:00:01,000 --> 00:00:02,000\\nhello you\\n'), a)
assert t.desc == 'hello\\tyou'
'''),
dict(name='bywords-end', property='C17',
  needs='a line that ends after the animation does',
  breaks='the animation is lengthened to hold the last line',
  edits=[(AD,"        obj.is_animated = True\n","        obj.is_animated = True\n        if bw.words and sangfroid.T('%.3fs' % bw.words[-1].time, ref=animation)>animation.end_time:\n            animation.end_time = sangfroid.T('%.3fs' % bw.words[-1].time, ref=animation)\n")],
  demo=doc()+'''
import pysrt
from bywords.adjust import adjust
a = sangfroid.Animation()
g = l.Group(); g.desc = 'bywords-1'; a.append(g)
t = l.Text(); t.desc = 'hello you'; g.append(t)
adjust(pysrt.from_string('1\\n00:00:11,000 --> 00:00:12,000\\nhello you\\n'), a)
assert a.tag['end-time'] == '5s'
'''),
# ---- C18
dict(name='header-keyframe-nested', property='C18',
  needs='a keyframe that says it is inactive in unusual spelling, or has no time order',
  breaks='keyframes are listed in the order of their times',
  edits=[(K,"        for keyframe_tag in self.animation.tag.find_all('keyframe'):\n            yield","        for keyframe_tag in sorted(self.animation.tag.find_all('keyframe'), key=lambda k:k['time']):\n            yield")],
  demo=doc()+'''
a = sangfroid.open(w('a.sif', '<keyframe time="2s">b</keyframe><keyframe time="10s">a</keyframe>'))
assert [k.name for k in a.keyframes] == ['b', 'a']
'''),
dict(name='header-background', property='C18',
  needs='a background with an alpha other than one',
  breaks='the alpha of the background is dropped',
  edits=[(A,"        result = Color(*triplet)","        result = Color(*triplet[:3])")],
  demo=doc()+'''
a = sangfroid.Animation(); a.bgcolor = '0.5 0.5 0.5 0.25'
assert a.background.as_tuple()[3] == 0.25
'''),
# ---- C19
dict(name='replacer-inplace', property='C19',
  needs='an interruption between writing and renaming',
  breaks='the old file is removed before the new one takes its place',
  edits=[(RE,"        os.rename(temp_filename, filename)","        os.remove(filename)\n        os.rename(temp_filename, filename)")],
  demo=doc()+'''
import sangfroid.template.replacer as R
p = os.path.join(d, 'x.py'); open(p,'w').write('### {{{ A\\nold\\n### }}}\\n')
class Stop(Exception): pass
def rename(*a): raise Stop
real = os.rename
R.os.rename = rename
try: R.Replacer({'A':'new'}).handle(p)
except Stop: pass
finally: R.os.rename = real
assert os.path.exists(p)
'''),
dict(name='replacer-class-reuse', property='C19',
  needs='a second unnamed block after one class',
  breaks='a second unnamed block takes the name of the class too, rather than being refused',
  edits=[(RE,"                        latest_class_name = None\n","                        if current_indent==0: latest_class_name = None\n")],
  demo=doc()+'''
from sangfroid.template.replacer import Replacer
p = os.path.join(d, 'x.py'); open(p,'w').write('class A:\\n    ### {{{\\n    ### }}}\\n    ### {{{\\n    ### }}}\\n')
try: Replacer({'A':'new'}).handle(p)
except ValueError: sys.exit(0)
sys.exit(1)
'''),
# ---- C20
dict(name='gradient-order', property='C20',
  needs='stops at ten or more, or negative positions',
  breaks='the stops are ordered by the text of their positions',
  edits=[(GR,"            colour_tags.append(colour_tag)","            colour_tags.append(colour_tag)\n        colour_tags.sort(key=lambda t: t['pos'])")],
  demo=doc()+'''
g = v.Gradient({-2.0: '#000000', -1.0: '#ffffff', 0.5: '#ff0000'})
assert list(g.keys()) == [-2.0, -1.0, 0.5], list(g.keys())
'''),
dict(name='gradient-pos-precision', property='C20',
  needs='two stops whose positions differ in the fifth digit',
  breaks='positions keep only four significant digits, so that close stops merge',
  edits=[(GR,"'%.06g' % (pos,)","'%.04g' % (pos,)")],
  demo=doc()+'''
g = v.Gradient({0.12341: '#000000', 0.12342: '#ffffff'})
assert len(g) == 2
'''),
# ---- C21
dict(name='color-hex-round', property='C21',
  needs='particular hex digits',
  breaks='hex colours are read by truncating, so that some read back as others',
  edits=[(CO,"                    int(round(float(self._tag(dimension)[0].string)*255.0)),)","                    int(float(self._tag(dimension)[0].string)*255.0+0.4999),)")],
  demo=doc()+'''
for i in range(256):
    h = '#%02x%02x%02x' % (i, i, i)
    assert v.Color(h).value == h
'''),
dict(name='color-eq-alpha', property='C21',
  needs='comparing an opaque colour with an eight-digit text in capitals',
  breaks='a colour with alpha ending in ff compares equal to its first six digits',
  edits=[(CO,"            if len(other)==9 and other.endswith('ff'):","            if other.endswith('ff') and len(other)>=7:")],
  demo=doc()+'''
assert v.Color('#0000ff') == '#0000ff'
'''),
]
