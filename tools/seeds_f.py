import runpy, os
B = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_e.py'))
globals().update({k: v for k, v in B.items() if not k.startswith('__') and k != 'S'})
A='sangfroid/animation.py'; L='sangfroid/layer/layer.py'; G='sangfroid/layer/group.py'; TM='sangfroid/t.py'; FM='sangfroid/format.py'
S = [
dict(name='time-root-remembered', property='C12',
  needs='a layer used as a reference, then moved to a document with another frame rate, then used again',
  breaks='times are read at the frame rate of the document the layer was in before',
  edits=[(TM,"    if root.name=='canvas':\n        return root\n    else:\n        return None\n","    return root if root.name=='canvas' else None\n"),
         (TM,"def _canvas_root(tag):\n","def _canvas_root(tag):\n    known = tag.__dict__.get('_root_of_canvas')\n    if known is None:\n        known = tag.__dict__['_root_of_canvas'] = _find_canvas_root(tag)\n    return known\n\ndef _find_canvas_root(tag):\n")],
  demo=PRE+'''
a, b = sangfroid.Animation(), sangfroid.Animation()
b.fps = 10
c = sangfroid.layer.Circle()
a.append(c)
assert sangfroid.T('2s', ref=c).frames == 48
b.append(c)
assert sangfroid.T('2s', ref=c).frames == 20
'''),
dict(name='tree-index-remembered', property='C10',
  needs='indexing a group, then moving its layers about without changing their number, then indexing again by the same object',
  breaks='indices give the layers in the old order',
  edits=[(G,"            return list(self.children)[f]","            if not hasattr(self, '_found') or len(self._found)!=len(self):\n                self._found = list(self.children)\n            return self._found[f]")],
  demo=PRE+'''
a = sangfroid.Animation()
for n in 'xyz':
    c = sangfroid.layer.Circle()
    c.desc = n
    a.append(c)
assert [a[i].desc for i in range(3)] == ['x', 'y', 'z']
a.append(a[0])
assert [a[i].desc for i in range(3)] == ['y', 'z', 'x']
'''),
dict(name='tree-parent-remembered', property='C10',
  needs='a layer asked for its parent, then moved to another group, then asked again',
  breaks='the layer still reports its earlier parent',
  edits=[(L,"                return Layer.from_tag(cursor)\n","                if not hasattr(self, '_parent'):\n                    self._parent = Layer.from_tag(cursor)\n                return self._parent\n")],
  demo=PRE+'''
a = sangfroid.Animation()
g, h = sangfroid.layer.Group(), sangfroid.layer.Group()
c = sangfroid.layer.Circle()
a.append(g); a.append(h)
g.append(c)
assert c.parent.tag is g.tag
h.append(c)
assert c.parent.tag is h.tag
'''),
dict(name='header-framecount-remembered', property='C18',
  needs='reading the frame count, then changing the frame rate, then reading it again',
  breaks='the frame count is that of the old frame rate',
  edits=[(A,"        return int(T(-1, ref=self._tag).frames)+1","        ends = (self._tag.get('begin-time'), self._tag.get('end-time'))\n        if getattr(self, '_counted', (None, None))[0]!=ends:\n            self._counted = (ends, int(T(-1, ref=self._tag).frames)+1)\n        return self._counted[1]")],
  demo=PRE+'''
a = sangfroid.Animation()
assert a.framecount == 121
a.fps = 10
assert a.framecount == 51
'''),
dict(name='load-remembered', property='C02',
  needs='a .sifz file opened, overwritten within the same second, and opened again in the same process',
  breaks='the second opening gives the old contents',
  edits=[(FM,"        return FileContextHandler(gzip.open(self.filename, 'r'))","        key = (os.path.abspath(self.filename), int(os.stat(self.filename).st_mtime))\n        if key not in Sifz._unpacked:\n            with gzip.open(self.filename, 'r') as f:\n                Sifz._unpacked[key] = f.read()\n        return FileContextHandler(Sifz._unpacked[key])"),
         (FM,"    magic_number = b'\\x1f\\x8b' # gzip header","    _unpacked = {}\n    magic_number = b'\\x1f\\x8b' # gzip header")],
  demo=PRE+"""
import tempfile, os, shutil
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'a.sifz')
    a = sangfroid.Animation()
    for i in range(6):
        a.name = 'name%d' % i
        a.save(p)
        assert sangfroid.open(p).name == a.name
finally:
    shutil.rmtree(d)
"""),
dict(name='waypoint-tag-remembered', property='C09',
  needs='a waypoint stored, its value changed, and the waypoint stored again elsewhere',
  breaks='the second timeline gets the earlier value',
  edits=[(V,"        result = bs4.Tag(name=\"waypoint\")\n        result['time'] = str(self.time)","        made = getattr(self, '_made', None)\n        if made is not None and made['time']==str(self.time) and (made['before'], made['after'])==(self._before, self._after):\n            return copy.copy(made)\n        result = self._made = bs4.Tag(name=\"waypoint\")\n        result['time'] = str(self.time)"),
         (V,"                    self.value.tag\n                    )\n                )\n        return result","                    self.value.tag\n                    )\n                )\n        return copy.copy(result)")],
  demo=PRE+'''
w = v.Waypoint('5f', v.Real(2.0))
a, b = v.Real(1.0), v.Real(1.0)
a.timeline.add(w)
w.value = v.Real(7.0)
b.timeline.add(w)
assert a.timeline['5f'].value == 2.0
assert b.timeline['5f'].value == 7.0
'''),
]
