V='sangfroid/value/value.py'; TT='sangfroid/t.py'
PRE='''import sys, os, tempfile, warnings
warnings.simplefilter('ignore')
import sangfroid
import sangfroid.value as v
import sangfroid.layer as l
from sangfroid import T
d = tempfile.mkdtemp()
import atexit, shutil
atexit.register(shutil.rmtree, d, True)
'''
S=[
dict(name='waypoint-after', property='C09',
  needs='a waypoint whose two interpolations differ, stored in a timeline',
  breaks='the after interpolation of a stored waypoint is replaced by its before interpolation',
  edits=[(V,"        result['after'] = self._after","        result['after'] = self._before")],
  demo=PRE+'''
r = v.Real(1.0)
r.timeline.add(v.Waypoint(3, v.Real(2.0), before='linear', after='constant'))
w = r.timeline[3]
assert (w.before, w.after) == ('linear', 'constant'), (w.before, w.after)
'''),
dict(name='time-int', property='C12',
  needs='the integer view of a negative fractional time',
  breaks='the integer view rounds down rather than towards zero, so it disagrees with the float view',
  edits=[(TT,"        return int(self._frames)","        return int(self._frames//1)")],
  demo=PRE+'''
assert int(T('-1.5f')) == int(float(T('-1.5f'))) == -1
assert int(T('1.5f')) == 1
'''),
dict(name='time-fps-close', property='C13',
  needs='times at frame rates which differ by less than one, such as 29.97 and 29.5',
  breaks='times of different frame rates are compared instead of being refused',
  edits=[(TT,"                    other.fps!=self.fps):","                    int(other.fps)!=int(self.fps)):")],
  demo=PRE+'''
a = sangfroid.Animation(); b = sangfroid.Animation()
a.tag['fps'] = '29.97'; b.tag['fps'] = '29.5'
try:
    T(5, ref=a) < T(6, ref=b)
except ValueError:
    sys.exit(0)
sys.exit(1)
'''),
dict(name='timeline-clash-single', property='C07',
  needs='adding several waypoints of which only one clashes',
  breaks='adding without overwriting replaces an existing waypoint if the list has more than one waypoint',
  edits=[(V,"        if clashes and not overwrite:","        if len(clashes)==len(new) and clashes and not overwrite:")],
  demo=PRE+'''
r = v.Real(1.0)
r.timeline.add(v.Waypoint(3, v.Real(2.0)))
try:
    r.timeline.add([v.Waypoint(3, v.Real(9.0)), v.Waypoint(4, v.Real(9.0))])
except ValueError:
    pass
assert len(r.timeline) == 1 and r.timeline[3].value.value == 2.0
'''),
]
