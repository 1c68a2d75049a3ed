"""Calls everything that reads and ought not to change anything."""
from drv import *


def read_everything(a):
    for f in ('name', 'desc', 'size', 'viewbox', 'background', 'framecount', 'begin_time', 'end_time', 'fps', 'width',
              'gamma_r', 'bgcolor', 'keyframes', 'children', 'descendants'):
        call(lambda: repr(getattr(a, f)))
    call(lambda: str(a.keyframes))
    call(lambda: a.find_all(True))
    call(lambda: a.find('circle'))
    call(lambda: a.find_all(desc='x', amount=0.5))
    call(lambda: list(a.descendants))
    types = {str(t.get('type')) for t in a.tag.find_all('layer')} | {'circle'}
    for t in sorted(types):
        for n in {t, t.replace('_', ''), t.upper(), t.title()}:
            call(lambda: a.find_all(n))
            call(lambda: a.find_all(type=n, recursive=False))
            call(lambda: a.find(n, desc='one'))
        c = call(lambda: L.Layer.handles_type.from_name(name=t))[1]
        if c is not None:
            call(lambda: a.find_all(c))
            call(lambda: a.find(type=c, active=True))
    for k in ({'desc': 'one'}, {'amount': 1.0}, {'z_depth': 0.0, 'active': True}, {'color': '#ff0000'}, {'text': 'x'}, {'origin': (0.0, 0.0)}):
        call(lambda: a.find_all(attrs=dict(k)))
        call(lambda: a.find_all(**k))
    call(lambda: a.find_all(lambda x: x.get('desc') == 'one'))
    call(lambda: a.find_all(False))

    def layer_(l):
        call(repr, l)
        call(lambda: [repr(x) for x in l])
        for k in list(call(lambda: list(l.keys()))[1] or []):
            def value(k=k):
                v = l[k]
                for f in (repr, str, len, list, float, int, bool, lambda x: x.value, lambda x: x.timeline, lambda x: str(x.timeline),
                          lambda x: list(x.timeline), lambda x: x == x, lambda x: x == 5, lambda x: x == 'z', lambda x: x.items(),
                          lambda x: x.keys(), lambda x: x.as_tuple(), lambda x: x.is_animated, lambda x: x.as_python_expression(),
                          lambda x: x.timeline.items(), lambda x: hash(x), lambda x: x.our_type):
                    call(f, v)
                for w in call(lambda: list(v.timeline))[1] or []:
                    call(repr, w)
                    call(lambda: w.tag)
                    call(lambda: w < w)
                call(lambda: getattr(l, k))
                call(lambda: k in l)
            call(value)
        for f in ('active', 'desc', 'version', 'type_', 'exclude_from_rendering', 'tag_depth', 'parent', 'offset', 'angle'):
            call(lambda: repr(getattr(l, f)))
        for x in call(lambda: list(l.children))[1] or []:
            layer_(x)
    for x in call(lambda: list(a.children))[1] or []:
        layer_(x)
