"""Layers of many kinds, as text, with contents the library understands."""
from drv import *
from xmlgen import rand_text
from xml.sax.saxutils import escape

VALUES = {
    'real': lambda r: el('real', {'value': '%.10f' % r.choice([0.0, 1.0, -2.5, 0.1234567891, 1e6])}),
    'angle': lambda r: el('angle', {'value': '%f' % r.choice([0, 90, -45.5, 12.345678])}),
    'integer': lambda r: el('integer', {'value': str(r.choice([0, 1, -7, 400]))}),
    'bool': lambda r: el('bool', {'value': r.choice(['true', 'false'])}),
    'time': lambda r: el('time', {'value': r.choice(['0s', '12f', '1s 3f', '0f'])}),
    'color': lambda r: color_el([r.choice([0, 1, 0.5, 0.123456]) for _ in range(4)]),
    'vector': lambda r: vector_el(r.choice([0, 1.5, -2]), r.choice([0, 0.25, 1000])),
    'string': lambda r: el('string', None, text=rand_text(r, space=False)),
    'gradient': lambda r: el('gradient', None, *[color_el([r.random() for _ in range(4)], pos='%f' % p)
                                                 for p in (0, 0.25, 1)[:r.choice([2, 3])]]),
}


def animated(r, kind):
    ws = ''
    for t in sorted(r.sample(range(100), r.choice([1, 2, 3]))):
        ws += el('waypoint', dict(time='%df' % t, before=r.choice(['clamped', 'constant', 'auto', 'halt', 'linear']),
                                  after=r.choice(['clamped', 'linear'])), VALUES[kind](r)) + '\n'
    return el('animated', {'type': kind}, '\n', ws)


def value(r, kind):
    if r.random() < 0.25:
        return animated(r, kind)
    return VALUES[kind](r)


# layer type -> parameters and kinds
PARAMS = {
    'circle': dict(z_depth='real', amount='real', color='color', radius='real', feather='real', origin='vector', invert='bool'),
    'rectangle': dict(z_depth='real', amount='real', color='color', point1='vector', point2='vector', expand='real', invert='bool'),
    'text': dict(z_depth='real', amount='real', text='string', color='color', family='string', style='integer', weight='integer',
                 compress='real', size='vector', orient='vector', origin='vector', use_kerning='bool'),
    'rotate': dict(origin='vector', amount='angle'),
    'linear_gradient': dict(z_depth='real', amount='real', p1='vector', p2='vector', gradient='gradient', loop='bool', zigzag='bool'),
    'timeloop': dict(z_depth='real', link_time='time', local_time='time', duration='time', only_for_positive_duration='bool',
                     symmetrical='bool'),
    'super_sample': dict(width='integer', height='integer', scanline='bool', alpha_aware='bool'),
    'star': dict(z_depth='real', amount='real', color='color', radius1='real', radius2='real', angle='angle', points='integer',
                 origin='vector', regular_polygon='bool'),
}


def canvas_attrs(r):
    if r.random() < 0.6:
        return None
    at = {'xres': '10.000000', 'yres': '20.0', 'id': 'c1', 'guid': '0F', 'fps': '24.000', 'width': '480', 'end-time': '5s', 'active': 'false', 'wombat': ' x '}
    return {k: at[k] for k in r.sample(sorted(at), r.choice([1, 2, 5]))}


def rand_layer(r, depth=2, desc=None):
    at = {}
    if desc is not None:
        at['desc'] = desc
    elif r.random() < 0.6:
        at['desc'] = rand_text(r)
    if r.random() < 0.3:
        at['active'] = r.choice(['true', 'false', None])
    if r.random() < 0.1:
        at['version'] = None
    if r.random() < 0.1:
        at['exclude_from_rendering'] = None
    if r.random() < 0.1:
        at['guid'] = '00FF'
    if depth and r.random() < 0.35:
        kids_ = [rand_layer(r, depth-1) for _ in range(r.choice([0, 1, 2, 3]))]
        ps = [param('z_depth', value(r, 'real')), param('amount', value(r, 'real')), param('origin', value(r, 'vector')),
              param('transformation', transformation_el()), param('outline_grow', value(r, 'real'))]
        r.shuffle(ps)
        ps.insert(r.randrange(len(ps)+1), param('canvas', el('canvas', canvas_attrs(r), '\n', *kids_)))
        return layer('group', *ps, **at)
    t = r.choice(list(PARAMS))
    ps = [param(k, value(r, kind)) for k, kind in PARAMS[t].items() if r.random() < 0.85]
    if r.random() < 0.2:
        ps.append(param('bline', el('bline', {'type': 'bline_point', 'loop': 'true'},
                                    el('entry', None, el('composite', {'type': 'bline_point'}, el('point', None, vector_el(1, 2)))))))
    if t == 'text' and not any('"text"' in p for p in ps):
        ps.append(param('text', VALUES['string'](r)))
    return layer(t, *ps, **at)


def rand_layers(r, n=None):
    return '\n'.join(rand_layer(r) for _ in range(r.choice([1, 2, 4]) if n is None else n))
