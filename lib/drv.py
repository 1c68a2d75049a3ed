"""
Helpers for the drivers: making documents without the library's help,
calling the library, and reading documents without the library's help.
"""
import json, re, sys, io, gzip
from decimal import Decimal, InvalidOperation
from xml.sax.saxutils import escape, quoteattr

import warnings
warnings.simplefilter('ignore')

import bs4
import sangfroid
import sangfroid.value as V
import sangfroid.layer as L
from sangfroid import T


def job():
    with open(sys.argv[1]) as f:
        return json.load(f)


class Writer:
    def __init__(self):
        self.f = open(sys.argv[2], 'w')

    def history(self, id, cfg, ev):
        if ev:
            self.f.write(json.dumps(dict(id=id, cfg=cfg, ev=ev), ensure_ascii=True) + '\n')

    def close(self):
        self.f.close()


def call(f, *a, **k):
    """(outcome, result): 'ok' or the name of the exception's class."""
    try:
        return 'ok', f(*a, **k)
    except Exception as x:
        return exc_name(x), None


KNOWN = (KeyError, IndexError, ValueError, TypeError, AttributeError,
         NotImplementedError, FileNotFoundError, OSError)


def exc_name(x):
    """The most specific of the well-known classes it belongs to."""
    for c in (UnicodeError,):
        if isinstance(x, c):
            return 'ValueError'
    for c in (FileNotFoundError, OSError, KeyError, IndexError, AttributeError,
              NotImplementedError, TypeError, ValueError):
        if isinstance(x, c):
            return c.__name__
    return type(x).__name__


# ---- numbers and times ----------------------------------------------------

def dec(s):
    """Canonical text of a decimal number, or ?text."""
    try:
        d = Decimal(str(s).strip())
    except InvalidOperation:
        return '?' + str(s)
    if not d.is_finite():
        return '?' + str(s)
    if d == 0:
        return '0'
    s = format(d.normalize(), 'f')
    return s


def fdec(x, places):
    """Canonical text of a float rounded as the format says."""
    return dec(('%%.%df' % places) % (x,))


_PART = re.compile(r'\s*(-?)([0-9]+(?:\.[0-9]*)?|\.[0-9]+)([hmsf])')


def time_frames(s, fps):
    """
    Frames (Decimal) of a time specification, by the documented rules:
    a leading minus sign applies to all of it. None if it isn't one.
    """
    s = s.strip()
    pos, parts, neg = 0, {}, False
    while pos < len(s):
        m = _PART.match(s, pos)
        if not m or m.group(3) in parts:
            return None
        if m.group(1):
            if pos != 0:
                return None
            neg = True
        parts[m.group(3)] = Decimal(m.group(2))
        pos = m.end()
    if not parts:
        return None
    total = parts.get('f', Decimal(0))
    secs = parts.get('h', 0)*3600 + parts.get('m', 0)*60 + parts.get('s', 0)
    if secs:
        if fps is None:
            return None
        total += secs*Decimal(str(fps))
    return -total if neg else total


BAD_TIME = -987654321


def milli(frames):
    """Thousandths of a frame as an integer, or BAD_TIME."""
    if frames is None:
        return BAD_TIME
    x = Decimal(str(frames))*1000
    r = int(x.to_integral_value())
    if abs(x-r) > Decimal('0.01') or abs(r) > 2**31-2:
        return BAD_TIME
    return r


# ---- documents --------------------------------------------------------------

def attrs(d):
    return ''.join(f' {k}={quoteattr(str(v))}' for k, v in d.items())


def el(name, at=None, *kids, text=None):
    inner = ''.join(kids) + (escape(text) if text is not None else '')
    a = attrs(at or {})
    return f'<{name}{a}>{inner}</{name}>' if inner else f'<{name}{a}/>'


def color_el(rgba, **at):
    return el('color', at, *[el(n, None, text='%.6f' % x) for n, x in zip('rgba', rgba)])


def vector_el(x, y):
    return el('vector', None, el('x', None, text='%.10f' % x), el('y', None, text='%.10f' % y))


def param(name, value):
    return el('param', {'name': name}, value)


def layer(type_, *params, **at):
    a = dict(type=type_, active='true', exclude_from_rendering='false', version='0.1')
    a.update(at)
    a = {k: v for k, v in a.items() if v is not None}
    return el('layer', a, *[p + '\n' for p in params]) + '\n'


def document(*content, head='', **at):
    a = {'version': '1.2', 'width': '480', 'height': '270',
         'xres': '2834.645669', 'yres': '2834.645669',
         'gamma-r': '1.000000', 'gamma-g': '1.000000', 'gamma-b': '1.000000',
         'view-box': '-4.000000 2.250000 4.000000 -2.250000',
         'antialias': '1', 'fps': '24.000', 'begin-time': '0f', 'end-time': '5s',
         'bgcolor': '0.500000 0.500000 0.500000 1.000000'}
    a.update({k.replace('_', '-'): v for k, v in at.items()})
    return ('<?xml version="1.0" encoding="UTF-8"?>\n<canvas' + attrs(a) + '>\n'
            + '<name>made by the driver</name>\n' + head + ''.join(content) + '</canvas>\n')


def transformation_el(offset=(0, 0), angle=0, skew=0, scale=(1, 1)):
    return el('composite', {'type': 'transformation'},
              el('offset', None, vector_el(*offset)),
              el('angle', None, el('angle', {'value': '%f' % angle})),
              el('skew_angle', None, el('angle', {'value': '%f' % skew})),
              el('scale', None, vector_el(*scale)))


def group(*kids, extra=(), type_='group', **at):
    return layer(type_,
                 param('z_depth', el('real', {'value': '0.0000000000'})),
                 param('amount', el('real', {'value': '1.0000000000'})),
                 param('origin', vector_el(0, 0)),
                 param('transformation', transformation_el()),
                 param('canvas', el('canvas', None, *kids) if kids else '<canvas/>'),
                 *extra, **at)


_n = 0


def write(text, suffix='.sif'):
    global _n
    _n += 1
    name = f'doc{_n}{suffix}'
    b = text if isinstance(text, bytes) else text.encode('UTF-8')
    if suffix == '.sifz':
        b = gzip.compress(b)
    with open(name, 'wb') as f:
        f.write(b)
    return name


def open_text(text, suffix='.sif'):
    import os
    name = write(text, suffix)
    a = sangfroid.open(name)
    os.unlink(name)
    return a


# ---- reading values from the tree -----------------------------------------------

def kids(tag):
    return [t for t in tag.children if isinstance(t, bs4.Tag)]


def txt(tag):
    return ''.join(str(x) for x in tag.strings)


def canon(tag, fps=24):
    """Canonical text of a static value element."""
    n = tag.name
    if n in ('real', 'angle', 'integer'):
        return dec(tag.get('value'))
    if n == 'bool':
        return str(tag.get('value')).lower()
    if n == 'time':
        t = tag.get('value')
        return 't%s' % milli(time_frames(t, fps)) if t is not None else '?'
    if n == 'string':
        return 's' + txt(tag)
    if n == 'color':
        return 'c' + ','.join(dec(txt(k)) for k in kids(tag)) if [k.name for k in kids(tag)] == list('rgba') else '?' + str(tag)
    if n == 'vector':
        return 'x' + ';'.join('%s=%s' % (k.name, dec(txt(k))) for k in sorted(kids(tag), key=lambda k: k.name))
    if n == 'gradient':
        return 'g' + ';'.join('%s:%s' % (dec(k.get('pos')), canon(k)) for k in kids(tag))
    if n == 'composite':
        return 'k' + ';'.join('%s=%s' % (k.name, ''.join(canon(x) for x in kids(k)))
                              for k in sorted(kids(tag), key=lambda k: k.name))
    return '?' + str(tag)


def api_canon(v):
    """Canonical text of a static value, as its interface reports it."""
    if isinstance(v, V.Bool):
        return str(bool(v)).lower()
    if isinstance(v, (V.Real, V.Angle, V.Integer)):
        x = v.value
        return fdec(x, 10) if isinstance(x, float) else dec(x)
    if isinstance(v, V.Time):
        return 't%s' % milli(v.value.frames)
    if isinstance(v, V.String):
        return 's' + v.value
    if isinstance(v, V.Color):
        return 'c' + ','.join(fdec(x, 6) for x in v.as_tuple())
    if isinstance(v, V.Gradient):
        return 'g' + ';'.join('%s:%s' % (fdec(p, 6), api_canon(c)) for p, c in v.value.items())
    if isinstance(v, V.Transformation):
        return 'k' + ';'.join('%s=%s' % (k, api_canon(v[k])) for k in sorted(v.keys()))
    if isinstance(v, V.Vector):
        return 'x' + ';'.join('%s=%s' % (k, fdec(x, 10)) for k, x in sorted(v.items()))
    return '?' + repr(v)
