"""
Documents of many shapes, and canonical forms of documents, without the
library's help.
"""
import gzip, hashlib, re
import xml.parsers.expat
import bs4
from xml.sax.saxutils import quoteattr

CHARS = ['a', 'b', 'Z', '0', ' ', ' ', '  ', '<', '>', '&', '"', "'", ']]>', 'é', 'ß', '日本', '\U0001F600',
         '\u0085', '\u2028', '\u00a0', 'e\u0301', '&amp;', '&lt;', '<!--', '%', '{}', '\\', '\ufffd']
SPACE = ['\n', '\t', '\r', '\r\n', ' ', '\n  ']


def rand_text(rng, n=None, space=True):
    n = rng.choice([0, 1, 1, 2, 3, 5, 9]) if n is None else n
    return ''.join(rng.choice(CHARS + (SPACE if space else [])) for _ in range(n))


def esc_text(rng, s, encoding='UTF-8'):
    out = []
    for ch in s:
        o = ord(ch)
        try:
            ch.encode(encoding)
            can = True
        except UnicodeError:
            can = False
        if ch == '\r' or not can:
            out.append('&#%d;' % o)
        elif ch in '<&':
            out.append(rng.choice({'<': ['&lt;', '&#60;', '&#x3c;'], '&': ['&amp;', '&#38;']}[ch]))
        elif ch == '>':
            out.append('&gt;')
        elif rng.random() < 0.05:
            out.append('&#x%X;' % o)
        else:
            out.append(ch)
    t = ''.join(out)
    if s and rng.random() < 0.1 and ']]>' not in s and '\r' not in s and '\n' not in s and all_encodable(s, encoding):
        t = '<![CDATA[' + s + ']]>'
    return t


def all_encodable(s, encoding):
    try:
        s.encode(encoding)
        return True
    except UnicodeError:
        return False


def esc_attr(rng, s, encoding='UTF-8'):
    q = rng.choice('"\'')
    out = []
    for ch in s:
        if ch in '\r\n\t' or not all_encodable(ch, encoding):
            out.append('&#%d;' % ord(ch))
        elif ch == '<':
            out.append('&lt;')
        elif ch == '&':
            out.append('&amp;')
        elif ch == q:
            out.append('&#%d;' % ord(ch))
        else:
            out.append(ch)
    return q + ''.join(out) + q


NAMES = ['layer', 'param', 'canvas', 'real', 'string', 'vector', 'x', 'y', 'bline', 'entry', 'composite', 'wplist',
         'wombat', 'Wombat', 'meta', 'defs', 'bones', 'a.b', 'a-b', '_u', 'keyframe', 'color', 'name', 'desc', 'br', 'p',
         'script', 'pre', 'textarea']
ATTRS = ['type', 'name', 'value', 'id', 'guid', 'static', 'unknown', 'class', 'rel', 'desc', 'active', 'time', 'Type',
         'xml:lang', 'pos', 'loop', 'a.b', 'data-x']


def rand_element(rng, depth, enc):
    name = rng.choice(NAMES)
    at = {}
    for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
        at[rng.choice(ATTRS)] = rand_text(rng)
    if rng.random() < 0.03:
        at['xmlns:q'] = 'http://example.org/q'
        at['q:zz'] = '1'
    a = ''.join(' %s=%s' % (k, esc_attr(rng, v, enc)) for k, v in at.items())
    inner = ''
    if depth > 0:
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            r = rng.random()
            if r < 0.55:
                inner += rand_element(rng, depth-1, enc)
            elif r < 0.9:
                inner += esc_text(rng, rand_text(rng), enc)
            else:
                inner += rng.choice(['<!-- a comment -->', '<!---->', '\n\n', '<?pi some data?>'])
    elif rng.random() < 0.5:
        inner = esc_text(rng, rand_text(rng), enc)
    if not inner and rng.random() < 0.5:
        return '<%s%s/>' % (name, a)
    return '<%s%s>%s</%s>' % (name, a, inner, name)


def rand_document(rng, known='', big=False):
    """Bytes of a document. `known' is content the library understands."""
    enc = rng.choice(['UTF-8']*6 + ['utf-8', 'ISO-8859-1', 'US-ASCII', 'windows-1252', ''])
    decl = "<?xml version=%s%s?>" % (rng.choice(['"1.0"', "'1.0'"]), ' encoding="%s"' % enc if enc else '')
    if rng.random() < 0.1:
        decl = decl.replace('?>', ' standalone="yes"?>')
    e = enc or 'UTF-8'
    at = {'version': '1.2', 'width': '480', 'height': '270', 'fps': '24.000', 'begin-time': '0f', 'end-time': '5s',
          'view-box': '-4.0 2.25 4.0 -2.25', 'bgcolor': '0.5 0.5 0.5 1.0'}
    for k in list(at):
        if rng.random() < 0.2:
            del at[k]
    for _ in range(rng.choice([0, 0, 1, 2])):
        at[rng.choice(['unknown', 'gamma-x', 'xml:id'])] = rand_text(rng)
    body = ''
    parts = [rand_element(rng, rng.choice([1, 2, 3, 5]), e) for _ in range(rng.choice([0, 1, 2, 4, 8]) + (30 if big else 0))]
    if known:
        parts.insert(rng.randrange(len(parts)+1), known)
    for p in parts:
        body += rng.choice(['', '\n', '\n  ', ' \t', esc_text(rng, rand_text(rng), e)]) + p
    body += rng.choice(['', '\n'])
    t = decl + rng.choice(['\n', '', '\n<!-- outside -->\n', '\n\n']) + '<canvas' + ''.join(
        ' %s=%s' % (k, esc_attr(rng, v, e)) for k, v in at.items()) + '>' + body + '</canvas>' + rng.choice(['', '\n', '\n<!-- end -->\n'])
    if rng.random() < 0.1:
        t = t.replace('\r\n', '\n').replace('\n', '\r\n')
    return t.encode(e, 'xmlcharrefreplace')


# ---- canonical forms -----------------------------------------------------------

class _Canon:
    def __init__(self):
        self.out = []
        self.text = ''
        self.depth = 0

    def flush(self):
        if self.text:
            self.out.append(('t', self.text))
            self.text = ''

    def start(self, name, attrs):
        self.flush()
        self.depth += 1
        self.out.append(('e', name, tuple(sorted(attrs.items()))))

    def end(self, name):
        self.flush()
        self.depth -= 1
        self.out.append(('/', name))

    def chars(self, s):
        if self.depth:
            self.text += s

    def comment(self, s):
        if self.depth:
            self.flush()
            self.out.append(('c', s))

    def pi(self, target, data):
        if self.depth:
            self.flush()
            self.out.append(('p', target, data.strip()))


def canon_bytes(b):
    """Canonical form of a serialised document (None if it isn't XML)."""
    m = re.match(rb'<\?xml[^>]*?encoding=["\']([A-Za-z0-9._-]+)["\']', b)
    enc = m.group(1).decode() if m else 'UTF-8'
    try:
        u = b.decode(enc).encode('UTF-8')
        c = _Canon()
        p = xml.parsers.expat.ParserCreate('UTF-8')
        p.StartElementHandler = c.start
        p.EndElementHandler = c.end
        p.CharacterDataHandler = c.chars
        p.CommentHandler = c.comment
        p.ProcessingInstructionHandler = c.pi
        p.Parse(u, True)
        return c.out
    except (UnicodeError, LookupError, xml.parsers.expat.ExpatError):
        return None


def canon_soup(root):
    """Canonical form of a document in memory."""
    c = _Canon()

    def walk(t):
        c.start(str(t.name), {str(k): str(v) for k, v in t.attrs.items()})
        for k in t.contents:
            if isinstance(k, bs4.Tag):
                walk(k)
            elif isinstance(k, bs4.Comment):
                c.comment(str(k))
            elif isinstance(k, bs4.element.ProcessingInstruction):
                s = str(k).rstrip('?')
                a, _, d = s.partition(' ')
                c.pi(a, d)
            elif isinstance(k, (bs4.Doctype, bs4.element.Declaration)):
                pass
            else:
                c.chars(str(k))
        c.end(str(t.name))
    walk(root)
    return c.out


def digest(canon):
    if canon is None:
        return None
    return hashlib.sha1(repr(canon).encode('utf-8', 'surrogatepass')).hexdigest()


def file_format(b):
    if b[:2] == b'\x1f\x8b':
        return 'sifz'
    if b[:2] == b'<?':
        return 'sif'
    if b[:2] == b'PK':
        return 'sfg'
    if b == b'':
        return 'empty'
    return 'junk'


def decode(b):
    """(format, canonical digest or None)"""
    f = file_format(b)
    if f == 'sifz':
        try:
            return f, digest(canon_bytes(gzip.decompress(b)))
        except (OSError, EOFError, Exception):
            return 'broken', None
    if f == 'sif':
        return f, digest(canon_bytes(b))
    return f, None
