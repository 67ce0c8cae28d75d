# -*- coding: utf-8 -*-
"""
Seeded generators of abstract value graphs, their realisation as Python
values, and canonical forms of Python values (the decoded side).
"""

import datetime

import vlib
pyamf = vlib.bootstrap()

from pyamf import amf3, util          # noqa
import pyamf.xml                      # noqa
import refamf                         # noqa
from refamf import Node, ukey, num_token   # noqa

EPOCH = datetime.datetime(1970, 1, 1)


# -- classes known to both sides --------------------------------------------

class Plain(object):
    pass


class Other(object):
    pass


class Classic:
    pass


class Static(object):
    class __amf__:
        static = ('sa', 'sb')


class Sealed(object):
    class __amf__:
        static = ('x', 'y', u'z')
        dynamic = False


class Slots(object):
    __slots__ = ('p', 'q')


class Sub(Static):
    class __amf__:
        static = ('sc',)


class Uni(object):
    pass


class Wide(object):
    """More fixed attributes than fit a few bits."""

    class __amf__:
        static = tuple(['w%02d' % i for i in range(70)])


class Amf3Only(object):
    class __amf__:
        amf3 = True


class Ext(object):
    """Externalizable: a counted sequence of values."""

    class __amf__:
        external = True

    def __init__(self, items=()):
        self.items = list(items)

    def __writeamf__(self, out):
        out.writeUnsignedInt(len(self.items))

        for x in self.items:
            out.writeObject(x)

    def __readamf__(self, inp):
        n = inp.readUnsignedInt()
        self.items = []

        for i in xrange(n):
            self.items.append(inp.readObject())


CLASSES = {
    u'v.Plain': (Plain, None, True),
    u'v.pkg.deeper.Other': (Other, None, True),
    u'v.Classic': (Classic, None, True),
    u'v.Static': (Static, ('sa', 'sb'), True),
    u'v.Sub': (Sub, ('sa', 'sb', 'sc'), True),
    u'v.Sealed': (Sealed, ('x', 'y', 'z'), False),
    u'v.Slots': (Slots, ('p', 'q'), False),
    u'v.\xdcn\xef': (Uni, None, True),
    u'v.Wide': (Wide, Wide.__amf__.static, True),
}
ALIAS = dict((v[0], k) for k, v in CLASSES.items())
SEALED = dict((k, ([unicode(x) for x in v[1]], v[2]))
              for k, v in CLASSES.items() if v[1])

_registered = []
_registered_aliases = set()


def register():
    if _registered:
        return

    _registered.append(1)

    for alias in sorted(CLASSES):
        pyamf.register_class(CLASSES[alias][0], alias)

    _registered_aliases.update(CLASSES)
    _registered_aliases.update([u'v.Ext', u'v.Amf3Only'])
    pyamf.register_class(Ext, u'v.Ext')
    pyamf.register_class(Amf3Only, u'v.Amf3Only')
    ALIAS[Amf3Only] = u'v.Amf3Only'


# -- scalars ----------------------------------------------------------------

INT_EDGES = sorted(set(
    [s * (1 << b) + d for b in
     (0, 6, 7, 8, 13, 14, 15, 20, 21, 22, 27, 28, 29, 30, 31, 32, 33, 52, 53)
     for d in (-2, -1, 0, 1, 2) for s in (1, -1)] + range(-5, 6)))
NUM_EDGES = [0.0, 1.5, -1.5, 0.1, 1e308, -1e308, 5e-324, 1e999, -1e999,
             1e999 - 1e999, 2.0 ** 53, -2.0 ** 53, 2.0 ** 63, 1e22, 268435455.5,
             -268435456.5, 3.0, -7.0, 1e15, 4294967296.0]
CHARS = [u'a', u'b', u'z', u' ', u'\x00', u'\x7f', u'\x80', u'\xe9', u'\u0416',
         u'\u07ff', u'\u0800', u'\u20ac', u'\u4e2d', u'\ufffd', u'\ud7ff',
         u'\U0001f600', u'\n', u'"', u'<', u'&']
WORDS = [u'abc', u'x', u'name', u'id', u'\xe9t\xe9', u'\u4e2d\u6587', u'a' * 40,
         u'0', u'1', u'-1', u'null', u'length', u'class']


def gen_text(r, big=True):
    c = r.random()

    if c < 0.08:
        return u''
    if c < 0.5:
        return r.choice(WORDS)
    if big and c > 0.985:
        n = r.choice([62, 63, 64, 65, 127, 128, 8190, 8191, 8192, 8193,
                      16383, 16384, 65534, 65535, 65536, 65537, 70000])
        return r.choice(CHARS[:3]) * n
    if big and c > 0.975:
        # byte length differs from the character count near a boundary
        n = r.choice([32767, 32768, 21845, 21846, 63, 64, 4096])
        return r.choice([u'\xe9', u'\u4e2d']) * n

    return u''.join([r.choice(CHARS) for _ in range(r.randint(1, 12))])


def gen_key(r, amf):
    c = r.random()

    if c < 0.6:
        k = r.choice(WORDS)
    elif c < 0.62 and amf == 0:
        k = u''
    else:
        k = gen_text(r, False) or u'k'

    return k


def gen_int(r):
    c = r.random()

    if c < 0.5:
        return r.choice(INT_EDGES)
    if c < 0.8:
        return r.randint(-300, 300)

    return r.randint(-2 ** 53, 2 ** 53) >> r.randint(0, 53)


def gen_num(r):
    c = r.random()

    if c < 0.5:
        return r.choice(NUM_EDGES)
    if c < 0.7:
        return float(gen_int(r))

    return r.uniform(-1, 1) * 10 ** r.randint(-300, 300)


# how far dates stay away from the limits (those that are to be shifted by a
# time offset must stay within them)
DATE_MARGIN = 0


def gen_ms(r):
    c = r.random()
    lo = -62135596800000 + DATE_MARGIN
    hi = 253402300799000 - DATE_MARGIN

    if c < 0.3:
        return r.choice([0, 1000, -1000, 1, 999, 86400000, 1111111111111,
                         lo, hi, 1e12 and 1267315200000, -86400000])
    if c < 0.75:
        return r.randint(0, 2 ** 41)

    return r.randint(lo // 1000, hi // 1000) * 1000 + r.choice(
        [0, 0, 1, 500, 999, 250])


XML_NAMES = [u'a', u'b', u'item', u'x-y', u'n1']


def gen_xml(r, depth=3):
    """markup with canonical structure only: elements, attributes, text"""
    def text():
        t = u''.join([r.choice([u'hello', u' ', u'1', u'&lt;', u'&amp;', u'z',
                              u'\xe9', u'\u4e2d'])
                      for _ in range(r.randint(1, 4))])
        return t

    def el(d):
        name = r.choice(XML_NAMES)
        attrs = u''.join([u' %s="%s"' % (k, r.choice(
            [u'1', u'', u'v v', u'&lt;&quot;']))
            for k in sorted(set([r.choice(XML_NAMES)
                                 for _ in range(r.randint(0, 2))]))])
        inner = u''

        if d > 0:
            for _ in range(r.randint(0, 3)):
                inner += el(d - 1) if r.random() < 0.5 else text()

        if inner == u'' and r.random() < 0.5:
            return u'<%s%s/>' % (name, attrs)

        return u'<%s%s>%s</%s>' % (name, attrs, inner, name)

    return el(r.randint(0, depth))


def gen_bytes(r):
    c = r.random()

    if c < 0.15:
        return ''
    if c < 0.3:
        return ''.join([chr(r.randint(0, 255)) for _ in range(
            r.choice([63, 64, 127, 8191, 8192]))])
    b = ''.join([chr(r.randint(0, 255)) for _ in range(r.randint(1, 40))])

    if b[:1] == '\x78':
        b = 'x' + b[1:] if b[1:2] not in '\x01\x5e\x9c\xda' else 'y' + b[1:]

    return b


# -- graphs -----------------------------------------------------------------

class GraphGen(object):
    """
    Random rooted graphs. ``share`` is the chance of reusing an existing
    complex node (which makes sharing and, for unfinished nodes, cycles).
    """

    def __init__(self, r, amf, max_nodes=40, share=0.18, classes=True,
                 ext=True, big=True, amf3_in_amf0=True, xml=True, dates=True,
                 mixed=True, cycles=True):
        self.r = r
        self.amf = amf
        self.left = max_nodes
        self.share = share
        self.classes = classes
        self.ext = ext
        self.big = big
        self.pool = []
        self.pool3 = []
        self.amf3_in_amf0 = amf3_in_amf0 and amf == 0
        self.inside3 = False
        self.xml = xml
        self.dates = dates
        self.mixed = mixed
        self.cycles = cycles
        self.open = set()
        self.features = set()

    def feature(self, f):
        self.features.add(f)

    def graph(self):
        return self.node(0, True)

    def message(self):
        """Several top-level values of one message."""
        c = self.r.random()
        n = 1 if c < 0.6 else self.r.randint(2, 6)
        return [self.node(0, True) for _ in range(n)]

    def node(self, depth, top=False):
        r = self.r
        self.left -= 1
        amf = 3 if self.inside3 else self.amf
        pool = self.pool3 if self.inside3 else self.pool

        if pool and r.random() < self.share:
            n = r.choice(pool)

            if self.cycles or id(n) not in self.open:
                self.feature('cycle' if id(n) in self.open else 'shared')
                return n

        deep = depth > 7 or self.left <= 0
        c = r.random()

        if top and c > 0.25 and self.left > 0:
            c = 0.72 + (c - 0.25) * 0.28 / 0.75

        if deep or c < 0.5:
            return self.scalar(amf)
        if c < 0.56:
            return Node('str', gen_text(r, self.big))
        if c < 0.62 and self.dates:
            n = Node('date', gen_ms(r))
            self.feature('date')

            if amf == 3:
                pool.append(n)

            return n
        if c < 0.66 and self.xml:
            self.feature('xml')
            t = gen_xml(r)
            n = Node('xml', refamf.xml_canon(t))
            n.wire = t
            return n
        if c < 0.70 and amf == 3:
            self.feature('bytes')
            n = Node('bytes', gen_bytes(r))
            pool.append(n)
            return n
        if c < 0.72 and self.amf3_in_amf0 and not self.inside3:
            # a self-contained AMF3 part
            self.feature('amf3-in-amf0')
            self.inside3 = True
            try:
                n = self.container3(depth)
            finally:
                self.inside3 = False
            n.amf3 = True
            return n

        return self.container(depth, amf, pool)

    def container3(self, depth):
        n = Node('obj', {}, u'v.Amf3Only')
        self.pool3.append(n)
        self.fill(n, depth)
        return n

    def scalar(self, amf):
        r = self.r
        c = r.random()

        if c < 0.08:
            return Node('null')
        if c < 0.12:
            return Node('undef')
        if c < 0.25:
            return Node('bool', r.random() < 0.5)
        if c < 0.55:
            return Node('int', gen_int(r))
        if c < 0.7:
            return Node('num', gen_num(r))

        return Node('str', gen_text(r, self.big))

    def fill(self, n, depth, keys=None, count=None):
        r = self.r
        self.open.add(id(n))
        amf = 3 if self.inside3 else self.amf

        if keys is None:
            keys = set()

            for _ in range(count if count is not None else r.randint(0, 5)):
                k = gen_key(r, amf)

                if n.alias and (k == u'' or u'\x00' in k):
                    k = u'k'

                keys.add(k)

        for k in sorted(keys):
            n.val[k] = self.node(depth + 1)

        self.open.discard(id(n))

    def container(self, depth, amf, pool):
        r = self.r
        c = r.random()

        if c < 0.34:
            n = Node('list', [])
            pool.append(n)
            self.open.add(id(n))
            k = r.randint(0, 6) if r.random() < 0.95 else r.randint(60, 140)

            for _ in range(k):
                n.val.append(self.node(depth + 1))

            self.open.discard(id(n))
            return n
        if c < 0.45 and self.mixed:
            self.feature('mixed')
            n = Node('mixed', {})
            pool.append(n)
            keys = set()

            for _ in range(r.randint(1, 4)):
                k = r.choice(WORDS + [u'kk']) if amf == 3 else gen_key(r, 0)
                k = k if not looks_int(k) else u'w'

                if k:
                    keys.add(k)

            keys.add(u'key')
            self.fill(n, depth, keys)
            m = r.randint(0, 4)
            start = r.choice([0, 0, 0, 1, 5, 100])
            step = r.choice([1, 1, 2])
            self.open.add(id(n))

            for i in range(m):
                n.val[start + i * step] = self.node(depth + 1)

            if r.random() < 0.15:
                n.val[-r.randint(1, 50)] = self.node(depth + 1)

            self.open.discard(id(n))
            return n
        if c < 0.7 or not self.classes:
            n = Node('obj', {})
            pool.append(n)
            self.fill(n, depth)
            return n
        if c < 0.78 and amf == 3 and self.ext:
            self.feature('ext')
            n = Node('ext', [], u'v.Ext')
            pool.append(n)
            self.open.add(id(n))

            for _ in range(r.randint(0, 4)):
                n.val.append(self.node(depth + 1))

            self.open.discard(id(n))
            return n

        alias = r.choice(sorted(CLASSES))

        if alias == u'v.Wide' and r.random() < 0.7:
            alias = u'v.Static'

        self.feature('class:' + alias.encode('ascii', 'replace'))
        klass, static, dynamic = CLASSES[alias]
        n = Node('obj', {}, alias)
        pool.append(n)
        keys = set([unicode(x) for x in static or ()])

        if dynamic:
            for _ in range(r.randint(0, 3)):
                k = gen_key(r, amf)

                if k and u'\x00' not in k and not looks_int(k):
                    keys.add(k)

        self.fill(n, depth, keys)
        return n


def looks_int(k):
    try:
        int(k)
        return True
    except ValueError:
        return False


# -- realisation ------------------------------------------------------------

class Builder(object):
    """Makes the Python value of a graph, choosing among equivalents."""

    def __init__(self, r, amf):
        self.r = r
        self.amf = amf
        self.memo = {}

    def text(self, u):
        if self.r.random() < 0.3:
            return u.encode('utf-8')

        return u

    def build(self, n):
        k = n.kind
        r = self.r

        if k == 'null':
            return None
        if k == 'undef':
            return pyamf.Undefined
        if k == 'bool':
            return n.val
        if k == 'int':
            return long(n.val) if r.random() < 0.3 else n.val
        if k == 'num':
            return n.val
        if k == 'str':
            return self.text(n.val)

        if id(n) in self.memo:
            return self.memo[id(n)]

        if k == 'date':
            v = EPOCH + datetime.timedelta(milliseconds=n.val)
        elif k == 'xml':
            v = pyamf.xml.fromstring(n.wire.encode('utf-8'))
        elif k == 'bytes':
            v = amf3.ByteArray(n.val)
        elif k == 'list':
            v = []
            self.memo[id(n)] = v

            for c in n.val:
                v.append(self.build(c))
        elif k == 'mixed':
            v = pyamf.MixedArray()
            self.memo[id(n)] = v

            for key in n.val:
                v[key if not isinstance(key, unicode) else
                  self.text(key)] = self.build(n.val[key])
        elif k == 'ext':
            v = Ext()
            self.memo[id(n)] = v

            for c in n.val:
                v.items.append(self.build(c))
        elif k == 'obj' and not n.alias:
            v = {} if r.random() < 0.5 else pyamf.ASObject()
            self.memo[id(n)] = v

            for key in n.val:
                v[self.text(key)] = self.build(n.val[key])
        elif k == 'obj':
            klass = Amf3Only if n.alias == u'v.Amf3Only' else \
                CLASSES[n.alias][0]
            v = klass()
            self.memo[id(n)] = v

            for key in n.val:
                setattr(v, key.encode('utf-8'), self.build(n.val[key]))
        else:
            raise TypeError(k)

        self.memo[id(n)] = v
        return v


# -- canonical form of Python values ----------------------------------------

class Unexpected(Exception):
    pass


def xml_py(e):
    def go(e):
        content = []

        def add(t):
            if t:
                if not isinstance(t, unicode):
                    t = t.decode('utf-8')
                if content and isinstance(content[-1], unicode):
                    content[-1] += t
                else:
                    content.append(t)

        add(e.text)

        for c in e:
            content.append(go(c))
            add(c.tail)

        return (unicode(e.tag), tuple(sorted(
            [(unicode(k), unicode(v)) for k, v in e.attrib.items()])),
            tuple(content))

    return go(e)


def dt_ms(d):
    delta = d - EPOCH
    us = (delta.days * 86400 + delta.seconds) * 1000000 + delta.microseconds
    return (us + 500) // 1000


def canon_py(root, amf=0, loose=True, strict_types=True, extra=None):
    """
    Canonical form of a decoded value. ``extra`` maps more classes to
    (tag, alias, function returning the list or dict of contents).
    """
    ids = {}
    keep = []
    idents = refamf.ident_kinds(amf)

    def mark(v):
        if id(v) in ids:
            return ('ref', ids[id(v)])

        ids[id(v)] = len(ids)
        keep.append(v)

    def items(d):
        out = {}

        for k, v in d.items():
            u = ukey(k)

            if u in out:
                raise Unexpected('key %r twice' % u)

            out[u] = v

        return tuple([(k, go(out[k])) for k in sorted(out)])

    def go(v):
        if v is None:
            return ('null',)
        if v is pyamf.Undefined:
            return ('undef',)

        t = type(v)

        if t is bool:
            return ('b', v)
        if t in (int, long, float):
            return num_token(v, amf, loose)
        if t is unicode:
            return ('s', v)
        if t is str:
            return ('s', v.decode('utf-8'))
        if t is datetime.datetime:
            if 'date' in idents:
                x = mark(v)

                if x:
                    return x

            return ('D', dt_ms(v))
        if pyamf.xml.is_xml(v):
            return ('X', xml_py(v))

        x = mark(v)

        if x:
            return x

        if t is list or (not strict_types and t is tuple):
            return ('L',) + tuple([go(c) for c in v])
        if t is pyamf.MixedArray:
            return ('M', u'') + items(v)
        if t is pyamf.TypedObject:
            a = v.alias

            if a in _registered_aliases:
                return ('T', a) + items(v)

            return ('O', a if isinstance(a, unicode) else a.decode('utf-8')
                    ) + items(v)
        if t is pyamf.ASObject or (not strict_types and t is dict):
            return ('O', u'') + items(v)
        if t is amf3.ByteArray:
            return ('B', v.getvalue())
        if t is Ext:
            return ('E', u'v.Ext') + tuple([go(c) for c in v.items])

        c = getattr(v, '__class__', t)

        if c in ALIAS:
            if c is Slots:
                d = dict((s, getattr(v, s)) for s in c.__slots__
                         if hasattr(v, s))
            else:
                d = v.__dict__

            return ('O', ALIAS[c]) + items(d)

        if extra and c in extra:
            tag, alias, f = extra[c]
            got = f(v)

            if tag == 'E':
                return ('E', alias) + tuple([go(q) for q in got])

            return (tag, alias) + items(got)

        raise Unexpected('value of type %r: %r' % (t, v))

    return go(root)


def encode(values, amf, **kw):
    return pyamf.encode(*values, **dict(kw, encoding=amf)).getvalue()


def decode(data, amf, **kw):
    return list(pyamf.decode(data, encoding=amf, **kw))
