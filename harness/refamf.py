# -*- coding: utf-8 -*-
"""
Independent model of AMF: abstract value graphs, a reference reader and a
reference writer for AMF0 and AMF3 written from the published formats, and
canonical forms for comparing graphs up to isomorphism.

Nothing in this file uses the code under test.
"""

import math
import zlib
import struct
import re


class Malformed(Exception):
    """The bytes are not a well-formed message."""


class Node(object):
    """
    kind: null undef bool int num str date xml bytes list mixed obj ext
    val:  python scalar | list of Node (list, ext) | dict key -> Node
    alias: class name of obj/ext ('' for anonymous)
    """

    __slots__ = ('kind', 'val', 'alias', 'amf3', 'wire', 'by')

    def __init__(self, kind, val=None, alias=u'', amf3=False):
        self.kind = kind
        self.val = val
        self.alias = alias
        self.amf3 = amf3  # AMF0 only: written through the AMF3 marker
        self.wire = None

    def __repr__(self):
        return 'Node(%s)' % show(self)


def show(n, limit=400):
    s = repr(canon_node(n))
    return s if len(s) < limit else s[:limit] + '...'


COMPLEX = ('list', 'mixed', 'obj', 'ext', 'bytes', 'date', 'xml')


def children(n):
    if n.kind in ('list', 'ext'):
        return list(n.val)
    if n.kind in ('mixed', 'obj'):
        return [n.val[k] for k in sorted(n.val, key=ukey)]
    return []


def size(n):
    seen = set()
    todo = [n]
    c = 0
    while todo:
        x = todo.pop()
        c += 1
        if x.kind in ('list', 'mixed', 'obj', 'ext'):
            if id(x) in seen:
                continue
            seen.add(id(x))
            todo.extend(children(x))
    return c


def ukey(k):
    """Keys are compared by their text: 5 and '5' are the same property."""
    if isinstance(k, unicode):
        return k
    if isinstance(k, str):
        return k.decode('utf-8')
    return unicode(str(k))


def num_token(x, amf=0, loose=True):
    """AMF0 has one number type; AMF3 distinguishes integer and double."""
    if isinstance(x, bool):
        raise TypeError('bool')
    f = float(x)
    if f != f:
        v = 'nan'
    elif f == 0:
        v = 0.0
    else:
        v = f
    if loose:
        return ('n', v)
    return ('d' if isinstance(x, float) else 'i', v)


# the identity of these kinds is part of the graph
def ident_kinds(amf):
    if amf == 3:
        return ('list', 'mixed', 'obj', 'ext', 'bytes', 'date')
    return ('list', 'mixed', 'obj', 'ext', 'bytes')


def canon_node(root, amf=0, loose=True, idents=None):
    ids = {}
    idents = idents or ident_kinds(amf)

    def go(n):
        k = n.kind
        if k in idents:
            if id(n) in ids:
                return ('ref', ids[id(n)])
            ids[id(n)] = len(ids)
        if k in ('null', 'undef'):
            return (k,)
        if k == 'bool':
            return ('b', bool(n.val))
        if k == 'int':
            if not loose and not (-0x10000000 <= n.val <= 0x0fffffff):
                return num_token(float(n.val), amf, loose)
            return num_token(n.val, amf, loose)
        if k == 'num':
            return num_token(float(n.val), amf, loose)
        if k == 'str':
            return ('s', n.val)
        if k == 'date':
            return ('D', n.val)
        if k == 'xml':
            return ('X', n.val)
        if k == 'bytes':
            return ('B', n.val)
        if k == 'list':
            return ('L',) + tuple([go(c) for c in n.val])
        if k == 'ext':
            return ('E', n.alias) + tuple([go(c) for c in n.val])
        tag = 'M' if k == 'mixed' else 'O'
        return (tag, n.alias) + tuple([
            (ukey(key), go(n.val[key])) for key in sorted(n.val, key=ukey)])

    return go(root)


def first_difference(a, b, path='value'):
    """A short description of where two canonical forms differ."""
    if a == b:
        return None
    if not (isinstance(a, tuple) and isinstance(b, tuple)):
        return '%s: expected %s got %s' % (path, _r(a), _r(b))
    if len(a) != len(b) or (a and b and a[0] != b[0]):
        if a and b and a[0] == b[0] == 'O':
            ka = [x[0] for x in a[2:]]
            kb = [x[0] for x in b[2:]]
            if ka != kb or a[1] != b[1]:
                return '%s: expected object %r with keys %s got %r with %s' % (
                    path, a[1], _r(ka), b[1], _r(kb))
        return '%s: expected %s got %s' % (path, _r(a), _r(b))
    for i, (x, y) in enumerate(zip(a, b)):
        d = first_difference(x, y, '%s[%d]' % (path, i))
        if d:
            return d
    return '%s differs' % path


def _r(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + '...(%d)' % len(s)


# --------------------------------------------------------------------------
# byte reader

class Reader(object):
    def __init__(self, data, pos=0):
        self.data = data
        self.pos = pos
        self.log = []       # (kind, start, end) of markers and references

    def take(self, n):
        if self.pos + n > len(self.data):
            raise Malformed('%d bytes wanted at %d of %d' % (
                n, self.pos, len(self.data)))
        s = self.data[self.pos:self.pos + n]
        self.pos += n
        return s

    def u8(self):
        return ord(self.take(1))

    def u16(self):
        a = self.take(2)
        return ord(a[0]) << 8 | ord(a[1])

    def s16(self):
        x = self.u16()
        return x - 0x10000 if x & 0x8000 else x

    def u32(self):
        a = self.take(4)
        return (ord(a[0]) << 24 | ord(a[1]) << 16 | ord(a[2]) << 8 |
                ord(a[3]))

    def f64(self):
        return struct.unpack('>d', self.take(8))[0]

    def text(self, n):
        b = self.take(n)
        try:
            return b.decode('utf-8')
        except UnicodeError:
            raise Malformed('text is not UTF-8: %r' % b[:40])

    def done(self):
        return self.pos == len(self.data)


def ms_of(x):
    if x != x or x in (1e999, -1e999):
        raise Malformed('date %r' % x)
    return int(math.floor(x + 0.5))


class Amf0Reader(object):
    """Reads AMF0; objects, arrays, mixed arrays, dates and XML take
    reference numbers in the order in which they begin."""

    def __init__(self, reader, ext=None, amf3=None):
        self.r = reader
        self.refs = []
        self.kinds = set()
        self.ext = ext or {}
        self.amf3 = amf3
        self.parts = []     # values written through the AMF3 marker

    def utf(self):
        return self.r.text(self.r.u16())

    def value(self):
        r = self.r
        m = r.u8()
        r.log.append(('marker0', r.pos - 1, r.pos))
        self.kinds.add(m)
        if m == 0x00:
            return Node('num', r.f64())
        if m == 0x01:
            return Node('bool', r.u8() != 0)
        if m == 0x02:
            return Node('str', self.utf())
        if m == 0x03:
            n = Node('obj', {})
            self.refs.append(n)
            self.members(n)
            return n
        if m == 0x05 or m == 0x0d:
            return Node('null')
        if m == 0x06:
            return Node('undef')
        if m == 0x07:
            i = r.u16()
            r.log.append(('ref0', r.pos - 2, r.pos))
            if i >= len(self.refs):
                raise Malformed('reference %d of %d' % (i, len(self.refs)))
            n = self.refs[i]
            if n.kind in ('date', 'xml'):
                raise Malformed('reference %d is to a %s' % (i, n.kind))
            return n
        if m == 0x08:
            r.u32()
            n = Node('mixed', {})
            self.refs.append(n)
            self.members(n)
            return n
        if m == 0x0a:
            n = Node('list', [])
            self.refs.append(n)
            for _ in xrange(r.u32()):
                n.val.append(self.value())
            return n
        if m == 0x0b:
            n = Node('date', ms_of(r.f64()))
            r.s16()
            self.refs.append(n)
            return n
        if m == 0x0c:
            return Node('str', r.text(r.u32()))
        if m == 0x0f:
            n = Node('xml', xml_canon(r.text(r.u32())))
            self.refs.append(n)
            return n
        if m == 0x10:
            alias = self.utf()
            if not alias:
                raise Malformed('typed object without class name')
            n = Node('obj', {}, alias)
            self.refs.append(n)
            self.members(n)
            return n
        if m == 0x11:
            if self.amf3 is None:
                self.amf3 = Amf3Reader(r, self.ext)
            n = self.amf3.value()
            self.parts.append(n)
            return n
        raise Malformed('AMF0 marker 0x%02x' % m)

    def members(self, n):
        while True:
            k = self.utf()
            if k == u'' and self.r.pos < len(self.r.data) and \
                    self.r.data[self.r.pos] == '\x09':
                self.r.pos += 1
                return
            if k in n.val:
                raise Malformed('member %r twice' % k)
            n.val[k] = self.value()


class Amf3Reader(object):
    def __init__(self, reader, ext=None):
        self.r = reader
        self.strings = []
        self.objects = []
        self.traits = []
        self.ext = ext or {}
        self.kinds = set()

    def u29(self, shortest=True):
        n = 0
        start = self.r.pos
        for i in range(4):
            b = self.r.u8()
            if i == 3:
                n = n << 8 | b
            else:
                n = n << 7 | (b & 0x7f)
                if not b & 0x80:
                    break
        used = self.r.pos - start
        if shortest:
            need = 1 if n < 0x80 else 2 if n < 0x4000 else \
                3 if n < 0x200000 else 4
            if used != need:
                raise Malformed('U29 %d in %d bytes' % (n, used))
        return n

    def bstr(self):
        start = self.r.pos
        h = self.u29()
        if not h & 1:
            self.r.log.append(('strref', start, self.r.pos))
            if h >> 1 >= len(self.strings):
                raise Malformed('string reference %d of %d' % (
                    h >> 1, len(self.strings)))
            return self.strings[h >> 1]
        s = self.r.text(h >> 1)
        if s:
            self.strings.append(s)
        return s

    def obj(self, h, kind):
        i = h >> 1
        self.r.log.append(('objref', self.r.pos - len(u29_bytes(h)),
                           self.r.pos))
        if i >= len(self.objects):
            raise Malformed('object reference %d of %d' % (
                i, len(self.objects)))
        n = self.objects[i]
        if n.kind not in kind:
            raise Malformed('object reference %d under marker for %s is a %s'
                            % (i, kind, n.kind))
        return n

    def value(self):
        r = self.r
        m = r.u8()
        r.log.append(('marker3', r.pos - 1, r.pos))
        self.kinds.add(m)
        if m == 0x00:
            return Node('undef')
        if m == 0x01:
            return Node('null')
        if m == 0x02:
            return Node('bool', False)
        if m == 0x03:
            return Node('bool', True)
        if m == 0x04:
            n = self.u29()
            return Node('int', n - 0x20000000 if n & 0x10000000 else n)
        if m == 0x05:
            return Node('num', r.f64())
        if m == 0x06:
            return Node('str', self.bstr())
        if m in (0x07, 0x0b):
            h = self.u29()
            if not h & 1:
                return self.obj(h, ('xml',))
            n = Node('xml', xml_canon(r.text(h >> 1)))
            self.objects.append(n)
            return n
        if m == 0x08:
            h = self.u29()
            if not h & 1:
                return self.obj(h, ('date',))
            n = Node('date', ms_of(r.f64()))
            self.objects.append(n)
            return n
        if m == 0x09:
            h = self.u29()
            if not h & 1:
                return self.obj(h, ('list', 'mixed'))
            n = Node('list', [])
            self.objects.append(n)
            assoc = {}
            while True:
                k = self.bstr()
                if k == u'':
                    break
                if not assoc:
                    n.kind = 'mixed'
                if k in assoc:
                    raise Malformed('key %r twice' % k)
                assoc[k] = self.value()
            dense = n.val
            for _ in xrange(h >> 1):
                dense.append(self.value())
            if n.kind == 'mixed':
                for i, x in enumerate(dense):
                    if unicode(i) in assoc:
                        raise Malformed('index %d twice' % i)
                    assoc[unicode(i)] = x
                n.val = assoc
            return n
        if m == 0x0a:
            h = self.u29()
            if not h & 1:
                return self.obj(h, ('obj', 'ext'))
            return self.object(h)
        if m == 0x0c:
            h = self.u29()
            if not h & 1:
                return self.obj(h, ('bytes',))
            n = Node('bytes', r.take(h >> 1))
            self.objects.append(n)
            return n
        raise Malformed('AMF3 marker 0x%02x' % m)

    def object(self, h):
        if not h & 2:
            i = h >> 2
            self.r.log.append(('traitref', self.r.pos - len(u29_bytes(h)),
                               self.r.pos))
            if i >= len(self.traits):
                raise Malformed('traits reference %d of %d' % (
                    i, len(self.traits)))
            alias, external, dynamic, members = self.traits[i]
        else:
            external = bool(h & 4)
            dynamic = bool(h & 8)
            if external and dynamic:
                raise Malformed('external and dynamic traits')
            if external and h >> 4:
                pass  # the remaining bits are not significant
            alias = self.bstr()
            members = []
            if not external:
                for _ in xrange(h >> 4):
                    name = self.bstr()
                    if name in members:
                        raise Malformed('sealed member %r twice' % name)
                    members.append(name)
            self.traits.append((alias, external, dynamic, members))

        if external:
            n = Node('ext', [], alias)
            self.objects.append(n)
            scheme = self.ext.get(alias)
            if scheme is None:
                raise Malformed('unknown external class %r' % alias)
            scheme(self, n)
            return n

        n = Node('obj', {}, alias)
        self.objects.append(n)
        for name in members:
            n.val[name] = self.value()
        if dynamic:
            while True:
                k = self.bstr()
                if k == u'':
                    break
                if k in n.val:
                    raise Malformed('member %r twice' % k)
                n.val[k] = self.value()
        return n


def ext_single(rd, n):
    n.val.append(rd.value())


def ext_counted(rd, n):
    c = rd.r.u32()
    for _ in xrange(c):
        n.val.append(rd.value())


EXT = {
    u'v.Ext': ext_counted,
    u'flex.messaging.io.ArrayCollection': ext_single,
    u'flex.messaging.io.ObjectProxy': ext_single,
}


def read_amf0(data, ext=EXT):
    """All values of an AMF0 byte string (one message)."""
    rd = Amf0Reader(Reader(data), ext)
    out = []
    rd.bounds = [0]
    rd.nparts = []
    while not rd.r.done():
        k = len(rd.parts)
        out.append(rd.value())
        rd.nparts.append(len(rd.parts) - k)
        rd.bounds.append(rd.r.pos)
    return out, rd


def read_amf3(data, ext=EXT):
    rd = Amf3Reader(Reader(data), ext)
    out = []
    rd.bounds = [0]
    while not rd.r.done():
        out.append(rd.value())
        rd.bounds.append(rd.r.pos)
    return out, rd


# --------------------------------------------------------------------------
# reference writer, making random legal choices

def u29_bytes(n):
    if n < 0:
        n += 0x20000000
    if n < 0x80:
        return chr(n)
    if n < 0x4000:
        return chr(n >> 7 | 0x80) + chr(n & 0x7f)
    if n < 0x200000:
        return chr(n >> 14 | 0x80) + chr(n >> 7 & 0x7f | 0x80) + chr(n & 0x7f)
    if n >= 0x20000000:
        raise ValueError(n)
    return (chr(n >> 22 | 0x80) + chr(n >> 15 & 0x7f | 0x80) +
            chr(n >> 8 & 0x7f | 0x80) + chr(n & 0xff))


class Amf3Writer(object):
    def __init__(self, rng, sealed=None, choices=True):
        self.rng = rng
        self.out = []
        self.strings = {}
        self.nstrings = 0
        self.objects = {}
        self.nobjects = 0
        self.traits = {}
        self.ntraits = 0
        self.choices = choices
        self.sealed = sealed or {}  # alias -> (sealed names, may add others)

    def w(self, s):
        self.out.append(s)

    def bstr(self, u):
        b = u.encode('utf-8')
        if b == '':
            self.w('\x01')
            return
        if b in self.strings and not (
                self.choices and self.rng.random() < 0.15):
            idx = self.strings[b]
            if self.choices:
                idx = self.rng.choice(idx)
            else:
                idx = idx[0]
            self.w(u29_bytes(idx << 1))
            return
        self.w(u29_bytes(len(b) << 1 | 1))
        self.w(b)
        self.strings.setdefault(b, []).append(self.nstrings)
        self.nstrings += 1

    def ref(self, n, marker):
        """Writes marker and reference if n was written; else numbers it."""
        self.w(marker)
        if id(n) in self.objects:
            self.w(u29_bytes(self.objects[id(n)] << 1))
            return True
        self.objects[id(n)] = self.nobjects
        self.nobjects += 1
        return False

    def value(self, n):
        k = n.kind
        if k == 'undef':
            self.w('\x00')
        elif k == 'null':
            self.w('\x01')
        elif k == 'bool':
            self.w('\x03' if n.val else '\x02')
        elif k == 'int':
            if -0x10000000 <= n.val <= 0x0fffffff:
                self.w('\x04' + u29_bytes(n.val))
            else:
                self.w('\x05' + struct.pack('>d', float(n.val)))
        elif k == 'num':
            self.w('\x05' + struct.pack('>d', n.val))
        elif k == 'str':
            self.w('\x06')
            self.bstr(n.val)
        elif k == 'date':
            if not self.ref(n, '\x08'):
                self.w('\x01' + struct.pack('>d', float(n.val)))
        elif k == 'xml':
            m = '\x0b'
            if self.choices and self.rng.random() < 0.5:
                m = '\x07'
            if not self.ref(n, m):
                b = n.wire.encode('utf-8')
                self.w(u29_bytes(len(b) << 1 | 1) + b)
        elif k == 'bytes':
            if not self.ref(n, '\x0c'):
                b = n.wire if n.wire is not None else n.val
                self.w(u29_bytes(len(b) << 1 | 1) + b)
        elif k == 'list':
            if not self.ref(n, '\x09'):
                self.w(u29_bytes(len(n.val) << 1 | 1))
                self.w('\x01')
                for c in n.val:
                    self.value(c)
        elif k == 'mixed':
            if not self.ref(n, '\x09'):
                dense = 0
                byname = dict((ukey(x), n.val[x]) for x in n.val)
                while unicode(dense) in byname:
                    dense += 1
                assoc = [x for x in byname
                         if not (x.isdigit() and int(x) < dense and
                                 unicode(int(x)) == x)]
                if not assoc and dense:
                    # at least one associative key marks it as mixed
                    dense -= 1
                    assoc = [unicode(dense)]
                if self.choices and dense and self.rng.random() < 0.3:
                    cut = self.rng.randint(0, dense)
                    assoc += [unicode(i) for i in range(cut, dense)]
                    dense = cut
                self.rng.shuffle(assoc)
                self.w(u29_bytes(dense << 1 | 1))
                for x in assoc:
                    self.bstr(x)
                    self.value(byname[x])
                self.w('\x01')
                for i in range(dense):
                    self.value(byname[unicode(i)])
        elif k == 'ext':
            if not self.ref(n, '\x0a'):
                t = (n.alias, 'ext')
                if t in self.traits:
                    self.w(u29_bytes(self.traits[t] << 2 | 1))
                else:
                    self.traits[t] = self.ntraits
                    self.ntraits += 1
                    self.w(u29_bytes(7))
                    self.bstr(n.alias)
                if n.alias == u'v.Ext':
                    self.w(struct.pack('>I', len(n.val)))
                for c in n.val:
                    self.value(c)
        elif k == 'obj':
            if not self.ref(n, '\x0a'):
                self.object(n)
        else:
            raise TypeError(k)

    def object(self, n):
        names = [ukey(x) for x in n.val]
        byname = dict((ukey(x), n.val[x]) for x in n.val)
        names.sort()
        fits = None
        for t, idx in self.traits.items():
            if t[0] != n.alias or t[1] == 'ext':
                continue
            if not set(t[2]) <= set(names):
                continue
            if not t[1] and set(t[2]) != set(names):
                continue
            if fits is None or self.rng.random() < 0.5:
                fits = t
        if fits and not (self.choices and self.rng.random() < 0.15):
            dynamic, members = fits[1], fits[2]
            self.w(u29_bytes(self.traits[fits] << 2 | 1))
        else:
            usable = [x for x in names if x != u'']
            if n.alias in self.sealed:
                base, more = self.sealed[n.alias]
                members = [x for x in base if x in names]
                dynamic = more and set(names) != set(members)
                if more and self.choices:
                    dynamic = dynamic or self.rng.random() < 0.3
                if self.choices:
                    self.rng.shuffle(members)
            elif self.choices:
                members = [x for x in usable if self.rng.random() < 0.3]
                self.rng.shuffle(members)
                dynamic = set(members) != set(names) or \
                    self.rng.random() < 0.7
            else:
                members, dynamic = [], True
            members = tuple(members)
            t = (n.alias, dynamic, members)
            self.traits[t] = self.ntraits
            self.ntraits += 1
            self.w(u29_bytes(len(members) << 4 | (8 if dynamic else 0) | 3))
            self.bstr(n.alias)
            for x in members:
                self.bstr(x)
        for x in members:
            self.value(byname[x])
        if dynamic:
            rest = [x for x in names if x not in members]
            if self.choices:
                self.rng.shuffle(rest)
            for x in rest:
                self.bstr(x)
                self.value(byname[x])
            self.w('\x01')

    def getvalue(self):
        return ''.join(self.out)


class Amf0Writer(object):
    def __init__(self, rng, sealed=None, choices=True):
        self.rng = rng
        self.out = []
        self.refs = {}
        self.n = 0
        self.choices = choices
        self.sealed = sealed
        self.amf3 = None

    def w(self, s):
        self.out.append(s)

    def utf(self, u):
        b = u.encode('utf-8')
        if len(b) > 0xffff:
            raise ValueError('name too long for AMF0')
        self.w(struct.pack('>H', len(b)) + b)

    def known(self, n):
        if id(n) in self.refs and self.refs[id(n)] <= 0xffff:
            self.w('\x07' + struct.pack('>H', self.refs[id(n)]))
            return True
        self.refs.setdefault(id(n), self.n)
        self.n += 1
        return False

    def value(self, n):
        k = n.kind
        rng = self.rng
        if n.amf3:
            if self.amf3 is None:
                self.amf3 = Amf3Writer(rng, self.sealed, self.choices)
                self.amf3.out = self.out
            self.w('\x11')
            self.amf3.value(n)
        elif k == 'undef':
            self.w('\x06')
        elif k == 'null':
            self.w('\x0d' if self.choices and rng.random() < 0.2 else '\x05')
        elif k == 'bool':
            t = '\x01'
            if self.choices and rng.random() < 0.2:
                t = chr(rng.randint(1, 255))
            self.w('\x01' + (t if n.val else '\x00'))
        elif k in ('int', 'num'):
            self.w('\x00' + struct.pack('>d', float(n.val)))
        elif k == 'str':
            b = n.val.encode('utf-8')
            if len(b) > 0xffff or (self.choices and rng.random() < 0.15):
                self.w('\x0c' + struct.pack('>I', len(b)) + b)
            else:
                self.w('\x02' + struct.pack('>H', len(b)) + b)
        elif k == 'date':
            self.n += 1
            tz = rng.randint(-720, 720) if self.choices else 0
            self.w('\x0b' + struct.pack('>dh', float(n.val), tz))
        elif k == 'xml':
            self.n += 1
            b = n.wire.encode('utf-8')
            self.w('\x0f' + struct.pack('>I', len(b)) + b)
        elif k == 'list':
            if not self.known(n):
                self.w('\x0a' + struct.pack('>I', len(n.val)))
                for c in n.val:
                    self.value(c)
        elif k == 'mixed':
            if not self.known(n):
                self.w('\x08' + struct.pack(
                    '>I', rng.randint(0, 70000) if self.choices
                    else len(n.val)))
                self.members(n)
        elif k == 'obj':
            if not self.known(n):
                if n.alias:
                    self.w('\x10')
                    self.utf(n.alias)
                else:
                    self.w('\x03')
                self.members(n)
        else:
            raise TypeError('%s has no AMF0 form' % k)

    def members(self, n):
        keys = sorted(n.val, key=ukey)
        if self.choices:
            self.rng.shuffle(keys)
        for k in keys:
            self.utf(ukey(k))
            self.value(n.val[k])
        self.w('\x00\x00\x09')

    def getvalue(self):
        return ''.join(self.out)


def write_amf0(nodes, rng, sealed=None, choices=True):
    w = Amf0Writer(rng, sealed, choices)
    for n in nodes:
        w.value(n)
    return w.getvalue()


def write_amf3(nodes, rng, sealed=None, choices=True):
    w = Amf3Writer(rng, sealed, choices)
    for n in nodes:
        w.value(n)
    return w.getvalue()


# --------------------------------------------------------------------------
# XML: elements, attributes and text, without the code under test

_TOKEN = re.compile(
    ur'<\?.*?\?>|<!--.*?-->|</\s*([^\s>]+)\s*>|'
    ur'<([^\s/>]+)((?:\s+[^\s=]+\s*=\s*(?:"[^"]*"|\'[^\']*\'))*)\s*(/?)>|'
    ur'([^<]+)', re.S)
_ATTR = re.compile(ur'([^\s=]+)\s*=\s*("[^"]*"|\'[^\']*\')', re.S)
_ENT = {u'lt': u'<', u'gt': u'>', u'amp': u'&', u'quot': u'"', u'apos': u"'"}


def _unescape(s):
    def f(m):
        e = m.group(1)
        if e.startswith(u'#x'):
            return unichr(int(e[2:], 16))
        if e.startswith(u'#'):
            return unichr(int(e[1:]))
        if e not in _ENT:
            raise Malformed('entity %r' % e)
        return _ENT[e]
    return re.sub(ur'&([^;]+);', f, s)


def xml_canon(text):
    """(tag, sorted attributes, content) with merged text."""
    pos = 0
    stack = [(None, (), [])]
    while pos < len(text):
        m = _TOKEN.match(text, pos)
        if not m:
            raise Malformed('XML at %d: %r' % (pos, text[pos:pos + 40]))
        pos = m.end()
        end, start, attrs, empty, chars = m.groups()
        if chars is not None:
            if len(stack) > 1:
                c = stack[-1][2]
                t = _unescape(chars)
                if c and isinstance(c[-1], unicode):
                    c[-1] += t
                else:
                    c.append(t)
            elif chars.strip():
                raise Malformed('text outside the root')
        elif start is not None:
            a = tuple(sorted([
                (k, _unescape(v[1:-1]))
                for k, v in _ATTR.findall(attrs or u'')]))
            node = (start, a, [])
            stack[-1][2].append(node)
            if not empty:
                stack.append(node)
        elif end is not None:
            if len(stack) < 2 or stack[-1][0] != end:
                raise Malformed('end tag %r' % end)
            stack.pop()
    if len(stack) != 1 or len(stack[0][2]) != 1:
        raise Malformed('not one root')

    def freeze(n):
        return (n[0], n[1], tuple(
            [freeze(c) if isinstance(c, tuple) else c
             for c in n[2] if c != u'']))
    return freeze(stack[0][2][0])


def compress(data, level):
    return zlib.compress(data, level)
