# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C16', 'random histories of typed reads, writes, objects, seeks and '
    'truncations on a ByteArray in lock-step with a plain byte sequence and '
    'independently made bytes; byte arrays of all kinds of contents, '
    'compressed or not, through AMF3 with the wire read independently; and '
    'graphs in which externalizable objects that write a random script of '
    'typed values and shared objects are nested, read back by PyAMF and by '
    'an independent reader; all cases non-trivial')
vlib.bootstrap()
import gen            # noqa
import refamf         # noqa
import graphcheck     # noqa
from gen import pyamf, Node   # noqa
import math, struct, sys, traceback, zlib   # noqa
from pyamf import amf3, util   # noqa

gen.register()

INTS = {'Byte': 'b', 'UnsignedByte': 'B', 'Short': 'h', 'UnsignedShort': 'H',
        'Int': 'i', 'UnsignedInt': 'I'}
CHARSETS = ['utf-8', 'latin-1', 'shift-jis', 'utf-16-be', 'ascii']
TEXTS = {'utf-8': u'h\xe9llo \u4e2d\U0001f600', 'latin-1': u'caf\xe9',
         'shift-jis': u'\u65e5\u672c', 'utf-16-be': u'ab\u20ac',
         'ascii': u'plain'}


def limits(f):
    w = struct.calcsize('>' + f)

    if f.islower():
        return -(1 << 8 * w - 1), (1 << 8 * w - 1) - 1

    return 0, (1 << 8 * w) - 1


def same_float(a, b):
    return a == b and math.copysign(1, a) == math.copysign(1, b) or \
        (a != a and b != b)


def gen_op(r, ops=None):
    """A typed value: (op, value, bytes, what a read returns)."""
    op = r.choice(ops or (sorted(INTS) + ['Boolean', 'Double', 'Float', 'UTF',
                                          'UTFBytes', 'MultiByte']))

    if op in INTS:
        lo, hi = limits(INTS[op])
        v = r.choice([lo, hi, 0, 1, hi - 1, lo + 1, r.randint(lo, hi),
                      r.randint(lo, hi)])
        return op, v, struct.pack('>' + INTS[op], v), v
    if op == 'Boolean':
        v = r.random() < 0.5
        return op, v, '\x01' if v else '\x00', v
    if op == 'Double':
        v = gen.gen_num(r)
        return op, v, struct.pack('>d', v), v
    if op == 'Float':
        v = r.choice([0.0, 1.5, -2.25, 1e10, 3.0, 1e999, -1e999, 2.0 ** -120,
                      r.uniform(-1, 1) * 2.0 ** r.randint(-100, 100)])
        b = struct.pack('>f', v)
        return op, v, b, struct.unpack('>f', b)[0]
    if op == 'UTF':
        v = gen.gen_text(r, False)
        b = v.encode('utf-8')
        return op, v, struct.pack('>H', len(b)) + b, v
    if op == 'UTFBytes':
        v = gen.gen_text(r, False) or u'x'
        return op, v, v.encode('utf-8'), v

    cs = r.choice(CHARSETS)
    v = TEXTS[cs] * r.randint(1, 3)

    return 'MultiByte:' + cs, v, v.encode(cs), v


def write_op(out, op, v, r=None):
    if op.startswith('MultiByte'):
        cs = op.split(':')[1]

        if r is not None and r.random() < 0.3:
            v = v.encode(cs)

        out.writeMultiByte(v, cs)
    else:
        if op in ('UTF', 'UTFBytes') and r is not None and r.random() < 0.3:
            v = v.encode('utf-8')

        getattr(out, 'write' + op)(v)


def read_op(inp, op, n):
    if op.startswith('MultiByte'):
        return inp.readMultiByte(n, op.split(':')[1])
    if op == 'UTFBytes':
        return inp.readUTFBytes(n)

    return getattr(inp, 'read' + op)()


def equal(want, got):
    if isinstance(want, float):
        return isinstance(got, (int, long, float)) and same_float(want, got)
    if isinstance(want, bool):
        return got is want
    if isinstance(want, unicode):
        if isinstance(got, str):
            got = got.decode('utf-8')

        return isinstance(got, unicode) and got == want

    return not isinstance(got, bool) and isinstance(got, (int, long)) and \
        got == want


# -- histories --------------------------------------------------------------

def history(r, i):
    start = r.choice(['', '', gen.gen_bytes(r)])
    ba = amf3.ByteArray(start) if start or r.random() < 0.5 else \
        amf3.ByteArray()
    data, pos = start, 0
    marks = {}           # position -> (op, bytes, value) written there
    trace = []

    def put(b):
        return data[:pos] + b + data[pos + len(b):], pos + len(b)

    def forget(a, b):
        for p in [p for p in marks if p < b and p + len(marks[p][1]) > a]:
            del marks[p]

    for step in range(r.randint(3, 30)):
        c = r.random()

        if c < 0.38:
            op, v, b, back = gen_op(r)
            trace.append(('write', op, v))
            write_op(ba, op, v, r)
            forget(pos, pos + len(b))
            marks[pos] = (op, b, back)
            data, pos = put(b)
        elif c < 0.48:
            nodes = [graphcheck.message(r, 3, max_nodes=8, ext=False,
                                        big=False)[0][0]]
            v = graphcheck.build(r, 3, nodes)[0]
            trace.append(('writeObject', graphcheck.expr(nodes)))
            ba.writeObject(v)
            end = ba.tell()
            b = ba.getvalue()[pos:end]

            try:
                back = refamf.read_amf3(b)[0]
            except (refamf.Malformed, IndexError, struct.error), e:
                ck.violate('object-bytes', '%r: %s in %r' % (b, e, trace))
                return

            if not graphcheck.compare(
                    ck, 'object-written', graphcheck.canon_nodes(
                        nodes, 3, False),
                    graphcheck.canon_nodes(back, 3, False), repr(trace)):
                return

            forget(pos, end)
            marks[pos] = ('Object', b, nodes)
            data, pos = put(b)
            ck.count('objects-written')
        elif c < 0.75 and marks:
            at = r.choice(sorted(marks))
            op, b, back = marks[at]
            trace.append(('read', op, at))
            ba.seek(at)

            if op == 'Object':
                got = ba.readObject()

                if not graphcheck.compare(
                        ck, 'object-read',
                        graphcheck.canon_nodes(back, 3, True),
                        graphcheck.canon_values([got], 3, True),
                        repr(trace)):
                    return

                ck.count('objects-read')
            else:
                got = read_op(ba, op, len(b))

                if not equal(back, got):
                    ck.violate('read:' + op.split(':')[0],
                               'wrote %r, read %r\n%r' % (back, got, trace))
                    return

                ck.count('read:' + op.split(':')[0])

            pos = at + len(b)
        elif c < 0.8:
            pos = r.choice([0, len(data), r.randint(0, len(data))])
            trace.append(('seek', pos))
            ba.seek(pos)
        elif c < 0.84:
            b = gen.gen_bytes(r)
            trace.append(('append', b))
            ba.append(b)
            data += b
        elif c < 0.87:
            n = r.randint(0, len(data) - pos)
            trace.append(('read', n))
            got = ba.read(n) if n else ''
            ck.check(got == data[pos:pos + n], 'read-bytes',
                     lambda: '%r' % (trace,))
            pos += n
        elif c < 0.93:
            # not enough bytes
            op = r.choice(sorted(INTS) + ['Boolean', 'Double', 'Float'])
            w = {'Boolean': 1, 'Double': 8, 'Float': 4}.get(op) or \
                struct.calcsize('>' + INTS[op])
            at = max(0, len(data) - r.randint(0, w - 1))

            if len(data) - at >= w:
                continue

            trace.append(('short', op, at))
            ba.seek(at)
            pos = at

            try:
                got = read_op(ba, op, 0)
            except IOError:
                ck.count('short-reads')
            else:
                ck.violate('read-past-end:' + op, '%r from %r\n%r' % (
                    got, data[at:], trace))
                return
        else:
            op = r.choice(sorted(INTS))
            lo, hi = limits(INTS[op])
            v = r.choice([lo - 1, hi + 1, hi + 12345, lo - 99999])
            trace.append(('out of range', op, v))

            try:
                write_op(ba, op, v)
            except OverflowError:
                ck.count('out-of-range')
            except (ValueError, struct.error):
                ck.count('out-of-range-other')
            else:
                ck.violate('out-of-range:' + op, '%r\n%r' % (v, trace))
                return

        if ba.tell() != pos or ba.getvalue() != data or \
                len(ba) != len(data) or ba.remaining() != len(data) - pos:
            ck.violate('state:' + str(trace[-1][0]), (
                'position %r (expected %r), length %d (%d), contents %r '
                '(%r)\n%r' % (ba.tell(), pos, len(ba), len(data),
                              ba.getvalue()[:200], data[:200], trace)))
            return

    ck.count('steps', len(trace))
    ck.seen((data, pos, len(trace)), sample=repr(trace)[:300])


# -- byte arrays through AMF3 ------------------------------------------------

def contents(r):
    c = r.random()

    if c < 0.35:
        return gen.gen_bytes(r)

    z = zlib.compress(gen.gen_bytes(r) * r.randint(0, 30),
                      r.choice([1, 6, 6, 9, 9]))

    if c < 0.5:
        return z
    if c < 0.6:
        return z[:r.randint(0, len(z) - 1)]
    if c < 0.75:
        return z + gen.gen_bytes(r)
    if c < 0.85:
        return zlib.compress(z, 9)
    if c < 0.95:
        return r.choice(['\x78\x9c', '\x78\xda']) + gen.gen_bytes(r)

    return r.choice(['\x78', '\x78\x9c', '\x78\xda', '', '\x78\x01'])


def is_zlib(s):
    """All of the bytes are one zlib stream."""
    if s[:2] not in ('\x78\x9c', '\x78\xda'):
        return None

    try:
        out = zlib.decompress(s)
    except zlib.error:
        return None

    # Jython and CPython ignore what follows the stream; the checksum that
    # ends the stream must be the last four bytes
    if struct.unpack('>I', s[-4:])[0] != zlib.adler32(out) & 0xffffffff:
        return None

    d = zlib.decompressobj()
    d.decompress(s)

    if d.unused_data:
        return None

    return out


def arrays(r, i):
    specs = []
    values = []

    for _ in range(r.randint(1, 4)):
        s = contents(r)
        ba = amf3.ByteArray(s)
        c = r.random()

        if c < 0.4:
            ba.compress()
        elif c < 0.8:
            ba.compressed = False

        if r.random() < 0.3:
            ba.seek(r.randint(0, len(s)))

        specs.append((s, bool(ba.compressed)))
        values.append(ba)

    order = [r.randint(0, len(values) - 1)
             for _ in range(len(values) + r.randint(0, 2))]
    msg = [values[k] for k in order]
    what = repr([(s[:60], c) for s, c in specs])
    before = [(b.getvalue(), b.tell()) for b in values]
    data = pyamf.encode(msg, encoding=3).getvalue()
    ck.check([(b.getvalue(), b.tell()) for b in values] == before,
             'array-changed', what)
    wire = refamf.read_amf3(data)[0][0].val
    back = pyamf.decode(data, encoding=3).next()

    for k, n, b in zip(order, wire, back):
        s, compressed = specs[k]

        if n.kind != 'bytes':
            ck.violate('array-kind', '%r %s' % (n, what))
            return

        if compressed:
            try:
                plain = zlib.decompress(n.val)
            except zlib.error, e:
                ck.violate('array-wire-compressed', '%s: %r\n%s' % (
                    e, n.val[:80], what))
                return

            ck.check(plain == s, 'array-wire-compressed', what)
        else:
            ck.check(n.val == s, 'array-wire', what)

        inflated = is_zlib(n.val)
        want = n.val if inflated is None else inflated

        if compressed and inflated is None:
            ck.violate('array-wire-compressed', 'not a zlib stream: %r' %
                       n.val[:80])

        ck.check(type(b) is amf3.ByteArray, 'array-type', lambda: repr(b))
        ck.check(b.getvalue() == want, 'array-contents',
                 lambda: 'expected %r, got %r\n%s' % (
                     want[:200], b.getvalue()[:200], what))
        ck.check(bool(b.compressed) == (inflated is not None),
                 'array-compressed-flag', what)
        ck.check(b.tell() == 0, 'array-position', what)
        ck.count('arrays-compressed' if compressed else 'arrays-plain')

        if inflated is None and s[:1] == '\x78':
            ck.count('arrays-zlib-like')

        # and once more: what was decoded encodes to the same contents
        again = pyamf.decode(pyamf.encode(b, encoding=3).getvalue(),
                             encoding=3).next()
        ck.check(again.getvalue() == want, 'array-again',
                 lambda: 'expected %r, got %r\n%s' % (
                     want[:200], again.getvalue()[:200], what))

    for a in range(len(order)):
        for b in range(a):
            ck.check((back[a] is back[b]) == (order[a] == order[b]),
                     'array-identity', what)

    ck.seen(tuple(specs) + tuple(order), sample=what[:200])


# -- externalizable objects --------------------------------------------------

class Script(object):
    """Writes a script and then the values the script names."""

    class __amf__:
        external = True

    def __init__(self):
        self.items = []

    def __writeamf__(self, out):
        out.writeUTF(u','.join([op for op, v, n in self.items]))

        for op, v, n in self.items:
            if op == 'Object':
                out.writeObject(v)
                continue

            if op.startswith('MultiByte') or op == 'UTFBytes':
                out.writeUnsignedShort(n)

            write_op(out, op, v)

    def __readamf__(self, inp):
        self.items = []
        ops = inp.readUTF()

        for op in [x for x in ops.split(',') if x]:
            op = str(op)

            if op == 'Object':
                self.items.append((op, inp.readObject(), 0))
                continue

            n = 0

            if op.startswith('MultiByte') or op == 'UTFBytes':
                n = inp.readUnsignedShort()

            self.items.append((op, read_op(inp, op, n), n))


class Inherited(Script):
    class __amf__:
        external = True


pyamf.register_class(Script, u'v.Script')
pyamf.register_class(Inherited, u'v.Inherited')
KLASS = {u'v.Script': Script, u'v.Inherited': Inherited}


def scheme(rd, n):
    """What an ActionScript reader makes of a script."""
    r = rd.r
    ops = r.text(r.u16())

    for op in [x for x in ops.split(u',') if x]:
        if op == u'Object':
            n.val.append(rd.value())
        elif op in INTS:
            f = '>' + INTS[str(op)]
            n.val.append(Node('int', struct.unpack(
                f, r.take(struct.calcsize(f)))[0]))
        elif op == u'Boolean':
            n.val.append(Node('bool', r.u8() != 0))
        elif op == u'Double':
            n.val.append(Node('num', r.f64()))
        elif op == u'Float':
            n.val.append(Node('num', struct.unpack('>f', r.take(4))[0]))
        elif op == u'UTF':
            n.val.append(Node('str', r.text(r.u16())))
        elif op == u'UTFBytes':
            n.val.append(Node('str', r.text(r.u16())))
        else:
            n.val.append(Node('str', r.take(r.u16()).decode(
                str(op.split(u':')[1]))))


EXT = dict(refamf.EXT)
EXT[u'v.Script'] = EXT[u'v.Inherited'] = scheme


class Builder(gen.Builder):
    def build(self, n):
        if n.kind != 'ext' or n.alias not in KLASS:
            return gen.Builder.build(self, n)

        if id(n) in self.memo:
            return self.memo[id(n)]

        v = self.memo[id(n)] = KLASS[n.alias]()

        for (op, x, size), c in zip(n.by, n.val):
            v.items.append((op, self.build(c) if op == 'Object' else x,
                            size))

        return v


def add_scripts(r, nodes):
    """Puts scripts among the nodes of a graph."""
    pool, todo, seen = [], list(nodes), set()

    while todo:
        n = todo.pop()

        if id(n) in seen:
            continue

        seen.add(id(n))
        pool.append(n)
        todo.extend(refamf.children(n))

    lists = [n for n in pool if n.kind == 'list']
    scripts = []

    for _ in range(r.randint(1, 5)):
        s = Node('ext', [], r.choice([u'v.Script', u'v.Script',
                                      u'v.Inherited']))
        s.by = []
        scripts.append(s)

    for s in scripts:
        for _ in range(r.randint(0, 6)):
            if r.random() < 0.4:
                s.by.append(('Object', None, 0))
                s.val.append(r.choice(pool + scripts * 2))
                continue

            op, v, b, back = gen_op(r)
            kind = 'str' if isinstance(back, unicode) else \
                'bool' if isinstance(back, bool) else \
                'num' if isinstance(back, float) else 'int'
            s.by.append((op, v, len(b)))
            s.val.append(Node(kind, back))

        if lists and r.random() < 0.5:
            x = r.choice(lists)
            x.val.insert(r.randint(0, len(x.val)), s)
        else:
            nodes.insert(r.randint(0, len(nodes)), s)

    return nodes, scripts


EXTRA = dict((c, ('E', a, lambda v: [x for _, x, _ in v.items]))
             for a, c in KLASS.items())


def externals(r, i):
    nodes, g = graphcheck.message(r, 3, max_nodes=r.choice([3, 10, 25]))
    nodes, scripts = add_scripts(r, nodes)
    b = Builder(r, 3)
    values = [b.build(n) for n in nodes]
    want = graphcheck.canon_nodes(nodes, 3, True)
    what = graphcheck.expr(nodes)
    amf = r.choice([3, 3, 0])

    if amf == 0:
        # as one AMF3 part of an AMF0 message
        values, want = [scripts[0]], None
        root = [scripts[0]]
        want = graphcheck.canon_nodes(root, 3, True)
        values = [Builder(r, 3).build(scripts[0])]

        if not all_amf3(values[0]):
            return

    e = pyamf.get_encoder(amf)

    if amf == 0:
        e.use_amf3 = True

    for v in values:
        e.writeElement(v)

    data = e.stream.getvalue()

    try:
        back = (refamf.read_amf0 if amf == 0 else refamf.read_amf3)(
            data, EXT)[0]
    except (refamf.Malformed, IndexError, struct.error,
            UnicodeDecodeError), err:
        ck.violate('external-bytes', '%s\n%r\n%s' % (err, data[:600], what))
        return

    graphcheck.compare(ck, 'external-wire', want, graphcheck.canon_nodes(
        back, 3, True), what)

    try:
        got = list(pyamf.decode(data, encoding=amf))
    except Exception:
        ck.violate('external-decode:' + graphcheck.exc(),
                   traceback.format_exc() + what)
        return

    try:
        c = gen.canon_py(list(got), 3, True, extra=EXTRA)
    except gen.Unexpected, err:
        ck.violate('external-type', '%s\n%s' % (err, what))
        return

    graphcheck.compare(ck, 'external-values', want, c, what)

    for s in scripts:
        for op, _, _ in s.by:
            ck.count('ext:' + op.split(':')[0])

        if s in s.val:
            ck.count('ext-self-reference')

    ck.seen(want, sample=dict(value=what[:250], bytes=data[:60]))


def all_amf3(v):
    return True


def body(ck):
    for f in sorted(INTS) + ['Boolean', 'Double', 'Float', 'UTF', 'UTFBytes',
                             'MultiByte']:
        ck.require('read:' + f, 20)
        ck.require('ext:' + f, 20)

    for f in ('objects-written', 'objects-read', 'short-reads',
              'arrays-compressed', 'arrays-plain', 'arrays-zlib-like',
              'ext:Object', 'ext-self-reference'):
        ck.require(f, 20)

    ck.run('histories', 8000, 200000, history, 0.4)
    ck.run('arrays', 8000, 200000, arrays, 0.2)
    ck.run('externals', 8000, 200000, externals, 0.4)


vlib.main(ck, body)
