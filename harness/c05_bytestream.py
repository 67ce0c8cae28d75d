# -*- coding: utf-8 -*-
import struct
import sys
import vlib
ck = vlib.Check(
    'C05', 'random sequences of stream operations in lock-step with a plain '
    '(bytes, position) model, compared after every operation; and every '
    'fixed-width type in every byte order over its edges, random values, '
    'values out of range and truncated input; all cases non-trivial')
vlib.bootstrap()
import gen            # noqa
from pyamf import util   # noqa

INTS = {
    'uchar': (1, False), 'char': (1, True), 'ushort': (2, False),
    'short': (2, True), 'ulong': (4, False), 'long': (4, True),
    '24bit_uint': (3, False), '24bit_int': (3, True),
}
ORDERS = ['!', '>', '<', '@']
LITTLE = sys.byteorder == 'little'

if hasattr(sys, 'byteorder') and sys.byteorder not in ('little', 'big'):
    LITTLE = struct.pack('@H', 1)[0] == '\x01'

# Jython reports the JVM's order; what counts is what '@' means to struct
LITTLE = struct.pack('@H', 1)[0] == '\x01'


def is_big(order):
    return order in '!>' or (order == '@' and not LITTLE)


def bytes_of(n, width, order):
    if n < 0:
        n += 1 << 8 * width

    b = [chr(n >> 8 * i & 0xff) for i in range(width)]

    if is_big(order):
        b.reverse()

    return ''.join(b)


def limits(name):
    w, signed = INTS[name]

    if signed:
        return -(1 << 8 * w - 1), (1 << 8 * w - 1) - 1

    return 0, (1 << 8 * w) - 1


class Model(object):
    """A byte sequence with a cursor."""

    def __init__(self, data=''):
        self.data = data
        self.pos = 0

    def write(self, s):
        self.data = self.data[:self.pos] + s + self.data[self.pos + len(s):]
        self.pos += len(s)

    def read(self, n):
        s = self.data[self.pos:self.pos + n]
        self.pos += n
        return s

    def left(self):
        return len(self.data) - self.pos


def attempt(f, *args):
    try:
        return ('ok', f(*args))
    except Exception:
        return ('raise', sys.exc_info()[0])


def state(s, m, what, trace):
    got = (s.getvalue(), s.tell(), len(s), s.remaining(), s.at_eof())
    want = (m.data, m.pos, len(m.data), m.left(), m.pos == len(m.data))
    ck.count('states')

    if got != want:
        ck.violate('state-after:' + what, 'got  %r\nwant %r\nops %s' % (
            got, want, trace[-12:]))
        return False

    return True


def raises(kind, res, what, trace):
    return ck.check(
        res[0] == 'raise' and issubclass(res[1], kind), 'no-error:' + what,
        lambda: 'expected %s, got %r\nops %s' % (kind, res, trace[-12:]))


def same(want, res, what, trace):
    return ck.check(
        res == ('ok', want), 'result-of:' + what,
        lambda: 'expected %r, got %r\nops %s' % (want, res, trace[-12:]))


def data(r, n=20):
    return ''.join([chr(r.choice([0, 1, 65, 127, 128, 200, 255]))
                    for _ in range(r.randint(0, n))])


def number(r, name):
    lo, hi = limits(name)
    c = r.random()

    if c < 0.4:
        return r.choice([lo, lo + 1, hi, hi - 1, 0, hi // 2, hi // 2 + 1,
                         (lo + hi) // 2])
    return r.randint(lo, hi)


def sequences(r, i):
    init = data(r, 30)
    kind = r.randint(0, 3)

    if kind == 0:
        s = util.BufferedByteStream(init)
    elif kind == 1:
        src = util.BufferedByteStream(init)
        src.seek(r.randint(0, len(init)))
        at = src.tell()
        s = util.BufferedByteStream(src)
        ck.check(src.tell() == at and src.getvalue() == init,
                 'source-stream-moved', 'constructor moved its source')
    elif kind == 2:
        s = util.BufferedByteStream()
        s.write(init)
        s.seek(0)
    else:
        import StringIO
        src = StringIO.StringIO(init)
        s = util.BufferedByteStream(src)

    m = Model(init)
    trace = ['init %r' % init]

    if not state(s, m, 'init', trace):
        return

    for step in range(r.randint(1, 50)):
        op = r.choice(['write', 'read', 'read', 'seek', 'seek', 'peek',
                       'append', 'truncate', 'consume', 'num', 'num', 'rnum',
                       'rnum', 'readall', 'utf8', 'wutf8', 'bad', 'add',
                       'order', 'rfloat', 'wfloat'])
        ck.count('op:' + op)

        if op == 'write':
            d = data(r)
            trace.append('write %r' % d)
            same(None, ('ok', s.write(d)), 'write', trace)
            m.write(d)
        elif op == 'read':
            n = r.choice([0, 1, 2, 3, 5, 8, m.left(), m.left() + 1,
                          r.randint(0, 40)])
            trace.append('read %d' % n)
            res = attempt(s.read, n)

            if n <= m.left():
                same(m.read(n), res, 'read', trace)
            else:
                raises(IOError, res, 'read-past-end', trace)
        elif op == 'readall':
            trace.append('read all')
            res = attempt(s.read) if r.random() < 0.5 else attempt(s.read, -1)

            if m.left():
                same(m.read(m.left()), res, 'read-all', trace)
            else:
                raises(IOError, res, 'read-all-at-end', trace)
        elif op == 'seek':
            p = r.randint(0, len(m.data))
            mode = r.randint(0, 2)
            off = p if mode == 0 else p - m.pos if mode == 1 else \
                p - len(m.data)
            trace.append('seek %d %d' % (off, mode))

            if mode == 0 and r.random() < 0.5:
                s.seek(off)
            else:
                s.seek(off, mode)

            m.pos = p
        elif op == 'peek':
            n = r.choice([0, 1, 1, 2, 5, 30, -1])
            trace.append('peek %d' % n)
            res = attempt(s.peek, n) if n != 1 else attempt(s.peek)
            want = m.data[m.pos:] if n == -1 else m.data[m.pos:m.pos + n]
            same(want, res, 'peek', trace)

            if r.random() < 0.1:
                raises(ValueError, attempt(s.peek, -2), 'peek-back', trace)
        elif op == 'append':
            d = data(r)
            trace.append('append %r' % d)
            c = r.random()

            if c < 0.6:
                res = attempt(s.append, d)
            elif c < 0.8:
                o = util.BufferedByteStream(d)
                res = attempt(s.append, o)
                ck.check(o.getvalue() == d, 'append-changes-source', '')
            else:
                u = r.choice([u'', u'abc', u'\xe9\u4e2d'])
                d = u.encode('utf-8')
                res = attempt(s.append, u)

            same(None, res, 'append', trace)
            m.data += d
        elif op == 'truncate':
            n = r.choice([0, len(m.data), r.randint(0, len(m.data))])
            p = r.randint(0, n)
            s.seek(p)
            trace.append('seek %d, truncate %d' % (p, n))

            if n == 0 and r.random() < 0.5:
                s.truncate()
            else:
                s.truncate(n)

            m.data = m.data[:n]
            m.pos = p
        elif op == 'consume':
            trace.append('consume')
            s.consume()
            m.data = m.data[m.pos:]
            m.pos = 0
        elif op == 'order':
            s.endian = r.choice(ORDERS)
            trace.append('endian %s' % s.endian)
        elif op == 'num':
            name = r.choice(sorted(INTS))
            v = number(r, name)

            if r.random() < 0.3:
                v = long(v)

            trace.append('write_%s %d' % (name, v))
            same(None, attempt(getattr(s, 'write_' + name), v), 'write_' +
                 name, trace)
            m.write(bytes_of(v, INTS[name][0], s.endian))
        elif op == 'rnum':
            name = r.choice(sorted(INTS))
            w, signed = INTS[name]
            trace.append('read_%s' % name)
            res = attempt(getattr(s, 'read_' + name))

            if m.left() < w:
                raises(IOError, res, 'read_' + name, trace)
            else:
                b = m.read(w)

                if not is_big(s.endian):
                    b = b[::-1]

                v = 0

                for c in b:
                    v = v << 8 | ord(c)

                if signed and v >> 8 * w - 1:
                    v -= 1 << 8 * w

                same(v, res, 'read_' + name, trace)
        elif op == 'wfloat':
            name, code = r.choice([('float', 'f'), ('double', 'd')])
            v = r.choice([0.0, 1.5, -2.25, 1e30, -1e-30, 1e999, -1e999, 0.1])
            trace.append('write_%s %r' % (name, v))
            same(None, attempt(getattr(s, 'write_' + name), v),
                 'write_' + name, trace)
            m.write(struct.pack(s.endian + code, v))
        elif op == 'rfloat':
            name, code, w = r.choice([('float', 'f', 4), ('double', 'd', 8)])
            trace.append('read_%s' % name)
            res = attempt(getattr(s, 'read_' + name))

            if m.left() < w:
                raises(IOError, res, 'read_' + name, trace)
            else:
                v = struct.unpack(s.endian + code, m.read(w))[0]

                if v != v:
                    ck.check(res[0] == 'ok' and res[1] != res[1],
                             'result-of:nan', repr(res))
                else:
                    same(v, res, 'read_' + name, trace)
        elif op == 'wutf8':
            u = gen.gen_text(r, False)
            b = u.encode('utf-8')
            trace.append('write_utf8_string %r' % u)
            same(None, attempt(s.write_utf8_string,
                               u if r.random() < 0.5 else b),
                 'write_utf8_string', trace)
            m.write(b)
        elif op == 'utf8':
            n = r.randint(0, 8)
            b = m.data[m.pos:m.pos + n]

            try:
                u = b.decode('utf-8')
            except UnicodeDecodeError:
                continue

            trace.append('read_utf8_string %d' % n)
            res = attempt(s.read_utf8_string, n)

            if m.left() < n:
                raises(IOError, res, 'read_utf8_string', trace)
            else:
                m.read(n)
                same(u, res, 'read_utf8_string', trace)
        elif op == 'bad':
            name = r.choice(sorted(INTS))
            lo, hi = limits(name)
            v = r.choice([lo - 1, hi + 1, lo - 1000000, hi * 3 + 7, 1 << 70])
            f = getattr(s, 'write_' + name)
            trace.append('write_%s %d' % (name, v))
            raises(OverflowError, attempt(f, v), 'write_' + name, trace)
            raises(TypeError, attempt(f, r.choice(['1', 1.0, None, u'x'])),
                   'write_%s-type' % name, trace)
            raises(TypeError, attempt(
                r.choice([s.write_double, s.write_float]),
                r.choice(['1', 1, None, 1L])), 'write_double-type', trace)
            raises(TypeError, attempt(s.write_utf8_string, r.choice(
                [1, None, 1.5, []])), 'write_utf8_string-type', trace)
            raises(TypeError, attempt(s.append, r.choice([1, None, 1.5])),
                   'append-type', trace)
        elif op == 'add':
            d = data(r)
            o = util.BufferedByteStream(d)
            p = r.randint(0, len(d))
            o.seek(p)
            trace.append('add %r' % d)
            res = attempt(lambda: s + o)

            if res[0] != 'ok':
                if d == '':
                    # reading the empty stream is an end-of-stream error
                    raises(IOError, res, 'add', trace)
                    s.seek(m.pos)
                else:
                    same('a stream', res, 'add', trace)
            else:
                t = Model(m.data + d)
                state(res[1], t, 'add', trace)
                ck.check((o.getvalue(), o.tell()) == (d, p),
                         'add-changes-operand', lambda: repr(trace[-5:]))

        if not state(s, m, op, trace):
            return

    ck.seen(tuple(trace), sample=trace[:10])


def widths(r, i):
    """Every type and order: edges, random values, shortage, overflow."""
    name = sorted(INTS)[i % len(INTS)]
    w, signed = INTS[name]
    order = ORDERS[i // len(INTS) % len(ORDERS)]
    lo, hi = limits(name)
    vals = [lo, lo + 1, hi, hi - 1, 0, 1] + \
        [number(r, name) for _ in range(60)]

    if w == 1:
        vals = range(lo, hi + 1)
    elif signed:
        vals += [-1, -2, -255, -256, -257]

    vals += [1 << k for k in range(8 * w) if lo <= 1 << k <= hi]

    for v in vals:
        s = util.BufferedByteStream()
        s.endian = order
        getattr(s, 'write_' + name)(v)
        want = bytes_of(v, w, order)
        ck.check(s.getvalue() == want, 'bytes-of:' + name,
                 lambda: '%s %d as %r, expected %r' % (
                     order, v, s.getvalue(), want))
        s.seek(0)
        got = getattr(s, 'read_' + name)()
        ck.check(got == v, 'value-of:' + name,
                 lambda: '%s wrote %d read %d' % (order, v, got))

        for cut in range(w):
            pre = data(r, 3)
            s = util.BufferedByteStream(pre + want[:cut])
            s.endian = order
            s.seek(len(pre))
            m = Model(pre + want[:cut])
            m.pos = len(pre)
            raises(IOError, attempt(getattr(s, 'read_' + name)),
                   'short-read_' + name, ['%s %d of %d' % (order, cut, w)])
            state(s, m, 'short-read_' + name, ['%d of %d' % (cut, w)])

        ck.count('numbers')

    for v in (lo - 1, hi + 1):
        pre = data(r, 4)
        s = util.BufferedByteStream(pre)
        s.endian = order
        m = Model(pre)
        m.pos = r.randint(0, len(pre))
        s.seek(m.pos)
        raises(OverflowError, attempt(getattr(s, 'write_' + name), v),
               'write_' + name, ['%d' % v])
        state(s, m, 'overflow_' + name, ['%d' % v])

    ck.seen((name, order, tuple(vals)))


def floats(r, i):
    order = ORDERS[i % len(ORDERS)]
    nan = 1e999 - 1e999

    for k in range(40):
        v = gen.gen_num(r)

        for name, code, w in (('double', 'd', 8), ('float', 'f', 4)):
            if w == 4 and abs(v) > 3.4e38 and v == v and abs(v) != 1e999:
                continue

            s = util.BufferedByteStream()
            s.endian = order
            getattr(s, 'write_' + name)(v)

            if v == v:
                ck.check(s.getvalue() == struct.pack(order + code, v),
                         'bytes-of:' + name, repr(v))

            s.seek(0)
            got = getattr(s, 'read_' + name)()
            want = struct.unpack(order + code, struct.pack(order + code, v))[0]
            ck.check(got == want or (got != got and want != want),
                     'value-of:' + name, '%r %r' % (v, got))

            for cut in range(w):
                t = util.BufferedByteStream('ab' + s.getvalue()[:cut])
                t.endian = order
                t.seek(2)
                m = Model('ab' + s.getvalue()[:cut])
                m.pos = 2
                raises(IOError, attempt(getattr(t, 'read_' + name)),
                       'short-read_' + name, [name])
                state(t, m, 'short-read_' + name, [str(cut)])

        ck.count('numbers')

    ck.seen(('floats', order, i))


def body(ck):
    ck.require('states', 2000)
    ck.require('cases:sequences', 100)
    ck.run('widths', 64, 3000, widths, 0.25)
    ck.run('floats', 40, 2000, floats, 0.2)
    ck.run('sequences', 4000, 200000, sequences, 0.6)


vlib.main(ck, body)
