# -*- coding: utf-8 -*-
import struct
import sys
import vlib
ck = vlib.Check(
    'C06', 'byte strings decoded as AMF0, AMF3, envelope and shared object: '
    'random bytes, mutated legal messages, and legal messages with exactly '
    'one defect whose required error is known (unknown marker, dangling '
    'reference, truncation, oversized count); stream operations, allocated '
    'memory and, for the scaling cases, executed lines are counted; canary messages are decoded '
    'and encoded again after failures; non-trivial: decoding ended in an '
    'error or in at least one value')
vlib.bootstrap()
import gen            # noqa
import refamf         # noqa
import graphcheck     # noqa
from gen import pyamf, Node   # noqa
from pyamf import util, remoting, sol   # noqa
from java.lang import Thread, Throwable  # noqa
from java.lang.management import ManagementFactory   # noqa

BEAN = ManagementFactory.getThreadMXBean()
THREAD = Thread.currentThread().getId()
INPUT_END = (pyamf.EOStream, IOError)


class TooMuchWork(BaseException):
    pass


class Stream(util.BufferedByteStream):
    """Counts the operations done on it."""

    def __init__(self, data):
        util.BufferedByteStream.__init__(self, data)
        self.ops = 0
        self.limit = 60 * len(data) + 2000

    def tick(self):
        self.ops += 1

        if self.ops > self.limit:
            raise TooMuchWork('%d stream operations' % self.ops)

    def read(self, *args):
        self.tick()
        return util.BufferedByteStream.read(self, *args)

    def seek(self, *args):
        self.tick()
        return util.BufferedByteStream.seek(self, *args)

    def tell(self):
        self.tick()
        return util.BufferedByteStream.tell(self)


def amf_elements(version):
    def f(data, **kw):
        d = pyamf.get_decoder(version, Stream(data), **kw)
        out = []

        while d.stream.remaining():
            out.append(d.readElement())

        return out
    return f


def envelope(data, **kw):
    return remoting.decode(Stream(data), **kw)


def shared(data, **kw):
    return sol.decode(Stream(data), strict=False)


def shared_strict(data, **kw):
    return sol.decode(Stream(data), strict=True)


DECODERS = {'amf0': amf_elements(0), 'amf3': amf_elements(3),
            'envelope': envelope, 'sol': shared, 'sol-strict': shared_strict}


def outcome(kind, data, **kw):
    """('value', v) or ('error', exception)"""
    before = BEAN.getThreadAllocatedBytes(THREAD)
    res = _outcome(kind, data, **kw)
    used = BEAN.getThreadAllocatedBytes(THREAD) - before
    ck.counters['peak-allocated-kb'] = max(
        used // 1024, ck.counters.get('peak-allocated-kb', 0))

    # (observed: up to 4 MB plus 8 kB per byte of input)
    if before >= 0 and used > 16000000 + 20000 * len(data):
        ck.violate('memory:' + kind, '%d bytes allocated for %d bytes: %r' % (
            used, len(data), data[:300]))

    return res


def _outcome(kind, data, **kw):
    try:
        return 'value', DECODERS[kind](data, **kw)
    except TooMuchWork, e:
        ck.violate('unbounded-work:' + kind, '%s for %d bytes: %r' % (
            e, len(data), data[:300]))
        return 'work', e
    except MemoryError, e:
        ck.violate('memory:' + kind, 'MemoryError for %d bytes: %r' % (
            len(data), data[:300]))
        return 'memory', e
    except Exception, e:
        return 'error', e
    except Throwable, e:
        ck.violate('jvm-error:' + kind, '%s for %d bytes: %r' % (
            e, len(data), data[:300]))
        return 'jvm', e


# -- material

def legal(r, version):
    nodes, g = graphcheck.message(
        r, version, max_nodes=r.choice([3, 8, 20]), big=False)
    return graphcheck.WRITE[version](nodes, r, gen.SEALED)


def u16(n):
    return struct.pack('>H', n)


def u32(n):
    return struct.pack('>I', n)


def utf(s):
    return u16(len(s)) + s


def single(r, version):
    """one value as AMF0, or AMF3 behind the AVM+ marker"""
    nodes, g = graphcheck.message(r, version, max_nodes=r.choice([2, 6]),
                                  big=False)

    if version == 3:
        return '\x11' + refamf.write_amf3(nodes[:1], r, gen.SEALED)

    return refamf.write_amf0(nodes[:1], r, gen.SEALED)


def legal_envelope(r):
    version = r.choice([0, 3])
    out = u16(version)
    n = r.randint(0, 2)
    out += u16(n)

    for i in range(n):
        v = single(r, 0)
        out += utf('h%d' % i) + chr(r.randint(0, 1)) + u32(len(v)) + v

    n = r.randint(0, 3)
    out += u16(n)

    for i in range(n):
        if r.random() < 0.6:
            k = r.randint(0, 3)
            v = '\x0a' + u32(k) + ''.join(
                [refamf.write_amf0([Node('int', 5)], r) if version == 0 or
                 r.random() < 0.5 else '\x11' + refamf.write_amf3(
                     [Node('str', u'x')], r) for _ in range(k)])
            out += utf('svc.m%d' % i) + utf('/%d' % i) + u32(len(v)) + v
        else:
            v = single(r, version)
            out += utf('/%d%s' % (i, r.choice(
                ['/onResult', '/onStatus', '/onDebugEvents']))) + \
                utf('null') + u32(len(v)) + v

    return out


def legal_sol(r, strict=False):
    version = r.choice([0, 3])
    body = 'TCSO\x00\x04\x00\x00\x00\x00' + utf('name') + '\x00\x00\x00' + \
        chr(version)

    for i in range(r.randint(0, 3)):
        k = 'k%d' % i

        if version == 0:
            body += utf(k) + refamf.write_amf0([Node('list', [
                Node('int', i), Node('null')])], r) + '\x00'
        else:
            body += chr(len(k) << 1 | 1) + k + '\x04' + chr(i) + '\x00'

    return '\x00\xbf' + u32(len(body)) + body


def mutate(r, b):
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        if not b:
            return chr(r.randint(0, 255))

        i = r.randrange(len(b))
        c = r.random()

        if c < 0.25:
            b = b[:i] + chr(ord(b[i]) ^ 1 << r.randint(0, 7)) + b[i + 1:]
        elif c < 0.45:
            b = b[:i] + chr(r.randint(0, 255)) + b[i + 1:]
        elif c < 0.55:
            j = min(len(b), i + r.randint(1, 4))
            b = b[:i] + b[j:]
        elif c < 0.65:
            b = b[:i] + ''.join([chr(r.randint(0, 255)) for _ in range(
                r.randint(1, 4))]) + b[i:]
        elif c < 0.75:
            b = b[:i] + r.choice(['\xff\xff\xff\xff', '\x7f\xff\xff\xff',
                                  '\x00\x00\x00\x00', '\xff\xff',
                                  '\x80\x00\x00\x00']) + \
                b[i + r.choice([0, 2, 4]):]
        elif c < 0.85:
            j = min(len(b), i + r.randint(1, 20))
            b = b[:j] + b[i:j] + b[j:]
        elif c < 0.93:
            b = b[:i]
        else:
            b = b[:i] + chr(r.choice(range(0x14) + [0x20])) + b[i + 1:]

    return b


MAKE = {'amf0': lambda r: legal(r, 0), 'amf3': lambda r: legal(r, 3),
        'envelope': legal_envelope, 'sol': legal_sol,
        'sol-strict': legal_sol}


# -- canaries: valid messages whose results are recorded first

class Canaries(object):
    def __init__(self):
        r = ck.rng('canary')
        self.items = []

        for i in range(8):
            v = 0 if i % 2 else 3
            nodes, g = graphcheck.message(r, v, max_nodes=25, big=False)
            self.items.append((v, nodes, refamf.write_amf3(
                nodes, r, gen.SEALED) if v else refamf.write_amf0(
                    nodes, r, gen.SEALED)))

        self.first = [self.one(x) for x in self.items]
        ok = [f[0] for f in self.first]

        if not all(ok):
            # C03 and C04 decide about this; here only changes matter
            ck.count('canaries-not-decodable')

    def one(self, item):
        v, nodes, data = item

        try:
            got = graphcheck.canon_values(gen.decode(data, v), v, v == 0)
        except Exception, e:
            return (False, type(e), None)

        vals = gen.Builder(ck.rng('canary-values'), v)
        return (True, got, gen.encode([vals.build(n) for n in nodes], v))

    def check(self, after):
        for item, first in zip(self.items, self.first):
            ck.count('canaries')
            again = self.one(item)

            if again != first:
                ck.violate('trace-of-failed-decode', 'a valid message gives '
                           'another result after failed decodes\nmessage %r\n'
                           'first %s\nnow %s\nafter %r' % (
                               item[2][:200], repr(first)[:500],
                               repr(again)[:500], after))
                return


# -- cases

recent = []


def note(kind, data, res):
    if res[0] == 'error':
        ck.count('errors')
        ck.count('error:%s' % type(res[1]).__name__)

    ck.count('decoded:' + kind)
    ck.seen((kind, data), nontrivial=len(data) > 0,
            sample=dict(kind=kind, data=data[:60], outcome=res[0],
                        what=repr(res[1])[:100]))
    recent.append((kind, data[:200]))
    del recent[:-12]

    if len(recent) >= 12:
        canaries.check(list(recent))
        del recent[:]


def random_bytes(r, i):
    kind = r.choice(sorted(DECODERS))
    n = r.choice([0, 1, 2, 5, 10, 30, 100])
    c = r.random()

    if c < 0.4:
        data = ''.join([chr(r.randint(0, 255)) for _ in range(n)])
    else:
        data = ''.join([chr(r.choice(range(0x13) + [0x41, 0x7f, 0x80, 0xff]))
                        for _ in range(n)])

    if kind == 'envelope' and c > 0.7:
        data = '\x00' + r.choice('\x00\x03') + '\x00\x00\x00\x01' + data
    if kind.startswith('sol') and c > 0.5:
        data = '\x00\xbf' + u32(len(data) + 21) + \
            'TCSO\x00\x04\x00\x00\x00\x00' + utf('name') + '\x00\x00\x00' + \
            r.choice('\x00\x03') + data

    note(kind, data, outcome(kind, data))


def mutated(r, i):
    kind = r.choice(['amf0', 'amf0', 'amf3', 'amf3', 'envelope', 'sol'])
    data = mutate(r, MAKE[kind](r))
    note(kind, data, outcome(kind, data, strict=r.random() < 0.3))


def expect(kind, data, allowed, key, what):
    res = outcome(kind, data)
    note(kind, data, res)
    ck.count('targeted')

    if res[0] == 'value':
        ck.violate(key + ':accepted', '%s: decoded to %s\n%r' % (
            what, repr(res[1])[:500], data[:500]))
    elif res[0] == 'error' and not isinstance(res[1], allowed):
        ck.violate(key + ':' + type(res[1]).__name__,
                   '%s: raised %r, expected %s\n%r' % (
                       what, res[1], allowed, data[:500]))


def bad_markers(r, i):
    v = r.choice([0, 3])
    data = legal(r, v)
    nodes, rd = graphcheck.READ[v](data)
    marks = [(k, a) for k, a, b in rd.r.log if k.startswith('marker')]

    for k, a in r.sample(marks, min(4, len(marks))):
        if k == 'marker0':
            m = r.choice([0x04, 0x0e] + range(0x12, 0x100))
        else:
            # 0x0d to 0x10 are vectors, which this library does not claim
            m = r.choice([0x0d, 0x0e, 0x10, 0x11] + range(0x12, 0x100))

        expect('amf%d' % v, data[:a] + chr(m) + data[a + 1:],
               pyamf.DecodeError, 'unknown-marker-' + k,
               'marker 0x%02x at %d' % (m, a))
        ck.count('bad-markers')


def bad_refs(r, i):
    v = r.choice([0, 3])

    for _ in range(20):
        nodes, g = graphcheck.message(r, v, max_nodes=25, big=False,
                                      share=0.5)
        data = graphcheck.WRITE[v](nodes, r, gen.SEALED)
        back, rd = graphcheck.READ[v](data)
        refs = [x for x in rd.r.log if not x[0].startswith('marker')]

        if refs:
            break
    else:
        return

    for k, a, b in r.sample(refs, min(4, len(refs))):
        big = r.choice([5000, 60000])

        if k == 'ref0':
            new = u16(r.choice([big, 65535]))
        elif k == 'traitref':
            new = refamf.u29_bytes(big << 2 | 1)
        else:
            new = refamf.u29_bytes(big << 1)

        expect('amf%d' % v, data[:a] + new + data[b:], pyamf.ReferenceError,
               'dangling-' + k, '%s at %d' % (k, a))
        ck.count('dangling:' + k)


def dangling_direct(r, i):
    """A reference before anything was sent, under every marker."""
    n = r.choice([0, 1, 2, 63, 64, 8191, 70000])
    ref = refamf.u29_bytes(n << 1)

    for m in '\x06\x07\x08\x09\x0a\x0b\x0c':
        for pre, post in (('', ''), ('\x09\x05\x01\x04\x05', '')):
            if pre and n == 0 and m not in '\x06':
                continue

            expect('amf3', pre + m + ref + post, pyamf.ReferenceError,
                   'dangling-%02x' % ord(m), 'reference %d' % n)

    expect('amf3', '\x0a' + refamf.u29_bytes(n << 2 | 1),
           pyamf.ReferenceError, 'dangling-traits', 'traits %d' % n)
    expect('amf3', '\x0a\x0b' + ref, pyamf.ReferenceError,
           'dangling-class-name', 'class name string reference %d' % n)
    expect('amf3', '\x0a\x13\x01' + ref, pyamf.ReferenceError,
           'dangling-member-name', 'member name string reference %d' % n)
    if n:
        # "ref 0" would be an empty table entry, n is one past the end here
        expect('amf3', '\x0a\x0b\x01' + ref, pyamf.ReferenceError,
               'dangling-key', 'key string reference %d' % n)
        expect('amf3', '\x09\x01' + ref, pyamf.ReferenceError,
               'dangling-array-key', 'array key string reference %d' % n)

    expect('amf0', '\x07' + u16(min(n, 65535)), pyamf.ReferenceError,
           'dangling-amf0', 'reference %d' % n)


def truncated(r, i):
    v = r.choice([0, 3])
    data = legal(r, v)
    nodes, rd = graphcheck.READ[v](data)
    cuts = range(len(data))

    if len(cuts) > 40:
        cuts = sorted(r.sample(cuts, 40))

    for c in cuts:
        if c in rd.bounds:
            continue

        expect('amf%d' % v, data[:c], INPUT_END, 'truncated-amf%d' % v,
               'cut at %d of %d' % (c, len(data)))
        ck.count('truncations')


def truncated_envelope(r, i):
    data = legal_envelope(r)

    if outcome('envelope', data)[0] != 'value':
        ck.count('envelopes-not-decodable')
        return

    for c in r.sample(range(len(data)), min(len(data), 25)):
        expect('envelope', data[:c], INPUT_END, 'truncated-envelope',
               'cut at %d of %d' % (c, len(data)))
        ck.count('truncations')

    v = r.randint(10, 65535)
    expect('envelope', u16(v) + data[2:], pyamf.DecodeError,
           'envelope-version', 'version %d' % v)


def truncated_sol(r, i):
    data = legal_sol(r)
    res = outcome('sol', data)

    if res[0] != 'value':
        ck.count('sols-not-decodable')
        return

    for c in r.sample(range(len(data)), min(len(data), 25)):
        sub = data[:c]
        res = outcome('sol', sub)
        note('sol', sub, res)
        # cut between two values the file is complete but for its length
        if res[0] == 'error':
            ck.check(isinstance(res[1], INPUT_END),
                     'truncated-sol:' + type(res[1]).__name__,
                     lambda: '%r: %r' % (res[1], sub))
        else:
            ck.check(c == 23 + 4 - 2 + 0 or sub[-1] == '\x00' or
                     c == len('\x00\xbf') + 4 + 10 + 6 + 3 + 1,
                     'truncated-sol:accepted', lambda: repr(sub))

    at = 2 + 4 + 10 + 2 + 4 + 3
    e = r.choice([1, 2, 4, 5, 9, 17, 255])
    expect('sol', data[:at] + chr(e) + data[at + 1:], (pyamf.DecodeError, ValueError),
           'unknown-encoding', 'encoding %d' % e)


def bombs(r, i):
    """Small messages that claim to be huge."""
    n = r.choice([0x7fffffff, 0xffffffff, 0x10000000, 0x00ffffff, 0x80000000])
    ok = INPUT_END + (OverflowError,)
    m = min(n, 0x0fffffff)
    h = refamf.u29_bytes(m << 1 | 1 if m < 0x08000000 else 0x0fffffff)
    vals = r.choice(['', '\x05', '\x05\x05', '\x00\x00'])

    for pre in ('\x0a', '\x0c', '\x0f'):
        expect('amf0', pre + u32(n) + vals, ok, 'bomb-amf0',
               'count %d under marker %r' % (n, pre))

    expect('amf0', '\x08' + u32(n) + '\x00\x01a', ok, 'bomb-amf0', 'mixed')
    h3 = '\x9f\xff\xff\xff'

    for pre in ('\x06', '\x07', '\x0b', '\x0c'):
        expect('amf3', pre + h3 + '\x01\x01', ok, 'bomb-amf3',
               'length under %r' % pre)

    expect('amf3', '\x09' + h3 + '\x01' + '\x01' * 5, ok, 'bomb-amf3', 'array')
    expect('amf3', '\x0a\x9f\xff\xff\xf3\x01' + '\x03a' * 5, ok, 'bomb-amf3',
           'sealed members')
    expect('envelope', '\x00\x00\xff\xff' + '\x00\x00', ok, 'bomb-envelope',
           'headers')
    expect('envelope', '\x00\x00\x00\x00\x7f\xff' + '\x00\x00', ok,
           'bomb-envelope', 'bodies')
    expect('envelope', '\x00\x00\x00\x00\x00\x01\x00\x01a\x00\x01b' + u32(n) +
           '\x0a' + u32(n) + '\x05', ok, 'bomb-envelope', 'arguments')
    ck.count('bombs')


def nesting(r, i):
    """Deep nesting ends in a value or an ordinary error."""
    n = [50, 200, 1000, 5000, 20000][i % 5]
    v = i // 5 % 2
    data = '\x0a\x00\x00\x00\x01' * n + '\x05' if v == 0 else \
        '\x09\x03\x01' * n + '\x01'
    res = outcome('amf0' if v == 0 else 'amf3', data)
    note('nesting', data[:64] + str(n), res)
    ck.count('nesting:' + res[0])


def lines_used(kind, data):
    count = [0]

    def tracer(frame, event, arg):
        count[0] += 1
        return tracer

    sys.settrace(tracer)

    try:
        DECODERS[kind](data)
    finally:
        sys.settrace(None)

    return count[0]


def shapes(r, n):
    yield 'ints', Node('list', [Node('int', k) for k in range(n)])
    yield 'texts', Node('list', [Node('str', u'text%d' % k)
                                 for k in range(n)])
    yield 'same-text', Node('list', [Node('str', u'text') for k in range(n)])
    yield 'objects', Node('list', [Node('obj', {u'k': Node('int', k)})
                                   for k in range(n)])
    yield 'typed', Node('list', [Node('obj', {u'k': Node('int', k)},
                                      u'v.Plain') for k in range(n)])
    one = Node('list', [])
    yield 'references', Node('list', [one for k in range(n)])
    yield 'keys', Node('obj', dict((u'key%d' % k, Node('null'))
                                   for k in range(n)))
    yield 'mixed', Node('mixed', dict((u'key%d' % k, Node('null'))
                                      for k in range(n)))
    yield 'dates', Node('list', [Node('date', 1000 * k) for k in range(n)])


def scaling(r, i):
    """Executed lines grow with the length, not faster."""
    v = i % 2 * 3
    small = dict(shapes(r, 150))
    large = dict(shapes(r, 1200))

    for name in sorted(small):
        a = graphcheck.WRITE[v]([small[name]], r, gen.SEALED)
        b = graphcheck.WRITE[v]([large[name]], r, gen.SEALED)
        la = lines_used('amf%d' % v, a)
        lb = lines_used('amf%d' % v, b)

        if la < 100:
            raise vlib.Inconclusive('tracing saw %d lines' % la)

        ck.count('lines-counted', la + lb)
        ck.seen(('scaling', v, name), sample=dict(shape=name, lines=[la, lb]))
        ck.check(lb <= 8 * la * 1.6 + 2000, 'superlinear-work',
                 '%s amf%d: %d lines for 150, %d for 1200 elements' % (
                     name, v, la, lb))


def body(ck):
    global canaries
    canaries = Canaries()
    ck.require('targeted', 500)
    ck.require('errors', 500)
    ck.require('canaries', 200)
    ck.require('lines-counted', 1000)

    for k in ('ref0', 'objref', 'strref', 'traitref'):
        ck.require('dangling:' + k, 3)

    ck.run('scaling', 2, 6, scaling, 0.15)
    ck.run('bombs', 20, 300, bombs, 0.1)
    ck.run('nesting', 10, 40, nesting, 0.1)
    ck.run('direct', 14, 200, dangling_direct, 0.1)
    ck.run('markers', 400, 20000, bad_markers, 0.12)
    ck.run('refs', 400, 20000, bad_refs, 0.15)
    ck.run('truncated', 120, 6000, truncated, 0.15)
    ck.run('truncated-envelope', 80, 3000, truncated_envelope, 0.1)
    ck.run('truncated-sol', 60, 2000, truncated_sol, 0.1)
    ck.run('random', 1500, 100000, random_bytes, 0.15)
    ck.run('mutated', 2500, 150000, mutated, 0.25)
    canaries.check('the end')


vlib.main(ck, body)
