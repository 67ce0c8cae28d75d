# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C02', 'random value graphs (scalars with boundary values, text, dates, '
    'XML, byte arrays, lists, dicts, mixed arrays, anonymous, typed, static, '
    'slotted and externalizable objects, sharing and cycles), encoded and '
    'decoded in AMF3 and compared up to isomorphism; non-trivial: contains a '
    'container, date, byte array or XML')
vlib.bootstrap()
import gen            # noqa
import refamf         # noqa
import graphcheck     # noqa
from gen import pyamf, Node   # noqa
from pyamf import amf3        # noqa


def integers(r, i):
    """The integer encoding, dense around every length boundary."""
    base = gen.INT_EDGES[i % len(gen.INT_EDGES)]
    vals = [base + d for d in range(-70, 71)] + \
        [gen.gen_int(r) for _ in range(60)]
    back = gen.decode(gen.encode(vals, 3), 3)
    want = [refamf.num_token(v if -2 ** 28 <= v < 2 ** 28 else float(v), 3,
                             False) for v in vals]
    got = [refamf.num_token(v, 3, False) for v in back]
    ck.seen(('ints', base))
    ck.count('integers', len(vals))
    ck.check(want == got, 'integer-differs', lambda: 'near %d: %r' % (base, [
        (v, b) for v, b, w, g in zip(vals, back, want, got) if w != g][:5]))


def string_tables(r, i):
    """Many distinct strings: references of one to four bytes."""
    n = r.choice([60, 64, 65, 130, 8190, 8193])
    words = [u'w%d' % k for k in range(n)]
    vals = words + [r.choice(words) for _ in range(60)] + [words[0], words[-1]]
    nodes = [Node('list', [Node('str', v) for v in vals])]
    same(r, nodes, 'string table of %d' % n)
    ck.count('big-string-tables')


def object_tables(r, i):
    n = r.choice([60, 64, 65, 130, 8190, 8193])
    pool = [Node('obj', {u'k': Node('int', k)}) if k % 3 else
            Node('date', k * 1000) if k % 2 else
            Node('bytes', str(k)) for k in range(n)]
    order = [r.choice(pool) for _ in range(60)] + [pool[0], pool[-1]]
    same(r, [Node('list', pool + order)], 'object table of %d' % n)
    ck.count('big-object-tables')


_klasses = {}


def class_tables(r, i):
    """Many classes in one message: traits references of several bytes."""
    n = r.choice([10, 31, 32, 33, 40, 70])

    for k in range(n):
        if k not in _klasses:
            ext = k % 7 == 3
            d = {}

            if k % 3 == 1:
                d['__amf__'] = type('A', (), {'static': ('s1', 's2')})

            _klasses[k] = type('K%d' % k, (object,), d)
            pyamf.register_class(_klasses[k], 'many.K%d' % k)

    objs = []

    for k in range(n):
        o = _klasses[k]()
        o.s1, o.s2 = k, u'v%d' % k
        objs.append(o)

    for _ in range(40):
        k = r.randrange(n)
        o = _klasses[k]()
        o.s1, o.s2 = r.randrange(99), u'x'
        objs.append(o)

    back = gen.decode(gen.encode([objs], 3), 3)[0]
    ck.seen(('classes', n, r.random()))
    ck.count('big-class-tables')
    ck.check([(type(a), a.__dict__) for a in objs] ==
             [(type(a), a.__dict__) for a in back], 'class-table-differs',
             '%d classes' % n)


def same(r, nodes, what):
    values = graphcheck.build(r, 3, nodes)
    back = gen.decode(gen.encode(values, 3), 3)
    want = graphcheck.canon_nodes(nodes, 3, False)
    ck.seen(want)
    graphcheck.compare(ck, 'value-differs', want,
                       graphcheck.canon_values(back, 3, False), what)


def sequence(r, i):
    """One encoder, many elements; one decoder, iterated."""
    nodes, g = graphcheck.message(r, 3, max_nodes=60)
    values = graphcheck.build(r, 3, nodes)
    e = pyamf.get_encoder(pyamf.AMF3)

    for v in values:
        e.send(v)

    parts = [chunk for chunk in e]
    d = pyamf.get_decoder(pyamf.AMF3)
    back = []

    for chunk in parts:
        d.send(chunk)

        for x in d:
            back.append(x)

    ck.count('generator-protocol')
    want = graphcheck.canon_nodes(nodes, 3, False)
    ck.seen(('seq', want))
    graphcheck.compare(ck, 'sequence-differs', want,
                       graphcheck.canon_values(back, 3, False),
                       'elements sent one by one: %s' % graphcheck.expr(nodes))


def body(ck):
    ck.require('cases:graphs', 200)
    for f in ('date', 'xml', 'cycle', 'shared', 'mixed', 'bytes', 'ext'):
        ck.require('feature:' + f, 20)
    ck.run('integers', len(gen.INT_EDGES), 1500, integers, 0.15)
    ck.run('graphs', 6000, 200000,
           lambda r, i: graphcheck.roundtrip(ck, r, 3, False), 0.45)
    ck.run('sequence', 800, 20000, sequence, 0.15)
    ck.run('string-tables', 10, 150, string_tables, 0.1)
    ck.run('object-tables', 10, 150, object_tables, 0.1)
    ck.run('class-tables', 10, 150, class_tables, 0.1)


vlib.main(ck, body)
