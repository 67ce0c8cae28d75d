# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C01', 'random value graphs (scalars with boundary values, text, dates, '
    'XML, lists, dicts, mixed arrays, anonymous and registered objects, '
    'AMF3 parts, sharing and cycles), encoded and decoded in AMF0 and compared '
    'up to isomorphism; non-trivial: contains a container, date or XML')
vlib.bootstrap()
import gen            # noqa
import refamf         # noqa
import graphcheck     # noqa
from pyamf import amf0   # noqa
from gen import pyamf, Node   # noqa


def many_refs(r, i):
    """Back references with large numbers (two-byte boundary included)."""
    n = r.choice([250, 255, 256, 257, 300, 1000])
    pool = [Node('list', [Node('int', k)]) for k in range(n)]
    order = [r.choice(pool) for _ in range(200)]
    root = Node('list', pool + order)
    one(r, [root])


def huge_refs(r, i):
    n = 65534 + r.randint(-1, 0)
    pool = [Node('list', []) for k in range(n)]
    order = [pool[0], pool[-1], pool[n // 2], pool[r.randint(0, n - 1)]]
    one(r, [Node('list', pool + order)])


def one(r, nodes, **kw):
    b = gen.Builder(r, 0)
    values = [b.build(n) for n in nodes]
    back = gen.decode(gen.encode(values, 0), 0)
    want = graphcheck.canon_nodes(nodes, 0, True)
    ck.seen(want)
    ck.count('big-reference-tables')
    graphcheck.compare(ck, 'value-differs', want,
                       graphcheck.canon_values(back, 0, True), 'many refs')


def sequence(r, i):
    """One encoder, many elements; one decoder, iterated."""
    nodes, g = graphcheck.message(r, 0, max_nodes=60)
    b = gen.Builder(r, 0)
    values = [b.build(n) for n in nodes]
    e = pyamf.get_encoder(pyamf.AMF0)
    parts = []

    for v in values:
        e.send(v)

    for chunk in e:
        parts.append(chunk)

    d = pyamf.get_decoder(pyamf.AMF0)
    back = []

    for chunk in parts:
        d.send(chunk)

        for x in d:
            back.append(x)

    ck.count('generator-protocol')
    want = graphcheck.canon_nodes(nodes, 0, True)
    ck.seen(('seq', want))
    graphcheck.compare(ck, 'sequence-differs', want,
                       graphcheck.canon_values(back, 0, True),
                       'elements sent one by one: %s' % graphcheck.expr(nodes))


def recordset(r, i):
    """The record set class: one member, made of four attributes."""
    texts = [u'', u'a', u'id', u'h\xe9', u'\u4e2d', gen.gen_text(r, False)]
    nc = r.choice([0, 1, 3])
    columns = [r.choice(texts) for _ in range(nc)]
    items = [[r.choice([None, True, 5, 0.5, -1, r.choice(texts)])
              for _ in range(nc)] for _ in range(r.choice([0, 1, 4]))]
    kw = {}

    if r.random() < 0.6:
        kw['service'] = {'name': r.choice(texts)}
    if r.random() < 0.6:
        kw['id'] = r.choice(texts + [12])

    amf = r.choice([0, 0, 3])
    rs = amf0.RecordSet(columns, items, **kw)
    what = 'AMF%d %r %r %r' % (amf, columns, items, kw)
    data = gen.encode([[rs, rs]], amf)
    n = graphcheck.READ[amf](data)[0][0].val[0]
    ck.check(n.alias == u'RecordSet' and list(n.val) == [u'serverInfo'],
             'recordset-wire', lambda: '%r %s' % (n, what))
    info = n.val[u'serverInfo'].val
    ck.check(info[u'totalCount'].val == len(items) and
             info[u'cursor'].val == 1 and info[u'version'].val == 1,
             'recordset-info', lambda: '%r %s' % (info, what))
    a, b = gen.decode(data, amf)[0]
    text = (lambda x: x if x is None else unicode(x))
    ck.check(a is b and type(a) is amf0.RecordSet and
             norm((a.columns, a.items)) == norm((columns, items)) and
             a.service == kw.get('service') and a.id == text(kw.get('id')),
             'recordset-differs', lambda: '%r %s' % (a.__dict__, what))
    ck.count('recordsets')
    ck.seen(('recordset', what))


def norm(x):
    if isinstance(x, (list, tuple)):
        return map(norm, x)

    if isinstance(x, str):
        x = x.decode('utf-8')

    return repr(float(x)) if type(x) in (int, long, float) else repr(x)


def body(ck):
    ck.require('recordsets', 50)
    ck.require('cases:graphs', 200)
    for f in ('date', 'xml', 'cycle', 'shared', 'mixed', 'amf3-in-amf0'):
        ck.require('feature:' + f, 20)
    ck.run('graphs', 6000, 200000,
           lambda r, i: graphcheck.roundtrip(ck, r, 0, True), 0.55)
    ck.run('sequence', 800, 20000, sequence, 0.15)
    ck.run('recordsets', 400, 5000, recordset, 0.05)
    ck.run('many-refs', 12, 200, many_refs, 0.15)
    ck.run('huge-refs', 1, 4, huge_refs, 0.1)


vlib.main(ck, body)
