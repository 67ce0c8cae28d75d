# -*- coding: utf-8 -*-
"""The round-trip and wire-format cases shared by C01..C04."""

import traceback

import gen
import refamf
import vlib
from gen import pyamf

gen.register()


def message(r, amf, **kw):
    c = r.random()
    args = dict(max_nodes=r.choice([4, 10, 25, 60]),
                share=r.choice([0.0, 0.1, 0.25, 0.5]))

    if c < 0.04:
        args['max_nodes'] = 400

    args.update(kw)
    g = gen.GraphGen(r, amf, **args)

    return g.message(), g


def canon_nodes(nodes, amf, loose):
    # one identity numbering over all top-level values of the message
    root = refamf.Node('list', nodes)
    return refamf.canon_node(root, amf, loose)


def canon_values(values, amf, loose):
    return gen.canon_py(list(values), amf, loose)


def note(ck, g, nodes, data):
    for f in g.features:
        ck.count('feature:' + f)

    if len(nodes) > 1:
        ck.count('feature:several-elements')

    ck.count('nodes', sum([refamf.size(n) for n in nodes]))
    ck.count('bytes', len(data))


def expr(nodes):
    s = repr(canon_nodes(nodes, 0, True))
    return s if len(s) < 1500 else s[:1500] + '...'


def compare(ck, key, want, got, what):
    d = refamf.first_difference(want, got)

    if d:
        ck.violate(key, '%s\n%s' % (d, what))
        return False

    return True


def roundtrip(ck, r, amf, loose, **kw):
    nodes, g = message(r, amf, **kw)
    values = [v for v in build(r, amf, nodes)]
    what = 'graph: %s' % expr(nodes)

    try:
        data = gen.encode(values, amf)
    except Exception:
        ck.violate('encode-raises:' + exc(), traceback.format_exc() + what)
        return

    try:
        back = gen.decode(data, amf)
    except Exception:
        ck.violate('decode-of-own-bytes-raises:' + exc(),
                   traceback.format_exc() + what + '\nbytes %r' % data[:600])
        return

    note(ck, g, nodes, data)
    want = canon_nodes(nodes, amf, loose)
    ck.seen(want, sample=dict(value=expr(nodes)[:300], bytes=data[:80]),
            nontrivial=any([n.kind in refamf.COMPLEX for n in nodes]))

    if len(back) != len(nodes):
        ck.violate('element-count', 'encoded %d elements, decoded %d\n%s' % (
            len(nodes), len(back), what))
        return

    try:
        got = canon_values(back, amf, loose)
    except gen.Unexpected, e:
        ck.violate('result-type', '%s\n%s' % (e, what))
        return

    compare(ck, 'value-differs', want, got, what + '\nbytes %r' % data[:600])


def build(r, amf, nodes):
    b = gen.Builder(r, amf)
    return [b.build(n) for n in nodes]


def exc():
    import sys
    return sys.exc_info()[0].__name__


READ = {0: refamf.read_amf0, 3: refamf.read_amf3}
WRITE = {0: refamf.write_amf0, 3: refamf.write_amf3}


def wire_out(ck, r, amf, loose, **kw):
    """The encoder's bytes, read by the independent reader."""
    nodes, g = message(r, amf, **kw)
    values = build(r, amf, nodes)
    what = 'graph: %s' % expr(nodes)

    try:
        data = gen.encode(values, amf)
    except Exception:
        ck.violate('encode-raises:' + exc(), traceback.format_exc() + what)
        return

    note(ck, g, nodes, data)
    want = canon_nodes(nodes, amf, loose)
    ck.seen(('out', want), sample=dict(direction='encoder to reference reader',
                                       bytes=data[:80]))

    try:
        back, rd = READ[amf](data)
    except refamf.Malformed, e:
        ck.violate('malformed-output', '%s\n%s\nbytes %r' % (
            e, what, data[:800]))
        return

    for k in rd.kinds:
        ck.count('marker-out:%02x' % k)

    if len(back) != len(nodes):
        ck.violate('element-count-on-wire', '%d elements, expected %d\n%s' % (
            len(back), len(nodes), what))
        return

    compare(ck, 'wire-value-differs', want,
            canon_nodes(back, amf, loose), what + '\nbytes %r' % data[:600])


def wire_in(ck, r, amf, loose, **kw):
    """A legal encoding by the reference writer, decoded by the library."""
    nodes, g = message(r, amf, **kw)
    what = 'graph: %s' % expr(nodes)
    data = WRITE[amf](nodes, r, gen.SEALED)
    back, rd = READ[amf](data)
    want = canon_nodes(nodes, amf, loose)
    d = refamf.first_difference(want, canon_nodes(back, amf, loose))

    if d:
        raise vlib.Inconclusive('reference codec disagrees with itself: %s' % d)

    for k in rd.kinds:
        ck.count('marker-in:%02x' % k)

    note(ck, g, nodes, data)
    ck.seen(('in', data), sample=dict(
        direction='reference writer to decoder', bytes=data[:80]))

    try:
        back = gen.decode(data, amf)
    except Exception:
        ck.violate('decode-of-legal-bytes-raises:' + exc(),
                   traceback.format_exc() + what + '\nbytes %r' % data[:800])
        return

    if len(back) != len(nodes):
        ck.violate('element-count-decoded', '%d elements, expected %d\n%s' % (
            len(back), len(nodes), what))
        return

    try:
        got = canon_values(back, amf, loose)
    except gen.Unexpected, e:
        ck.violate('result-type', '%s\n%s' % (e, what))
        return

    compare(ck, 'decoded-value-differs', want, got,
            what + '\nbytes %r' % data[:800])
