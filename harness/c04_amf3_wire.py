# -*- coding: utf-8 -*-
import traceback
import vlib
ck = vlib.Check(
    'C04', 'random value graphs; the AMF3 bytes of the library are read by '
    'an independent reader of the format, and bytes of an independent writer '
    'making random legal choices are decoded by the library; every case is '
    'compared with the graph it denotes; all cases are non-trivial')
vlib.bootstrap()
import gen            # noqa
import refamf         # noqa
import graphcheck     # noqa


def switched(ck, r):
    """AMF3 inside AMF0, by the option of the AMF0 encoder: every element is
    an AMF3 part of its own marker, all parts share one set of tables."""
    nodes, g = graphcheck.message(r, 3)
    values = graphcheck.build(r, 3, nodes)
    want = graphcheck.canon_nodes(nodes, 3, False)
    what = 'use_amf3, graph: %s' % graphcheck.expr(nodes)

    try:
        data = gen.encode(values, 0, use_amf3=True)
    except Exception:
        ck.violate('switched-encode-raises:' + graphcheck.exc(),
                   traceback.format_exc() + what)
        return

    what += '\nbytes %r' % data[:600]
    graphcheck.note(ck, g, nodes, data)
    ck.seen(('switched', want))

    try:
        back, rd = refamf.read_amf0(data)
    except refamf.Malformed, e:
        ck.violate('malformed-switched-output', '%s\n%s' % (e, what))
        return

    if rd.nparts != [1] * len(nodes):
        ck.violate('switched-parts', 'parts %r for %d elements\n%s' % (
            rd.nparts, len(nodes), what))
        return

    graphcheck.compare(ck, 'switched-wire-value-differs', want,
                       graphcheck.canon_nodes(back, 3, False), what)

    try:
        got = graphcheck.canon_values(gen.decode(data, 0), 3, False)
    except Exception:
        ck.violate('decode-of-switched-raises:' + graphcheck.exc(),
                   traceback.format_exc() + what)
        return

    graphcheck.compare(ck, 'switched-decoded-value-differs', want, got, what)


def unshared_strings(ck, r):
    """The encoder's option to write every string in full."""
    nodes, g = graphcheck.message(r, 3)
    values = graphcheck.build(r, 3, nodes)
    want = graphcheck.canon_nodes(nodes, 3, False)
    what = 'string_references off, graph: %s' % graphcheck.expr(nodes)
    data = gen.encode(values, 3, string_references=False)
    what += '\nbytes %r' % data[:600]
    graphcheck.note(ck, g, nodes, data)
    ck.seen(('unshared', want))

    try:
        back, rd = refamf.read_amf3(data)
    except refamf.Malformed, e:
        ck.violate('malformed-unshared-output', '%s\n%s' % (e, what))
        return

    ck.check(not [e for e in rd.r.log if e[0] == 'strref'],
             'string-reference-written', what)
    graphcheck.compare(ck, 'unshared-wire-value-differs', want,
                       graphcheck.canon_nodes(back, 3, False), what)
    got = graphcheck.canon_values(gen.decode(data, 3), 3, False)
    graphcheck.compare(ck, 'unshared-decoded-value-differs', want, got, what)


def body(ck):
    ck.require('cases:encoder', 200)
    ck.require('cases:switched', 100)
    ck.require('cases:unshared-strings', 50)
    ck.require('cases:decoder', 200)
    ck.run('encoder', 5000, 150000,
           lambda r, i: graphcheck.wire_out(ck, r, 3, False), 0.4)
    ck.run('decoder', 5000, 150000,
           lambda r, i: graphcheck.wire_in(ck, r, 3, False), 0.4)
    ck.run('switched', 1500, 50000, lambda r, i: switched(ck, r), 0.12)
    ck.run('unshared-strings', 800, 20000,
           lambda r, i: unshared_strings(ck, r), 0.08)


vlib.main(ck, body)
