# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C07', 'messages of several elements (random graphs, written by the '
    'library or by an independent writer) cut into pieces at random offsets '
    'and fed to one decoder, by send/next, iteration or readElement; after '
    'every piece the elements obtained, the reported lack of data and the '
    'stream position are compared with those of the whole message; '
    'non-trivial: a cut lies inside an element')
vlib.bootstrap()
import gen            # noqa
import graphcheck     # noqa
import refamf         # noqa
from gen import pyamf # noqa
import traceback      # noqa

NODATA = object()


def make(r, amf):
    nodes, g = graphcheck.message(r, amf, big=r.random() < 0.1)

    if r.random() < 0.5:
        data = graphcheck.WRITE[amf](nodes, r, gen.SEALED)
    else:
        data = gen.encode(graphcheck.build(r, amf, nodes), amf)

    back, rd = graphcheck.READ[amf](data)

    if len(back) != len(nodes):
        return None

    return nodes, g, data, rd.bounds[1:]


def attempt(dec, how):
    """One attempt to get the next element."""
    if how == 0:
        try:
            return dec.next()
        except (StopIteration, IOError):
            return NODATA
    if how == 1:
        try:
            return dec.readElement()
        except (pyamf.EOStream, IOError):
            return NODATA

    try:
        for x in dec:
            return x
    except IOError:
        pass

    return NODATA


def pieces(r, data, bounds):
    c = r.random()

    if c < 0.25 and len(data) < 300:
        cuts = range(1, len(data))
    elif c < 0.35:
        cuts = [b for b in bounds if 0 < b < len(data)]
    elif c < 0.5:
        # right at, before or after the ends of elements
        cuts = set()

        for b in bounds:
            for d in (-1, 0, 1):
                if r.random() < 0.5 and 0 < b + d < len(data):
                    cuts.add(b + d)

        cuts = sorted(cuts)
    else:
        k = min(len(data) - 1, r.choice([1, 1, 2, 3, 8, 30]))
        cuts = sorted(set([r.randint(1, len(data) - 1)
                           for _ in range(k)])) if k > 0 else []

    out = []
    prev = 0

    for c in cuts + [len(data)]:
        out.append(data[prev:c])
        prev = c

    return out


def case(r, i):
    amf = r.choice([0, 3])
    made = make(r, amf)

    if made is None:
        return

    nodes, g, data, bounds = made
    want = graphcheck.canon_nodes(nodes, amf, True)
    what = 'amf%d %s\nbytes %r' % (amf, graphcheck.expr(nodes), data[:500])
    parts = pieces(r, data, bounds)
    dec = pyamf.get_decoder(amf)
    how = r.randint(0, 2)
    got = []
    fed = 0
    inside = 0
    retries = r.choice([0, 0, 1, 2])
    log = []

    for part in parts:
        if r.random() < 0.05:
            dec.send('')

        dec.send(part)
        fed += len(part)
        ready = len([b for b in bounds if b <= fed])
        start = bounds[ready - 1] if ready else 0
        inside += fed > start
        # an attempt may be left out: data piles up
        if part is not parts[-1] and r.random() < 0.2:
            continue

        while 1:
            try:
                x = attempt(dec, r.randint(0, 2) if how == 2 else how)
            except Exception:
                ck.violate('attempt-raises:' + graphcheck.exc(),
                           '%s%d bytes fed\n%s' % (
                               traceback.format_exc(), fed, what))
                return

            if x is NODATA:
                break

            got.append(x)
            ck.count('elements')

            if len(got) > len(bounds):
                ck.violate('too-many-elements', what)
                return

            if not ck.check(
                    dec.stream.tell() == bounds[len(got) - 1],
                    'position-after-element',
                    lambda: 'position %d, element ends at %d\n%s' % (
                        dec.stream.tell(), bounds[len(got) - 1], what)):
                return

        ck.count('lack-of-data')

        if not ck.check(len(got) == ready, 'element-not-delivered',
                        lambda: '%d elements complete, %d delivered after %d '
                        'bytes\n%s' % (ready, len(got), fed, what)):
            return

        if not ck.check(dec.stream.tell() == start, 'position-not-restored',
                        lambda: 'position %d, next element starts at %d, '
                        '%d bytes fed\n%s' % (
                            dec.stream.tell(), start, fed, what)):
            return

        for _ in range(retries):
            # asking again without more data changes nothing
            x = attempt(dec, how)
            ck.check(x is NODATA and dec.stream.tell() == start,
                     'repeated-attempt', lambda: what)
            ck.count('repeated-attempts')

    ck.count('cuts', len(parts) - 1)
    ck.count('cuts-inside-elements', inside)
    ck.seen((data, tuple([len(p) for p in parts])), nontrivial=inside > 0,
            sample=dict(bytes=data[:60], pieces=[len(p) for p in parts][:20]))

    try:
        have = graphcheck.canon_values(got, amf, True)
    except gen.Unexpected, e:
        ck.violate('result-type', '%s\n%s' % (e, what))
        return

    graphcheck.compare(ck, 'incremental-differs', want, have,
                       'pieces %s\n%s' % ([len(p) for p in parts][:60], what))

    for f in g.features:
        ck.count('feature:' + f)


def every_cut(r, i):
    """One message, cut once at every offset."""
    amf = i % 2 * 3
    nodes = data = None

    while not data or len(data) > 400:
        made = make(r, amf)

        if made:
            nodes, g, data, bounds = made

    want = graphcheck.canon_nodes(nodes, amf, True)

    for c in range(1, len(data)):
        dec = pyamf.get_decoder(amf)
        got = []
        dec.send(data[:c])

        while 1:
            x = attempt(dec, 1)

            if x is NODATA:
                break

            got.append(x)

        start = ([0] + [b for b in bounds if b <= c])[-1]
        ck.check(dec.stream.tell() == start, 'position-not-restored',
                 lambda: 'cut at %d: position %d, not %d: %r' % (
                     c, dec.stream.tell(), start, data))
        dec.send(data[c:])

        while 1:
            x = attempt(dec, 1)

            if x is NODATA:
                break

            got.append(x)

        ck.count('cuts')
        ck.count('cuts-inside-elements', c not in bounds)
        ck.seen((data, c), nontrivial=c not in bounds)

        if not graphcheck.compare(
                ck, 'incremental-differs', want,
                graphcheck.canon_values(got, amf, True),
                'cut at %d of %r' % (c, data)):
            return


def body(ck):
    ck.require('elements', 200)
    ck.require('cuts-inside-elements', 200)
    ck.require('repeated-attempts', 50)
    ck.run('pieces', 4000, 150000, case, 0.6)
    ck.run('every-cut', 60, 3000, every_cut, 0.3)


vlib.main(ck, body)
