# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C08', 'canary values and byte strings are encoded and decoded before, '
    'between and after random histories of successful and failing operations '
    '(fresh codecs, reused codecs whose context was cleared, garbage input, '
    'unencodable values, out-of-range numbers); bytes, values, inputs and '
    'the encoded objects are compared with the first time; non-trivial: the '
    'history between two comparisons contains a failure')
vlib.bootstrap()
import gen            # noqa
import graphcheck     # noqa
import refamf         # noqa
from gen import pyamf # noqa
from pyamf import amf3, flex, util, remoting, sol   # noqa
import copy, datetime, sys, traceback   # noqa


class Boom(Exception):
    pass


class Exploding(object):
    """Raises while its attributes are read."""

    class __amf__:
        static = ('aa', 'boom', 'zz')

    def __init__(self):
        self.aa = [1, 2, u'string before the failure']
        self.zz = None

    def boom(self):
        raise Boom()

    boom = property(boom)


class ExplodingExt(object):
    class __amf__:
        external = True

    def __writeamf__(self, out):
        out.writeObject({'half': u'written'})
        raise Boom()

    def __readamf__(self, inp):
        inp.readObject()
        raise Boom()


pyamf.register_class(Exploding, u'v.Exploding')
pyamf.register_class(ExplodingExt, u'v.ExplodingExt')


class Canary(object):
    """A value with its bytes, and bytes with their value."""

    def __init__(self, r):
        self.amf = r.choice([0, 3])
        self.nodes, g = graphcheck.message(
            r, self.amf, max_nodes=r.choice([6, 20, 40]), big=False)
        self.values = graphcheck.build(r, self.amf, self.nodes)
        self.before = self.shape()
        self.bytes = self.fresh()
        self.wire = graphcheck.WRITE[self.amf](self.nodes, r, gen.SEALED)
        self.want = graphcheck.canon_nodes(self.nodes, self.amf, True)

    def shape(self):
        return gen.canon_py(list(self.values), self.amf, True, False)

    def fresh(self):
        return gen.encode(self.values, self.amf)

    def compare(self, r, codecs, where):
        amf = self.amf
        what = '%s; amf%d %s' % (where, amf, graphcheck.expr(self.nodes))

        # a fresh encoder
        try:
            b = self.fresh()
        except Exception:
            ck.violate('encode-raises-later:' + graphcheck.exc(),
                       traceback.format_exc() + what)
            return

        ck.check(b == self.bytes, 'bytes-changed', lambda: 'first %r\nnow %r'
                 '\n%s' % (self.bytes[:400], b[:400], what))
        # an encoder with a past and a cleared context
        enc = codecs.encoder(amf)

        try:
            b = codecs.use_encoder(enc, self.values)
        except Exception:
            ck.violate('encode-raises-after-clear:' + graphcheck.exc(),
                       traceback.format_exc() + what)
            return

        ck.check(b == self.bytes, 'bytes-changed-after-clear',
                 lambda: 'fresh %r\nreused %r\n%s' % (
                     self.bytes[:400], b[:400], what))
        ck.check(self.shape() == self.before, 'value-modified-by-encoding',
                 lambda: '%r became %r' % (self.before, self.shape()))

        for name, data in (('own', self.bytes), ('wire', self.wire)):
            try:
                got = gen.decode(data, amf)
                ck.check(self.shape_of(got) == self.want, 'value-changed',
                         lambda: '%s\nbytes %r' % (what, data[:400]))
                got = codecs.use_decoder(codecs.decoder(amf), data, ck)
                ck.check(self.shape_of(got) == self.want,
                         'value-changed-after-clear',
                         lambda: '%s\nbytes %r' % (what, data[:400]))
                s = util.BufferedByteStream(data)
                list(pyamf.decode(s, encoding=amf))
                ck.check(s.getvalue() == data, 'input-modified',
                         lambda: what)
            except Exception:
                ck.violate('decode-raises-later:' + graphcheck.exc(),
                           traceback.format_exc() + what)

    def shape_of(self, got):
        return graphcheck.canon_values(got, self.amf, True)


class Codecs(object):
    """Long-lived codecs, as the remoting layer keeps them."""

    def __init__(self):
        self.enc = dict((v, pyamf.get_encoder(v)) for v in (0, 3))
        self.dec = dict((v, pyamf.get_decoder(v)) for v in (0, 3))

    def encoder(self, amf):
        self.enc[amf].context.clear()
        return self.enc[amf]

    def decoder(self, amf):
        self.dec[amf].context.clear()
        return self.dec[amf]

    def use_encoder(self, enc, values):
        start = len(enc.stream)
        enc.stream.seek(0, 2)

        for v in values:
            enc.writeElement(v)

        return enc.stream.getvalue()[start:]

    def use_decoder(self, dec, data, ck=None):
        out = []
        dec.stream.seek(0, 2)
        # what an earlier failure left in the stream is not this message
        dec.stream.consume()
        dec.send(data)

        for x in dec:
            out.append(x)

        return out


def bad_value(r):
    c = r.randint(0, 9)

    if c == 0:
        return sys
    if c == 1:
        return lambda: 1
    if c == 2:
        return Exploding
    if c == 3:
        return datetime.time(1, 2)
    if c == 4:
        return {u'k' * 70000: 1, u'': 2}
    if c == 5:
        return '\xff\xfe\x80'
    if c == 6:
        return ExplodingExt()
    if c == 7:
        return Exploding()
    if c == 8:
        return (x for x in [1, 2, lambda: 1])

    return {r.choice([1, 1.5, None, (1, 2)]): 1}


def wrap(r, v):
    for _ in range(r.randint(0, 4)):
        c = r.randint(0, 3)

        if c == 0:
            v = [u'before', [1], v, u'after']
        elif c == 1:
            v = {'first': u'x', 'value': v, 'z': [u'x']}
        elif c == 2:
            o = gen.Plain()
            o.a = u'early'
            o.v = v
            v = o
        else:
            m = pyamf.MixedArray()
            m[u'k'] = v
            v = m

    return v


def perturb(r, codecs, canaries):
    """One operation of the history; returns what happened."""
    amf = r.choice([0, 3])
    c = r.randint(0, 9)

    try:
        if c == 0:
            gen.encode([wrap(r, bad_value(r))], amf)
        elif c == 1:
            e = codecs.enc[amf]
            e.writeElement(wrap(r, bad_value(r)))
        elif c == 2:
            nodes, g = graphcheck.message(r, amf, max_nodes=15, big=False)
            e = codecs.enc[amf]

            for v in graphcheck.build(r, amf, nodes):
                e.writeElement(v)
        elif c == 3:
            n = r.choice([-1 - (1 << 28), 1 << 28, -(1 << 28), (1 << 28) - 1,
                          1 << 29, -(1 << 29), -5, 5, 1 << 40,
                          r.randint(-1 << 30, 1 << 30)])
            amf3.encode_int(n)
        elif c == 4:
            x = r.choice(canaries)
            data = r.choice([x.bytes, x.wire])
            k = r.randint(0, len(data))
            data = data[:k] + chr(r.randint(0, 255)) + data[k + 1:]
            gen.decode(data, x.amf)
        elif c == 5:
            x = r.choice(canaries)
            d = codecs.dec[x.amf]
            d.send(x.wire[:r.randint(0, len(x.wire))])
            list(d)
        elif c == 6:
            x = r.choice(canaries)
            gen.encode(x.values, 3 - x.amf)
        elif c == 7:
            d = ''.join([chr(r.randint(0, 17)) for _ in range(30)])
            gen.decode(d, amf)
        elif c == 8:
            env = remoting.Envelope(amf)
            env['/1'] = remoting.Request('a.b', body=[
                r.choice(canaries).values[0],
                bad_value(r) if r.random() < 0.5 else 1])
            remoting.encode(env)
        else:
            s = sol.encode('name', {'v': r.choice(canaries).values[0],
                                    'w': bad_value(r) if r.random() < 0.5
                                    else 1}, encoding=amf)
            sol.decode(s.getvalue())
    except Exception:
        return graphcheck.exc()

    return None


def case(r, i):
    codecs = Codecs()
    canaries = [Canary(r) for _ in range(6)]
    failed = 0
    ops = 0

    for step in range(r.randint(2, 6)):
        for _ in range(r.randint(1, 12)):
            f = perturb(r, codecs, canaries)
            ops += 1
            ck.count('history-operations')

            if f:
                failed += 1
                ck.count('history-failures')
                ck.count('failure:' + f)

        c = r.choice(canaries)
        c.compare(r, codecs, 'after %d operations, %d failed' % (ops, failed))
        ck.count('comparisons')
        ck.seen((i, step, c.bytes), nontrivial=failed > 0,
                sample=dict(operations=ops, failed=failed,
                            canary=c.bytes[:60]))


class Marked(dict):
    """A mapping with fixed attributes of its own."""

    class __amf__:
        static = ('mark', 'more')


class Bag(dict):
    pass


class Row(list):
    pass


class Kept(object):
    """Uses the other policies."""

    class __amf__:
        exclude = ('secret',)
        readonly = ('ro',)
        synonym = {'a': 'renamed'}
        proxy = ('px',)


class Lazy(object):
    """Says itself what is encoded."""

    class __amf__:
        static = ('prop',)
        dynamic = True

    def prop(self):
        return self.hidden

    prop = property(prop)


pyamf.register_class(Marked, u'v.Marked')
pyamf.register_class(Bag, u'v.Bag')
pyamf.register_class(Kept, u'v.Kept')
pyamf.register_class(Lazy, u'v.Lazy')


def special(r, depth, made):
    """A value of one of the kinds that are turned into another for the
    wire."""
    c = r.randint(0, 11)

    if made and r.random() < 0.15:
        return r.choice(made)
    if depth > 3 or c == 0:
        return r.choice([None, 1, 2.5, u'x', 'text', True, 1 << 40,
                         pyamf.Undefined, datetime.datetime(2020, 1, 2),
                         datetime.date(2019, 3, 4)])

    items = [special(r, depth + 1, made) for _ in range(r.randint(0, 3))]
    keys = [k for k in ('a', 'bb', u'c', 'secret', 'ro', 'px', u'dd')
            if r.random() < 0.4]
    pairs = [(k, special(r, depth + 1, made)) for k in keys]

    if c == 1:
        v = Marked(pairs)
        v['mark'] = u'fixed'
        v['more'] = items
        v.mark = u'attribute'
    elif c == 2:
        v = Bag(pairs)

        if r.random() < 0.5:
            v.attribute = items
    elif c == 3:
        v = Row(items)
        v.name = u'attribute of a list'
    elif c == 4:
        v = Kept()
        v.__dict__.update(pairs)
    elif c == 5:
        v = Lazy()
        v.hidden = items
        v.__dict__.update(pairs)
    elif c == 6:
        v = pyamf.MixedArray()
        v.update(pairs)
        v[0] = items
    elif c == 7:
        v = pyamf.ASObject(pairs)
    elif c == 8:
        v = tuple(items)
    elif c == 9:
        v = r.choice([set, frozenset])(keys)
    elif c == 10:
        v = amf3.ByteArray('abc' * r.randint(0, 30))

        if r.random() < 0.5:
            v.seek(1)
        if r.random() < 0.3:
            v.compressed = True
    else:
        v = r.choice([flex.ArrayCollection(items),
                      flex.ObjectProxy(pyamf.ASObject(pairs)),
                      flex.ObjectProxy(items)])

    made.append(v)

    return v


def everything(x, seen):
    """All there is to see of a value (its identity included)."""
    if id(x) in seen:
        return ('again', id(x))

    seen[id(x)] = x

    if x is None or isinstance(x, (int, long, float, basestring, bool,
                                   datetime.date)):
        return (type(x).__name__, repr(x))

    out = [type(x).__name__, id(x)]

    if isinstance(x, amf3.ByteArray):
        return tuple(out + [x.tell(), x.compressed, x.getvalue()])
    if isinstance(x, dict):
        out.append(sorted([(repr(k), everything(v, seen))
                           for k, v in dict.items(x)]))
    elif isinstance(x, (list, tuple)):
        out.append([everything(v, seen) for v in list(x)])
    elif isinstance(x, (set, frozenset)):
        out.append(sorted([repr(v) for v in x]))

    for k in sorted(getattr(x, '__dict__', ())):
        if k == 'length' and isinstance(x, flex.ArrayCollection):
            continue

        out.append((k, everything(x.__dict__[k], seen)))

    return tuple(out)


def unmodified(r, i):
    """Encoding, failed encoding too, changes nothing about a value."""
    made = []
    v = [special(r, 0, made) for _ in range(r.randint(1, 4))]
    fails = r.random() < 0.3

    if fails:
        v.append(sys)

    keep = {}
    before = everything(v, keep)
    log = []
    kw = dict(use_proxies=True) if r.random() < 0.3 else {}

    for step in range(r.randint(1, 3)):
        amf = r.choice([0, 3])

        try:
            b = gen.encode([v], amf, **(kw if amf == 3 else {}))
            ck.count('unmodified')
        except Exception:
            ck.count('unmodified-failures')
            b = graphcheck.exc()

        log.append((amf, b))
        after = everything(v, {})

        if before != after:
            ck.violate('value-modified-by-encoding', 'amf%d\n%r\n%r' % (
                amf, before, after))
            return

    for amf in (0, 3):
        same = set([b for a, b in log if a == amf])
        ck.check(len(same) < 2, 'bytes-changed-special', lambda: '%r\n%r' % (
            sorted(same), before))

    ck.seen(repr(log), nontrivial=fails)


def integers(r, i):
    """The integer coder gives every value its one encoding."""
    seen = []

    for _ in range(400):
        n = r.choice([0, 1, 0x7f, 0x80, 0x3fff, 0x4000, 0x1fffff, 0x200000,
                      0xfffffff, 0x10000000, -1, -2, -0x10000000,
                      -0x10000001, 0x1fffffff, 0x20000000,
                      r.randint(-1 << 29, 1 << 29)])

        if seen and r.random() < 0.5:
            n = r.choice(seen)

        seen.append(n)
        seen.append(n & 0x1fffffff)

        try:
            b = amf3.encode_int(n)
        except Exception:
            b = None

        if -0x10000000 <= n <= 0x0fffffff:
            w = refamf.u29_bytes(n & 0x1fffffff)
            ck.check(b == w, 'integer-encoding', lambda: '%d encoded as %r, '
                     'expected %r' % (n, b, w))
        else:
            ck.check(b is None, 'integer-out-of-range', lambda: '%d encoded '
                     'as %r' % (n, b))

        ck.count('integers')

    ck.seen(('ints', i))


def body(ck):
    ck.require('comparisons', 100)
    ck.require('history-failures', 100)
    ck.require('unmodified', 200)
    ck.run('unmodified', 1500, 60000, unmodified, 0.15)
    ck.run('histories', 600, 30000, case, 0.8)
    ck.run('integers', 40, 2000, integers, 0.15)


vlib.main(ck, body)
