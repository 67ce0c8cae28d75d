# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C15', 'values holding dates (boundary and random ones from year 1 to '
    '9999, with microseconds, aware ones, dates without time, one date '
    'object in several places) at any depth, with timezone offsets, pass '
    'through every layer: AMF0, AMF3, AMF3 in AMF0, externalizable objects, '
    'remoting headers, requests and responses, shared objects, the WSGI and '
    'Django gateways; an independent reader takes the numbers from the '
    'wire; non-trivial: an offset is in force or the date has fractions')
vlib.bootstrap()
import gen            # noqa
import refamf         # noqa
import envelope       # noqa
import gwlib          # noqa
from gen import pyamf, Node   # noqa
import datetime, struct, sys, traceback, StringIO   # noqa
from pyamf import amf3, remoting, sol, util   # noqa
from pyamf.flex import ArrayCollection, ObjectProxy   # noqa

gen.register()
dt = datetime.datetime
td = datetime.timedelta
EPOCH = dt(1970, 1, 1)
MIN = (dt.min - EPOCH).days * 86400000000
# the last second is left out: its fractions round up to year 10000
MAX = MIN + ((dt.max - dt.min).days + 1) * 86400000000 - 1000000


class Zone(datetime.tzinfo):
    def __init__(self, minutes):
        self.minutes = minutes

    def utcoffset(self, d):
        return td(minutes=self.minutes)

    def dst(self, d):
        return td(0)

    def tzname(self, d):
        return 'Z%d' % self.minutes


def td_us(t):
    return (t.days * 86400 + t.seconds) * 1000000 + t.microseconds


def us_of(d):
    """Instant of a date, naive ones taken as UTC, in microseconds."""
    if not isinstance(d, dt):
        return (d - EPOCH.date()).days * 86400000000

    if d.tzinfo is not None:
        z = d.utcoffset()
        d = d.replace(tzinfo=None)
        return td_us(d - EPOCH) - td_us(z)

    return td_us(d - EPOCH)


def from_us(us):
    return EPOCH + td(microseconds=us)


EDGES = [0, 1, -1, 999, 1000, 1001, -999, -1000, -1001, 499, 500, 501,
         999999, 1000000, -999999, -1000000, -1500000, 1500000,
         86400000000, -86400000000, -2208988800000000, 2 ** 31 * 1000000,
         (2 ** 31 - 1) * 1000000, -2 ** 31 * 1000000, 2 ** 32 * 1000000,
         951782400000000, 1456704000000000, 1e15 and 10 ** 15,
         1609459199999999, 1230768000000000, 253402300799999999,
         -62135596800000000]
ZERO = td(0)


def gen_us(r, margin):
    lo, hi = MIN + margin, MAX - margin
    c = r.random()

    if c < 0.3:
        us = r.choice(EDGES) + r.choice([0, 0, 0, 1, -1, 1000, -1000])
    elif c < 0.5:
        us = r.randint(-10 ** 9, 10 ** 9)
    elif c < 0.8:
        us = r.randint(-2 * 10 ** 15, 4 * 10 ** 15)
    else:
        us = r.randint(lo, hi)

    if r.random() < 0.3:
        us -= us % 1000000
    if r.random() < 0.1:
        us -= us % 86400000000

    return min(max(us, lo), hi)


def gen_offset(r):
    c = r.random()

    if c < 0.25:
        return None
    if c < 0.3:
        return ZERO
    if c < 0.7:
        return td(minutes=15 * r.randint(-56, 56))
    if c < 0.85:
        return td(seconds=r.randint(-86399, 86399))
    if c < 0.95:
        return td(hours=r.randint(-72, 72))

    return td(milliseconds=r.randint(-10 ** 7, 10 ** 7))


# -- values with dates in them ----------------------------------------------

class Values(object):
    """Builds a value and lists the dates in it as path -> date."""

    def __init__(self, r, amf, margin, aware=True, bare=True, ext=True,
                 wrappers=True):
        self.r = r
        self.amf = amf
        self.margin = margin
        self.aware = aware
        self.bare = bare
        self.ext = ext
        self.wrappers = wrappers
        self.dates = {}
        self.pool = []
        self.features = set()

    def date(self):
        r = self.r

        if self.pool and r.random() < 0.2:
            self.features.add('shared')
            return r.choice(self.pool)

        d = from_us(gen_us(r, self.margin))
        c = r.random()

        if c < 0.12 and self.bare:
            d = d.date()
            self.features.add('bare')
        elif c < 0.24 and self.aware:
            day = 86400000000

            if MIN + day < us_of(d) < MAX - day:
                d = d.replace(tzinfo=Zone(r.choice([0, 60, -300, 330, 765])))
                self.features.add('aware')

        self.pool.append(d)
        return d

    def value(self, path=(), depth=0):
        r = self.r
        c = r.random()

        if depth > 4 or c < 0.3 or (depth == 0 and c < 0.4):
            d = self.date()
            self.dates[path] = d
            return d

        n = r.randint(1, 3)
        kinds = ['list', 'dict', 'obj', 'mixed', 'tuple']

        if self.amf == 3:
            kinds += ['ext', 'coll'] if self.ext else []
        elif self.ext:
            kinds += ['amf3', 'coll']

        k = r.choice(kinds)
        self.features.add(k)

        if k == 'list':
            return [self.value(path + (i,), depth + 1) for i in range(n)]
        if k == 'tuple':
            return tuple([self.value(path + (i,), depth + 1)
                          for i in range(n)])
        if k == 'coll':
            # its dates pass through AMF3
            with self.inside3():
                return ArrayCollection([
                    self.value(path + ('c', i), depth + 1)
                    for i in range(n)])
        if k == 'ext':
            return gen.Ext([self.value(path + (i,), depth + 1)
                            for i in range(n)])

        keys = ['k%d' % i for i in range(n)]

        if k == 'dict':
            return dict([(x, self.value(path + (x,), depth + 1))
                         for x in keys])
        if k == 'mixed':
            return pyamf.MixedArray([
                (x, self.value(path + (x,), depth + 1)) for x in keys])

        o = gen.Plain()

        if k == 'amf3':
            o = gen.Amf3Only()

            with self.inside3():
                for x in keys:
                    setattr(o, x, self.value(path + (x,), depth + 1))

            return o

        for x in keys:
            setattr(o, x, self.value(path + (x,), depth + 1))

        return o

    def inside3(self):
        me = self

        class C(object):
            def __enter__(self):
                self.old = me.amf
                me.amf = 3

            def __exit__(self, *a):
                me.amf = self.old

        return C()


def py_dates(v, path=(), out=None):
    out = {} if out is None else out

    if isinstance(v, dt):
        out[path] = v
    elif isinstance(v, ArrayCollection):
        for i, x in enumerate(v):
            py_dates(x, path + ('c', i), out)
    elif isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            py_dates(x, path + (i,), out)
    elif isinstance(v, gen.Ext):
        py_dates(v.items, path, out)
    elif isinstance(v, dict):
        for k, x in v.items():
            py_dates(x, path + (str(k),), out)
    elif hasattr(v, '__dict__'):
        for k, x in v.__dict__.items():
            py_dates(x, path + (str(k),), out)

    return out


def node_dates(n, path=(), out=None):
    out = {} if out is None else out

    if n.kind == 'date':
        out[path] = n.val
    elif n.kind == 'list':
        for i, x in enumerate(n.val):
            node_dates(x, path + (i,), out)
    elif n.kind == 'ext':
        if n.alias == u'flex.messaging.io.ArrayCollection':
            node_dates(n.val[0], path + ('c',), out)
        else:
            for i, x in enumerate(n.val):
                node_dates(x, path + (i,), out)
    elif n.kind in ('obj', 'mixed'):
        for k, x in n.val.items():
            node_dates(x, path + (str(k),), out)

    return out


# -- layers: (value, offset) -> nodes on the wire; wire -> value --------------

class Layer(object):
    amf = 0
    offsets = True
    ext = True

    def encode(self, v, off):
        raise NotImplementedError

    def nodes(self, data):
        raise NotImplementedError

    def decode(self, data, off):
        raise NotImplementedError


class Codec(Layer):
    def __init__(self, amf):
        self.amf = amf

    def encode(self, v, off):
        return pyamf.encode(v, encoding=self.amf,
                            timezone_offset=off).getvalue()

    def nodes(self, data):
        return {0: refamf.read_amf0, 3: refamf.read_amf3}[
            self.amf](data)[0][0]

    def decode(self, data, off):
        d = pyamf.decode(data, encoding=self.amf, timezone_offset=off)
        return d.next()


class Switched(Codec):
    """AMF0 codec that writes everything as AMF3."""

    def __init__(self):
        self.amf = 3

    def encode(self, v, off):
        e = pyamf.get_encoder(pyamf.AMF0, timezone_offset=off)
        e.use_amf3 = True
        e.writeElement(v)
        return e.stream.getvalue()

    def nodes(self, data):
        return refamf.read_amf0(data)[0][0]

    def decode(self, data, off):
        return pyamf.decode(data, encoding=0, timezone_offset=off).next()


class Stateful(Codec):
    """One encoder and decoder for several elements."""

    def encode(self, v, off):
        e = pyamf.get_encoder(self.amf, timezone_offset=off)
        e.writeElement(u'first')
        e.writeElement([dt(2000, 1, 1), v])
        return e.stream.getvalue()

    def nodes(self, data):
        return {0: refamf.read_amf0, 3: refamf.read_amf3}[
            self.amf](data)[0][1].val[1]

    def decode(self, data, off):
        d = pyamf.get_decoder(self.amf, stream=data, timezone_offset=off)
        d.readElement()
        return d.readElement()[1]


class Remoting(Layer):
    def __init__(self, version, where, strict):
        self.version = version
        self.amf = version
        self.where = where
        self.strict = strict

    def encode(self, v, off):
        e = remoting.Envelope(self.version)

        if self.where == 'header':
            e.headers['h'] = v
            e['/1'] = remoting.Request('a.b', [])
        elif self.where == 'request':
            e['/1'] = remoting.Request('a.b', [1, v])
        elif self.where == 'response':
            e['/1'] = remoting.Response(v)
        elif self.where == 'second':
            e['/0'] = remoting.Response([dt(1999, 1, 1)])
            e['/1'] = remoting.Response(v)

        return remoting.encode(e, strict=self.strict,
                               timezone_offset=off).getvalue()

    def nodes(self, data):
        e = envelope.read(data)

        if self.where == 'header':
            return e.headers[0].value
        if self.where == 'request':
            return e.bodies[0].args[1]

        return e.bodies[-1].value

    def decode(self, data, off):
        e = remoting.decode(data, strict=self.strict, timezone_offset=off)

        if self.where == 'header':
            return e.headers['h']
        if self.where == 'request':
            return e['/1'].body[1]

        return e['/1'].body


class Sol(Layer):
    offsets = False

    def __init__(self, amf):
        self.amf = amf

    def encode(self, v, off):
        return sol.encode('n', {'k': v}, encoding=self.amf).getvalue()

    def nodes(self, data):
        # 6 byte prefix, 10 byte signature, name, padding, version
        body = data[6 + 10 + 2 + 1 + 3 + 1:-1]

        rd = refamf.Reader(body)
        x = (refamf.Amf3Reader if self.amf else refamf.Amf0Reader)(
            rd, refamf.EXT)
        (x.bstr if self.amf else x.utf)()

        return x.value()

    def decode(self, data, off):
        return sol.decode(data)[1]['k']


LAYERS = {
    'amf0': Codec(0), 'amf3': Codec(3), 'use_amf3': Switched(),
    'sequence0': Stateful(0), 'sequence3': Stateful(3),
    'sol0': Sol(0), 'sol3': Sol(3),
}

for v_ in (0, 3):
    for w_ in ('header', 'request', 'response', 'second'):
        for s_ in (False, True):
            LAYERS['remoting%d-%s%s' % (v_, w_, '-strict' if s_ else '')] = \
                Remoting(v_, w_, s_)


def near(us, want):
    return abs(us - want) <= 1000


def compare(key, want, got, to_us, what):
    """want: path -> microseconds"""
    if sorted(want) != sorted(got):
        ck.violate(key + ':dates-missing', '%r\n%r\n%s' % (
            sorted(want), sorted(got), what))
        return False

    for p in sorted(want):
        g = to_us(got[p])

        if not near(g, want[p]):
            ck.violate(key, 'at %r: expected %s, got %s (%d us off)\n%s' % (
                p, show(want[p]), show(g), g - want[p], what))
            return False

    return True


def show(us):
    try:
        return repr(from_us(us))
    except Exception:
        return '%d us' % us


def naive_us(d):
    if d.tzinfo is not None:
        raise ValueError('aware result')

    return us_of(d)


def setup(r, amf, ext=True, offsets=True, **kw):
    off = gen_offset(r) if offsets else None
    margin = 0 if not off else 4 * 86400000000
    g = Values(r, amf, margin, aware=not off, ext=ext, **kw)
    v = g.value()
    o = td_us(off) if off else 0
    return off, o, g, v


def layer(r, i):
    name = sorted(LAYERS)[i % len(LAYERS)]
    L = LAYERS[name]
    off, o, g, v = setup(r, L.amf, L.ext, L.offsets)
    arg = off

    if off is not None and off.microseconds == 0 and r.random() < 0.15:
        # seconds are accepted as well
        arg = off.days * 86400 + off.seconds

    what = '%s, offset %r, %r' % (name, arg, sorted(g.dates.items())[:6])
    data = L.encode(v, arg)
    us = dict((p, us_of(d)) for p, d in g.dates.items())
    wire = dict((p, u - o) for p, u in us.items())
    compare('wire:' + kind(name), wire, node_dates(L.nodes(data)),
            lambda ms: ms * 1000, what)
    back = L.decode(data, arg)
    compare('round-trip:' + kind(name), us, py_dates(back), naive_us, what)
    plain = L.decode(data, None)
    compare('decode-utc:' + kind(name), wire, py_dates(plain), naive_us,
            what)

    for f in g.features:
        ck.count('with:' + f)

    ck.count('layer:' + name)
    ck.count('dates', len(us))

    if off:
        ck.count('offset-in-force')

    ck.seen((name, repr(arg), tuple(sorted(us.items()))),
            nontrivial=bool(off) or any([u % 1000000 for u in us.values()]),
            sample=dict(layer=name, offset=repr(arg),
                        dates=repr(sorted(g.dates.items())[:2])))


def kind(name):
    return name.split('-')[0]


# -- dates that somebody else wrote -----------------------------------------

def foreign(r, i):
    """Decoding exact numbers, fractions of milliseconds included."""
    amf = r.choice([0, 3])
    off = gen_offset(r)
    o = td_us(off) if off else 0
    us = gen_us(r, 4 * 86400000000 if off else 0)
    ms = us / 1000.0 if r.random() < 0.3 else float(us // 1000)

    if amf == 0:
        tz = r.choice([0, 0, 60, -300, 32767, -32768])
        data = '\x0b' + struct.pack('>dh', ms, tz)
    else:
        data = '\x08\x01' + struct.pack('>d', ms)

    got = pyamf.decode(data, encoding=amf, timezone_offset=off).next()
    ck.check(type(got) is dt and near(us_of(got), int(ms * 1000) + o),
             'decode-number:amf%d' % amf,
             lambda: '%r ms with offset %r gave %r' % (ms, off, got))
    ck.count('foreign-dates')
    ck.seen(('f', amf, ms, repr(off)))


# -- refusal of bare times --------------------------------------------------

def times(r, i):
    name = sorted(LAYERS)[i % len(LAYERS)]
    L = LAYERS[name]
    t = datetime.time(r.randint(0, 23), r.randint(0, 59), r.randint(0, 59),
                      r.choice([0, 1, 999999]))
    v = t

    for _ in range(r.randint(0, 3)):
        v = r.choice([lambda x: [x], lambda x: {'a': x},
                      lambda x: gen.Ext([x]) if L.amf == 3 else [1, x],
                      lambda x: (x,)])(v)

    off = r.choice([None, td(hours=5)])

    try:
        data = L.encode(v, off)
    except pyamf.EncodeError:
        ck.count('times-refused')
        ck.seen(('t', name, repr(v)))
        return
    except Exception:
        ck.violate('time-other-error:' + kind(name), '%r: %s' % (
            v, traceback.format_exc()))
        return

    ck.violate('time-encoded:' + kind(name), '%r encoded to %r' % (v, data))


# -- gateways ---------------------------------------------------------------

LOG = []


def service(x):
    LOG.append(x)
    return x


def service_http(http_request, x):
    return service(x)


def gateways(r, i):
    version = r.choice([0, 3])
    off = gen_offset(r)
    o = td_us(off) if off else 0
    margin = 4 * 86400000000
    g = Values(r, version, margin, aware=False, bare=False)
    v = g.value()
    arg = off

    if off is not None and r.random() < 0.5:
        arg = td_us(off) / 1000000.0 if off.microseconds else \
            off.days * 86400 + off.seconds

    strict = r.random() < 0.5
    which = r.choice(['wsgi', 'django', 'django-settings'])

    # the request as a client in that timezone writes it: plain UTC numbers
    e = remoting.Envelope(version)
    e['/1'] = remoting.Request('svc', [v])
    data = remoting.encode(e, strict=strict).getvalue()
    del LOG[:]

    if which == 'wsgi':
        gw = gwlib.WSGIGateway({'svc': service}, timezone_offset=arg,
                               strict=strict)
        rep = gwlib.wsgi(gw, data)
    elif which == 'django':
        m = gwlib.django_module()
        gw = m.DjangoGateway({'svc': service_http}, timezone_offset=arg,
                             strict=strict)
        rep = gwlib.django(gw, data)
    else:
        m = gwlib.django_module()

        with gwlib.Settings(AMF_TIME_OFFSET=arg):
            gw = m.DjangoGateway({'svc': service}, strict=strict,
                                 expose_request=False)

        rep = gwlib.django(gw, data)

    what = '%s, version %d, offset %r, %r' % (
        which, version, arg, sorted(g.dates.items())[:6])

    if rep.code != 200 or len(LOG) != 1:
        ck.violate('gateway-failed:' + which, '%r %r\n%s' % (
            rep.status, rep.body[:600], what))
        return

    us = dict((p, us_of(d)) for p, d in g.dates.items())
    compare('gateway-in:' + which, dict((p, u + o) for p, u in us.items()),
            py_dates(LOG[0]), naive_us, what)
    n = envelope.read(rep.body).bodies[0].value
    compare('gateway-out:' + which, us, node_dates(n),
            lambda ms: ms * 1000, what)
    ck.count('gateway:' + which)

    if off:
        ck.count('offset-in-gateway')

    ck.seen((which, repr(arg), tuple(sorted(us.items()))),
            nontrivial=bool(off))


def body(ck):
    for f in ('offset-in-force', 'with:bare', 'with:aware', 'with:shared',
              'with:ext', 'with:amf3', 'with:coll', 'foreign-dates',
              'times-refused', 'gateway:wsgi', 'gateway:django',
              'gateway:django-settings', 'offset-in-gateway'):
        ck.require(f, 20)

    for n in LAYERS:
        ck.require('layer:' + n, 5)

    ck.run('times', 10 * len(LAYERS), 60 * len(LAYERS), times, 0.05)
    ck.run('layers', 200 * len(LAYERS), 100000, layer, 0.5)
    ck.run('foreign', 15000, 300000, foreign, 0.15)
    ck.run('gateways', 3000, 60000, gateways, 0.3)


vlib.main(ck, body)
