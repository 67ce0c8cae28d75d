# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C26', 'random names and maps of random value graphs written as shared '
    'objects in both encodings to streams and files (over existing ones), '
    'read back by the library and by an independent reader; shared objects '
    'written independently; damaged, truncated and unencodable ones, writers '
    'and files that fail, with the descriptors of the process watched; every '
    'case is non-trivial')
vlib.bootstrap()
import os             # noqa
import struct         # noqa
import StringIO       # noqa
import gen            # noqa
import refamf         # noqa
import graphcheck     # noqa
from gen import pyamf, Node   # noqa
from pyamf import sol, util   # noqa

gen.register()
MAGIC = '\x00\xbf'
SIGNATURE = 'TCSO\x00\x04\x00\x00\x00\x00'


def open_files():
    out = []

    try:
        names = os.listdir('/proc/self/fd')
    except OSError:
        return None

    for n in names:
        try:
            p = os.readlink('/proc/self/fd/' + n)
        except (OSError, AttributeError):
            continue

        if p.startswith(vlib.WORK + '/sol') or p == '/dev/full':
            out.append(p)

    return out


def no_open_files(what):
    got = open_files()

    if got:
        ck.violate('file-left-open', '%r after %s' % (got, what))
    elif got is not None:
        ck.count('descriptors-checked')


def gen_name(r):
    c = r.random()

    if c < 0.4:
        return gen.gen_text(r, False)
    if c < 0.5:
        return u''
    if c < 0.55:
        return u'n' * r.choice([255, 256, 65534, 65535])
    if c < 0.6:
        return u'\u4e2d' * r.choice([1, 100, 21845])

    return r.choice([u'settings', u'hello/world', u'\xe9t\xe9', u'a.b'])


class Obj(object):
    """A shared object: name and nodes by name, with the Python values."""

    def __init__(self, r, amf):
        g = gen.GraphGen(r, amf, max_nodes=r.choice([3, 10, 30]),
                         share=r.choice([0, 0.2, 0.4]),
                         big=r.random() < 0.1)
        self.name = gen_name(r)
        self.nodes = {}

        for _ in range(r.choice([0, 1, 1, 2, 3, 6])):
            k = gen_name(r) if r.random() < 0.5 else u'k%d' % r.randint(0, 9)

            if k.startswith(u'n' * 65534) and amf == 0 and len(k) > 65535:
                k = u'k'

            self.nodes[k] = g.node(0, True)

        self.amf = amf
        b = gen.Builder(r, amf)
        self.keys = sorted(self.nodes)
        self.values = dict((k, b.build(self.nodes[k])) for k in self.keys)

    def want(self):
        return graphcheck.canon_nodes(
            [self.nodes[k] for k in self.keys], self.amf, True)

    def same(self, name, values, key, what):
        if name != self.name or not isinstance(name, unicode):
            ck.violate(key + '-name', '%r for %r\n%s' % (
                name, self.name, what))
            return

        if sorted(values) != self.keys:
            ck.violate(key + '-names', '%r for %r\n%s' % (
                sorted(values), self.keys, what))
            return

        try:
            got = gen.canon_py([values[k] for k in self.keys], self.amf, True,
                               key != 'original')
        except gen.Unexpected, e:
            ck.violate(key + '-type', '%s\n%s' % (e, what))
            return

        return graphcheck.compare(ck, key + '-values', self.want(), got, what)

    def sol(self, r):
        s = sol.SOL(self.name)

        for k in self.values:
            s[k] = self.values[k]

        return s

    def describe(self):
        return 'AMF%d %r %s' % (self.amf, self.name[:50], graphcheck.expr(
            [self.nodes[k] for k in self.keys]))


def read_independently(data, amf):
    """(name, {name: node}) from the published format"""
    rd = refamf.Reader(data)

    if rd.take(2) != MAGIC:
        raise refamf.Malformed('magic')

    length = rd.u32()

    if length != len(data) - 6:
        raise refamf.Malformed('length %d of %d' % (length, len(data) - 6))
    if rd.take(10) != SIGNATURE:
        raise refamf.Malformed('signature')

    name = rd.text(rd.u16())

    if rd.take(3) != '\0\0\0':
        raise refamf.Malformed('padding')

    if rd.u8() != amf:
        raise refamf.Malformed('encoding')

    v = refamf.Amf3Reader(rd, refamf.EXT) if amf == 3 else \
        refamf.Amf0Reader(rd, refamf.EXT)
    out = {}

    while not rd.done():
        if amf == 3:
            k = v.bstr()

            if isinstance(k, str):
                k = k.decode('utf-8')
        else:
            k = v.utf()

        if k in out:
            raise refamf.Malformed('name twice')

        out[k] = v.value()

        if rd.take(1) != '\0':
            raise refamf.Malformed('padding after %r' % k)

    return name, out


def write_independently(o, r, ends=None):
    """C{ends} gets the offset of the first value, and those behind each."""
    w = refamf.Amf3Writer(r, gen.SEALED) if o.amf == 3 else \
        refamf.Amf0Writer(r, gen.SEALED)
    keys = list(o.keys)
    r.shuffle(keys)
    marks = [0]

    for k in keys:
        if o.amf == 3:
            w.bstr(k)
        else:
            w.utf(k)

        w.value(o.nodes[k])
        w.w('\0')
        marks.append(len(w.getvalue()))

    n = o.name.encode('utf-8')

    if ends is not None:
        ends.extend([22 + len(n) + m for m in marks])

    rest = SIGNATURE + struct.pack('>H', len(n)) + n + '\0\0\0' + chr(o.amf) \
        + w.getvalue()

    return MAGIC + struct.pack('>I', len(rest)) + rest


PATH = os.path.join(vlib.WORK, 'sol-file')


def slurp():
    with open(PATH, 'rb') as f:
        return f.read()


def roundtrip(r, i):
    amf = r.choice([0, 3])
    o = Obj(r, amf)
    what = o.describe()
    how = r.choice(['encode', 'stream', 'file', 'file', 'unicode', 'open',
                    'method', 'buffer'])
    path = unicode(PATH) if how == 'unicode' else PATH
    s = o.sol(r)
    kw = {} if amf == 0 and r.random() < 0.5 else {'encoding': amf}

    if how in ('file', 'unicode') and r.random() < 0.5:
        # something longer is there already
        with open(PATH, 'wb') as f:
            f.write('old' * r.choice([1, 1000, 30000]))

    if how == 'encode':
        arg = s if r.random() < 0.5 else dict(o.values)
        data = sol.encode(o.name, arg, **kw).getvalue()
    elif how == 'stream':
        f = StringIO.StringIO()
        sol.save(s, f, **kw)
        ck.check(not f.closed, 'foreign-stream-closed', what)
        data = f.getvalue()
    elif how == 'buffer':
        f = util.BufferedByteStream()
        sol.save(s, f, **kw)
        data = f.getvalue()
    elif how == 'open':
        f = open(PATH, 'wb')
        s.save(f, **kw)
        ck.check(not f.closed, 'foreign-stream-closed', what)
        f.close()
        data = slurp()
    elif how == 'method':
        s.save(path, **kw)
        data = slurp()
    else:
        sol.save(s, path, **kw)
        data = slurp()

    no_open_files('saving (%s)' % how)
    what = '%s by %s: %r' % (what, how, data[:300])

    try:
        name, nodes = read_independently(data, amf)
    except refamf.Malformed, e:
        ck.violate('malformed', '%s\n%s' % (e, what))
        return

    if name != o.name or sorted(nodes) != o.keys:
        ck.violate('written-names', '%r %r\n%s' % (name, sorted(nodes), what))
        return

    if not graphcheck.compare(
            ck, 'written-values', o.want(), graphcheck.canon_nodes(
                [nodes[k] for k in o.keys], amf, True), what):
        return

    # and back
    back = r.choice(['decode', 'stream', 'bytes', 'path', 'unicode', 'open'])

    if back in ('path', 'unicode', 'open'):
        with open(PATH, 'wb') as f:
            f.write(data)

    if back == 'decode':
        arg = data if r.random() < 0.5 else util.BufferedByteStream(data)
        res = sol.decode(arg, **({} if r.random() < 0.5 else {
            'strict': r.random() < 0.5}))
    else:
        if back == 'stream':
            f = StringIO.StringIO(data)
        elif back == 'bytes':
            f = util.BufferedByteStream(data)
        elif back == 'open':
            f = open(PATH, 'rb')
        else:
            f = PATH if back == 'path' else unicode(PATH)

        x = sol.load(f)

        if back == 'open':
            ck.check(not f.closed, 'foreign-stream-closed', what)
            f.close()

        if not isinstance(x, sol.SOL):
            ck.violate('load-type', '%r %s' % (type(x), what))
            return

        res = x.name, x

    no_open_files('loading (%s)' % back)

    if not o.same(res[0], res[1], 'read', what + ' back by ' + back):
        return

    # unchanged by all this
    o.same(s.name, s, 'original', what)
    ck.count('amf%d' % amf)
    ck.count('how:' + how)
    ck.count('back:' + back)
    ck.seen(data, sample=what[:300])


def foreign(r, i):
    """Shared objects of another writer."""
    amf = r.choice([0, 3])
    o = Obj(r, amf)
    data = write_independently(o, r)
    what = 'foreign %s %r' % (o.describe(), data[:300])
    name, values = sol.decode(data, strict=r.random() < 0.7)

    if o.same(name, values, 'foreign', what):
        ck.count('foreign')
        ck.seen(data)

        # another length is no reason to refuse it in non-strict mode
        n = struct.pack('>I', r.choice([0, 1, 0xffffffff, len(data)]))
        name, values = sol.decode(data[:2] + n + data[6:], strict=False)
        o.same(name, values, 'lenient', what)


def loader(r, data):
    """A way to read a damaged one."""
    k = r.choice(['decode', 'path', 'stream'])

    if k == 'decode':
        return k, lambda: sol.decode(data)
    if k == 'stream':
        return k, lambda: sol.load(StringIO.StringIO(data))

    with open(PATH, 'wb') as f:
        f.write(data)

    return k, lambda: sol.load(PATH)


def shortened(r, o, what):
    """The rest is missing, though the length is right, or not looked at."""
    ends = []
    data = write_independently(o, r, ends)
    end = r.choice(ends)
    size = r.choice([r.randint(22 + len(o.name.encode('utf-8')), len(data)),
                     max(0, end - 1), end])
    strict = r.random() < 0.5
    d = data[:size]

    if strict or r.random() < 0.3:
        d = d[:2] + struct.pack('>I', len(d) - 6) + d[6:]

    what = '%d of %d bytes of %s: %r' % (size, len(data), what, d[:100])

    try:
        name, values = sol.decode(d, strict=strict)
    except Exception:
        ck.count('refused:shortened')
        ck.check(size not in ends, 'refused-whole', what)
    else:
        # (between two values nothing is missing)
        if ck.check(size in ends, 'accepted:shortened', '%r %s' % (
                values, what)):
            ck.check(len(values) == ends.index(size), 'values-missing',
                     '%r %s' % (values, what))
            ck.count('cut-between-values')

    ck.seen(d, sample=what[:200])


def damage(r, i):
    amf = r.choice([0, 3])
    o = Obj(r, amf)
    data = write_independently(o, r) if r.random() < 0.3 else \
        sol.encode(o.name, o.values, encoding=amf).getvalue()
    n = len(o.name.encode('utf-8'))
    regions = {'magic': (0, 2), 'length': (2, 6), 'signature': (6, 16),
               'padding': (18 + n, 21 + n), 'encoding': (21 + n, 22 + n)}
    kind = r.choice(sorted(regions) + ['truncated', 'appended', 'lenient',
                                       'shortened'])
    what = '%s %s' % (kind, o.describe())

    if kind == 'shortened':
        shortened(r, o, what)
        return

    error = pyamf.DecodeError
    d = None

    if kind == 'truncated':
        d = data[:r.randint(0, len(data) - 1)]
        error = Exception if len(d) < 6 else pyamf.DecodeError
    elif kind == 'appended':
        d = data + ''.join([chr(r.randint(0, 255))
                            for _ in range(r.randint(1, 9))])
    elif kind == 'lenient':
        # without the length, all the rest still counts
        kind = r.choice(['magic', 'signature', 'padding'])
        a, b = regions[kind]
        p = r.randrange(a, b)
        d = data[:p] + chr(ord(data[p]) ^ r.randint(1, 255)) + data[p + 1:]

        try:
            res = sol.decode(d, strict=False)
        except pyamf.DecodeError:
            ck.count('refused:lenient')
        else:
            ck.violate('accepted:' + kind, '%r %s %r' % (res, what, d[:100]))

        ck.seen(d)
        return
    else:
        a, b = regions[kind]
        p = r.randrange(a, b)
        x = ord(data[p])
        y = r.choice([c for c in range(256) if c != x and not (
            kind == 'encoding' and c in (0, 3))])
        d = data[:p] + chr(y) + data[p + 1:]
        what = 'byte %d %02x for %02x in %s' % (p, y, x, what)

        if kind == 'encoding':
            error = Exception

    how, fn = loader(r, d)
    what = '%s by %s: %r' % (what, how, d[:100])

    try:
        res = fn()
    except error:
        ck.count('refused:' + kind)
    except Exception, e:
        ck.violate('error-type:' + kind, '%r for %s' % (e, what))
        return
    else:
        ck.violate('accepted:' + kind, '%r %s' % (res, what))
        return

    no_open_files(what)
    ck.seen(d, sample=what[:200])


class BadWriter(object):
    def __init__(self, after):
        self.left = after
        self.closed = False

    def write(self, s):
        self.left -= len(s)

        if self.left < 0:
            raise IOError('no space')

    def close(self):
        self.closed = True


class BadReader(object):
    closed = False

    def read(self, n=-1):
        raise IOError('no data')

    def close(self):
        self.closed = True


class Unencodable(object):
    """An attribute that raises."""

    x = property(lambda self: 1 // 0)


def faults(r, i):
    """Saving and loading that fails at some point."""
    amf = r.choice([0, 3])
    o = Obj(r, amf)
    s = o.sol(r)
    kind = r.choice(['unencodable', 'unencodable', 'full', 'nodir', 'isdir',
                     'writer', 'missing', 'reader', 'notastream', 'encoding',
                     'longname'])
    what = kind + ' ' + o.describe()
    before = 'previous contents' * r.randint(1, 50)

    with open(PATH, 'wb') as f:
        f.write(before)

    expect = Exception
    keep = True

    if kind == 'unencodable':
        bad = r.choice([lambda: 1, Unencodable(), iter([]), type, 1 << 2000])

        if isinstance(bad, long):
            bad = [bad]

        s[u'bad'] = r.choice([bad, [1, bad], {u'a': [bad]}])
        fn = lambda: s.save(PATH, amf)
    elif kind == 'encoding':
        fn = lambda: s.save(PATH, r.choice([1, 2, 4, 'x', None]))
    elif kind == 'longname':
        s.name = u'x' * 65536
        fn = lambda: s.save(PATH, amf)
    elif kind == 'full':
        if not os.path.exists('/dev/full'):
            return

        expect = (IOError, OSError)
        s[u'fill'] = u'x' * 100000
        fn = lambda: s.save('/dev/full', amf)
    elif kind == 'nodir':
        expect = (IOError, OSError)
        fn = lambda: s.save(os.path.join(vlib.WORK, 'sol-none', 'x'), amf)
    elif kind == 'isdir':
        expect = (IOError, OSError)
        fn = lambda: s.save(vlib.WORK, amf)
    elif kind == 'writer':
        w = BadWriter(r.randint(0, 15))
        expect = IOError

        def fn():
            try:
                s.save(w, amf)
            finally:
                ck.check(not w.closed, 'foreign-stream-closed', what)
    elif kind == 'missing':
        expect = (IOError, OSError)
        fn = lambda: sol.load(os.path.join(vlib.WORK, 'sol-missing'))
    elif kind == 'reader':
        expect = IOError
        x = BadReader()

        def fn():
            try:
                sol.load(x)
            finally:
                ck.check(not x.closed, 'foreign-stream-closed', what)
    else:
        expect = ValueError
        y = r.choice([5, None, object(), []])
        fn = r.choice([lambda: sol.load(y), lambda: s.save(y, amf)])

    try:
        fn()
    except expect:
        ck.count('fault:' + kind)
    except Exception, e:
        ck.violate('fault-error:' + kind, '%r for %s' % (e, what))
        return
    else:
        ck.violate('fault-accepted:' + kind, what)
        return

    no_open_files(what)
    ck.check(slurp() == before, 'file-lost',
             'a file was changed by a save that failed (%s)' % what)
    ck.seen((kind, what), sample=what[:200])

    # and it works the next time
    t = o.sol(r)
    t.save(PATH, amf)
    x = sol.load(PATH)
    o.same(x.name, x, 'after-fault', what)
    no_open_files(what)


def edits(r, i):
    """A shared object that is loaded, changed and saved again and again."""
    amf = r.choice([0, 3])
    model = {}
    s = sol.SOL(u'history')

    for step in range(r.randint(2, 10)):
        k = u'k%d' % r.randint(0, 4)
        c = r.random()

        if c < 0.6:
            model[k] = s[k] = r.choice([
                r.randint(-1000, 1000), gen.gen_text(r, False), [1, u'a', {
                    u'x': None}], True, 1.5, {u'd': u'e'}])
        elif c < 0.8 and k in model:
            del model[k], s[k]

        if r.random() < 0.6:
            s.save(PATH, amf)
            s = sol.load(PATH)
            amf = r.choice([0, 3])

            if dict(s) != model or s.name != u'history':
                ck.violate('history', '%r is not %r' % (s, model))
                return

            ck.count('reloads')

    no_open_files('history')
    ck.seen(repr(sorted(model.items())))


def main(ck):
    ck.run('roundtrip', 8000, 300000, roundtrip, 0.35)
    ck.run('foreign', 3000, 100000, foreign, 0.15)
    ck.run('damage', 6000, 200000, damage, 0.25)
    ck.run('faults', 3000, 60000, faults, 0.15)
    ck.run('edits', 1500, 30000, edits, 0.1)
    ck.require('amf0', 80)
    ck.require('amf3', 80)
    ck.require('foreign', 80)
    ck.require('reloads', 50)

    if open_files() is not None:
        ck.require('descriptors-checked', 500)

    for k in ('magic', 'length', 'signature', 'padding', 'encoding',
              'truncated', 'appended', 'lenient', 'shortened'):
        ck.require('refused:' + k, 20)
    for k in ('unencodable', 'nodir', 'writer', 'missing', 'reader',
              'notastream', 'encoding', 'longname'):
        ck.require('fault:' + k, 5)


vlib.main(ck, main)
