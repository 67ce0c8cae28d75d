# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C29', 'messages of several elements (random graphs, AMF3 parts in AMF0 '
    'included), envelopes and local shared objects, decoded in all ways '
    'while processors of several kinds (pass on, wrap, replace, decode '
    'something themselves, fail) come and go between the elements; the log '
    'of processor calls is compared with what an independent reader finds '
    'in the bytes; non-trivial: a processor is registered')
vlib.bootstrap()
import traceback      # noqa
import gen            # noqa
import graphcheck     # noqa
import envelope as E  # noqa
import refamf         # noqa
from gen import pyamf, Node   # noqa
from pyamf import remoting, sol   # noqa

gen.register()
LIST = pyamf.POST_DECODE_PROCESSORS
ck.check(LIST == [], 'processors-at-start', repr(LIST))
INNER = gen.encode([1, [2], {'a': 3}], 0), gen.encode([1, [2]], 3)


class Box(object):
    """A replaced element."""

    def __init__(self, pid, payload):
        self.pid = pid
        self.payload = payload


class Failure(Exception):
    pass


class Log(object):
    def __init__(self):
        self.calls = []      # (pid, payload, extra, result)
        self.silent = 0
        self.inner = 0
        self.fail_next = None


class Proc(object):
    def __init__(self, log, pid, kind):
        self.log = log
        self.pid = pid
        self.kind = kind

    def __call__(self, *args):
        log = self.log

        if log.silent:
            log.inner += 1
            return args[0]

        if len(args) != 2 or type(args[1]) is not dict:
            ck.violate('processor-arguments', repr(args)[:300])

        payload, extra = args
        kind = self.kind

        if log.fail_next == self.pid:
            log.calls.append((self.pid, payload, extra, None))
            log.fail_next = None
            raise Failure(self.pid)

        if kind == 'decode':
            # a decoder within a decoder
            log.silent = 1
            before = log.inner
            n = len(LIST)

            for k, amf in ((0, 0), (1, 3)):
                got = gen.decode(INNER[k], amf)
                want = [1, [2], {'a': 3}][:3 - k]

                if got != want:
                    ck.violate('nested-decode', repr(got))

            log.silent = 0

            if log.inner - before != 5 * n:
                ck.violate('nested-decode-calls', '%d calls, not %d' % (
                    log.inner - before, 5 * n))

        if kind == 'box':
            out = Box(self.pid, payload)
        elif kind == 'none':
            out = None
        elif kind == 'falsy':
            out = 0 if payload is None else []
        else:
            out = payload

        log.calls.append((self.pid, payload, extra, out))

        return out


KINDS = ['same', 'same', 'box', 'box', 'none', 'falsy', 'decode']


class World(object):
    """The processors in place, put there with the public function."""

    def __init__(self, r, kinds=KINDS):
        self.r = r
        self.kinds = kinds
        self.log = Log()
        self.ids = 0
        self.procs = []
        self.changes = 0

    def fresh(self):
        self.ids += 1
        p = Proc(self.log, self.ids, self.r.choice(self.kinds))
        c = self.r.random()

        if c < 0.2:
            q = p
            p = lambda *a: q(*a)   # noqa
        elif c < 0.3:
            p = p.__call__

        p_id = self.ids

        return p, p_id

    def add(self):
        if self.procs and self.r.random() < 0.1:
            p = self.r.choice(self.procs)
            ck.count('same-twice')
        else:
            p = self.fresh()

        pyamf.add_post_decode_processor(p[0])
        self.procs.append(p)

    def remove(self):
        k = self.r.randint(0, len(self.procs) - 1)
        del LIST[k]
        del self.procs[k]

    def change(self, p=0.3):
        r = self.r

        while r.random() < p:
            self.changes += 1

            if self.procs and r.random() < 0.5:
                self.remove()
            elif len(self.procs) < 5:
                self.add()

        if r.random() < 0.03:
            before = list(LIST)

            for bad in (None, 5, 'text', [], object()):
                try:
                    pyamf.add_post_decode_processor(bad)
                    ck.violate('not-callable', '%r was accepted' % (bad,))
                except TypeError:
                    pass

            ck.check(LIST == before, 'not-callable', 'list changed')
            ck.count('not-callable')

    def pids(self):
        return [p[1] for p in self.procs]

    def clean(self):
        del LIST[:]

    def take(self):
        c = self.log.calls
        self.log.calls = []
        return c


def chain(calls, pids, what, key='order'):
    """One element: every processor once, in order, on the result of the one
    before. Returns (first payload, last result)."""
    if [c[0] for c in calls] != pids:
        ck.violate(key, 'processors %r were called, not %r\n%s' % (
            [c[0] for c in calls], pids, what))
        return None

    for a, b in zip(calls, calls[1:]):
        if b[1] is not a[3]:
            ck.violate('chain', '%r got %r, not %r\n%s' % (
                b[0], type(b[1]), type(a[3]), what))
            return None
        if b[2] is not a[2]:
            ck.violate('extra', 'another dict\n' + what)
            return None

    return True


def element(w, calls, nparts, got, what, extra=None):
    """The calls made for one top level element with ``nparts`` AMF3 parts:
    returns what the library decoded, before processing."""
    pids = w.pids()
    k = len(pids)

    if len(calls) != k * (nparts + 1):
        ck.violate('count', '%d calls (%r) for %d elements and processors %r'
                   '\n%s' % (len(calls), [c[0] for c in calls], nparts + 1,
                             pids, what))
        return None, False
    if not k:
        return got, True

    for j in range(nparts + 1):
        if not chain(calls[j * k:(j + 1) * k], pids, what):
            return None, False

    last = calls[-k:]

    if last[-1][3] is not got:
        ck.violate('result', 'the caller got %r, not %r\n%s' % (
            type(got), type(last[-1][3]), what))
        return None, False
    if extra is not None and last[0][2] is not extra:
        ck.violate('extra', 'not the one of the decoder\n' + what)

    ck.count('elements')
    ck.count('calls', len(calls))
    ck.count('parts', nparts)

    return last[0][1], True


def message(r, i):
    amf = r.choice([0, 0, 3])
    kw = dict(max_nodes=r.choice([3, 8, 20]))
    nodes, g = graphcheck.message(r, amf, **kw)
    data = graphcheck.WRITE[amf](nodes, r, gen.SEALED)
    back, rd = graphcheck.READ[amf](data)

    if len(back) != len(nodes):
        return

    nparts = rd.nparts if amf == 0 else [0] * len(nodes)
    kinds = KINDS

    if sum(nparts) and r.random() < 0.6:
        # what replaces a part stands inside another value
        kinds = ['same', 'decode']

    w = World(r, kinds)
    what = 'AMF%d %s' % (amf, graphcheck.expr(nodes))
    dec = pyamf.get_decoder(amf, data)
    how = r.choice(['next', 'read', 'for', 'whole'])
    raw = []

    try:
        for _ in range(r.choice([0, 1, 2, 3])):
            w.add()

        if how == 'whole':
            vals = list(pyamf.decode(data, encoding=amf))
            calls = w.take()
            k = len(w.pids())
            ck.check(len(vals) == len(nodes), 'elements', what)

            for n, v in zip(nparts, vals):
                part = calls[:k * (n + 1)]
                calls = calls[k * (n + 1):]
                x, ok = element(w, part, n, v, what)

                if not ok:
                    return

                raw.append(x)

            ck.check(not calls, 'count', 'more calls\n' + what)
        else:
            it = iter(dec)

            for n in nparts:
                fail = w.pids() and r.random() < 0.05

                if fail:
                    failing(w, dec, r, n, what)
                    return

                v = dec.readElement() if how == 'read' else it.next()
                x, ok = element(w, w.take(), n, v, what, dec.context.extra)

                if not ok:
                    return

                raw.append(x)

                w.change()

            try:
                it.next()
                ck.violate('elements', 'one more\n' + what)
            except StopIteration:
                pass

            ck.check(not w.take(), 'count', 'calls at the end\n' + what)
    finally:
        w.clean()

    if not sum(nparts) or kinds != KINDS:
        # nothing was replaced inside: the first processor (or the caller)
        # got exactly what the bytes say
        graphcheck.compare(
            ck, 'payload', graphcheck.canon_nodes(nodes, amf, True),
            gen.canon_py(raw, amf, True), what)

    ck.count('changes', w.changes)
    ck.seen((what, how, w.ids), nontrivial=w.ids > 0, sample=what[:200])


def failing(w, dec, r, n, what):
    """A processor raises: the caller gets the error, the ones after it are
    not called, and the decoder goes on with the next element."""
    pids = w.pids()
    bad = r.choice(pids)
    w.log.fail_next = bad

    try:
        dec.readElement()
        ck.violate('error-lost', 'of processor %r\n%s' % (bad, what))
        return
    except Failure, e:
        ck.check(e.args == (bad,), 'error-lost', what)

    calls = [c[0] for c in w.take()]
    ck.check(calls == pids[:pids.index(bad) + 1], 'order-failing',
             '%r with %r failing in %r\n%s' % (calls, bad, pids, what))
    ck.count('failing-processors')


def replaced_parts(r, i):
    """An AMF0 array of AMF3 parts with a processor that replaces them."""
    nodes = []
    n = r.randint(1, 5)
    flags = []

    for _ in range(n):
        x = Node('num', float(r.randint(0, 99))) if r.random() < 0.3 else \
            Node('str', u's%d' % r.randint(0, 99)) if r.random() < 0.5 else \
            Node('list', [Node('num', 1.0)])
        x.amf3 = r.random() < 0.6
        flags.append(x.amf3)
        nodes.append(x)

    kind = r.choice(['list', 'obj', 'mixed'])
    names = ['k%d' % j for j in range(n)]

    if kind == 'list':
        root = Node('list', nodes)
    else:
        root = Node(kind, dict(zip([unicode(x) for x in names], nodes)))

    data = refamf.write_amf0([root, Node('bool', True)], r, gen.SEALED)
    w = World(r, ['same', 'box', 'decode'])

    try:
        for _ in range(r.choice([1, 2, 3])):
            w.add()

        # what the chain makes of a value
        v = object()

        for p in LIST:
            v = p(v, {})

        w.take()
        depth = 0

        while isinstance(v, Box):
            depth += 1
            v = v.payload

        dec = pyamf.get_decoder(0, data)
        got = dec.readElement()
        calls = w.take()
        x, ok = element(w, calls, sum(flags), got, repr(flags))

        if not ok:
            return

        vals = list(x) if kind == 'list' else [x[k] for k in names]

        for f, v, node in zip(flags, vals, nodes):
            d = 0

            while isinstance(v, Box):
                d += 1
                v = v.payload

            ck.check(d == (depth if f else 0), 'part-result',
                     'a value in %d boxes, not %d (%s)' % (
                         d, depth if f else 0, kind))
            want = node.val if node.kind != 'list' else [1.0]
            ck.check(v == want, 'part-value', '%r, not %r' % (v, want))
    finally:
        w.clean()

    ck.count('replaced-parts', sum(flags))
    ck.seen((kind, tuple(flags), depth, tuple(w.pids())),
            nontrivial=sum(flags) > 0)


def damaged(r, i):
    """Elements before the damage are processed, the failing one is not."""
    amf = r.choice([0, 3])
    nodes, g = graphcheck.message(r, amf, max_nodes=r.choice([3, 8]),
                                  amf3_in_amf0=False)
    data = graphcheck.WRITE[amf](nodes, r, gen.SEALED)
    back, rd = graphcheck.READ[amf](data)
    k = r.randint(0, len(nodes) - 1)
    c = r.random()
    last = rd.bounds[k + 1]

    if last - rd.bounds[k] < 2:
        c = 1

    if c < 0.5:
        # cut
        stop = r.randint(rd.bounds[k] + 1, last - 1)
        bad = data[:stop]
    else:
        # a reference, or a type, that does not exist
        junk = {0: ['\x07\xff\xfe', '\x20', '\x0a\0\0\0\x02\x05\x33'],
                3: ['\x09\x7e', '\x0a\x7e', '\x44', '\x09\x05\x01\x01\x44']}
        bad = data[:rd.bounds[k]] + r.choice(junk[amf])

    w = World(r)
    what = 'AMF%d %r after %d elements' % (amf, bad[rd.bounds[k]:][:40], k)

    try:
        for _ in range(r.choice([1, 2])):
            w.add()

        dec = pyamf.get_decoder(amf, bad)

        for j in range(k):
            v = dec.readElement()

            if not element(w, w.take(), 0, v, what)[1]:
                return

        for _ in range(2):
            try:
                v = dec.readElement()
            except Exception:
                ck.check(not w.take(), 'failed-element-processed', what)
            else:
                # some damage is legal (a cut inside trailing padding)
                ck.violate('no-failure', '%r\n%s' % (v, what))
                return

        ck.count('failed-elements')

        if c < 0.5 and r.random() < 0.8:
            # the rest arrives
            dec.send(data[stop:])

            for j in range(k, len(nodes)):
                v = dec.readElement()

                if not element(w, w.take(), 0, v, what)[1]:
                    return

            ck.count('resumed')
    finally:
        w.clean()

    ck.seen((what, tuple(w.pids())))


def shared_object(r, i):
    amf = r.choice([0, 3])
    g = gen.GraphGen(r, amf, max_nodes=r.choice([3, 10]), big=False)
    nodes = dict((u'k%d' % k, g.node(0, True))
                 for k in range(r.randint(0, 4)))
    b = gen.Builder(r, amf)
    keys = sorted(nodes)
    data = sol.encode('name', dict((k, b.build(nodes[k])) for k in keys),
                      encoding=amf).getvalue()
    w = World(r, ['same', 'same', 'decode', 'box'])

    try:
        for _ in range(r.choice([1, 2, 3])):
            w.add()

        name, values = sol.decode(data)
        calls = w.take()
        k = len(w.pids())
        parts = 0 if amf else data.count('\x11')

        if parts == 0:
            ck.check(len(calls) == k * len(nodes), 'sol-count',
                     '%d calls, not %d' % (len(calls), k * len(nodes)))
            results = [c[3] for c in calls[k - 1::k]]

            for j in range(len(nodes)):
                chain(calls[j * k:(j + 1) * k], w.pids(), 'sol')

            ck.check(set(map(id, results)) == set(map(id, values.values())),
                     'sol-result', repr(values)[:300])
            ck.count('sol-elements', len(nodes))
    finally:
        w.clean()

    ck.seen((tuple(keys), amf, w.ids, i))


def envelope(r, i):
    """Arguments, response values and headers are elements."""
    e = E.Env(r.choice([0, 3]))
    amf = e.version

    def graph():
        g = gen.GraphGen(r, amf, max_nodes=r.choice([2, 6]), big=False)
        n = g.node(0, True)
        n.amf3 = amf == 3 and n.amf3 or amf == 3 and r.random() < 0.5
        return n

    for k in range(r.choice([0, 0, 1, 2])):
        e.headers.append(E.Part(name=u'h%d' % k, value=Node(
            'str', u'text') if r.random() < 0.5 else Node('num', 2.0)))

    for k in range(r.choice([0, 1, 1, 2, 4])):
        b = E.Part(id=u'/%d' % k)

        if r.random() < 0.3:
            b.status = r.choice([E.RESULT, E.DEBUG])
            b.value = graph()
        else:
            b.target = u'svc.m'
            b.response = b.id
            b.args = [graph() for _ in range(r.choice([0, 1, 2, 3]))]
            b.args_amf3 = amf == 3 and r.random() < 0.3

        e.bodies.append(b)

    try:
        data = E.write(e, r, gen.SEALED)
        back = E.read(data)
    except Exception:
        # not every combination can be written
        ck.count('unwritable')
        return

    want = 0

    for p in back.headers + back.bodies:
        want += len(p.parts)

        if p.args is not None and not p.args_amf3:
            want += len(p.args)
        else:
            want += 1

    w = World(r, ['same', 'same', 'decode', 'box'])

    try:
        for _ in range(r.choice([1, 2, 3])):
            w.add()

        env = remoting.decode(data)
        calls = w.take()
        k = len(w.pids())
        what = '%d headers, %s' % (len(e.headers), [
            (b.status, len(b.args or []), b.args_amf3) for b in e.bodies])
        ck.check(len(calls) == k * want, 'envelope-count',
                 '%d calls, not %d * %d\n%s' % (len(calls), k, want, what))

        for j in range(want):
            if not chain(calls[j * k:(j + 1) * k], w.pids(), what):
                return

        # what came out last is what the caller finds
        last = set([id(c[3]) for c in calls[k - 1::k]])

        for b in back.bodies:
            m = env[b.id]
            vals = m.body if b.args is not None and not b.args_amf3 and \
                isinstance(m.body, list) else [m.body]

            for v in vals:
                # an empty list of arguments is a new one
                ck.check(id(v) in last or v == [] or not isinstance(
                    v, (list, dict, Box)), 'envelope-result',
                    '%r\n%s' % (type(v), what))

        ck.count('envelope-elements', want)
    finally:
        w.clean()

    ck.seen((data, w.ids), nontrivial=want > 0)


def main(ck):
    ck.run('messages', 4000, 80000, message, 0.45)
    ck.run('replaced-parts', 500, 10000, replaced_parts, 0.1)
    ck.run('damaged', 1500, 30000, damaged, 0.15)
    ck.run('shared-objects', 500, 8000, shared_object, 0.1)
    ck.run('envelopes', 1500, 20000, envelope, 0.2)
    ck.require('elements', 300)
    ck.require('parts', 40)
    ck.require('changes', 100)
    ck.require('failing-processors', 8)
    ck.require('failed-elements', 50)
    ck.require('resumed', 20)
    ck.require('replaced-parts', 40)
    ck.require('sol-elements', 50)
    ck.require('envelope-elements', 100)


vlib.main(ck, main)
