# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C19', 'random envelopes (AMF0, AMF3 and other low versions; headers, '
    'requests, responses, faults; shared and cyclic values), encoded and read '
    'by an independent reader and by the decoder, envelopes of an independent '
    'writer decoded, damaged lengths and dangling references refused, and '
    'histories of the envelope containers; non-trivial: has a header or body')
vlib.bootstrap()
import struct         # noqa
import sys            # noqa
import traceback      # noqa
import gen            # noqa
import refamf         # noqa
import graphcheck     # noqa
import envelope as E  # noqa
from gen import pyamf, Node   # noqa
from pyamf import remoting, util   # noqa

gen.register()
STATUS = {E.RESULT: remoting.STATUS_OK, E.STATUS: remoting.STATUS_ERROR,
          E.DEBUG: remoting.STATUS_DEBUG}


def text(r, used):
    while True:
        t = r.choice([u'/%d' % r.randint(0, 50), u'svc.method', u'null', u'',
                      u'a/b', u'/onResult/x', gen.gen_text(r, False),
                      gen.gen_text(r, False), u'h\xe9\u4e2d',
                      u'x' * r.choice([1, 100, 300])])

        if r.random() < 0.01:
            t = r.choice([u'y', u'\xe9', u'\u4e2d'])
            t *= 65500 // len(t.encode('utf-8')) - r.randint(0, 2)

        if t not in used and not t.endswith(E.KINDS):
            used.add(t)
            return t


def graph(r, amf, n):
    g = gen.GraphGen(r, amf, max_nodes=r.choice([3, 8, 20]),
                     share=r.choice([0, 0.2, 0.5]), big=r.random() < 0.2)
    out = [g.node(0, True) for _ in range(n)]

    for f in g.features:
        ck.count('feature:' + f)

    return out


FAULT = [u'code', u'type', u'details', u'description']


def make(r):
    e = E.Env(r.choice([0, 0, 0, 3, 3, 3, 1, 2]))
    amf = 3 if e.version == 3 else 0
    used = set()

    for _ in range(r.choice([0, 0, 1, 2, 5])):
        e.headers.append(E.Part(name=text(r, used),
                                required=r.random() < 0.4,
                                value=graph(r, amf, 1)[0]))

    used = set()

    for _ in range(r.choice([0, 1, 1, 2, 3, 6])):
        b = E.Part(id=text(r, used))

        if r.random() < 0.5:
            b.status = r.choice([E.RESULT, E.RESULT, E.STATUS, E.DEBUG])

            if b.status == E.STATUS:
                b.value = Node('obj', {})

                for k in FAULT:
                    b.value.val[k] = graph(r, amf, 1)[0] \
                        if r.random() < 0.3 else \
                        Node('str', gen.gen_text(r, False))

                b.value.val[u'level'] = Node('str', u'error')
            else:
                b.value = graph(r, amf, 1)[0]
        else:
            b.target = text(r, set())
            b.args = graph(r, amf, r.choice([0, 1, 1, 2, 5]))
            b.response = b.id

        e.bodies.append(b)

    return e, amf


def cut(s):
    return s if len(s) < 1500 else s[:1500] + '...'


def describe(e):
    out = ['version %d' % e.version]

    for h in e.headers:
        out.append('header %r required=%r %s' % (
            h.name[:40], h.required, cut(repr(refamf.canon_node(h.value)))))
    for b in e.bodies:
        out.append('body id=%r target=%r status=%r %s' % (
            b.id[:40], (b.target or u'')[:40], b.status, cut(repr(
                refamf.canon_node(b.value or Node('list', b.args))))))

    return '\n'.join(out)


def build(r, e, amf):
    msg = remoting.Envelope(e.version)
    anyname = lambda u: r.choice([u, u.encode('utf-8')])

    for h in e.headers:
        name = anyname(h.name)
        msg.headers[name] = gen.Builder(r, amf).build(h.value)

        if h.required:
            msg.headers.set_required(name)
        elif r.random() < 0.2:
            msg.headers.set_required(name)
            msg.headers.set_required(name, False)

    for b in e.bodies:
        bb = gen.Builder(r, amf)

        if b.status:
            v = bb.build(b.value)

            if b.status == E.STATUS:
                v = remoting.ErrorFault(**dict(
                    (str(k), v[k]) for k in FAULT))

            msg[b.id] = remoting.Response(v, status=STATUS[b.status])
        else:
            args = [bb.build(a) for a in b.args]
            msg[b.id if r.random() < 0.5 else b.id.encode('utf-8')] = \
                remoting.Request(b.target, body=args)

    return msg


def list_node(b):
    return Node('list', b.args)


def check_read(e, amf, data, strict, what):
    """The bytes, as an independent reader sees them."""
    try:
        got = E.read(data)
    except refamf.Malformed, x:
        ck.violate('malformed', '%s\n%s\n%r' % (x, what, data[:800]))
        return False

    if got.version != e.version:
        ck.violate('version', what)
        return False

    # the order of headers carries no meaning
    want = dict((h.name, h) for h in e.headers)

    if sorted(want) != sorted([h.name for h in got.headers]):
        ck.violate('header-names', what)
        return False

    for h in got.headers:
        w = want[h.name]

        if bool(w.required) != h.required:
            ck.violate('header-required', '%r %s' % (h.name, what))
            return False
        if h.length != (h.actual if strict else 0):
            ck.violate('header-length', '%d for %d, strict=%s\n%s' % (
                h.length, h.actual, strict, what))
            return False

        d = refamf.first_difference(refamf.canon_node(w.value, amf, True),
                                    refamf.canon_node(h.value, amf, True))

        if d:
            ck.violate('header-value', '%s\n%s' % (d, what))
            return False

    if len(got.bodies) != len(e.bodies):
        ck.violate('body-count', what)
        return False

    for w, g in zip(e.bodies, got.bodies):
        if w.status != g.status or w.id != g.id or (
                w.status and g.response != u'null') or (
                not w.status and w.target != g.target):
            ck.violate('body-address', 'id %r target %r response %r\n%s' % (
                g.id, g.target, g.response, what))
            return False
        if g.length != (g.actual if strict else 0):
            ck.violate('body-length', '%d for %d, strict=%s\n%s' % (
                g.length, g.actual, strict, what))
            return False

        a, b = (w.value, g.value) if w.status else (
            list_node(w), list_node(g))
        d = refamf.first_difference(refamf.canon_node(a, amf, True),
                                    refamf.canon_node(b, amf, True))

        if d:
            ck.violate('body-value', '%s\n%s' % (d, what))
            return False

    return True


def check_decoded(e, amf, msg, what):
    if not isinstance(msg, remoting.Envelope) or \
            msg.amfVersion != e.version:
        ck.violate('decoded-version', '%r %s' % (msg.amfVersion, what))
        return

    if sorted(msg.headers) != sorted([h.name for h in e.headers]):
        ck.violate('decoded-header-names', '%r %s' % (list(msg.headers), what))
        return

    for h in e.headers:
        if msg.headers.is_required(h.name) != bool(h.required):
            ck.violate('decoded-header-required', '%r %s' % (h.name, what))
            return

        if value(h.value, msg.headers[h.name], amf, 'header', what):
            return

    if [k for k, _ in msg] != [b.id for b in e.bodies] or \
            len(msg) != len(e.bodies):
        ck.violate('decoded-order', '%r %s' % ([k for k, _ in msg], what))
        return

    for b, (name, m) in zip(e.bodies, msg):
        ck.check(m.envelope is msg and m.headers is msg.headers,
                 'decoded-parent', what)

        if not b.status:
            if type(m) is not remoting.Request or m.target != b.target:
                ck.violate('decoded-target', '%r %s' % (m, what))
                return
            if not isinstance(m.body, (list, tuple)):
                ck.violate('decoded-arguments', '%r %s' % (m, what))
                return
            if value(list_node(b), list(m.body), amf, 'arguments', what):
                return

            ck.count('requests')
            continue

        if type(m) is not remoting.Response or m.status != STATUS[b.status]:
            ck.violate('decoded-status', '%r %s' % (m, what))
            return

        ck.count('responses')

        if b.status == E.STATUS and b.value.kind == 'obj' and \
                not b.value.alias:
            f = m.body
            ck.count('faults')

            if not isinstance(f, remoting.ErrorFault) or f.level != 'error':
                ck.violate('decoded-fault', '%r %s' % (type(f), what))
                return

            want = Node('obj', dict((k, v) for k, v in b.value.val.items()
                                    if k in FAULT))
            for k in FAULT:
                want.val.setdefault(k, Node('str', u''))

            got = pyamf.ASObject(code=f.code, type=f.type, details=f.details,
                                 description=f.description)
            # which node comes first does not matter
            if value(want, got, amf, 'fault', what):
                return
        elif value(b.value, m.body, amf, 'result', what):
            return


def value(node, got, amf, kind, what):
    try:
        c = gen.canon_py(got, amf, True)
    except gen.Unexpected, x:
        ck.violate('decoded-type:' + kind, '%s\n%s' % (x, what))
        return True

    d = refamf.first_difference(refamf.canon_node(node, amf, True), c)

    if d:
        ck.violate('decoded-value:' + kind, '%s\n%s' % (d, what))

    return bool(d)


def decode(data, strict, what, r):
    if r.random() < 0.5:
        data = util.BufferedByteStream(data)

    try:
        return remoting.decode(data, strict=strict)
    except Exception:
        ck.violate('decode-raises:' + sys.exc_info()[0].__name__,
                   'strict=%s\n%s\n%s' % (strict, traceback.format_exc(),
                                          what))


def out(r, i):
    e, amf = make(r)
    strict = r.random() < 0.5
    msg = build(r, e, amf)
    what = 'strict=%s %s' % (strict, describe(e))

    try:
        stream = remoting.encode(msg, strict=strict)
    except Exception:
        ck.violate('encode-raises:' + sys.exc_info()[0].__name__,
                   traceback.format_exc() + what)
        return

    ck.check(stream.tell() == 0, 'stream-position', what)
    data = stream.getvalue()
    ck.count('encoded')
    ck.count('strict' if strict else 'loose')
    ck.seen(data, sample=dict(envelope=what[:300], bytes=data[:80]),
            nontrivial=bool(e.headers or e.bodies))

    if not check_read(e, amf, data, strict, what):
        return

    back = decode(data, strict, what, r)

    if back is not None:
        check_decoded(e, amf, back, what)

    # once more
    d2 = remoting.encode(msg, strict=strict).getvalue()
    ck.check(len(d2) == len(data), 'encode-again', what)


def through_amf3(e):
    for p in e.headers + e.bodies:
        for n in (p.args or []) + ([p.value] if p.value else []):
            n.amf3 = True


def foreign(r, i):
    e, amf = make(r)

    for b in e.bodies:
        if b.status == E.STATUS:
            for k in FAULT + [u'level']:
                if r.random() < 0.2:
                    b.value.val.pop(k, None)
            if r.random() < 0.2:
                b.value = Node(r.choice(['null', 'undef']))
        if b.args is not None and amf == 3 and r.random() < 0.5:
            b.args_amf3 = True
            ck.count('arguments-in-amf3')
        if b.status and r.random() < 0.3:
            b.response = r.choice([u'', u'null', u'x'])

    if amf == 3:
        through_amf3(e)

    lengths = r.choice(['right', 'zero', 'unknown'])
    data = E.write(e, r, gen.SEALED, True, lengths)
    what = 'lengths %s %s\n%r' % (lengths, describe(e), data[:800])
    chk = E.read(data)

    if [h.name for h in chk.headers] != [h.name for h in e.headers] or \
            [b.id for b in chk.bodies] != [b.id for b in e.bodies]:
        raise vlib.Inconclusive('reference envelope codec: ' + what)

    ck.count('foreign:' + lengths)
    ck.seen(data, nontrivial=bool(e.headers or e.bodies))
    back = decode(data, lengths == 'right' and r.random() < 0.5, what, r)

    if back is not None:
        check_decoded(e, amf, back, what)


def refused(data, strict, errors, key, what):
    try:
        got = remoting.decode(data, strict=strict)
    except errors:
        ck.count('refused')
    except Exception:
        ck.violate(key + '-error', traceback.format_exc() + what)
    else:
        ck.violate(key, '%r\n%s' % (got, what))


def strict_damage(r, i):
    """One wrong length, or data behind the last part."""
    e, amf = make(r)

    if amf == 3:
        through_amf3(e)

    parts = len(e.headers) + len(e.bodies)
    data = E.write(e, r, gen.SEALED)
    what = describe(e)

    if not parts or r.random() < 0.2:
        extra = ''.join([chr(r.randint(0, 255))
                         for _ in range(r.choice([1, 2, 50]))])
        refused(data + extra, True, (RuntimeError, pyamf.DecodeError),
                'trailing-data', what)
        # which non-strict decoding ignores
        back = decode(data + extra, False, what, r)

        if back is not None:
            check_decoded(e, amf, back, what)

        ck.seen(data, nontrivial=False)
        return

    k = r.randrange(parts)
    delta = r.choice([-1, 1, 1, 2, 5, -3, 256, 65536, None])
    data = damaged(e, r, k, delta)
    refused(data, True, (pyamf.DecodeError,), 'wrong-length',
            'part %d by %r\n%s\n%r' % (k, delta, what, data[:400]))
    ck.seen(data)


def damaged(e, r, k, delta):
    """The envelope ``e`` with the length of part ``k`` changed."""
    good = E.write(e, r, gen.SEALED)
    pos = positions(good, len(e.headers), len(e.bodies))[k]
    n = struct.unpack('>I', good[pos:pos + 4])[0]
    m = 0 if delta is None else max(0, n + delta)

    if m == n:
        m = n + 1

    return good[:pos] + struct.pack('>I', m) + good[pos + 4:]


def positions(data, headers, bodies):
    """Offsets of the length fields of a well-formed envelope."""
    out = []
    pos = 4
    u16 = lambda p: struct.unpack('>H', data[p:p + 2])[0]
    u32 = lambda p: struct.unpack('>I', data[p:p + 4])[0]

    for _ in range(headers):
        pos += 2 + u16(pos) + 1
        out.append(pos)
        pos += 4 + u32(pos)

    pos += 2

    for _ in range(bodies):
        pos += 2 + u16(pos)
        pos += 2 + u16(pos)
        out.append(pos)
        pos += 4 + u32(pos)

    assert pos == len(data)
    return out


def part(target, response, payload):
    return E.utf(target) + E.utf(response) + struct.pack(
        '>I', len(payload)) + payload


def dangling(r, i):
    """A reference into an earlier body or header is no value."""
    amf = r.choice([0, 3])
    strict = r.random() < 0.5
    n = r.randint(1, 4)
    kind = r.choice(['object', 'string', 'traits'] if amf == 3
                    else ['object'])

    if amf == 0:
        first = '\x0a\x00\x00\x00\x01' + '\x03\x00\x01k\x05\x00\x00\x09'
        second = '\x0a\x00\x00\x00\x01' + '\x07\x00' + chr(r.randint(0, n))
        value0 = '\x03\x00\x01k\x05\x00\x00\x09'
        value1 = '\x07\x00\x00'
    else:
        value0 = '\x11\x09\x05\x01\x0a\x0b\x01\x03k\x01\x01\x06\x09name'
        value1 = '\x11' + {
            'object': '\x0a' + chr(r.randint(0, 1) << 1),
            'string': '\x06' + chr(r.randint(0, 1) << 1),
            'traits': '\x0a\x01\x01'}[kind]
        first = '\x0a\x00\x00\x00\x01' + value0
        second = '\x0a\x00\x00\x00\x01' + value1

    style = r.choice(['bodies', 'headers', 'header-body', 'responses'])
    head, bodies = [], []

    for k in range(n):
        if style in ('headers', 'header-body'):
            head.append(E.utf(u'h%d' % k) + '\x00' + struct.pack(
                '>I', len(value0)) + value0)
        elif style == 'responses':
            bodies.append(part(u'/%d/onResult' % k, u'null', value0))
        else:
            bodies.append(part(u's.m', u'/%d' % k, first))

    if style == 'headers':
        head.append(E.utf(u'hx') + '\x00' + struct.pack(
            '>I', len(value1)) + value1)
    elif style == 'responses':
        bodies.append(part(u'/x/onResult', u'null', value1))
    else:
        bodies.append(part(u's.m', u'/x', second))

    data = struct.pack('>HH', amf, len(head)) + ''.join(head) + \
        struct.pack('>H', len(bodies)) + ''.join(bodies)
    refused(data, strict, (pyamf.ReferenceError,), 'dangling-' + kind,
            '%s %r' % (style, data))
    ck.count('dangling:' + style)
    ck.seen(data)

    # the same without the last part is fine
    if style == 'bodies':
        good = struct.pack('>HHH', amf, 0, n) + ''.join(bodies[:-1])
        back = decode(good, strict, repr(good), r)
        ck.check(back is None or len(back) == n, 'dangling-good', repr(good))


def containers(r, i):
    """Envelope and HeaderCollection against a list and a dict."""
    env = remoting.Envelope(r.choice([0, 3]))
    model, hmodel, req = [], {}, set()
    names = [u'/1', u'/2', u'a', u'']
    log = []

    for _ in range(r.randint(3, 25)):
        name = r.choice(names)
        op = r.choice(['set', 'set', 'get', 'bad', 'hset', 'hreq', 'hnreq'])
        log.append((op, name))
        what = repr(log)

        if op == 'set':
            m = remoting.Request('t', [1]) if r.random() < 0.5 else \
                remoting.Response(1)
            env[name] = m
            keys = [k for k, _ in model]

            if name in keys:
                model[keys.index(name)] = (name, m)
            else:
                model.append((name, m))

            ck.check(m.envelope is env, 'container-parent', what)
        elif op == 'get':
            try:
                got = env[name]
            except KeyError:
                got = None

            ck.check(got is dict(model).get(name), 'container-get', what)
        elif op == 'bad':
            try:
                env[name] = {'not': 'a message'}
            except TypeError:
                pass
            else:
                ck.violate('container-accepts', what)
        elif op == 'hset':
            env.headers[name] = hmodel[name] = r.randint(0, 9)
        else:
            try:
                if op == 'hreq':
                    env.headers.set_required(name)
                else:
                    env.headers.set_required(name, False)
            except KeyError:
                ck.check(name not in hmodel, 'header-unknown', what)
            else:
                ck.check(name in hmodel, 'header-unknown', what)
                (req.add if op == 'hreq' else req.discard)(name)

        ok = list(env) == model and len(env) == len(model) and \
            env.keys() == [k for k, _ in model] and \
            list(env.items()) == model and list(env.iteritems()) == model
        ck.check(ok, 'container-order', what)
        ck.check(all([(k in env) == (k in dict(model)) for k in names]),
                 'container-contains', what)
        ck.check(bool(env) == bool(model or hmodel), 'container-truth', what)
        ck.check(dict(env.headers) == hmodel and
                 len(env.headers) == len(hmodel), 'headers', what)

        for k in names:
            try:
                q = env.headers.is_required(k)
            except KeyError:
                ck.check(k not in hmodel, 'header-unknown', what)
            else:
                ck.check(k in hmodel and q == (k in req), 'header-required',
                         what)

    # equality: of the same version, headers and messages
    def same(m):
        if isinstance(m, remoting.Request):
            return remoting.Request(m.target, list(m.body))

        return remoting.Response(m.body, m.status)

    for kind in ('same', 'version', 'header', 'more', 'less', 'message',
                 'target', 'status', 'name'):
        twin = remoting.Envelope(env.amfVersion)
        twin.headers.update(hmodel)
        want = kind == 'same'

        for k, m in model:
            twin[k] = same(m)

        last = twin.bodies[-1] if twin.bodies else None

        if kind == 'version':
            twin.amfVersion = 3 - env.amfVersion
        elif kind == 'header':
            twin.headers[u'another'] = 1
        elif kind == 'more':
            twin[u'another'] = remoting.Response(1)
        elif last is None:
            continue
        elif kind == 'less':
            twin.bodies.pop()
        elif kind == 'message':
            last[1].body = [u'other']
        elif kind == 'target':
            if not isinstance(last[1], remoting.Request):
                continue

            last[1].target = u'other'
        elif kind == 'status':
            if not isinstance(last[1], remoting.Response):
                continue

            last[1].status = 11
        elif kind == 'name':
            twin.bodies[-1] = (u'another', last[1])

        if kind != 'same':
            want = False

        ck.check(bool(env == twin) == want, 'container-equal',
                 '%s: %s' % (kind, what))
        ck.check(bool(twin == env) == want, 'container-equal',
                 '%s: %s' % (kind, what))

    if len(model) > 0:
        d = dict(model)
        ck.check(bool(env == d), 'container-equal', 'dict: ' + what)
        del d[model[0][0]]
        ck.check(not env == d, 'container-equal', 'dict: ' + what)
        d[u'another'] = model[0][1]
        ck.check(not env == d, 'container-equal', 'dict: ' + what)
        d = dict(model)
        d[model[-1][0]] = remoting.Response(u'other')
        ck.check(not env == d, 'container-equal', 'dict: ' + what)

        # neither a request nor a response
        odd = remoting.Envelope(env.amfVersion)
        odd[u'/1'] = remoting.Message(odd, [])

        try:
            remoting.encode(odd)
        except TypeError:
            pass
        else:
            ck.violate('container-accepts', 'a bare Message is encoded')

    ck.count('container-histories')
    ck.seen(repr(log))


def main(ck):
    ck.require('encoded', 150)
    ck.require('strict', 50)
    ck.require('loose', 50)
    ck.require('faults', 30)
    ck.require('requests', 100)
    ck.require('responses', 100)
    ck.require('refused', 100)
    ck.require('arguments-in-amf3', 20)
    ck.require('container-histories', 50)

    for k in ('right', 'zero', 'unknown'):
        ck.require('foreign:' + k, 30)

    for k in ('bodies', 'headers', 'header-body', 'responses'):
        ck.require('dangling:' + k, 10)

    ck.run('out', 4000, 100000, out, 0.36)
    ck.run('foreign', 4000, 100000, foreign, 0.27)
    ck.run('strict_damage', 1500, 30000, strict_damage, 0.15)
    ck.run('dangling', 600, 5000, dangling, 0.08)
    ck.run('containers', 600, 5000, containers, 0.08)


vlib.main(ck, main)
