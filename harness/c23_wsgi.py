# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C23', 'random methods, bodies (valid batches, truncated, damaged, '
    'garbage, failing at any stage) and headers through the WSGI gateway '
    'under a validating server, in histories on one gateway, some through '
    'wsgiref.validate, some over real HTTP connections; every case is '
    'non-trivial')
vlib.bootstrap()
import sys            # noqa
import socket         # noqa
import logging        # noqa
import threading      # noqa
import wsgiref.validate        # noqa
import wsgiref.simple_server   # noqa
import gen            # noqa
import refamf         # noqa
import gwlib          # noqa
import gwmodel as M   # noqa
import envelope as E  # noqa
from gen import pyamf, Node   # noqa
from pyamf import remoting    # noqa

gen.DATE_MARGIN = 86400000

OTHER = ['GET', 'PUT', 'HEAD', 'DELETE', 'OPTIONS', 'TRACE', 'PATCH', 'post',
         'Post', 'POSTS', '', 'M-SEARCH', 'PROPFIND']


class BadGetter(object):
    def x(self):
        raise ValueError('getter')

    x = property(x)


class BadSetter(object):
    def _set(self, value):
        raise ValueError('setter')

    x = property(lambda self: 1, _set)


pyamf.register_class(BadGetter, 'c23.Getter')
pyamf.register_class(BadSetter, 'c23.Setter')


class Sink(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.n = 0

    def emit(self, record):
        self.format(record)
        self.n += 1


def logger(r):
    if r.random() < 0.6:
        return None

    log = logging.Logger('c23')
    log.addHandler(Sink())
    return log


class Gate(object):
    def __init__(self, r):
        self.w = M.World()
        self.strict = r.random() < 0.4
        services = self.w.services()
        services['unencodable'] = lambda *a: (lambda: 1)
        services['getter'] = lambda *a: BadGetter()
        self.kw = dict(debug=r.random() < 0.4, strict=self.strict,
                       logger=logger(r))

        if r.random() < 0.2:
            self.kw['timezone_offset'] = r.choice([0, 3600, -7200])

        self.app = gwlib.WSGIGateway(services, **self.kw)


def contract(rep, what, codes, announced):
    """What every answer must look like."""
    if rep.problems:
        ck.violate('protocol', '%r %s' % (rep.problems, what))
        return False
    if rep.code not in codes:
        ck.violate('status', '%s, expected %r: %r\n%s' % (
            rep.status, codes, rep.body[:600], what))
        return False

    ct = rep.header('Content-Type')
    cl = rep.header('Content-Length')

    if len(ct) != 1 or not ct[0]:
        ck.violate('content-type', '%r %s' % (rep.headers, what))
        return False
    if cl != [str(len(rep.body))]:
        ck.violate('content-length', '%r but %d bytes: %r\n%s' % (
            cl, len(rep.body), rep.body[:300], what))
        return False
    if rep.code == 200 and ct[0] != 'application/x-amf':
        ck.violate('content-type', '%r %s' % (rep.headers, what))
        return False
    if rep.code != 200 and ct[0] == 'application/x-amf':
        ck.violate('content-type', '%r %s' % (rep.headers, what))
        return False
    if announced is not None and rep.input.pos != announced:
        ck.violate('body-read', 'read %d of %d bytes\n%s' % (
            rep.input.pos, announced, what))
        return False

    return True


def malformed(body):
    try:
        E.read(body)
    except Exception:
        return True


def amf(rep, what, version=None, ids=None, kind=None, body=None):
    """A 200 body is an AMF message."""
    try:
        got = E.read(rep.body)
    except refamf.Malformed, x:
        if kind in ('damaged', 'garbage', 'strings') and malformed(body):
            # (names that are no UTF-8 are passed on as the bytes they are)
            ck.count('bytes-passed-on')
            return E.Env(ord(rep.body[1]))

        ck.violate('malformed-response', '%s\n%r\n%s' % (
            x, rep.body[:600], what))
        return

    if version is not None and got.version != version:
        ck.violate('version', '%d for %d\n%s' % (got.version, version, what))
        return
    if ids is not None and [b.id for b in got.bodies] != ids:
        ck.violate('responses', '%r for %r\n%s' % (
            [b.id for b in got.bodies], ids, what))
        return

    return got


def lengths(gate, rep, got, what):
    """In strict mode the lengths inside the answer are right as well."""
    if gate.strict:
        for b in got.bodies:
            if b.length != b.actual:
                ck.violate('inner-length', '%d of %d\n%s' % (
                    b.length, b.actual, what))
                return


def batch(r, gate):
    g = M.BatchGen(r, big=r.random() < 0.1)
    e, reqs = g.batch(r.choice([0, 1, 1, 2, 3, 6]))

    for q in reqs:
        if q.kind == 'amf0' and e.version != 3:
            gate.w.amf[q.mid] = 0

    return g, e, reqs


KINDS = ['valid'] * 5 + [
    'method', 'method', 'empty', 'garbage', 'truncated', 'truncated',
    'damaged', 'damaged', 'badversion', 'othervsn', 'marker', 'reference',
    'trailing', 'extra', 'short', 'length', 'response', 'unencodable',
    'getter', 'setter', 'strings', 'headers', 'manybodies']


def case(r, i):
    gate = Gate(r)

    for turn in range(r.choice([1, 2, 3, 5])):
        kind = r.choice(KINDS)

        if not one(r, gate, kind):
            return

        # (whatever happened, the next valid request is served)
        if kind != 'valid' and not one(r, gate, 'valid'):
            return


def one(r, gate, kind):
    g, e, reqs = batch(r, gate)
    data = g.write(e)
    codes = (200,)
    extra = {}
    announced = None
    method = 'POST'
    judge = False
    body = None

    if kind == 'valid':
        judge = True
    elif kind == 'method':
        method = r.choice(OTHER)
        codes = (400,)
        body = r.choice([data, '', 'x'])
    elif kind == 'empty':
        body, codes = '', (400,)
    elif kind == 'garbage':
        body = ''.join([chr(r.randint(0, 255))
                        for _ in range(r.randint(1, 60))])
        codes = (200, 400, 500)
    elif kind == 'truncated':
        # (every proper prefix of an envelope lacks something)
        body, codes = data[:r.randint(0, len(data) - 1)], (400,)
    elif kind == 'damaged':
        body = list(data)

        for _ in range(r.choice([1, 1, 2, 5])):
            p = r.randrange(len(body))
            c = r.random()

            if c < 0.5:
                body[p] = chr(r.randint(0, 255))
            elif c < 0.75 and len(body) > 1:
                del body[p]
            else:
                body.insert(p, chr(r.randint(0, 255)))

        body = ''.join(body)
        codes = (200, 400, 500)
    elif kind == 'badversion':
        body = chr(r.randint(1, 255)) + data[1:] if r.random() < 0.5 else \
            data[0] + chr(r.randint(10, 255)) + data[2:]
        codes = (400,)
    elif kind == 'othervsn':
        e = E.Env(r.choice([1, 2, 4, 9]))
        b = E.Part(id=u'/1', target=u'echo', args=[M.i(3), M.s(u'a')])
        b.response = b.id
        e.bodies = [b]
        body = g.write(e)
    elif kind == 'marker':
        # an argument of no known type
        body = '\x00\x00\x00\x00\x00\x01\x00\x04echo\x00\x02/1\0\0\0\0' \
            '\x0a\x00\x00\x00\x01' + r.choice('\x04\x0e\x12\x20\x7f\xff') + \
            'abcdefgh'
        codes = (400,)
    elif kind == 'reference':
        body = '\x00\x03\x00\x00\x00\x01\x00\x04echo\x00\x02/1\0\0\0\0' \
            '\x0a\x00\x00\x00\x01' + r.choice([
                '\x07\x00\x09', '\x11\x0a\x0e', '\x11\x09\x0e',
                '\x11\x06\x0e', '\x11\x0a\x05'])
        codes = (400,)
    elif kind == 'trailing':
        body = data + r.choice(['\x00', 'abc', data])
        codes = (400, 500) if gate.strict else (200,)
    elif kind == 'extra':
        # more on the connection than belongs to this request
        body = data + r.choice(['x', 'POST / HTTP/1.1\r\n', data])
        announced = len(data)
        judge = True
    elif kind == 'short':
        body = data[:r.randint(0, len(data) - 1)]
        announced = len(data)
        codes = (400,)
    elif kind == 'length':
        extra['CONTENT_LENGTH'] = r.choice(
            ['', 'abc', '-5', '-1', '1e3', '0x10', None, '0', '+', '1 2'])
        announced = 0
        codes = (400,)
    elif kind == 'response':
        b = E.Part(id=u'/1', status=r.choice(E.KINDS), value=M.i(1))
        b.target = u''
        b.response = u'null'
        e.bodies.insert(r.randint(0, len(e.bodies)), b)
        body = g.write(e)
        codes = (200, 400, 500)
    elif kind in ('unencodable', 'getter'):
        b = E.Part(id=u'/z', target=unicode(kind), args=[])
        b.response = b.id
        e.bodies.append(b)
        body = g.write(e)
        codes = (500,) if kind == 'getter' else (200, 500)
    elif kind == 'setter':
        b = E.Part(id=u'/z', target=u'echo', args=[
            M.i(1), Node('obj', {u'x': M.i(1)}, u'c23.Setter')])
        b.response = b.id
        e.bodies.append(b)
        body = g.write(e)
        codes = (500,)
    elif kind == 'strings':
        body = '\x00\x03\x00\x00\x00\x01\x00\x04echo\x00\x02/1\0\0\0\0' \
            '\x0a\x00\x00\x00\x01' + r.choice([
                '\x02\x00\x02\xff\xfe', '\x11\x06\x05\xff\xfe',
                '\x0f\x00\x00\x00\x02<a', '\x11\x07\x05<a'])
        codes = (200, 400, 500)
    elif kind == 'headers':
        extra = r.choice([
            {'CONTENT_TYPE': None}, {'CONTENT_TYPE': 'text/plain'},
            {'CONTENT_TYPE': ''}, {'HTTP_ACCEPT': 'text/html'},
            {'QUERY_STRING': 'a=b&c'}, {'PATH_INFO': '/x/../y'},
            {'HTTP_CONTENT_ENCODING': 'identity'},
            {'wsgi.multithread': False}, {'HTTP_EXPECT': '100-continue'},
            {'SCRIPT_NAME': '/app', 'PATH_INFO': ''}])
        judge = True
    elif kind == 'manybodies':
        e = E.Env(0)

        for n in range(r.choice([50, 300])):
            b = E.Part(id=u'/%d' % n, target=u'echo', args=[M.i(n)])
            b.response = b.id
            e.bodies.append(b)

        body = g.write(e)

    if body is None:
        body = data

    del gate.w.log[:]
    what = '%s %r strict=%s %r\n%r' % (
        kind, method, gate.strict, extra, body[:500])

    app = gate.app
    validated = kind in ('valid', 'truncated', 'setter') and r.random() < 0.2

    if validated:
        app = wsgiref.validate.validator(app)
        extra['QUERY_STRING'] = 'x'
        ck.count('validated')

    try:
        rep = gwlib.wsgi(app, body, method, extra, announced)
    except AssertionError, x:
        ck.violate('protocol', 'wsgiref.validate: %s\n%s' % (x, what))
        return
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception, x:
        ck.violate('raised', '%r\n%s' % (x, what))
        return

    want = None

    if method == 'POST':
        want = len(body) if announced is None else min(announced, len(body))

    if not contract(rep, what, codes, want):
        return

    if rep.code == 200:
        ids = None

        if kind not in ('garbage', 'damaged', 'response', 'strings',
                        'trailing'):
            ids = [b.id for b in e.bodies]

        got = amf(rep, what, ord(body[1]), ids, kind, body)

        if got is None:
            return

        lengths(gate, rep, got, what)

        if judge and 'timezone_offset' not in gate.kw and not M.judge(
                ck, e, reqs, rep.body, list(gate.w.log), what):
            return

    # (a request that is refused as a whole executes nothing)
    if rep.code == 400 and gate.w.log:
        ck.violate('executed', '%r\n%s' % (gate.w.log, what))
        return

    ck.count('status:%d' % rep.code)
    ck.count('kind:' + kind)
    ck.seen((kind, method, rep.code, body), sample=what[:300])

    return True


class Handler(wsgiref.simple_server.WSGIRequestHandler):
    def log_message(self, *args):
        pass


def raw(port, data, chunks):
    """Sends bytes in pieces, reads all there is."""
    c = socket.create_connection(('127.0.0.1', port), 30)
    out = []

    try:
        for p in chunks:
            c.sendall(p)

        while True:
            s = c.recv(65536)

            if not s:
                break

            out.append(s)
    finally:
        c.close()

    return ''.join(out)


def http(r, i):
    """The gateway behind a real server, on the loopback network."""
    gate = Gate(r)

    try:
        server = wsgiref.simple_server.make_server(
            '127.0.0.1', 0, gate.app, handler_class=Handler)
    except (socket.error, IOError):
        ck.count('no-network')
        return

    n = r.choice([2, 4, 8])
    port = server.server_address[1]
    errors = []

    def serve():
        try:
            for _ in range(n):
                server.handle_request()
        except Exception, x:
            errors.append(x)

    t = threading.Thread(target=serve)
    t.setDaemon(True)
    t.start()

    for _ in range(n):
        g, e, reqs = batch(r, gate)
        data = g.write(e)
        kind = r.choice(['valid', 'valid', 'truncated', 'get'])
        del gate.w.log[:]

        if kind == 'truncated':
            data = data[:r.randint(0, len(data) - 1)]

        head = '%s / HTTP/1.0\r\nHost: localhost\r\nContent-Type: ' \
            'application/x-amf\r\nContent-Length: %d\r\n\r\n' % (
                'GET' if kind == 'get' else 'POST', len(data))
        msg = head + data
        k = r.randint(0, len(msg))
        what = 'http %s %r' % (kind, data[:300])

        try:
            answer = raw(port, msg, [msg[:k], msg[k:]])
        except socket.error, x:
            ck.count('socket-errors')
            return

        top, _, body = answer.partition('\r\n\r\n')
        lines = top.split('\r\n')
        code = int(lines[0].split()[1])
        got = [x.split(':', 1)[1].strip() for x in lines[1:]
               if x.lower().startswith('content-length:')]
        ck.check(got == [str(len(body))], 'http-length', '%r %d %s' % (
            got, len(body), what))
        ck.check(code == (200 if kind == 'valid' else 400), 'http-status',
                 '%s %s' % (lines[0], what))

        if kind == 'valid':
            if 'timezone_offset' not in gate.kw:
                M.judge(ck, e, reqs, body, list(gate.w.log), what)

        ck.count('http:' + kind)
        ck.seen((kind, data))

    t.join(30)
    server.server_close()
    ck.check(not errors, 'server-failed', repr(errors))


def main(ck):
    ck.run('requests', 6000, 200000, case, 0.85)
    ck.run('http', 150, 5000, http, 0.15)

    for k in set(KINDS):
        ck.require('kind:' + k, 8)
    for k in (200, 400, 500):
        ck.require('status:%d' % k, 30)

    ck.require('validated', 15)


vlib.main(ck, main)
