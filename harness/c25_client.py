# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C25', 'random histories of client operations (calls, queued requests, '
    'removals, batches, headers, credentials) against a scripted transport '
    'that reads requests independently and answers in any order, with '
    'faults, compression, redirections, damage and HTTP failures; every '
    'history is non-trivial')
vlib.bootstrap()
import StringIO       # noqa
import gzip           # noqa
import sys            # noqa
import urllib2        # noqa
import gen            # noqa
import refamf         # noqa
import gwmodel as M   # noqa
import envelope as E  # noqa
from gen import pyamf, Node   # noqa
from pyamf import remoting    # noqa
from pyamf.remoting import client   # noqa


class MyError(Exception):
    pass


class OtherError(pyamf.BaseError):
    pass


CODES = {u'My.Error': MyError, u'Other': OtherError,
         u'Server.Call.Failed': remoting.RemotingCallFailed,
         u'Nobody.Knows': remoting.RemotingError,
         u'TypeError': TypeError, u'KeyError': KeyError,
         u'LookupError': LookupError}
pyamf.add_error_class(MyError, 'My.Error')
pyamf.add_error_class(OtherError, 'Other')


class Headers(object):
    def __init__(self, d):
        self.d = dict((k.lower(), v) for k, v in d.items())

    def getheader(self, name, default=None):
        return self.d.get(name.lower(), default)


class Body(object):
    def __init__(self, data, headers):
        self.s = StringIO.StringIO(data)
        self.headers = Headers(headers)

    def info(self):
        return self.headers

    def read(self, n=-1):
        return self.s.read(n)

    def close(self):
        pass


class Server(object):
    """Reads what arrives and answers by the script of the case."""

    def __init__(self, r, version, strict):
        self.r = r
        self.version = version
        self.strict = strict
        self.seen = []
        self.answers = {}       # id -> (kind, node)
        self.mode = None
        self.extra = []
        self.headers = []

    def __call__(self, req):
        r = self.r
        env = E.read(req.get_data())
        self.seen.append((req, env))
        mode = self.mode

        if mode == 'urlerror':
            raise urllib2.URLError('unreachable')
        if mode == 'httperror':
            raise urllib2.HTTPError(req.get_full_url(), r.choice(
                [400, 404, 500, 503]), 'failed', {}, StringIO.StringIO('x'))

        out = E.Env(self.version)
        out.headers = self.headers
        bodies = []

        for b in env.bodies:
            kind, node = self.answer(b)
            bodies.append(E.Part(id=b.id, status=kind, value=node))

        if mode == 'missing' and bodies:
            bodies.pop(r.randrange(len(bodies)))

        for k in range(r.choice([0, 0, 0, 1, 2])):
            # answers nobody asked for
            bodies.append(E.Part(id=u'/%d' % r.randint(900, 999),
                                 status=r.choice(E.KINDS),
                                 value=M.s(u'stray')))

        if len(dict((b.id, 1) for b in bodies)) != len(bodies):
            bodies = bodies[:len(env.bodies)]

        r.shuffle(bodies)
        out.bodies = bodies
        data = E.write(out, r, gen.SEALED, True,
                       'right' if self.strict else r.choice(
                           ['right', 'zero', 'unknown']))
        heads = {'Content-Type': r.choice([
            'application/x-amf', 'application/x-amf', 'application/x-amf; '
            'charset=utf-8', ' application/x-amf'])}

        if mode == 'type':
            heads['Content-Type'] = r.choice([
                'text/html', 'application/x-amf2', '', 'x-amf',
                'text/html; application/x-amf', None])

            if heads['Content-Type'] is None:
                del heads['Content-Type']
        if mode == 'truncated':
            data = data[:r.randrange(len(data))]
        if mode is None and r.random() < 0.25 or mode == 'badzip':
            f = StringIO.StringIO()
            z = gzip.GzipFile(fileobj=f, mode='wb')
            z.write(data)
            z.close()
            data = f.getvalue()
            heads['Content-Encoding'] = r.choice(['gzip', 'GZIP', ' gzip'])
            ck.count('compressed')

            if mode == 'badzip':
                data = data[:r.randrange(len(data) - 9)]

        c = r.random()

        if mode == 'announced':
            heads['Content-Length'] = str(r.randrange(len(data)))
        elif c < 0.5:
            heads['Content-Length'] = str(len(data))
            # what follows belongs to somebody else
            data += r.choice(['', '', 'HTTP/1.1 200 OK\r\n'])

        return Body(data, heads)

    def answer(self, b):
        if b.id not in self.answers:
            r = self.r
            g = gen.GraphGen(r, 3 if self.version == 3 else 0,
                             max_nodes=r.choice([2, 8]), big=False)

            if r.random() < 0.7:
                n = g.node(0, True)
                kind = E.RESULT
            else:
                kind = E.STATUS
                n = Node('obj', {
                    u'level': M.s(u'error'),
                    u'code': M.s(r.choice(sorted(CODES))),
                    u'type': M.s(u''),
                    u'details': r.choice([Node('null'), M.s(u'det')]),
                    u'description': M.s(r.choice(
                        [u'', u'went wrong', u'h\xe9 \u4e2d']))})

            if self.version == 3:
                n.amf3 = True

            self.answers[b.id] = (kind, n)

        return self.answers[b.id]


MODES = [None] * 14 + ['urlerror', 'httperror', 'type', 'truncated',
                       'badzip', 'announced', 'missing']
# what the failure is reported as; everything else is any exception
REMOTING = ('urlerror', 'httperror', 'type')
SERVICES = ['svc', 'a.b', 'echo']
METHODS = ['run', 'stop', 'find_it']


class History(object):
    def __init__(self, r):
        self.r = r
        self.version = r.choice([0, 3])
        self.strict = r.random() < 0.4
        self.server = Server(r, self.version, self.strict)
        self.url = r.choice(['http://host/gateway', 'https://host:81/g?x=1'])
        kw = {}
        self.http = {}
        self.agent = client.DEFAULT_USER_AGENT
        self.referer = None
        self.through = None

        if r.random() < 0.3:
            self.agent = kw['user_agent'] = 'agent/1'
        if r.random() < 0.3:
            self.referer = kw['referer'] = 'http://elsewhere/'

        self.c = client.RemotingService(
            self.url, self.version, strict=self.strict, opener=self.server,
            **kw)
        self.queue = []         # (wrapper, target, nodes)
        self.heads = {}         # name -> (node, required)
        self.ids = set()
        self.log = []

    def what(self):
        return 'version %d strict %s\n%s' % (
            self.version, self.strict, '\n'.join(map(repr, self.log)))

    def args(self):
        r = self.r
        amf = 3 if self.version == 3 else 0
        g = gen.GraphGen(r, amf, max_nodes=r.choice([2, 8]), big=False)
        nodes = [g.node(0, True) for _ in range(r.choice([0, 1, 1, 2, 4]))]
        b = gen.Builder(r, amf)
        return nodes, [b.build(n) for n in nodes]

    def proxy(self, auto):
        r = self.r
        name = r.choice(SERVICES)
        s = self.c.getService(r.choice([name, unicode(name)]), auto)

        if r.random() < 0.15:
            return name, s

        m = r.choice(METHODS)
        return name + '.' + m, getattr(s, m)

    def step(self):
        r = self.r
        ops = ['call', 'call', 'queue', 'queue', 'queue', 'remove', 'execute',
               'execute', 'single', 'header', 'httpheader', 'lookup',
               'redirect', 'credentials', 'removeabsent', 'http_proxy']
        op = r.choice(ops)
        self.log.append(op)
        getattr(self, 'queue_one' if op == 'queue' else op)()

        ids = [w.id for w in self.c.requests]
        want = [w.id for w, _, _ in self.queue]
        ck.check(ids == want, 'queue', 'queue %r, expected %r\n%s' % (
            ids, want, self.what()))

    def new_id(self, k):
        if k in self.ids:
            ck.violate('id-reused', '%r %s' % (k, self.what()))

        self.ids.add(k)

    def queue_one(self):
        again = [q for q in self.queue if q[0].service is not None]

        if again and self.r.random() < 0.25:
            # what is queued already, once more
            w, target, nodes = self.r.choice(again)
            m, values = w.service, w.args

            if self.r.random() < 0.3:
                n = self.r.randint(-9, 9)
                nodes, values = [Node('int', n)], [n]
        else:
            target, m = self.proxy(False)
            nodes, values = self.args()

        w = m(*values)
        self.log.append((w.id, target))

        if not isinstance(w, client.RequestWrapper):
            ck.violate('executed-at-once', self.what())
            return

        self.new_id(w.id)
        self.queue.append((w, target, nodes))

    def remove(self):
        if not self.queue:
            return

        k = self.r.randrange(len(self.queue))
        w = self.queue[k][0]
        self.log.append(w.id)

        if self.r.random() < 0.5:
            self.c.removeRequest(w)
        else:
            # by what was called: the same proxy object
            self.c.removeRequest(w.service, *w.args)

            # any request of that description, see what is gone
            ids = [x.id for x in self.c.requests]
            gone = [j for j, q in enumerate(self.queue) if q[0].id not in ids]

            if len(gone) != 1:
                ck.violate('removed-count', '%r %s' % (gone, self.what()))
                return

            same = self.queue[gone[0]][0]
            ck.check(same.service is w.service and same.args == w.args,
                     'removed-another', self.what())
            k = gone[0]

        del self.queue[k]
        ck.count('removed')

    def removeabsent(self):
        w = client.RequestWrapper(self.c, '/0', None)

        for a in ((w,), (object(), 1)):
            try:
                self.c.removeRequest(*a)
            except (LookupError, ValueError):
                ck.count('remove-absent')
            else:
                ck.violate('removed-absent', self.what())

    def lookup(self):
        for w, _, _ in self.queue:
            ck.check(self.c.getRequest(w.id) is w, 'lookup', self.what())

        try:
            self.c.getRequest('/100000')
        except LookupError:
            pass
        else:
            ck.violate('lookup-unknown', self.what())

    def header(self):
        r = self.r
        name = r.choice([u'h', u'x-y', u'\xe9'])
        g = gen.GraphGen(r, self.version, max_nodes=3, big=False)
        n = g.node(0, True)
        req = r.random() < 0.5
        self.c.addHeader(name, gen.Builder(r, self.version).build(n), req)
        self.heads[name] = (n, req)

    def credentials(self):
        u = self.r.choice([u'user', u'\xe9', u''])
        p = self.r.choice([u'secret', u'\u4e2d'])
        as_bytes = [self.r.random() < 0.5 for _ in (u, p)]
        self.c.setCredentials(*[x.encode('utf-8') if b else x
                                for x, b in zip((u, p), as_bytes)])
        self.heads[u'Credentials'] = (Node('obj', {
            u'userid': M.s(u), u'password': M.s(p)}), True)

    def httpheader(self):
        k = self.r.choice(['X-One', 'X-Two'])

        if k in self.http:
            self.c.removeHTTPHeader(k)
            del self.http[k]
        else:
            self.c.addHTTPHeader(k, '1')
            self.http[k] = '1'

    def http_proxy(self):
        self.through = (self.r.choice(['proxy:3128', 'other']),
                        self.r.choice(['http', 'https']))

        if self.through[1] == 'http' and self.r.random() < 0.5:
            self.c.setProxy(self.through[0])
        else:
            self.c.setProxy(*self.through)

    def route(self, req):
        return (req.get_type(), req.get_host(), req.get_selector(),
                req.has_proxy())

    def redirect(self):
        """the server moves the gateway or asks for a header"""
        r = self.r
        self.server.headers = heads = []
        c = r.random()
        add = u';session=%d' % r.randint(0, 9)

        if c < 0.4:
            heads.append(E.Part(name=u'AppendToGatewayUrl', value=M.s(add)))
        elif c < 0.7:
            heads.append(E.Part(name=u'ReplaceGatewayUrl',
                                value=M.s(u'http://other/' + add)))
        else:
            heads.append(E.Part(name=u'RequestPersistentHeader', value=Node(
                'obj', {u'token': M.s(add)})))

        if self.version == 3:
            for h in heads:
                h.value.amf3 = True

        c = self.server.mode
        self.server.mode = None
        ok = self.call(False)
        self.server.mode = c

        if ok:
            h = heads[0]

            if h.name == u'AppendToGatewayUrl':
                self.url += add
            elif h.name == u'ReplaceGatewayUrl':
                self.url = u'http://other/' + add
            else:
                self.heads[u'token'] = (M.s(add), self.heads.get(
                    u'token', (None, False))[1])

            ck.count('redirected')

        self.server.headers = []

    def sent(self, want):
        """The last request the server saw."""
        req, env = self.server.seen[-1]
        what = self.what()
        head = dict((k.lower(), v) for k, v in req.header_items())
        expect = dict((k.lower(), v) for k, v in self.http.items())
        expect['content-type'] = 'application/x-amf'
        expect['user-agent'] = self.agent

        if self.referer:
            expect['referer'] = self.referer

        for k, v in expect.items():
            ck.check(head.get(k) == v, 'http-header', '%s: %r %s' % (
                k, head.get(k), what))

        for k in ('X-One', 'X-Two'):
            ck.check(k in self.http or k.lower() not in head,
                     'http-header-left', what)

        ck.check(req.get_full_url() == self.url, 'url', '%r, expected %r\n%s'
                 % (req.get_full_url(), self.url, what))
        plain = urllib2.Request(self.url, 'x')

        if self.through:
            plain.set_proxy(*self.through)
            ck.count('through-proxy')

        got, want_route = self.route(req), self.route(plain)
        ck.check(got == want_route, 'route', '%r, expected %r\n%s' % (
            got, want_route, what))
        ck.check(env.version == self.version, 'version', what)
        got = dict((h.name, h) for h in env.headers)

        if sorted(got) != sorted(self.heads):
            ck.violate('headers-sent', '%r %s' % (sorted(got), what))
        else:
            for k, (n, q) in self.heads.items():
                d = refamf.first_difference(
                    refamf.canon_node(n, self.version, True),
                    refamf.canon_node(got[k].value, self.version, True))
                ck.check(not d and got[k].required == q, 'header-sent',
                         '%r %s %s' % (k, d, what))

        ids = [b.id for b in env.bodies]

        if ids != [w for w, _, _ in want]:
            ck.violate('requests-sent', '%r, expected %r\n%s' % (
                ids, [w for w, _, _ in want], what))
            return

        for b, (_, target, nodes) in zip(env.bodies, want):
            d = refamf.first_difference(
                refamf.canon_node(Node('list', nodes), self.version, True),
                refamf.canon_node(Node('list', b.args), self.version, True))
            ck.check(b.target == target and not d, 'request-sent',
                     '%r %s %s' % (b.target, d, what))

        if self.strict:
            ck.check(all([p.length == p.actual
                          for p in env.bodies + env.headers]),
                     'lengths-sent', what)

        ck.count('sent', len(ids))

    def result(self, rid, got, what):
        kind, n = self.server.answers[rid]

        if kind != E.RESULT:
            ck.violate('fault-returned', '%r %s' % (got, what))
            return

        self.same(n, got, what)

    def same(self, n, got, what):
        try:
            c = gen.canon_py(got, self.version, True)
        except gen.Unexpected, x:
            ck.violate('result-type', '%s %s' % (x, what))
            return

        d = refamf.first_difference(
            refamf.canon_node(n, self.version, True), c)
        ck.check(not d, 'result', '%s %s' % (d, what))
        ck.count('results')

    def fault(self, rid, e, what):
        kind, n = self.server.answers.get(rid, (None, None))

        if kind != E.STATUS:
            ck.violate('raised', '%r for %r\n%s' % (e, n, what))
            return

        cls = CODES[n.val[u'code'].val]

        if type(e) is not cls:
            ck.violate('fault-type', '%r, expected %r\n%s' % (
                type(e), cls, what))
            return

        d = n.val[u'description'].val
        ck.check(e.args == (d,) or not d and not e.args, 'fault-text',
                 '%r, expected %r\n%s' % (e.args, d, what))
        ck.count('faults')

    def call(self, modes=True):
        r = self.r
        self.server.mode = r.choice(MODES) if modes else None
        target, m = self.proxy(True)
        nodes, values = self.args()
        before = len(self.server.seen)
        self.log.append((target, self.server.mode))
        mode = self.server.mode
        err = got = None

        try:
            got = m(*values)
        except Exception:
            err = sys.exc_info()[1]

        if len(self.server.seen) != before + 1:
            ck.violate('transport', 'sent %d times %r\n%s' % (
                len(self.server.seen) - before, err, self.what()))
            return

        rid = self.server.seen[-1][1].bodies[0].id
        self.new_id(rid)
        self.log.append(rid)
        what = self.what()
        self.sent([(rid, target, nodes)])
        ck.count('mode:%s' % mode)

        if mode:
            self.failed(mode, err, got, what)
        elif err is not None:
            self.fault(rid, err, what)
        else:
            self.result(rid, got, what)

        return mode is None

    def failed(self, mode, err, got, what):
        if err is None:
            ck.violate('failure-returned:' + mode, '%r\n%s' % (got, what))
        elif mode in REMOTING and not isinstance(err, remoting.RemotingError):
            ck.violate('failure-type:' + mode, '%r\n%s' % (err, what))

    def run(self, wanted, f):
        """Executes queued requests with ``f``; (envelope, error)"""
        self.server.mode = mode = self.r.choice(MODES)
        before = len(self.server.seen)
        self.log.append([w.id for w, _, _ in wanted] + [mode])
        got = err = None

        try:
            got = f()
        except Exception:
            err = sys.exc_info()[1]

        for q in wanted:
            self.queue.remove(q)

        what = self.what()

        if len(self.server.seen) != before + 1:
            ck.violate('transport', 'sent %d times %r\n%s' % (
                len(self.server.seen) - before, err, what))
            return None, what

        self.sent([(w.id, t, n) for w, t, n in wanted])
        ck.count('mode:%s' % mode)

        if mode and not (mode == 'missing' and f == self.c.execute):
            if wanted or mode != 'missing':
                self.failed(mode, err, got, what)
            return None, what

        if err is not None:
            ck.violate('raised', '%r\n%s' % (err, what))
            return None, what

        return got, what

    def execute(self):
        wanted = self.queue[:]
        env, what = self.run(wanted, self.c.execute)

        if env is None:
            return

        if len(wanted) > 1:
            ck.count('batches')

        for w, _, _ in wanted:
            try:
                res = env[w.id]
            except KeyError:
                ck.check(self.server.mode == 'missing', 'answer-lost',
                         '%r %s' % (w.id, what))
                continue

            self.deliver(w, res, what)

    def deliver(self, w, res, what):
        kind, n = self.server.answers[w.id]
        ck.check(res.status == {E.RESULT: remoting.STATUS_OK,
                                E.STATUS: remoting.STATUS_ERROR}[kind],
                 'status', what)

        try:
            w.result
        except AttributeError:
            pass
        else:
            ck.violate('result-before-response', what)

        try:
            w.setResponse(res)
        except Exception:
            self.fault(w.id, sys.exc_info()[1], what)
        else:
            self.result(w.id, w.result, what)

    def single(self):
        if not self.queue:
            return

        q = self.r.choice(self.queue)
        res, what = self.run([q], lambda: self.c.execute_single(q[0]))

        if res is not None:
            self.deliver(q[0], res, what)


def histories(r, i):
    h = History(r)

    for _ in range(r.randint(3, 20)):
        h.step()

    ck.count('histories')
    ck.seen(repr(h.log), sample=repr(h.log)[:300])


def urls(r, i):
    for bad in ('ftp://host/x', 'host', '', 'file:///etc/passwd',
                'javascript:x'):
        try:
            client.RemotingService(bad)
        except ValueError:
            pass
        else:
            ck.violate('scheme', bad)

    ck.seen('urls', nontrivial=False)


def main(ck):
    ck.run('urls', 1, 1, urls)
    ck.run('histories', 6000, 300000, histories, 0.95)
    ck.require('through-proxy', 20)
    ck.require('histories', 100)
    ck.require('results', 200)
    ck.require('faults', 100)
    ck.require('removed', 30)
    ck.require('batches', 50)
    ck.require('compressed', 50)
    ck.require('redirected', 30)

    for m in set(MODES):
        ck.require('mode:%s' % m, 10)


vlib.main(ck, main)
