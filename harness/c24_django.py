# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C24', 'the same histories of request bodies (batches of all kinds of '
    'calls and messages, truncated, damaged and garbage bodies, other '
    'methods) sent to a Django and to a WSGI gateway with equal services and '
    'options (debug, strict, authenticator, pre-processor, exposed request, '
    'timezone, from keyword arguments or from settings), the Django one '
    'called as a view or behind its handler and middleware; the answers are '
    'compared; every case is non-trivial')
vlib.bootstrap()
import re             # noqa
import sys            # noqa
import types          # noqa
import datetime       # noqa
import logging        # noqa
import gen            # noqa
import refamf         # noqa
import gwlib          # noqa
import gwmodel as M   # noqa
import envelope as E  # noqa
from gen import pyamf, Node   # noqa
from pyamf.remoting import gateway as gw   # noqa

dj = gwlib.django_module(ROOT_URLCONF='c24urls', MIDDLEWARE_CLASSES=[
    'django.middleware.csrf.CsrfViewMiddleware',
    'django.middleware.common.CommonMiddleware'])
from django.conf.urls import url    # noqa
from django.core import urlresolvers   # noqa
from django.core.wsgi import get_wsgi_application   # noqa

URLS = types.ModuleType('c24urls')
URLS.urlpatterns = []
sys.modules['c24urls'] = URLS
HANDLER = get_wsgi_application()
logging.getLogger('django.request').addHandler(logging.NullHandler())
logging.getLogger('django.request').propagate = False
WHEN = datetime.datetime(2010, 3, 4, 5, 6, 7)


class Failing(object):
    def _bad(self, *a):
        raise ValueError('property')

    x = property(_bad, _bad)


pyamf.register_class(Failing, 'c24.Failing')


class Sink(logging.Handler):
    def emit(self, record):
        self.format(record)


class Both(object):
    """One kind of gateway twice, each with services of its own."""

    def __init__(self, r):
        self.r = r
        self.requests = []      # HTTP requests that services have seen
        self.auth = []
        kw = {}
        settings = {}
        self.tz = self.debug = None
        self.expose = r.random() < 0.25

        if r.random() < 0.5:
            kw['strict'] = True
        if r.random() < 0.3:
            log = logging.Logger('c24')
            log.addHandler(Sink())
            kw['logger'] = log

        tz = r.choice([None, None, 3600, -5400, 86400, 1,
                       datetime.timedelta(hours=2),
                       datetime.timedelta(minutes=-90)])
        debug = r.choice([False, False, True])
        wkw = dict(kw)
        dkw = dict(kw)

        # where Django finds its options
        how = r.choice(['settings', 'kwargs', 'both'])
        # (settings that say otherwise lose against the arguments)
        wkw['debug'] = debug
        self.debug = debug

        if how == 'settings':
            settings['DEBUG'] = debug
        else:
            dkw['debug'] = debug
            settings['DEBUG'] = not debug if how == 'both' else False

        wkw['timezone_offset'] = tz

        if how == 'settings':
            if tz is not None:
                settings['AMF_TIME_OFFSET'] = tz
        elif how == 'kwargs':
            if tz is not None:
                dkw['timezone_offset'] = tz
        else:
            dkw['timezone_offset'] = tz
            settings['AMF_TIME_OFFSET'] = 12345

        self.tz = tz
        self.how = how
        hooks = {}

        if r.random() < 0.3:
            hooks['authenticator'] = r.choice(['yes', 'no', 'check', 'boom'])
        if r.random() < 0.3:
            hooks['preprocessor'] = r.choice(['fine', 'boom'])

        self.hooks = hooks
        self.worlds = []
        self.apps = []

        for kind, args in (('wsgi', wkw), ('django', dkw)):
            w = M.World()
            self.worlds.append(w)
            self.seen = []
            args = dict(args)
            services = w.services()
            self.add(services, kind)

            for name, which in hooks.items():
                args[name] = self.hook(which, kind)

            if kind == 'wsgi':
                if self.expose:
                    args['expose_request'] = True

                self.apps.append(gwlib.WSGIGateway(services, **args))
            else:
                if not self.expose or r.random() < 0.5:
                    # (the default is to expose it)
                    args['expose_request'] = self.expose

                with gwlib.Settings(**settings):
                    self.apps.append(dj.DjangoGateway(services, **args))

        self.stack = r.random() < 0.3
        self.what = 'tz=%r debug=%r how=%s strict=%s hooks=%r stack=%s ' \
            'expose=%s' % (tz, debug, how, kw.get('strict'), hooks,
                           self.stack, self.expose)

        if self.stack:
            URLS.urlpatterns[:] = [url(r'^gw/$', self.apps[1])]
            urlresolvers.clear_url_caches()

    def hook(self, which, kind):
        def check(*args):
            self.auth.append((kind, [
                a for a in args if isinstance(a, (unicode, type(None)))]))

            if which == 'boom':
                raise M.Coded('hook text')
            if which == 'check':
                return args[:2] == (u'user', u'pass')

            return which == 'yes'

        return check

    def add(self, services, kind):
        def when(*args):
            return [WHEN, {u'd': WHEN}]

        def dates(*args):
            # as text, so that only decoding counts
            return [unicode(a) for a in args
                    if isinstance(a, datetime.datetime)]

        def getter(*args):
            return Failing()

        def function(*args):
            return lambda: 1

        for f in (when, dates, getter, function):
            services[f.__name__] = f

        if not self.expose:
            return

        # every service gets the HTTP request first
        both = self

        def wrap(f):
            def inner(request, *args):
                both.requests.append((kind, request))
                return f(*args)

            return inner

        for k in list(services):
            f = services[k]

            if isinstance(f, types.FunctionType) or k in (
                    'bound', 'callable'):
                services[k] = wrap(f)
            else:
                obj = f() if isinstance(f, type) else f
                ns = {}

                for m in ('echo', 'first', 'nothing', 'fail', 'mutate',
                          'shared', 'keep', 'kept'):
                    if hasattr(obj, m):
                        ns[m] = staticmethod(wrap(getattr(obj, m)))

                services[k] = type('Exposed', (object,), ns)()

    def send(self, data, method):
        a = gwlib.wsgi(self.apps[0], data, method)

        if self.stack:
            b = gwlib.wsgi(HANDLER, data, method, {'PATH_INFO': '/gw/'})
            ck.count('stack')
        else:
            b = gwlib.django(self.apps[1], data, method)

        return a, b


MASK = re.compile(r' at 0x[0-9a-f]+')


def masked(part):
    """What two answers have in common: no fresh ids and times, no stack."""
    v = part.value

    if v.kind == 'obj' and v.alias.startswith(M.FLEX):
        keep = dict(v.val)

        for k in (u'messageId', u'clientId', u'timestamp', u'headers',
                  u'faultDetail', u'extendedData'):
            keep.pop(k, None)

        keep[u'debug'] = M.i(0 if v.val.get(u'faultDetail') is None or
                             v.val[u'faultDetail'].kind == 'null' else 1)
        v = Node('obj', keep, v.alias)
    elif part.status == E.STATUS and v.kind == 'obj':
        keep = dict(v.val)
        d = keep.pop(u'details', None)
        keep[u'debug'] = M.i(0 if d is None or d.kind == 'null' else 1)
        v = Node('obj', keep, v.alias)

    c = refamf.canon_node(v, 3, True)

    return part.id, part.status, MASK.sub(' at', repr(c))


def body_of(r, both):
    """(kind, method, body)"""
    kind = r.choice(['valid'] * 6 + [
        'dates', 'dates', 'method', 'truncated', 'damaged', 'garbage', 'empty',
        'trailing', 'getter', 'setter', 'function', 'response', 'version',
        'big'])
    g = M.BatchGen(r, big=r.random() < 0.05)
    e, reqs = g.batch(r.choice([0, 1, 2, 3, 5]))
    method = 'POST'

    if r.random() < 0.5:
        e.headers.append(E.Part(
            name=u'Credentials', required=False, value=Node('obj', {
                u'userid': M.s(r.choice([u'user', u'other'])),
                u'password': M.s(r.choice([u'pass', u'wrong']))})))

    def add(target, *args):
        b = E.Part(id=u'/last', target=target, args=list(args))
        b.response = b.id
        e.bodies.append(b)

    if kind == 'dates':
        add(u'when')
        b = E.Part(id=u'/dates', target=u'dates', args=[
            Node('date', r.randint(-10 ** 9, 10 ** 9) * 1000.0)
            for _ in range(3)])
        b.response = b.id
        e.bodies.append(b)
    elif kind == 'getter':
        add(u'getter')
    elif kind == 'function':
        add(u'function')
    elif kind == 'setter':
        add(u'echo', M.i(0), Node('obj', {u'x': M.i(1)}, u'c24.Failing'))
    elif kind == 'response':
        b = E.Part(id=u'/1', status=E.RESULT, value=M.i(1), target=u'',
                   response=u'null')
        e.bodies.append(b)
    elif kind == 'big':
        add(u'echo', M.i(0), M.s(u'x' * r.choice([3000, 100000])))

    data = g.write(e)

    if kind == 'method':
        method = r.choice(['GET', 'PUT', 'HEAD', 'DELETE', 'OPTIONS'])
    elif kind == 'truncated':
        data = data[:r.randint(0, len(data) - 1)]
    elif kind == 'damaged':
        data = list(data)

        for _ in range(r.choice([1, 2, 4])):
            p = r.randrange(len(data))
            data[p] = chr(r.randint(0, 255))

        data = ''.join(data)
    elif kind == 'garbage':
        data = '\x00\x03' + ''.join([
            chr(r.choice([0, 0, 0, 1, r.randint(0, 255)]))
            for _ in range(r.randint(0, 50))])
    elif kind == 'empty':
        data = ''
    elif kind == 'trailing':
        data += 'x'
    elif kind == 'version':
        data = '\x00' + chr(r.randint(0, 20)) + data[2:]

    return kind, method, data, e


def shift(tz):
    if tz is None:
        return datetime.timedelta(0)
    if isinstance(tz, datetime.timedelta):
        return tz

    return datetime.timedelta(seconds=tz)


def case(r, i):
    both = Both(r)

    for turn in range(r.choice([1, 2, 4])):
        kind, method, data, e = body_of(r, both)
        what = '%s %s %s\n%r' % (kind, method, both.what, data[:500])
        del both.requests[:]
        del both.auth[:]

        for w in both.worlds:
            del w.log[:]

        a, b = both.send(data, method)

        for rep in (a, b):
            ck.check(not rep.problems, 'protocol', '%r %s' % (
                rep.problems, what))

        if method != 'POST':
            ck.check(a.code == 400 and b.code == 405, 'method',
                     '%s and %s for %s' % (a.status, b.status, what))
            ck.check(b.header('Allow') == ['POST'], 'allow', '%r %s' % (
                b.headers, what))
            ck.count('method')
            continue

        if a.code != b.code:
            ck.violate('status', 'WSGI %s, Django %s: %r %r\n%s' % (
                a.status, b.status, a.body[:1500], b.body[:1500], what))
            return

        cl = b.header('Content-Length')

        if cl and cl != [str(len(b.body))] or b.code == 200 and not cl:
            ck.violate('content-length', '%r for %d bytes %s' % (
                cl, len(b.body), what))
            return

        ct = b.header('Content-Type')

        if len(ct) != 1 or not ct[0] or \
                (ct[0] == 'application/x-amf') != (b.code == 200):
            ck.violate('content-type', '%r %s' % (b.headers, what))
            return

        logs = [sorted(w.log) if both.expose else w.log
                for w in both.worlds]
        ck.check(logs[0] == logs[1], 'calls', 'WSGI %r, Django %r\n%s' % (
            both.worlds[0].log, both.worlds[1].log, what))
        calls = [[c[1] for c in both.auth if c[0] == k]
                 for k in ('wsgi', 'django')]
        ck.check(calls[0] == calls[1], 'hooks', '%r %s' % (calls, what))

        if both.expose:
            from django.http import HttpRequest
            kinds = [k for k, q in both.requests]
            ck.check(kinds.count('wsgi') == kinds.count('django'),
                     'exposed', '%r %s' % (kinds, what))

            for k, q in both.requests:
                ck.check(isinstance(q, dict if k == 'wsgi' else HttpRequest),
                         'exposed', '%s %r %s' % (k, q, what))

            ck.count('exposed', len(kinds))

        if a.code != 200:
            traces = ['Traceback (most recent call last)' in x.body
                      for x in (a, b)]
            ck.check(traces == [both.debug] * 2, 'debug', '%r %s' % (
                traces, what))
            ck.count('status:%d' % a.code)
            ck.seen((kind, a.code, both.what))
            continue

        try:
            x = E.read(a.body)
        except Exception:
            # (names that are no UTF-8 are passed on as the bytes they are)
            ck.count('unreadable')
            continue

        try:
            y = E.read(b.body)
        except refamf.Malformed, err:
            ck.violate('malformed-response', '%s %r\n%s' % (
                err, b.body[:500], what))
            return

        if x.version != y.version:
            ck.violate('version', what)
            return

        p, q = [[masked(part) for part in m.bodies] for m in (x, y)]

        if p != q:
            d = [(s, t) for s, t in zip(p, q) if s != t][:1]
            ck.violate('answers-differ', 'WSGI and Django:\n%s\n%s' % (
                repr(d)[:3000], what))
            return

        ck.count('answers', len(p))

        for part in x.bodies:
            if part.status == E.STATUS:
                ck.count('faults')

        # options that came from the settings have reached the codec
        if kind == 'dates' and not both.hooks:
            for part in y.bodies:
                if part.id == u'/last' and part.status == E.RESULT:
                    got = part.value.val[0].val
                    want = refamf_ms(WHEN - shift(both.tz))

                    ck.check(got == want, 'timezone',
                             'sent %r, expected %r: %s' % (got, want, what))
                    ck.count('timezone:' + both.how)

        ck.seen((kind, both.what, data), sample=what[:300])


def refamf_ms(d):
    delta = d - datetime.datetime(1970, 1, 1)
    return (delta.days * 86400 + delta.seconds) * 1000.0


def main(ck):
    ck.run('histories', 6000, 300000, case, 1.0)
    ck.require('answers', 400)
    ck.require('faults', 100)
    ck.require('status:400', 30)
    ck.require('status:500', 20)
    ck.require('method', 15)
    ck.require('stack', 100)
    ck.require('exposed', 20)

    for k in ('settings', 'kwargs', 'both'):
        ck.require('timezone:' + k, 5)


vlib.main(ck, main)
