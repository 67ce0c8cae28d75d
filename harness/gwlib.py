# -*- coding: utf-8 -*-
"""
Servers around the real gateways: a validating WSGI server and the calls a
Django handler makes.
"""

import sys
from StringIO import StringIO

import vlib
vlib.bootstrap()
from pyamf.remoting.gateway.wsgi import WSGIGateway   # noqa


class Protocol(Exception):
    """The application broke the WSGI protocol."""


class Input(object):
    """A request body of known length that notices what is read."""

    def __init__(self, data, announced=None):
        self.data = data
        self.pos = 0
        self.announced = len(data) if announced is None else announced
        self.overread = False

    def _take(self, n):
        if n is None or n < 0:
            # PEP 333: the server may block for ever
            self.overread = True
            n = len(self.data) - self.pos

        if self.pos + n > self.announced:
            self.overread = True

        s = self.data[self.pos:self.pos + n]
        self.pos += len(s)
        return s

    def read(self, n=None):
        return self._take(n)

    def readline(self, n=None):
        i = self.data.find('\n', self.pos)
        i = len(self.data) if i < 0 else i + 1
        return self._take(i - self.pos)

    def readlines(self, hint=None):
        return list(self)

    def __iter__(self):
        while self.pos < len(self.data):
            yield self.readline()


class Reply(object):
    def __init__(self):
        self.status = None
        self.headers = []
        self.body = ''
        self.problems = []
        self.input = None
        self.environ = None

    @property
    def code(self):
        return int(self.status.split()[0])

    def header(self, name):
        return [v for k, v in self.headers if k.lower() == name.lower()]


def wsgi(app, body, method='POST', extra=None, announced=None):
    """One request; what breaks the protocol is listed in ``problems``.
    Exceptions of the application are passed on."""
    rep = Reply()
    rep.input = Input(body, announced)
    calls = []
    env = {
        'REQUEST_METHOD': method, 'SCRIPT_NAME': '', 'PATH_INFO': '/',
        'QUERY_STRING': '', 'SERVER_NAME': 'localhost',
        'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.1',
        'CONTENT_TYPE': 'application/x-amf',
        'CONTENT_LENGTH': str(len(body) if announced is None else announced),
        'wsgi.version': (1, 0), 'wsgi.url_scheme': 'http',
        'wsgi.input': rep.input, 'wsgi.errors': StringIO(),
        'wsgi.multithread': True, 'wsgi.multiprocess': False,
        'wsgi.run_once': False,
    }
    env.update(extra or {})

    for k in [k for k, v in env.items() if v is None]:
        del env[k]

    rep.environ = env
    bad = rep.problems.append

    def start_response(status, headers, exc_info=None):
        calls.append((status, headers))

        if len(calls) > 1 and exc_info is None:
            bad('start_response called %d times' % len(calls))
        if type(status) is not str or len(status) < 4 or \
                not status[:3].isdigit() or status[3] != ' ':
            bad('status %r' % (status,))
        if type(headers) is not list:
            bad('headers are %r' % type(headers))

        for h in headers:
            if type(h) is not tuple or len(h) != 2 or \
                    type(h[0]) is not str or type(h[1]) is not str:
                bad('header %r' % (h,))
            elif '\n' in h[0] + h[1] or '\r' in h[0] + h[1]:
                bad('control character in header %r' % (h,))

        rep.status = status
        rep.headers = list(headers)
        return lambda s: bad('write() was used')

    result = app(env, start_response)

    if not calls:
        bad('start_response was not called')

    parts = []

    for s in result:
        if type(s) is not str:
            bad('body part is %r' % type(s))
            s = str(s)

        parts.append(s)

    if hasattr(result, 'close'):
        result.close()

    rep.body = ''.join(parts)

    if rep.input.overread:
        bad('read beyond the announced body')

    return rep


_django = []


def django_module(**settings):
    """Configures Django once, with the given settings."""
    if not _django:
        from django.conf import settings as s

        args = dict(SECRET_KEY='verif', DEBUG=False, ALLOWED_HOSTS=['*'])
        args.update(settings)
        s.configure(**args)
        from pyamf.remoting.gateway import django
        _django.append(django)

    return _django[0]


class Settings(object):
    """Changes Django settings for a while."""

    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        from django.conf import settings as s

        self.old = {}

        for k, v in self.kw.items():
            self.old[k] = getattr(s, k, self)
            setattr(s, k, v)

    def __exit__(self, *a):
        from django.conf import settings as s

        for k, v in self.old.items():
            if v is self:
                delattr(s, k)
            else:
                setattr(s, k, v)


def django(view, body, method='POST'):
    """What Django's handler does with a request for this view."""
    from django import http

    req = http.HttpRequest()
    req.method = method
    req.META = {'REQUEST_METHOD': method, 'SERVER_NAME': 'localhost',
                'SERVER_PORT': '80', 'CONTENT_LENGTH': str(len(body)),
                'CONTENT_TYPE': 'application/x-amf'}
    req._stream = StringIO(body)
    req._read_started = False
    res = view(req)
    rep = Reply()
    rep.status = '%d' % res.status_code
    rep.headers = [(str(k), str(v)) for k, v in res.items()]
    rep.body = ''.join(list(res))
    rep.request = req

    return rep
