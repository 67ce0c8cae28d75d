# -*- coding: utf-8 -*-
"""
Batches of requests with the answer each one must get, and the services they
call. Requests are written and responses read by the independent codec.
"""

import logging
import types
import threading

import vlib
vlib.bootstrap()
import gen            # noqa
import refamf         # noqa
import envelope as E  # noqa
from refamf import Node   # noqa
from gen import pyamf     # noqa
from pyamf.flex import messaging   # noqa

gen.register()
FLEX = u'flex.messaging.messages.'
MSG_FIELDS = [u'body', u'clientId', u'destination', u'headers', u'messageId',
              u'timestamp', u'timeToLive']


# -- failures ----------------------------------------------------------------

class Boom(Exception):
    pass


class Coded(Exception):
    _amf_code = 'My.Code'


class Old:
    """A classic class, which Python 2 raises as well."""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


class Attrs(Exception):
    def __init__(self, text):
        Exception.__init__(self, text)
        self.extra = [1, u'two', None]


class Unprintable(Exception):
    def __str__(self):
        raise ValueError('no text')

    __unicode__ = __str__


class Base(BaseException):
    pass


def _raise(e):
    raise e


def _deep(n):
    if n:
        return _deep(n - 1)
    return {}['deep key']


def _recurse():
    return _recurse()


def _java():
    from java.lang import IllegalStateException
    raise IllegalStateException('java text')


# name -> (function, code, texts or None)
FAILS = {
    'plain': (lambda: _raise(Boom('plain text')), u'Boom', [u'plain text']),
    'coded': (lambda: _raise(Coded('coded text')), u'My.Code',
              [u'coded text']),
    'amferror': (lambda: _raise(pyamf.EncodeError('amf')), u'EncodeError',
                 [u'amf']),
    'eos': (lambda: _raise(pyamf.EOStream('eos')), u'EOStream', [u'eos']),
    'unicode': (lambda: _raise(Boom(u'\u4e2d\xe9')), u'Boom',
                [u'\u4e2d\xe9']),
    'utf8': (lambda: _raise(Boom('\xc3\xa9')), u'Boom', [u'\xe9']),
    'bytes': (lambda: _raise(Boom('\xff\xfe')), u'Boom', None),
    'empty': (lambda: _raise(Boom()), u'Boom', [u'']),
    'number': (lambda: _raise(Boom(42)), u'Boom', [u'42']),
    'two': (lambda: _raise(Boom(1, u'b')), u'Boom', [u"(1, u'b')"]),
    'key': (lambda: {}['missing'], u'KeyError', [u"'missing'", u'missing']),
    'deep': (lambda: _deep(40), u'KeyError', [u"'deep key'", u'deep key']),
    'type': (lambda: _raise(TypeError('type text')), u'TypeError',
             [u'type text']),
    'zero': (lambda: 1 // 0, u'ZeroDivisionError', None),
    'attr': (lambda: None.nothing, u'AttributeError', None),
    'old': (lambda: _raise(Old('classic text')), u'Old', [u'classic text']),
    'attrs': (lambda: _raise(Attrs('with attributes')), u'Attrs',
              [u'with attributes']),
    'unprintable': (lambda: _raise(Unprintable('x')), u'Unprintable', None),
    'base': (lambda: _raise(Base('base text')), u'Base', [u'base text']),
    'stop': (lambda: _raise(StopIteration('stop')), u'StopIteration',
             [u'stop']),
    'genexit': (lambda: _raise(GeneratorExit()), u'GeneratorExit', [u'']),
    'ioerror': (lambda: _raise(IOError('io')), u'IOError', [u'io']),
    'long': (lambda: _raise(Boom(u'x' * 70000)), u'Boom', [u'x' * 70000]),
    'recursion': (_recurse, u'RuntimeError', None),
    'java': (_java, u'IllegalStateException', None),
}
# not to be sent as the cause of a remote-object failure (known finding)
UNENCODABLE = ('java', 'old')
CHEAP = sorted(set(FAILS) - set(['recursion', 'long']))


FAIL_MARKS = dict([(u'fail ' + k, k) for k in FAILS])


class _Sink(logging.Handler):
    def emit(self, record):
        try:
            self.format(record)
        except (KeyboardInterrupt, SystemExit):
            raise
        except Exception:
            # as handlers do
            pass


def logger(r):
    """None, or a logger that formats all that it gets."""
    if r.random() < 0.5:
        return None

    log = logging.Logger('gwmodel', r.choice([
        logging.NOTSET, logging.DEBUG, logging.INFO, logging.CRITICAL]))
    log.addHandler(_Sink())
    return log


# -- services ----------------------------------------------------------------

class World(object):
    """Services that keep a log of what is executed."""

    def __init__(self):
        self.log = []
        self.lock = threading.Lock()
        self.shared = [1, {'k': [2, u'\xe9']}]
        self.kept = {}
        self.amf = {}       # token -> version whose identities count

    def note(self, name, token, args):
        # what the service was given, before anybody changes it
        c = gen.canon_py(list(args), self.amf.get(token, 3), True)

        with self.lock:
            self.log.append((token, name, c))

    def services(self):
        w = self

        def echo(token, *args):
            w.note('echo', token, args)
            return list(args)

        def raw(*args):
            # (no token comes first, there may be no argument at all)
            with w.lock:
                w.log.append((None, 'raw', gen.canon_py(
                    list(args), 0, True)))

            if args and isinstance(args[-1], unicode) and \
                    args[-1] in FAIL_MARKS:
                FAILS[FAIL_MARKS[args[-1]]][0]()

            return list(args)

        class Svc(object):
            secret = 'not callable'
            tag = 'svc'

            def echo(self, token, *args):
                w.note(self.tag + '.echo', token, args)
                return list(args)

            def first(self, token, x):
                w.note(self.tag + '.first', token, (x,))
                return x

            def nothing(self, token):
                w.note(self.tag + '.nothing', token, ())

            def fail(self, token, kind):
                w.note(self.tag + '.fail', token, (kind,))
                FAILS[kind][0]()

            def visit(self, token):
                w.note(self.tag + '.visit', token, ())
                self.visits = getattr(self, 'visits', 0) + 1
                return self.visits

            def mutate(self, token, items):
                w.note(self.tag + '.mutate', token, (items,))
                items.append(len(items))
                return items

            def shared(self, token):
                w.note(self.tag + '.shared', token, ())
                return w.shared

            def keep(self, token, x):
                w.note(self.tag + '.keep', token, (x,))
                w.kept[token] = x
                return [x, x]

            def kept(self, token, which):
                w.note(self.tag + '.kept', token, (which,))
                return w.kept[which]

            def _private(self, token):
                w.note(self.tag + '._private', token, ())

        class Cls(Svc):
            tag = 'cls'

        class Classic:
            tag = 'old'

        for k, v in Svc.__dict__.items():
            if isinstance(v, types.FunctionType):
                setattr(Classic, k, v)

        class Deep(Svc):
            tag = 'pkg.deep.svc'

        class Bound(Svc):
            tag = 'bound'

        class Callable(object):
            def __call__(self, token, *args):
                w.note('callable', token, args)
                return list(args)

        mod = types.ModuleType('mod')
        inner = type('Inner', (Svc,), {'tag': 'mod'})()

        for k in ('echo', 'first', 'nothing', 'fail', 'mutate', 'shared',
                  'keep', 'kept'):
            setattr(mod, k, getattr(inner, k))

        mod.constant = 1

        return {
            'echo': echo, 'raw': raw, 'svc': Svc(), 'cls': Cls, 'old': Classic(),
            'oldcls': type('Sub', (Cls,), {'tag': 'oldcls'}),
            'pkg.deep.svc': Deep(), u'bound': Bound().echo,
            'callable': Callable(), 'mod': mod,
        }


OBJECTS = ['svc', 'cls', 'old', 'oldcls', 'pkg.deep.svc', 'mod']
CLASSES = ['cls', 'oldcls']
DIRECT = {'echo': 'echo', 'bound': 'bound.echo', 'callable': 'callable'}


# -- requests ----------------------------------------------------------------

class Req(object):
    """part: what to send; calls: what must be executed; check: the answer"""

    def __init__(self, kind, part, calls, check, mid=None, what=''):
        self.kind = kind
        self.part = part
        self.calls = calls
        self.check = check
        self.mid = mid
        self.what = what


def s(x):
    return Node('str', x)


def i(x):
    return Node('int', x)


def is_value(node, amf):
    want = refamf.canon_node(node, amf, True)

    def check(got):
        return refamf.first_difference(want, refamf.canon_node(
            got, amf, True))

    return check


def is_failure(code, texts):
    """A description of the failure, in the two kinds of responses."""
    return (code, texts)


class BatchGen(object):
    def __init__(self, r, version=None, big=False, ro=None, names=True,
                 fails=None, raw=True):
        self.r = r
        self.raw = raw
        self.version = r.choice([0, 3]) if version is None else version
        self.big = big
        self.ro = r.choice([0, 0.3, 1]) if ro is None else ro
        self.ids = set()
        self.names = names
        self.kept = []
        self.fails = fails or CHEAP
        self.tokens = {}

    def rid(self):
        r = self.r

        while True:
            k = r.choice([u'/%d' % r.randint(0, 99), u'/%d' % r.randint(0, 99),
                          u'x%d' % r.randint(0, 9), gen.gen_text(r, False),
                          u'', u'null', u'/1/onResult'])

            if k not in self.ids and not k.endswith(E.KINDS):
                self.ids.add(k)
                return k

    def token(self):
        while True:
            t = self.r.randint(0, 10 ** 6)

            if t not in self.tokens:
                self.tokens[t] = 1
                return t

    def graph(self, amf):
        r = self.r
        g = gen.GraphGen(r, amf, max_nodes=r.choice([2, 6, 15]),
                         share=r.choice([0, 0.2, 0.4]), big=self.big)
        return g

    def call(self, amf, ro=False):
        """(target, args, calls, value node or failure)"""
        r = self.r
        t = self.token()
        tn = i(t)
        c = r.random()
        g = self.graph(amf)

        def done(target, name, args, result):
            calls = [] if name is None else [
                (t, name, refamf.canon_node(Node('list', args), amf, True))]
            return t, target, [tn] + args, calls, result

        if c < 0.03 and self.raw:
            args = [r.choice([
                lambda: Node('null'), lambda: Node('bool', r.random() < 0.5),
                lambda: i(r.choice([0, 1, -5])), lambda: s(u''),
                lambda: s(u'a'), lambda: Node('list', [])])()
                for _ in range(r.choice([0, 1, 1, 2, 3]))]
            result = Node('list', args)

            if r.random() < 0.5:
                k = r.choice([f for f in self.fails if not (
                    ro and f in UNENCODABLE)] + ['type'])
                args.append(s(u'fail ' + k))
                result = is_failure(FAILS[k][1], FAILS[k][2])

            calls = [(None, 'raw', refamf.canon_node(
                Node('list', args), 0, True))]
            return t, 'raw', args, calls, result
        if c < 0.15:
            target = r.choice(sorted(DIRECT))
            args = [g.node(0, True) for _ in range(r.choice([0, 1, 1, 3]))]
            return done(target, DIRECT[target], args, Node('list', args))

        svc = r.choice(OBJECTS)

        if c < 0.3:
            args = [g.node(0, True) for _ in range(r.choice([0, 1, 1, 3]))]
            return done(svc + '.echo', svc + '.echo', args,
                        Node('list', args))
        if c < 0.38:
            a = g.node(0, True)
            return done(svc + '.first', svc + '.first', [a], a)
        if c < 0.42:
            if r.random() < 0.6:
                # instantiated for each call
                svc = r.choice(CLASSES)
                return done(svc + '.visit', svc + '.visit', [], i(1))

            return done(svc + '.nothing', svc + '.nothing', [], Node('null'))
        if c < 0.48:
            lst = [g.node(0, True) for _ in range(r.randint(0, 3))]
            a = Node('list', lst)
            b = Node('list', lst + [i(len(lst))])
            # (a list that contains itself would be changed everywhere)
            return done(svc + '.mutate', svc + '.mutate', [a], b)
        if c < 0.53:
            return done(svc + '.shared', svc + '.shared', [], Node('list', [
                i(1), Node('obj', {u'k': Node('list', [i(2), s(u'\xe9')])})]))
        if c < 0.58:
            a = g.node(0, True)
            self.kept.append((t, a, amf))
            return done(svc + '.keep', svc + '.keep', [a],
                        Node('list', [a, a]))
        if c < 0.63 and self.kept:
            # one request's argument in the answer to another
            which, a, amf0 = r.choice(self.kept)

            if amf0 == amf:
                return done(svc + '.kept', svc + '.kept', [i(which)], a)
        if c < 0.82:
            k = r.choice([f for f in self.fails if not (
                ro and f in UNENCODABLE)])
            return done(svc + '.fail', svc + '.fail', [s(unicode(k))],
                        is_failure(FAILS[k][1], FAILS[k][2]))
        if c < 0.87:
            # a wrong number of arguments
            m, n = r.choice([('first', 0), ('first', 2), ('nothing', 1),
                             ('fail', 0), ('mutate', 3)])
            args = [g.node(0, True) for _ in range(n)]
            return done(svc + '.' + m, None, args,
                        is_failure(u'TypeError', None))
        if c < 0.9:
            return done(svc + '._private', None, [], is_failure(
                u'Service.MethodInvalid',
                [u'Calls to private methods are not allowed']))
        if c < 0.92:
            name = 'mod.constant' if svc == 'mod' else None

            if svc in ('svc', 'cls'):
                name = svc + '.secret'
            if name:
                return done(name, None, [], is_failure(
                    u'Service.MethodInvalid',
                    [u'Service method %s must be callable' %
                     name.split('.')[-1]]))
        if c < 0.96:
            return done(svc + '.absent', None, [], is_failure(
                u'Service.MethodNotFound', [u'Unknown method absent']))

        name = r.choice([u'nobody', u'nobody.home', u'svc.echo.more',
                         u'pkg.deep', u'.', u'svc.', u'.echo', u'\u4e2d.x',
                         u'SVC.echo', u'svc .echo', u'echo.im_self.x'])

        if name == u'svc.':
            code, text = u'Service.MethodNotFound', None
        else:
            code = u'Service.ResourceNotFound'
            text = [u'Unknown service ' + name]

        return done(name, None, [], is_failure(code, text))

    def plain(self):
        amf = 3 if self.version == 3 else 0
        t, target, args, calls, result = self.call(amf)
        b = E.Part(id=self.rid(), target=unicode(target), args=args)
        b.response = b.id

        if amf == 3:
            b.args_amf3 = self.r.random() < 0.3

            for a in args:
                a.amf3 = True

        if isinstance(result, tuple):
            check = fault_check(result)
        else:
            value = is_value(result, amf)

            def check(part):
                if part.status != E.RESULT:
                    return 'not a result: %r' % part.value

                return value(part.value)

        return Req('amf0', b, calls, check, t,
                   'plain %s %s' % (target, result))

    def message(self, kind, **fields):
        n = Node('obj', {}, FLEX + kind)
        n.amf3 = True
        r = self.r
        mid = u'%08X-%d' % (r.getrandbits(32), r.randint(0, 9))

        for f in MSG_FIELDS:
            n.val[f] = Node('null')

        n.val[u'timestamp'] = n.val[u'timeToLive'] = i(0)
        n.val[u'headers'] = Node('obj', {})
        n.val[u'messageId'] = s(mid)
        n.val[u'clientId'] = Node('null') if r.random() < 0.5 else s(u'cl')
        c = r.random()
        n.by = None

        if c < 0.4:
            dsid = r.choice([u'nil', u'abc', u'', u'\xe9', u'nil2'])
            n.val[u'headers'].val[u'DSId'] = s(dsid)
            n.by = dsid if dsid not in (u'nil', u'') else None
        elif c < 0.5:
            n.val[u'headers'] = Node('null')

        if r.random() < 0.3 and n.val[u'headers'].kind == 'obj':
            n.val[u'headers'].val[u'DSEndpoint'] = s(u'my-amf')

        if kind == 'CommandMessage':
            n.val[u'correlationId'] = Node('null')
        elif kind == 'RemotingMessage':
            n.val[u'source'] = Node('null') if r.random() < 0.8 else s(u'x')
        elif kind == 'AsyncMessage':
            n.val[u'correlationId'] = Node('null')

        n.val.update(fields)

        return n

    def remote(self):
        r = self.r
        c = r.random()
        calls = []
        t = None
        value = None
        fail = None

        if c < 0.7:
            t, target, args, calls, result = self.call(3, True)
            target = unicode(target)
            n = self.message('RemotingMessage', body=Node('list', args))

            if u'.' in target and r.random() < 0.9:
                dest, op = target.rsplit(u'.', 1)

                if dest == u'':
                    # no destination: the operation is the whole target
                    dest, op = None, target
                    target = op
                elif r.random() < 0.2 and u'.' in dest:
                    # the dots may be on either side
                    a, b = dest.split(u'.', 1)
                    dest, op = a, b + u'.' + op
            else:
                dest, op = None, target

            n.val[u'destination'] = Node('null') if dest is None else s(dest)
            n.val[u'operation'] = s(op)

            if isinstance(result, tuple):
                fail = result
            else:
                value = is_value(result, 3)
        elif c < 0.85:
            op = r.choice([5, 5, 12, 8, 0, 1, 2, 4, 9, 13, 99, 10000])
            n = self.message('CommandMessage', operation=i(op))

            if op == 5:
                value = is_value(Node('bool', True), 3)
            elif op == 12:
                value = lambda node: None
            else:
                fail = is_failure(u'Server.Call.Failed', None)
        elif c < 0.92:
            n = self.message('AsyncMessage', body=self.graph(3).node(0, True))
            value = is_value(Node('bool', True), 3)
        elif c < 0.95:
            n = self.message('RemotingMessage', destination=s(u'svc'),
                             operation=s(u'echo'),
                             body=r.choice([Node('null'), i(5),
                                            Node('bool', False)]))
            fail = is_failure(u'TypeError', None)
        elif c < 0.975:
            # what cannot name a service
            odd = lambda: r.choice([
                lambda: Node('bytes', r.choice(['', '\xc3\xa9', 'svc'])),
                lambda: i(5), lambda: Node('bool', True),
                lambda: Node('list', [s(u'svc')]),
                lambda: Node('obj', {u'\xe9': s(u'\u4e2d')}),
                lambda: Node('obj', {u'id': i(1)}, u'v.Plain'),
                lambda: s(u'\xe9'), lambda: s(u''), lambda: Node('null')])()
            n = self.message('RemotingMessage', destination=odd(),
                             operation=odd(), body=Node('list', []))
            fail = is_failure(None, None)

            if r.random() < 0.3:
                n.val[u'messageId'] = r.choice([
                    i(7), Node('null'), Node('bool', False), s(u''),
                    Node('list', [i(1)])])
        else:
            n = r.choice([Node('null'), i(3), s(u'text'), Node('list', []),
                          Node('obj', {u'operation': i(5)}),
                          Node('obj', {}, u'v.Plain'), None])
            fail = is_failure(u'Server.Call.Failed', None)

        b = E.Part(id=self.rid(), target=r.choice([u'null', u'']),
                   args=[] if n is None else [n])
        b.response = b.id

        if n is not None:
            n.amf3 = True

            if r.random() < 0.1:
                b.args.append(Node('null'))

        if self.version == 3:
            b.args_amf3 = r.random() < 0.3

        mid = dsid = None

        if n is not None and n.kind == 'obj' and n.alias.startswith(FLEX):
            mid = n.val[u'messageId']
            dsid = n.by

        check = reply_check(mid, dsid, value, fail)
        mid = text(mid)

        return Req('ro', b, calls, check, mid, 'remote %r %r' % (n, fail))

    def batch(self, count=None):
        e = E.Env(self.version)
        reqs = []
        n = self.r.choice([1, 1, 2, 3, 5, 8]) if count is None else count

        for _ in range(n):
            reqs.append(self.remote() if self.r.random() < self.ro
                        else self.plain())

        e.bodies = [q.part for q in reqs]
        return e, reqs

    def write(self, e):
        return E.write(e, self.r, gen.SEALED)


def fault_check(fail):
    code, texts = fail

    def check(part):
        if part.status != E.STATUS:
            return 'not a fault: %r' % part.value

        v = part.value

        if v.kind != 'obj' or set(v.val) != set([
                u'level', u'code', u'type', u'details', u'description']):
            return 'not a fault: %r' % v
        if text(v.val[u'level']) != u'error':
            return 'level %r' % v
        if text(v.val[u'code']) != code:
            return 'code %r, expected %r' % (v, code)

        d = text(v.val[u'description'])

        if d is None or texts is not None and d not in texts:
            return 'description %r, expected %r' % (v, texts)

    return check


def text(n):
    return n.val if n is not None and n.kind == 'str' else None


def reply_check(mid, dsid, value, fail):
    def check(part):
        v = part.value
        kind = u'ErrorMessage' if fail else u'AcknowledgeMessage'
        status = E.STATUS if fail else E.RESULT

        if part.status != status:
            return 'status %s of %r' % (part.status, v)
        if v.kind != 'obj' or v.alias != FLEX + kind:
            return 'not a %s: %r' % (kind, v)
        if mid is None:
            if v.val[u'correlationId'].kind != 'null':
                return 'correlation id %r of nothing' % v.val
        elif refamf.canon_node(v.val[u'correlationId'], 3) != \
                refamf.canon_node(mid, 3):
            return 'correlation id %r, expected %r' % (
                v.val[u'correlationId'], mid)

        for k in (u'messageId', u'clientId'):
            x = text(v.val[k])

            if not x or x in (text(mid), u'cl'):
                return '%s %r' % (k, v.val[k])

        if text(v.val[u'messageId']) == text(v.val[u'clientId']):
            return 'equal ids %r' % v

        h = v.val[u'headers']

        if h.kind != 'obj' or u'DSId' not in h.val:
            return 'headers %r' % h

        got = text(h.val[u'DSId'])

        if not got or got == u'nil' or (dsid and got != dsid):
            return 'connection id %r, expected %r' % (got, dsid)

        if not fail:
            return value(v.val[u'body'])

        code, texts = fail

        if code is None:
            # (whatever the reason, there is one)
            return None if text(v.val[u'faultCode']) else 'no code'
        if text(v.val[u'faultCode']) != code:
            return 'code %r, expected %r' % (v.val[u'faultCode'], code)

        d = text(v.val[u'faultString'])

        if d is None or texts is not None and d not in texts:
            return 'fault string %r, expected %r' % (d, texts)

    return check


def ids_of(part):
    """The fresh ids of a remote-object reply."""
    v = part.value

    return [v.val[u'messageId'].val, v.val[u'clientId'].val]


def expected_log(reqs):
    return [c for q in reqs for c in q.calls]


def judge(ck, e, reqs, body, log, what):
    """One batch: bytes of the answer and log of the calls."""
    try:
        got = E.read(body)
    except refamf.Malformed, x:
        ck.violate('malformed-response', '%s\n%r\n%s' % (x, body[:600], what))
        return

    if got.version != e.version:
        ck.violate('response-version', what)
        return
    if got.headers:
        ck.violate('response-headers', '%r %s' % (got.headers, what))
        return

    ids = [b.id for b in got.bodies]
    want = [q.part.id for q in reqs]

    if ids != want or not all([b.status for b in got.bodies]):
        ck.violate('responses', 'ids %r, expected %r\n%s' % (ids, want, what))
        return

    calls = expected_log(reqs)

    if log != calls:
        ck.violate('calls', 'executed %r\nexpected %r\n%s' % (
            log, calls, what))
        return

    for q, b in zip(reqs, got.bodies):
        p = q.check(b)

        if p:
            ck.violate('answer:' + q.kind, '%s\nto %s\n%s' % (
                p, q.what, what))
            return

        ck.count('answer:%s%s' % (
            q.kind, '' if b.status == E.RESULT else ':fault'))

    return got


def describe(e, reqs):
    out = ['version %d' % e.version]

    for q in reqs:
        out.append('%r %r %s args %s' % (
            q.part.id[:40], q.part.target[:60], q.what[:500],
            repr(refamf.canon_node(Node('list', q.part.args)))[:700]))

    return '\n'.join(out)
