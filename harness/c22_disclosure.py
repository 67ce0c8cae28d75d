# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C22', 'requests that fail at every stage (lookup, authentication, '
    'pre-processing, construction, call, encoding, decoding, trailing data, '
    'undecodable bytes) with all kinds of exceptions, as plain calls and '
    'remote-object messages, through both gateways with debug on, off or '
    'switched between requests; the failing code lives in a file of canary '
    'lines that the responses are searched for; every case is non-trivial')
vlib.bootstrap()
import os             # noqa
import re             # noqa
import sys            # noqa
import imp            # noqa
import gen            # noqa
import gwlib          # noqa
import gwmodel as M   # noqa
import envelope as E  # noqa
from gen import pyamf, Node   # noqa
from pyamf.remoting import gateway as gw   # noqa

# the code that fails: its name, its file and its lines are looked for
SOURCE = u'''# -*- coding: utf-8 -*-
import gwmodel
import pyamf

kind = [None]


def canary_fail():   # canary-line
    k = kind[0]   # canary-line
    if isinstance(k, BaseException):   # canary-line
        raise k   # canary-line
    gwmodel.FAILS[k][0]()   # canary-line


def canary_call(*args):
    return canary_fail()   # canary-line


def canary_good(*args):
    return list(args)


class CanarySvc(object):
    def canary_call(self, *args):
        return canary_fail()   # canary-line

    def canary_good(self, *args):
        return list(args)

    def _canary_private(self):
        return 'canary-line'

    canary_constant = 5


class CanaryInit(CanarySvc):
    def __init__(self):
        canary_fail()   # canary-line


class CanaryGetter(object):
    def canary_get(self):
        return canary_fail()   # canary-line

    x = property(canary_get)


class CanarySetter(object):
    def canary_set(self, value):
        canary_fail()   # canary-line

    x = property(lambda self: 1, canary_set)


class CanaryExt(object):
    class __amf__:
        external = True

    def __readamf__(self, data):
        canary_fail()   # canary-line

    def __writeamf__(self, data):
        canary_fail()   # canary-line


def canary_getter(*args):
    return [1, CanaryGetter()]


def canary_writer(*args):
    return CanaryExt()


def canary_auth(username, password):
    return canary_fail()   # canary-line


def canary_refuse(username, password):
    return False


def canary_pre(*args):
    canary_fail()   # canary-line


def canary_unencodable(*args):
    return lambda: 1   # canary-line


pyamf.register_class(CanaryGetter, 'canary.Getter')
pyamf.register_class(CanarySetter, 'canary.Setter')
pyamf.register_class(CanaryExt, 'canary.Ext')
'''

path = os.path.join(vlib.WORK, 'canaryfile.py')

with open(path, 'w') as f:
    f.write(SOURCE.encode('utf-8'))

C = imp.load_source('canaryfile', path)

FORBIDDEN = re.compile('|'.join([
    r'Traceback', r'File "', r'\.py\b', r'\$py', r'\.java\b', r'canary-line',
    r', line \d', r'\.class\b', re.escape(vlib.WORK), re.escape(vlib.REPO),
    re.escape(vlib.HERE), r'org/python', r'org\.python', r'\bat java\.',
    r'sys\.exc_info']))


class SubExit(SystemExit):
    pass


class SubInterrupt(KeyboardInterrupt):
    pass


EXITS = [lambda: SystemExit(3), lambda: SystemExit('leaving'),
         lambda: KeyboardInterrupt(), lambda: SubExit(1),
         lambda: SubInterrupt('now'), lambda: SystemExit()]


class Side(object):
    """One gateway with services that fail at one stage."""

    def __init__(self, r, stage, debug, strict):
        self.r = r
        self.stage = stage
        kw = dict(debug=debug, strict=strict, logger=M.logger(r))
        where = r.choice(['gateway', 'service', 'method'])
        self.app_kw = kw
        svc = r.choice([C.CanarySvc, C.CanarySvc()])
        func = C.canary_call
        extra = {}

        if stage in ('auth', 'pre', 'refuse'):
            hook = {'auth': C.canary_auth, 'pre': C.canary_pre,
                    'refuse': C.canary_refuse}[stage]
            # the methods are good, the hook in front of them fails
            name = 'preprocessor' if stage == 'pre' else 'authenticator'
            deco = gw.preprocess if stage == 'pre' else gw.authenticate

            def func(*args):
                return C.canary_good(*args)

            class svc(C.CanarySvc):
                def canary_call(self, *args):
                    return list(args)

            if where == 'gateway':
                kw[name] = hook
            elif where == 'service':
                extra[name] = hook
            else:
                deco(func, hook)
                deco(svc.canary_call, hook)
        elif stage == 'init':
            svc = C.CanaryInit
        elif stage == 'getter':
            func = C.canary_getter
            svc = type('CanaryG', (object,), {
                'canary_call': C.canary_getter})
        elif stage == 'writer':
            func = C.canary_writer
            svc = type('CanaryW', (object,), {
                'canary_call': C.canary_writer})
        elif stage == 'unencodable':
            func = C.canary_unencodable
            svc = type('CanaryU', (object,), {
                'canary_call': C.canary_unencodable})

        self.dj = r.random() < 0.35

        if self.dj:
            dj = gwlib.django_module()
            via_settings = r.random() < 0.5
            args = dict(kw)

            if via_settings:
                del args['debug']

            with gwlib.Settings(DEBUG=debug):
                self.app = dj.DjangoGateway(expose_request=False, **args)

            ck.count('django')
        else:
            self.app = gwlib.WSGIGateway(**kw)

        self.app.addService(func, 'func', **extra)
        self.app.addService(svc, 'svc', **extra)
        self.app.addService(C, 'module', **extra)
        self.app.addService(lambda *a: list(a), 'ok.good',
                            authenticator=lambda u, p: True,
                            preprocessor=lambda *a: None)

    def send(self, data):
        if self.dj:
            return gwlib.django(self.app, data)

        return gwlib.wsgi(self.app, data)


CALL = ['call', 'init']
PROCESS = ['auth', 'pre', 'refuse', 'lookup'] + CALL
ENCODE = ['getter', 'writer', 'unencodable']
DECODE = ['setter', 'reader']
RAW = ['garbage', 'truncated', 'trailing', 'response', 'badversion']

# (target, code, description)
LOOKUPS = [
    (u'svc._canary_private', u'Service.MethodInvalid',
     [u'Calls to private methods are not allowed']),
    (u'svc.absent', u'Service.MethodNotFound', [u'Unknown method absent']),
    (u'svc.canary_constant', u'Service.MethodInvalid',
     [u'Service method canary_constant must be callable']),
    (u'nobody.home', u'Service.ResourceNotFound',
     [u'Unknown service nobody.home']),
    (u'module', u'Service.MethodNotFound', None),
    (u'module.absent', u'Service.MethodNotFound', [u'Unknown method absent']),
    (u'module.kind', u'Service.MethodInvalid',
     [u'Service method kind must be callable']),
    (u'svc', None, None),
]


def build(r, stage, ro, target, arg=None):
    # (only AMF3 has externalizable objects)
    version = 3 if ro or stage == 'writer' else r.choice([0, 3])
    g = M.BatchGen(r, version=version)
    e = E.Env(version)
    args = [] if arg is None else [arg]

    for a in args:
        a.amf3 = version == 3

    if ro:
        dest, op = None, target

        if u'.' in target and r.random() < 0.8:
            dest, op = target.rsplit(u'.', 1)

        n = g.message('RemotingMessage', operation=M.s(op),
                      destination=Node('null') if dest is None
                      else M.s(dest), body=Node('list', args))
        b = E.Part(id=u'/1', target=u'null', args=[n])
    else:
        b = E.Part(id=u'/1', target=target, args=args)

    b.response = b.id
    e.bodies = [b]

    return e, g


def texts_of(node, out=None, seen=None):
    """All text in a value."""
    out = [] if out is None else out
    seen = {} if seen is None else seen

    if node is None or id(node) in seen:
        return out

    seen[id(node)] = node

    if isinstance(node.val, unicode):
        out.append(node.val)
    elif isinstance(node.val, dict):
        for k, v in node.val.items():
            out.append(unicode(k))
            texts_of(v, out, seen)
    elif isinstance(node.val, (list, tuple)):
        for v in node.val:
            if isinstance(v, M.Node):
                texts_of(v, out, seen)

    return out


def hygiene(rep, what):
    """No trace of the code in the answer."""
    everything = rep.body + '\n' + '\n'.join(
        ['%s: %s' % h for h in rep.headers]) + '\n' + str(rep.status)
    m = FORBIDDEN.search(everything)

    if m:
        ck.violate('disclosed', '%r in the answer %r\n%s' % (
            m.group(0), everything[:1500], what))
        return False

    return True


def follow_up(side, r, what):
    """The gateway still works."""
    e, g = build(r, None, False, u'ok.good', M.i(7))
    rep = side.send(g.write(e))
    ck.check(rep.code == 200 and
             E.read(rep.body).bodies[0].status == E.RESULT, 'broken-after',
             '%r after %s' % (rep.body[:300], what))


def failing(r, i):
    stage = r.choice(PROCESS * 3 + ENCODE + DECODE + RAW)
    debug = r.random() < 0.45
    strict = r.random() < 0.3 or stage == 'trailing'
    ro = r.random() < 0.45
    kind = r.choice(sorted(M.FAILS) if r.random() < 0.1 else M.CHEAP)

    if ro and kind in M.UNENCODABLE:
        kind = 'plain'
    if stage in ENCODE + DECODE and kind in ('attr', 'genexit', 'stop', 'eos'):
        # attribute errors of a getter mean a missing attribute
        kind = 'plain'
    if stage in DECODE and kind in ('amferror', 'ioerror'):
        kind = 'plain'

    C.kind[0] = kind
    side = Side(r, stage, debug, strict)

    for turn in range(r.choice([1, 1, 2, 3])):
        if turn and r.random() < 0.7:
            debug = not debug
            side.app.debug = debug
            ck.count('switched')

        if not one(r, side, stage, debug, ro, kind):
            return


def one(r, side, stage, debug, ro, kind):
    target = r.choice([u'func', u'svc.canary_call'])
    arg = None
    want = M.FAILS[kind][1:]
    http = None

    if stage == 'lookup':
        target, code, text = r.choice(LOOKUPS)

        if target == u'svc':
            code, text = u'Service.MethodNotFound', None

            if side.app.services['svc'].service is C.CanarySvc:
                code = u'Service.MethodNotFound'

        want = code, text
    elif stage == 'init':
        target = u'svc.canary_call'
    elif stage == 'refuse':
        want = u'AuthenticationError', [u'Authentication failed']
    elif stage in DECODE:
        arg = Node('obj', {u'x': M.i(1)}, u'canary.Setter') \
            if stage == 'setter' else None
        http = 500
    elif stage in ENCODE:
        http = 500

    if stage in ('auth', 'refuse') and ro:
        # remote-object messages are not authenticated
        ro = False

    e, g = build(r, stage, ro, target, arg)
    data = g.write(e)

    if stage == 'reader':
        # an externalizable object; its reader fails at once
        e.version = 3
        e.bodies[0].args = [M.s(u'@@')]
        e.bodies[0].args_amf3 = False
        e.bodies[0].target = target
        e.bodies[0].args[0].amf3 = True
        data = g.write(e)
        ext = '\x11\x0a\x07' + chr(len('canary.Ext') * 2 + 1) + 'canary.Ext'
        cut = data.rfind('\x11')
        data = data[:cut] + ext
    elif stage == 'garbage':
        data = '\x00\x00' + ''.join([
            chr(r.randint(0, 255)) for _ in range(r.randint(1, 80))])
        http = 400, 500, 200
    elif stage == 'truncated':
        data = data[:r.randint(0, len(data) - 1)]
        http = 400, 500
    elif stage == 'trailing':
        e.headers = []
        data = data + '\x00'
        http = 400, 500
    elif stage == 'response':
        e.bodies[0].status = E.RESULT
        e.bodies[0].args = None
        e.bodies[0].value = M.i(1)
        data = g.write(e)
        http = 400, 500, 200
    elif stage == 'badversion':
        data = '\x01' + data[1:]
        http = 400, 500

    what = '%s %s %s debug=%s %s %r' % (
        stage, kind, 'remote' if ro else 'plain', debug,
        'django' if side.dj else 'wsgi', target)
    rep = side.send(data)

    if not debug and not hygiene(rep, what):
        return

    if isinstance(http, int):
        http = (http,)

    if http:
        if rep.code not in http:
            ck.violate('status', '%s %r %s' % (
                rep.status, rep.body[:500], what))
            return
        if debug and rep.code != 200 and \
                'Traceback (most recent call last)' not in rep.body:
            ck.violate('no-traceback', '%r %s' % (rep.body[:800], what))
            return
        if debug and stage in DECODE + ['getter', 'writer'] and \
                'in canary_fail' not in rep.body:
            ck.violate('no-traceback', '%r %s' % (rep.body[:800], what))
            return

        ck.count('page:%d:%s' % (rep.code, 'debug' if debug else 'plain'))
    else:
        if rep.code != 200:
            ck.violate('status', '%s %r %s' % (
                rep.status, rep.body[:500], what))
            return

        b = E.read(rep.body).bodies[0]

        if ro:
            p = M.reply_check(e.bodies[0].args[0].val[u'messageId'],
                              e.bodies[0].args[0].by, None, want)(b)
        else:
            p = M.fault_check(want)(b)

        if p:
            ck.violate('fault', '%s %s' % (p, what))
            return

        v = b.value.val
        names = [u'faultDetail', u'extendedData'] if ro else [u'details']

        for name in names:
            t = u'\n'.join(texts_of(v[name]))

            if not debug:
                # nothing (what an empty detail is differs between the two)
                ck.check(t == u'', 'details', '%r %s' % (t, what))
            elif stage != 'refuse':
                need = [u'Traceback (most recent call last)']

                if stage in CALL + ['auth', 'pre'] and kind not in (
                        'recursion', 'java'):
                    need += [u'canary_fail', u'canaryfile']

                for x in need:
                    if x not in t:
                        ck.violate('no-traceback', '%s: no %r in %r %s' % (
                            name, x, t[:800], what))
                        return

        ck.count('fault:%s:%s' % ('remote' if ro else 'plain',
                                  'debug' if debug else 'off'))

    follow_up(side, r, what)
    ck.count('stage:' + stage)
    ck.seen((stage, kind, ro, debug, side.dj, target), sample=what)

    return True


def exits(r, i):
    """Interpreter exits are passed on from wherever they are raised."""
    stage = r.choice(['auth', 'pre', 'call', 'init', 'getter', 'writer',
                      'setter', 'reader'])
    ro = r.random() < 0.45 and stage != 'auth'
    err = r.choice(EXITS)()
    C.kind[0] = err
    side = Side(r, stage, r.random() < 0.5, r.random() < 0.3)
    target = r.choice([u'func', u'svc.canary_call'])
    arg = None

    if stage == 'init':
        target = u'svc.canary_call'
    if stage == 'setter':
        arg = Node('obj', {u'x': M.i(1)}, u'canary.Setter')

    e, g = build(r, stage, ro and stage != 'reader', target, arg)
    data = g.write(e)

    if stage == 'reader':
        e.version = 3
        e.bodies[0].args = [M.s(u'@@')]
        e.bodies[0].args[0].amf3 = True
        data = g.write(e)
        ext = '\x11\x0a\x07' + chr(len('canary.Ext') * 2 + 1) + 'canary.Ext'
        data = data[:data.rfind('\x11')] + ext

    what = '%r at %s %s %s' % (err, stage, 'remote' if ro else 'plain',
                               'django' if side.dj else 'wsgi')

    try:
        rep = side.send(data)
    except (SystemExit, KeyboardInterrupt), x:
        ck.check(x is err, 'another-exit', '%r %s' % (x, what))
        ck.count('exit:' + stage)
    else:
        ck.violate('exit-swallowed', '%s %r %s' % (
            rep.status, rep.body[:500], what))
        return

    follow_up(side, r, what)
    ck.seen((stage, repr(err), ro, side.dj), sample=what)


def main(ck):
    ck.run('failing', 6000, 200000, failing, 0.75)
    ck.run('exits', 1500, 20000, exits, 0.25)

    for k in PROCESS + ENCODE + DECODE + RAW:
        ck.require('stage:' + k, 10)
    for k in ('auth', 'pre', 'call', 'init', 'getter', 'writer', 'setter',
              'reader'):
        ck.require('exit:' + k, 8)
    for k in ('remote:debug', 'remote:off', 'plain:debug', 'plain:off'):
        ck.require('fault:' + k, 50)

    ck.require('switched', 50)
    ck.require('django', 50)


vlib.main(ck, main)
