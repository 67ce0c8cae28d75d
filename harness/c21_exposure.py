# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C21', 'random gateways (functions, instances, classes, modules; '
    'authenticators, pre-processors and request exposure on methods, services '
    'and gateway; services added, removed and added again) under random '
    'targets and credentials, by plain calls and remote-object messages; '
    'services, authenticators and pre-processors log what they are given; '
    'non-trivial: the target exists or an authenticator applies')
vlib.bootstrap()
import types          # noqa
import gen            # noqa
import refamf         # noqa
import gwlib          # noqa
import gwmodel as M   # noqa
import envelope as E  # noqa
from gen import pyamf, Node   # noqa
from pyamf.remoting import gateway, RemotingError   # noqa


class Refused(Exception):
    pass


# what an authenticator does: (returned value or exception, whether it admits)
VERDICTS = [(True, True), (True, True), (True, True), (False, False),
            (None, False), (1, False), (u'yes', False), ([], False),
            (Refused('no'), False), ('credentials', None)]


class Falsy(object):
    """Something to call that happens to be empty."""

    def __init__(self, function):
        self.function = function
        self.asked = 0

    def __len__(self):
        return 0

    def __call__(self, *args):
        return self.function(*args)


class NotTrue(Falsy):
    def __nonzero__(self):
        return False


def Held(function):
    """A bound method (it takes no attributes, its function does)."""
    class Keeper(object):
        def check(self, *args):
            return function(*args)

    return Keeper().check


class Guard(object):
    """An authenticator or a pre-processor and what it will do."""

    def __init__(self, log, kind, label, verdict, admits, exposed,
                 wrap=lambda f: f):
        self.kind = kind
        self.label = label
        self.verdict = verdict
        self.admits = admits
        self.exposed = exposed

        def function(*args):
            http = None

            if exposed:
                http, args = args[0], args[1:]

            if kind == 'pre':
                sr, args = args[0], args[1:]
                log.append(('pre', label, tuple(gen.canon_py(list(args), 3)),
                            id(http) if http is not None else None,
                            isinstance(sr, gateway.ServiceRequest) and
                            sr.method))
            else:
                log.append(('auth', label, gen.canon_py(list(args), 3),
                            id(http) if http is not None else None))

            if isinstance(verdict, Exception):
                raise verdict
            if verdict == 'credentials':
                return args == (u'user', u'secret')

            return verdict

        function = wrap(function)
        self.plain = function
        # decorated by the gateway itself when used on a method
        self.function = gateway.expose_request(function) if exposed \
            else function


class Method(object):
    def __init__(self):
        self.auth = self.pre = self.expose = None


class Service(object):
    def __init__(self, name, kind):
        self.name = name
        self.kind = kind
        self.methods = {}
        self.itself = None         # Method, for what is callable itself
        self.auth = self.pre = self.expose = None
        self.obj = None
        self.description = None


class Config(object):
    def __init__(self, r):
        self.r = r
        self.log = []
        self.services = {}
        self.auth = self.guard('auth', 'gateway', 0.3)
        self.pre = self.guard('pre', 'gateway', 0.3)
        self.expose = r.choice([None, False, False, True])
        self.app = None

    def guard(self, kind, label, p):
        r = self.r

        if r.random() >= p:
            return None

        if kind == 'auth':
            v, ok = r.choice(VERDICTS)
        else:
            v, ok = r.choice([(None, True), (None, True), (False, True),
                              (Refused('pre'), False)])

        return Guard(self.log, kind, label, v, ok, r.random() < 0.3,
                     r.choice([lambda f: f, lambda f: f, lambda f: f, Falsy,
                               NotTrue, Held]))

    def body(self, label):
        """A service method that logs its execution."""
        log = self.log

        def method(self, *args):
            http = None

            if args and not isinstance(args[0], (int, long, float)):
                http, args = args[0], args[1:]

            log.append(('call', label, gen.canon_py(list(args), 3),
                        id(http) if http is not None else None))
            return label

        return method

    def decorate(self, m, func):
        r = self.r

        def apply(f, g, c):
            if r.random() < 0.5 or not g.exposed:
                f(func, g.function)
            else:
                f(func, g.plain, True)

        m.auth = self.guard('auth', 'method', 0.3)
        m.pre = self.guard('pre', 'method', 0.3)
        m.expose = True if r.random() < 0.25 else None

        if m.auth:
            apply(gateway.authenticate, m.auth, func)
        if m.pre:
            apply(gateway.preprocess, m.pre, func)
        if m.expose:
            gateway.expose_request(func)

    def make(self, name):
        r = self.r
        log = self.log
        s = Service(name, r.choice(['function', 'instance', 'class', 'classic',
                                    'classicinstance', 'module', 'callable']))

        if s.kind == 'function':
            f = self.body(name)
            s.obj = lambda *a: f(None, *a)
            s.itself = Method()
            self.decorate(s.itself, s.obj)
        else:
            d = {}

            for k in ('run', 'stop', 'm3')[:r.randint(1, 3)]:
                m = s.methods[k] = Method()
                d[k] = self.body('%s.%s' % (name, k))

                if r.random() < 0.5:
                    self.decorate(m, d[k])
                else:
                    m.later = True

            d['_hidden'] = self.body(name + '._hidden')
            d['__secret'] = self.body(name + '.__secret')
            d['data'] = r.choice([1, u'text', [1], {u'run': 2}, None])
            d['nested'] = type('Nested', (), {
                'run': self.body(name + '.nested.run')})()

            def prop(self):
                log.append(('property', name))
                return 5

            def init(self):
                log.append(('init', name))

            if s.kind in ('instance', 'class', 'callable'):
                if r.random() < 0.5:
                    d['prop'] = property(prop)
                if s.kind == 'class':
                    d['__init__'] = init
                if s.kind == 'callable':
                    d['__call__'] = self.body(name)
                    s.itself = Method()

                c = type('Svc', (object,), d)
            elif s.kind == 'module':
                c = None
            else:
                if s.kind == 'classic':
                    d['__init__'] = init

                # (in Jython classic classes of one name are equal)
                self.made = getattr(self, 'made', 0) + 1
                c = types.ClassType('Svc%d' % self.made, (), d)

            if s.kind == 'module':
                s.obj = types.ModuleType('verif_' + str(name))

                for k, v in d.items():
                    if k.startswith('__'):
                        continue

                    if isinstance(v, types.FunctionType):
                        def f(*a, **kw):
                            return kw.pop('to')(None, *a)

                        f = (lambda to: lambda *a: to(None, *a))(v)

                        if k in s.methods:
                            for n in ('_pyamf_authenticator',
                                      '_pyamf_preprocessor',
                                      '_pyamf_expose_request'):
                                if hasattr(v, n):
                                    setattr(f, n, getattr(v, n))

                        setattr(s.obj, k, f)
                    else:
                        setattr(s.obj, k, v)
            elif s.kind in ('class', 'classic'):
                s.obj = c
            else:
                s.obj = c()

            for k, m in s.methods.items():
                if hasattr(m, 'later') and r.random() < 0.6:
                    # after the class was made, through the unbound method
                    self.decorate(m, getattr(
                        s.obj if s.kind == 'module' else c, k))

        s.auth = self.guard('auth', 'service', 0.3)
        s.pre = self.guard('pre', 'service', 0.3)
        s.expose = r.choice([None, None, True, False])

        return s

    def add(self, name):
        if name in self.services:
            try:
                self.app.addService(lambda *a: self.log.append('replaced'),
                                    name)
            except RemotingError:
                ck.count('duplicate-refused')
            else:
                ck.violate('duplicate-service', name)

            return

        s = self.make(name)
        kw = {}

        if s.auth:
            kw['authenticator'] = s.auth.function
        if s.pre:
            kw['preprocessor'] = s.pre.function
        if s.expose is not None:
            kw['expose_request'] = s.expose

        if self.r.random() < 0.4:
            # what a description says is not a name
            kw['description'] = s.description = self.r.choice(
                NAMES + [u'a service', u'', u'a.run'])

        self.app.addService(s.obj, name, **kw)
        self.services[name] = s
        offered = self.app.services[name].getMethods()
        ck.check(sorted(offered) == sorted(s.methods), 'methods-offered',
                 '%r for %r %s' % (offered, s.methods, s.kind))
        del self.log[:]

    def remove(self, name):
        if name not in self.services:
            for x in (name, self.log, u'a service', None):
                try:
                    self.app.removeService(x)
                except NameError:
                    ck.count('unknown-removed')
                else:
                    ck.violate('removed-unknown', '%r' % name)

            return

        s = self.services.pop(name)
        self.app.removeService(name if self.r.random() < 0.5 else s.obj)
        ck.count('removed')

    def resolve(self, target):
        """(service, method name, Method or None)"""
        if target in self.services:
            s = self.services[target]
            return s, None, s.itself
        if u'.' not in target:
            return None, None, None

        name, meth = target.rsplit(u'.', 1)
        s = self.services.get(name)

        if s is None:
            return None, None, None

        return s, meth, s.methods.get(meth)


def first(*xs):
    for x in xs:
        if x is not None:
            return x


NAMES = [u'a', u'a.b', u'svc', u'b', u'run', u'a.b.c']
TAILS = [u'run', u'stop', u'm3', u'run', u'stop', u'run']
BAD = [u'_hidden', u'__secret', u'__init__', u'__class__', u'data', u'nested',
       u'nested.run', u'run.im_func', u'prop', u'__dict__', u'absent', u'',
       u'Run', u'run ', u'run\x00', u'_Svc__secret', u'r\xfcn', u'__call__',
       u'__getattribute__', u'run.run', u'im_func', u'func_globals',
       u'data.append', u'__init__.im_func', u'.run', u'run.']


def gen_target(r):
    c = r.random()
    name = r.choice(NAMES)

    if c < 0.2:
        return name
    if c < 0.7:
        return name + u'.' + r.choice(TAILS)
    if c < 0.95:
        return name + u'.' + r.choice(BAD)

    return r.choice([u'.run', u'.', u'..', u'nobody.run', u'svc..run',
                     u' a.run', u'A.run', gen.gen_text(r, False) or u'x'])


def gen_credentials(r):
    """(header node or None, arguments of the authenticator or None)"""
    c = r.random()

    if c < 0.35:
        return None, (Node('null'), Node('null'))
    if c < 0.65:
        u, p = M.s(u'user'), M.s(u'secret')
    elif c < 0.9:
        g = gen.GraphGen(r, 0, max_nodes=2)
        u = r.choice([M.s(u'user'), M.s(u''), Node('null'), g.scalar(0)])
        p = r.choice([M.s(u'secret'), M.s(u'Secret'), Node('null'),
                      M.i(1), Node('bool', True), g.scalar(0)])
    else:
        return r.choice([Node('null'), M.s(u'user:secret'), Node('obj', {}),
                         Node('obj', {u'userid': M.s(u'user')}),
                         Node('list', []), Node('bool', True)]), None

    n = Node('obj', {u'userid': u, u'password': p})

    if r.random() < 0.2:
        n.val[u'more'] = M.i(1)

    return n, (u, p)


def admits(g, creds):
    if g.admits is not None:
        return g.admits

    return creds[0].kind == 'str' and creds[0].val == u'user' and \
        creds[1].kind == 'str' and creds[1].val == u'secret'


def expected(cfg, target, args, ro, creds, env, describe=False):
    """(events, fault code or None, whether the target may run at all)"""
    s, name, m = cfg.resolve(target)
    describe = describe and not ro

    if s is None:
        return [], False

    events = []
    au = first(m.auth if m else None, s.auth, cfg.auth)
    pre = first(m.pre if m else None, s.pre, cfg.pre)
    http = lambda on: id(env) if on else None
    can = lambda nodes: refamf.canon_node(Node('list', nodes), 3)

    if au and not ro:
        if creds is None:
            return [], False

        events.append(('auth', au.label, can(creds), http(au.exposed)))

        if not admits(au, creds):
            if m is None:
                return events, False

            return events, 'AuthenticationError' if not isinstance(
                au.verdict, Exception) else 'Refused'

    if pre:
        events.append(('pre', pre.label, tuple(can(args if ro else [])),
                       http(pre.exposed), name))

        if not pre.admits:
            return events, m and 'Refused' or False

    if describe and (m or name is None):
        # asked what it is, a service is not called
        events.append(('describe', s.description))
        return events, None

    if m is None:
        return events, False

    if s.kind in ('class', 'classic'):
        events.append(('init', s.name))

    exposed = first(m.expose, s.expose, cfg.expose) or False
    label = s.name if name is None else '%s.%s' % (s.name, name)
    events.append(('call', label, can(args), http(exposed)))

    return events, None


def request(cfg, r, g, version):
    """One request: (body part, target, ro, args)"""
    target = gen_target(r)
    ro = r.random() < 0.35
    amf = 3 if version == 3 or ro else 0
    args = [M.i(r.randint(0, 9))] + [
        Node('str', r.choice(gen.WORDS)) for _ in range(r.choice([0, 1, 2]))]

    if ro:
        n = g.message('RemotingMessage', body=Node('list', args))
        cut = [k for k, c in enumerate(target) if c == u'.' and k]

        if cut and r.random() < 0.85:
            k = r.choice(cut)
            dest, op = target[:k], target[k + 1:]
        else:
            dest, op = None, target

        n.val[u'destination'] = Node('null') if dest is None else M.s(dest)
        n.val[u'operation'] = M.s(op)
        b = E.Part(id=g.rid(), target=u'null', args=[n])
    else:
        b = E.Part(id=g.rid(), target=target, args=args)

        if version == 3:
            for a in args:
                a.amf3 = True

    b.response = b.id
    return b, target, ro, args


def code_of(part):
    if part.status == E.RESULT:
        return None
    if part.value.alias:
        return M.text(part.value.val[u'faultCode'])

    return M.text(part.value.val[u'code'])


def one(cfg, r):
    version = r.choice([0, 3])
    g = M.BatchGen(r, version=version)
    e = E.Env(version)
    header, creds = gen_credentials(r)

    if header is not None:
        e.headers.append(E.Part(name=u'Credentials', value=header,
                                required=r.random() < 0.5))

        if version == 3:
            header.amf3 = True

    describe = r.random() < 0.12

    if describe:
        e.headers.append(E.Part(name=u'DescribeService', value=Node('null'),
                                required=r.random() < 0.5))
        ck.count('describe')

        if version == 3:
            e.headers[-1].value.amf3 = True

    reqs = [request(cfg, r, g, version) for _ in range(r.choice([1, 1, 2, 4]))]

    for k, q in enumerate(reqs):
        if expected(cfg, q[1], q[3], q[2], creds, None,
                    describe)[1] is False:
            # whom a refused request may ask is left open, so it is the last
            del reqs[k + 1:]

    e.bodies = [q[0] for q in reqs]
    data = E.write(e, r)
    del cfg.log[:]
    rep = gwlib.wsgi(cfg.app, data)
    log = list(cfg.log)
    what = 'credentials %r\n%s\nlog %r\nconfiguration %s' % (
        header, '\n'.join([repr(q) for q in reqs]), log, show(cfg))

    if rep.code != 200:
        ck.violate('not-processed', '%s %s' % (rep.body[:600], what))
        return

    got = E.read(rep.body)

    if len(got.bodies) != len(reqs):
        ck.violate('responses', what)
        return

    for (b, target, ro, args), part in zip(reqs, got.bodies):
        events, code = expected(cfg, target, args, ro, creds, rep.environ,
                                describe)
        told = None

        if events and events[-1][0] == 'describe':
            told = events.pop()

        plain = [x for x in events]
        said = code_of(part)
        s, name, m = cfg.resolve(target)

        if code is not False and creds is None and not ro:
            # nobody asks for the (malformed) credentials
            if log[:len(events)] != events or (
                    told and said is not None):
                code, events = False, []

        if code is False:
            # refused: nothing is executed, whoever was asked before
            while log and log[0][0] in ('auth', 'pre', 'init', 'property'):
                if log[0][0] == 'property' and name != 'prop':
                    break
                if s is None or (log[0][0] == 'init' and
                                 creds is None and not ro):
                    break

                if log[0] not in events and log[0][0] in ('auth', 'pre'):
                    break

                log.pop(0)

            if said is None and not (describe and s is not None and not ro):
                ck.violate('not-refused', '%r answered with %r\n%s' % (
                    target, part.value, what))
                return

            ck.count('refused')
            ck.seen((target, ro, 'refused'), nontrivial=s is not None)
            continue

        if log[:len(events)] != events:
            ck.violate('events', 'for %r: expected %r, log %r\n%s' % (
                target, events, log, what))
            return

        del log[:len(events)]

        if said != code:
            ck.violate('answer', 'for %r: %r, expected %r\n%s' % (
                target, part.value, code, what))
            return

        if told:
            v = part.value
            ck.check(M.text(v) == told[1] if told[1] is not None else
                     v.kind == 'null', 'description', '%r, not %r\n%s' % (
                         v, told[1], what))
            ck.count('described')
        elif code is None:
            ck.count('executed:ro' if ro else 'executed:plain')
            v = part.value.val[u'body'] if ro else part.value
            ck.check(M.text(v) == events[-1][1], 'result', '%r %s' % (
                v, what))
        else:
            ck.count('denied:' + code)

        for x in events:
            if x[0] in ('auth', 'pre'):
                ck.count('%s:%s' % (x[0], x[1]))
            if x[0] in ('auth', 'pre', 'call') and x[3] is not None:
                ck.count('exposed:' + x[0])

        ck.seen(repr((target, ro, [x[:2] for x in events], code)),
                sample=dict(target=target, events=[x[:2] for x in events]))

    if log:
        ck.violate('more-executed', '%r\n%s' % (log, what))


def show(cfg):
    def g(x):
        return None if x is None else (x.label, repr(x.verdict), x.exposed)

    out = ['gateway %r %r %r' % (g(cfg.auth), g(cfg.pre), cfg.expose)]

    for s in cfg.services.values():
        out.append('%s %s %r %r %r %r' % (
            s.name, s.kind, g(s.auth), g(s.pre), s.expose,
            dict((k, (g(m.auth), g(m.pre), m.expose)) for k, m in
                 list(s.methods.items()) +
                 ([('itself', s.itself)] if s.itself else []))))

    return '\n'.join(out)


def histories(r, i):
    cfg = Config(r)
    kw = {}

    if cfg.auth:
        kw['authenticator'] = cfg.auth.function
    if cfg.pre:
        kw['preprocessor'] = cfg.pre.function

    cfg.app = gwlib.WSGIGateway(expose_request=cfg.expose, **kw)

    for _ in range(r.randint(4, 14)):
        c = r.random()

        if c < 0.4 or not cfg.services:
            cfg.add(r.choice(NAMES))
        elif c < 0.5:
            cfg.remove(r.choice(NAMES))
        else:
            one(cfg, r)

    for _ in range(3):
        one(cfg, r)


def invalid(r, i):
    """What is no service is refused, and so are bad guards."""
    app = gwlib.WSGIGateway()

    for bad in (1, 1.5, 'name', u'name', 2 ** 70, True):
        try:
            app.addService(bad, 'x')
        except TypeError:
            pass
        else:
            ck.violate('scalar-service', repr(bad))

        ck.check('x' not in app.services.keys(), 'scalar-registered', '')

    def f():
        pass

    for deco in (gateway.authenticate, gateway.preprocess):
        for a, b in ((f, 1), (f, None), (5, f)):
            try:
                deco(a, b)
            except TypeError:
                pass
            else:
                ck.violate('bad-guard', '%r %r' % (a, b))

    ck.check([k for k in f.__dict__ if k.startswith('_pyamf')] == [],
             'bad-guard-left', repr(f.__dict__))
    ck.seen('invalid', nontrivial=False)


def instance_guard():
    """A class that makes a guarded method in its constructor."""
    ran = []

    class Svc(object):
        def __init__(self):
            def run():
                ran.append(1)

            self.run = gateway.authenticate(run, lambda u, p: False)

    app = gwlib.WSGIGateway({'svc': Svc})
    e = E.Env(0)
    b = E.Part(id=u'/1', target=u'svc.run', args=[])
    b.response = u'/1'
    e.bodies = [b]
    gwlib.wsgi(app, E.write(e, ck.rng('x')))

    return bool(ran)


def main(ck):
    ck.probe('instance-attribute-authenticator', instance_guard)
    ck.run('invalid', 3, 3, invalid)
    ck.run('histories', 6000, 300000, histories, 0.95)

    for k in ('gateway', 'service', 'method'):
        ck.require('auth:' + k, 30)
        ck.require('pre:' + k, 30)

    for k in ('executed:ro', 'executed:plain', 'refused', 'removed',
              'denied:AuthenticationError', 'denied:Refused', 'exposed:call',
              'exposed:auth', 'exposed:pre', 'duplicate-refused',
              'described'):
        ck.require(k, 30)


vlib.main(ck, main)
