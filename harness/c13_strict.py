# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C13', 'random messages in which some typed objects are renamed to '
    'classes that do not exist (dotted, module-like, empty, non-ASCII and '
    'Flex-like names, at any nesting, also in AMF3 parts of AMF0 messages '
    'and as externalizable objects) are written by an independent writer and '
    'decoded with and without strict mode; values, error classes, a log of '
    'initialiser calls and of calls to functions bearing the names are '
    'checked; non-trivial: an unknown class occurs')
vlib.bootstrap()
import gen            # noqa
import refamf         # noqa
import graphcheck     # noqa
from gen import pyamf, Node   # noqa
import sys, traceback, types  # noqa
from pyamf import remoting    # noqa

LOG = []


class Trap(object):
    """Bait: code that an unknown name might reach."""

    def __init__(self, *a, **kw):
        LOG.append(('Trap()', a))

    def method(self, *a, **kw):
        LOG.append(('method', a))

    def __call__(self, *a, **kw):
        LOG.append(('call', a))

    def __getattr__(self, name):
        if not name.startswith('__'):
            LOG.append(('getattr', name))

        raise AttributeError(name)


def trap(*a, **kw):
    LOG.append(('function', a))
    return Trap


bait = types.ModuleType('vbait13')
bait.trap = trap
bait.instance = object.__new__(Trap)
bait.number = 5
bait.text = u'text'
bait.none = None
bait.module = sys
sys.modules['vbait13'] = bait

NAMES = [u'a', u'com.example.Thing', u'v.Plain2', u'v.plain', u' v.Plain',
         u'v.Plain ', u'v.', u'.v', u'.', u'..', u'no such class',
         u'\xdcn\xef', u'v.\xdcn\xefq', u'\u4e2d.\u6587', u'x' * 300,
         u'vbait13.trap', u'vbait13.instance', u'vbait13.number',
         u'vbait13.text', u'vbait13.none', u'vbait13.module',
         u'vbait13.instance.method', u'vbait13.missing', u'vbait13.',
         u'os.system', u'os', u'sys', u'sys.exit', u'os.path.join',
         u'__builtin__.eval', u'__builtin__.open', u'__builtin__.len',
         u'pyamf', u'pyamf.', u'pyamf.decode', u'pyamf.Undefined',
         u'pyamf.register_class', u'no_such_module.Thing',
         u'flex.messaging.messages.Nothing', u'flex.messaging.io.Nothing',
         u'flex.nothing', u'flex.', u'DS', u'DSX', u'a:b', u'a/b', u'a\nb',
         u'\x00', u'v.Plain\x00', u'1', u'*', u'None', u'object',
         u'v::Plain', u'v/Plain', u'v:Plain', u'v.Plain()', u'[v.Plain]',
         u'v.Plain,v', u'V.PLAIN', u'flex.messaging.io::ArrayCollection',
         u'dsk', u'DSK ']

KNOWN = [u'v.Plain', u'flex.messaging.io.ArrayCollection', u'DSK', u'DSC',
         u'flex.messaging.messages.CommandMessage',
         u'flex.messaging.io.ObjectProxy']


def variant(r):
    """Almost the name of a registered class."""
    while True:
        s = r.choice(KNOWN + [k for k in pyamf.CLASS_CACHE.keys()
                              if isinstance(k, unicode)])

        for _ in range(r.choice([1, 1, 2])):
            k = r.randrange(len(s) + 1)
            s = r.choice([
                lambda: s[:k] + s[k + 1:], lambda: s[:k] + s[k:].swapcase(),
                lambda: s.replace(u'.', r.choice([u'::', u'/', u'..', u'$'])),
                lambda: s[:k] + r.choice(u'.:$ xX_\xe9') + s[k:],
                lambda: s[k:], lambda: s[:k], lambda: s.strip(u'.') + u'.'])()

        # (one without a dot may be the name of a module, which has no class)
        if s and s not in pyamf.CLASS_CACHE and \
                not s.startswith(u'pyamf.') and s != u'DSA':
            return s


class Init(object):
    made = 0

    def __init__(self, *a, **kw):
        LOG.append(('Init.__init__', a))


class InitArgs(object):
    def __init__(self, one, two):
        LOG.append(('InitArgs.__init__', one, two))


class InitSub(Init):
    def __init__(self, one, two=None):
        LOG.append(('InitSub.__init__', one))


class InitSlots(object):
    __slots__ = ('n',)

    def __init__(self, one):
        LOG.append(('InitSlots.__init__', one))


class InitDict(dict):
    def __init__(self, one):
        LOG.append(('InitDict.__init__', one))


class InitProps(object):
    class __amf__:
        static = ('n',)
        dynamic = False

    def __init__(self):
        LOG.append(('InitProps.__init__',))


INIT = dict((u'v13.' + c.__name__, c) for c in (
    Init, InitArgs, InitSub, InitSlots, InitDict, InitProps))

for name in INIT:
    pyamf.register_class(INIT[name], name)


def walk(nodes):
    seen = {}
    todo = list(nodes)

    while todo:
        n = todo.pop()

        if id(n) in seen:
            continue

        seen[id(n)] = n
        todo.extend(refamf.children(n))

    return list(seen.values())


def canon(values, amf):
    return gen.canon_py(list(values), amf, True)


def outcome(f):
    """('value', v) or ('error', class, traceback)"""
    try:
        return 'value', f(), None
    except Exception:
        e = sys.exc_info()
        return 'error', e[0], traceback.format_exc()


def unknown(r, i):
    amf = r.choice([0, 3])
    nodes, g = graphcheck.message(
        r, amf, max_nodes=r.choice([6, 15, 40]), big=False,
        ext=False)
    typed = sorted([n for n in walk(nodes) if n.kind == 'obj' and n.alias and
                    n.alias not in gen.SEALED and not n.amf3],
                   key=lambda n: n.alias)
    changed = 0

    if not typed:
        n = Node('obj', {u'k': Node('str', u'v')}, u'v.Plain')
        nodes.append(n)
        typed = [n]

    names = [r.choice(NAMES) if r.random() < 0.7 else variant(r)
             for _ in range(2)]

    for n in typed:
        if r.random() < 0.6:
            n.alias = r.choice(names)
            changed += 1

    if r.random() < 0.2 and amf == 0:
        # an unknown class inside an AMF3 part
        n = Node('obj', {u'in': Node('obj', {u'n': Node('int', i)},
                                     names[0])}, names[1])
        n.amf3 = True
        nodes.append(n)
        changed += 1
        ck.count('unknown-in-amf3-part')

    data = graphcheck.WRITE[amf](nodes, r, gen.SEALED)
    want = graphcheck.canon_nodes(nodes, amf, True)
    what = 'amf%d, unknown %r: %s\nbytes %r' % (
        amf, names, graphcheck.expr(nodes), data[:300])
    del LOG[:]

    for again in range(2):
        kind, v, tb = outcome(lambda: gen.decode(data, amf))

        if kind == 'error':
            ck.violate('non-strict-raises:' + v.__name__,
                       '%s\n%s' % (tb, what))
            break

        try:
            got = canon(v, amf)
        except Exception:
            ck.violate('non-strict-value', traceback.format_exc() + what)
            break

        graphcheck.compare(ck, 'non-strict-differs', want, got, what)

        # strict mode
        kind, v, tb = outcome(lambda: gen.decode(data, amf, strict=True))

        if changed:
            ck.check(kind == 'error' and v is pyamf.UnknownClassAlias,
                     'strict-accepts' if kind == 'value' else
                     'strict-error:' + v.__name__,
                     lambda: '%s\n%r\n%s' % (tb, v, what))
            ck.count('strict-rejections')
        elif kind == 'error':
            ck.violate('strict-rejects-known:' + v.__name__,
                       '%s\n%s' % (tb, what))
        else:
            graphcheck.compare(ck, 'strict-differs', want, canon(v, amf),
                               what)
            ck.count('strict-known')

    ck.check(not LOG, 'application-code-ran', lambda: '%r\n%s' % (
        LOG, what))
    ck.count('unknown-classes', changed)
    ck.seen(data, nontrivial=changed > 0)


def one_name(r, i):
    """Each name alone, at the simplest and in two nestings."""
    name = NAMES[i % len(NAMES)] if i < 4 * len(NAMES) else variant(r)
    amf = [0, 3][(i // len(NAMES)) % 2]
    in3 = amf == 0 and (i // len(NAMES)) % 4 == 2
    n = Node('obj', {u'n': Node('int', i), u'self': None}, name)
    n.val[u'self'] = n
    n.amf3 = in3
    top = r.choice([n, Node('list', [n]), Node('obj', {u'k': n})]) \
        if not in3 else n
    data = graphcheck.WRITE[amf]([top], r, gen.SEALED)
    what = 'amf%d class %r' % (amf, name)
    del LOG[:]
    kind, v, tb = outcome(lambda: gen.decode(data, amf)[0])

    if kind == 'error':
        ck.violate('name-raises:' + v.__name__, '%s\n%s' % (tb, what))
    else:
        if isinstance(v, list):
            v = v[0]
        elif not isinstance(v, pyamf.TypedObject):
            v = v[u'k']

        ck.check(type(v) is pyamf.TypedObject and v.alias == name and
                 v[u'n'] == i and v[u'self'] is v and len(v) == 2,
                 'name-value', lambda: '%r %r\n%s' % (
                     type(v), getattr(v, 'alias', None), what))

    kind, v, tb = outcome(lambda: gen.decode(data, amf, strict=True))
    ck.check(kind == 'error' and v is pyamf.UnknownClassAlias,
             'strict-name', lambda: '%s\n%r\n%s' % (tb, v, what))

    # a remoting message in strict mode
    env = remote(r, amf, top)
    kind, v, tb = outcome(lambda: remoting.decode(env))
    ck.check(kind == 'value', 'remoting-raises', lambda: '%s\n%s' % (tb, what))
    kind, v, tb = outcome(lambda: remoting.decode(env, strict=True))
    ck.check(kind == 'error' and v is pyamf.UnknownClassAlias,
             'strict-remoting', lambda: '%s\n%r\n%s' % (tb, v, what))
    ck.check(not LOG, 'application-code-ran', lambda: '%r\n%s' % (LOG, what))
    ck.seen((amf, in3, name))
    ck.count('names')


def remote(r, amf, node):
    """A request with one argument, as a client would send it."""
    import struct

    if amf == 0:
        body = '\x0a\x00\x00\x00\x01' + refamf.write_amf0([node], r,
                                                          gen.SEALED)
    else:
        body = '\x0a\x00\x00\x00\x01\x11' + refamf.write_amf3([node], r,
                                                              gen.SEALED)

    return struct.pack('>HHH', amf, 0, 1) + '\x00\x03a.b\x00\x02/1' + \
        struct.pack('>I', len(body)) + body


def externalizable(r, i):
    name = r.choice(NAMES)
    n = Node('ext', [Node('int', 5)], name)
    top = r.choice([n, Node('list', [Node('null'), n]),
                    Node('obj', {u'k': n})])
    data = refamf.write_amf3([top], r, gen.SEALED)
    amf = 3

    if r.random() < 0.4:
        data = '\x11' + data
        amf = 0

    for strict, err in ((False, pyamf.DecodeError),
                        (True, pyamf.UnknownClassAlias)):
        kind, v, tb = outcome(
            lambda: gen.decode(data, amf, strict=strict))
        ck.check(kind == 'error' and v is err, 'unknown-externalizable',
                 lambda: 'strict=%s: %s %r %s\nclass %r, bytes %r' % (
                     strict, kind, v, tb, name, data[:200]))

    ck.seen(('ext', data))
    ck.count('unknown-externalizables')


def instances(r, i):
    """Registered classes: instances, made without initialiser."""
    amf = r.choice([0, 3])
    names = [r.choice(sorted(INIT)) for _ in range(r.randint(1, 5))]
    nodes = [Node('obj', {u'n': Node('int', j)}, name)
             for j, name in enumerate(names)]

    wrapped = r.random() < 0.5

    if wrapped:
        nodes = [Node('list', nodes)]

    data = graphcheck.WRITE[amf](nodes, r, {})
    del LOG[:]

    for strict in (False, True):
        kind, v, tb = outcome(lambda: gen.decode(data, amf, strict=strict))

        if kind == 'error':
            ck.violate('registered-raises:' + v.__name__, '%s\n%r' % (
                tb, names))
            continue

        if wrapped:
            v = v[0]

        for j, name in enumerate(names):
            o = v[j]
            ck.check(type(o) is INIT[name], 'registered-class', lambda: '%r '
                     'for %r' % (o, name))
            n = o[u'n'] if isinstance(o, dict) else o.n
            ck.check(n == j, 'registered-attribute', lambda: '%r %r' % (
                name, n))

    ck.check(not LOG, 'initialiser-called', lambda: '%r' % LOG)
    ck.seen(('inst', data))
    ck.count('instances', len(names))


def provided(r, i):
    """A class loader provides the class, also in strict mode."""
    amf = r.choice([0, 3])
    name = u'v13.lazy.%d' % i
    calls = []

    class Lazy(object):
        def __init__(self, x):
            LOG.append('Lazy')

    def loader(alias):
        calls.append(alias)

        if alias == name:
            return Lazy

    pyamf.register_class_loader(loader)
    n = Node('obj', {u'n': Node('int', i)}, name)
    data = graphcheck.WRITE[amf]([n, Node('list', [n])], r, {})
    del LOG[:]

    try:
        kind, v, tb = outcome(lambda: gen.decode(data, amf, strict=True))
        ck.check(kind == 'value' and type(v[0]) is Lazy and v[0].n == i and
                 v[1][0] is v[0], 'class-loader', lambda: '%s\n%r' % (tb, v))
        ck.check(calls.count(name) == 1, 'class-loader-calls', repr(calls))
        ck.check(not LOG, 'initialiser-called', repr(LOG))
    finally:
        pyamf.unregister_class_loader(loader)

        try:
            pyamf.unregister_class(name)
        except pyamf.UnknownClassAlias:
            pass

    ck.seen(('lazy', amf, i))
    ck.count('loaded')


def body(ck):
    ck.require('names', 20)
    ck.require('strict-rejections', 50)
    ck.require('unknown-externalizables', 20)
    ck.require('instances', 20)
    ck.run('names', 8 * len(NAMES), 200 * len(NAMES), one_name, 0.3)
    ck.run('externalizable', 300, 3000, externalizable, 0.1)
    ck.run('instances', 400, 5000, instances, 0.12)
    ck.run('provided', 60, 300, provided, 0.05)
    ck.run('unknown', 2500, 80000, unknown, 0.5)


vlib.main(ck, body)
