# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C14', 'generated XML documents with document types, internal, external, '
    'parameter, nested and recursive entities (in several encodings and '
    'with prologues), and plain ones, are decoded through every path (AMF0, '
    'both AMF3 types, AMF3 in AMF0, nested values, externalizable objects, '
    'byte arrays, remoting requests, responses and headers, shared objects, '
    'WSGI gateway), by default and with each combination of the options; a '
    'monitor in the JVM records all file and network access meanwhile; '
    'non-trivial: the document declares something')
vlib.bootstrap()
import gen            # noqa
import refamf         # noqa
import graphcheck     # noqa
from gen import pyamf, Node   # noqa
import os, struct, sys, traceback, types   # noqa
from pyamf import amf3, remoting, sol, util   # noqa
import pyamf.xml      # noqa
from pyamf.remoting.gateway.wsgi import WSGIGateway   # noqa
from java.lang import SecurityManager, System   # noqa

CANARY = os.path.join(vlib.WORK, 'canary.txt')
SECRET = 'S3CRETcontents'
PORT = 9


class Monitor(SecurityManager):
    """Records files opened and addresses connected to; forbids nothing."""
    log = []
    on = [False]

    def checkPermission(self, *a):
        pass

    def checkPropertyAccess(self, *a):
        pass

    def checkPackageAccess(self, *a):
        pass

    def checkWrite(self, *a):
        pass

    def checkRead(self, f, *a):
        if self.on[0] and 'canary' in unicode(f):
            self.log.append(('read', unicode(f)))

    def checkConnect(self, host, port, *a):
        if self.on[0]:
            self.log.append(('connect', host, port))


# -- documents --------------------------------------------------------------

class Doc(object):
    """
    text: unicode markup; dtd: has a document type; entities: declares some;
    external: refers to an external entity from its contents
    """

    def __init__(self, text, dtd=False, entities=False, external=False,
                 value=None, encoding='utf-8', kind='plain'):
        self.text = text
        self.dtd = dtd
        self.entities = entities
        self.external = external
        self.value = value
        self.encoding = encoding
        self.kind = kind
        self.bytes = text.encode(encoding)

    def forbidden(self, no_dtd, no_entities):
        return (self.dtd and no_dtd) or (self.entities and no_entities)


def target(r):
    return r.choice([u'file://' + CANARY.decode('utf-8'), CANARY.decode(
        'utf-8'), u'http://127.0.0.1:%d/canary' % PORT,
        u'ftp://127.0.0.1:%d/canary' % PORT, u'canary.txt',
        u'jar:file://%s!/x' % CANARY.decode('utf-8')])


def prologue(r):
    p = r.choice([u'', u'', u'<?xml version="1.0"?>',
                  u'<?xml version="1.0" encoding="UTF-8"?>\n'])
    p += r.choice([u'', u'', u'\n', u'<!-- <!DOCTYPE y> -->', u'<?pi x?>\n'])
    return p


def declare(r, name, root):
    """An internal subset with its effect on references to ``name``."""
    c = r.randint(0, 9)
    t = target(r)

    if c == 0:
        return 'internal', u'<!ENTITY %s "value">' % name, False
    if c == 1:
        return 'nested', u'<!ENTITY i "ha">' + u'<!ENTITY %s "&i;&i;">' % \
            name, False
    if c == 2:
        s = u'<!ENTITY l0 "lol">'
        n = 12

        for k in range(1, n):
            s += u'<!ENTITY l%d "%s">' % (k, u'&l%d;' % (k - 1) * 10)

        return 'bomb', s + u'<!ENTITY %s "&l%d;">' % (name, n - 1), None
    if c == 3:
        return 'system', u'<!ENTITY %s SYSTEM "%s">' % (name, t), True
    if c == 4:
        return 'public', u'<!ENTITY %s PUBLIC "p" "%s">' % (name, t), True
    if c == 5:
        return 'parameter', u'<!ENTITY %% p SYSTEM "%s"> %%p; ' \
            u'<!ENTITY %s "v">' % (t, name), None
    if c == 6:
        return 'recursive', u'<!ENTITY %s "&r;"><!ENTITY r "&%s;">' % (
            name, name), None
    if c == 7:
        return 'unparsed', u'<!NOTATION n SYSTEM "%s"><!ENTITY u SYSTEM "%s"' \
            u' NDATA n><!ENTITY %s "v">' % (t, t, name), None
    if c == 8:
        return 'predefined', u'<!ENTITY lt "&#38;#60;">' \
            u'<!ENTITY %s "v">' % name, None

    return 'internal-parameter', u'<!ENTITY %% q "x"><!ENTITY %s "v">' % \
        name, None


def document(r):
    root = r.choice([u'x', u'root', u'a-b'])
    c = r.random()

    if c < 0.2:
        t = gen.gen_xml(r)
        return Doc(prologue(r).strip() + t, value=t)

    pro = prologue(r)
    enc = 'utf-8'

    if c < 0.35:
        # a document type without entities
        t = target(r)
        kind, decl = r.choice([
            ('bare', u''), ('system', u' SYSTEM "%s"' % t),
            ('public', u' PUBLIC "-//X//Y" "%s"' % t),
            ('subset', u' []'), ('element', u' [<!ELEMENT %s ANY>]' % root),
            ('notation', u' [<!NOTATION n SYSTEM "%s">]' % t),
            ('both', u' SYSTEM "%s" [<!ELEMENT %s ANY>]' % (t, root))])
        text = u'%s<!DOCTYPE %s%s><%s>z</%s>' % (pro, root, decl, root, root)
        kind = 'dtd-' + kind
        d = Doc(text, dtd=True, kind=kind,
                value=u'<%s>z</%s>' % (root, root))
    else:
        kind, subset, external = declare(r, u'e', root)
        where = r.randint(0, 3)

        if where == 0:
            inner, attr = u'1&e;2', u''
        elif where == 1:
            inner, attr = u'1', u' k="&e;"'
        elif where == 2:
            inner, attr = u'<b>&e;</b>', u''
        else:
            inner, attr = u'1', u''

        ext = target(r) if r.random() < 0.2 else None
        text = u'%s<!DOCTYPE %s%s [%s]><%s%s>%s</%s>' % (
            pro, root, u' SYSTEM "%s"' % ext if ext else u'', subset, root,
            attr, inner, root)
        value = None

        if kind in ('internal', 'nested'):
            v = {'internal': u'value', 'nested': u'haha'}[kind]
            value = u'<%s%s>%s</%s>' % (
                root, attr.replace(u'&e;', v), inner.replace(u'&e;', v), root)

        d = Doc(text, dtd=True, entities=True, kind='entity-' + kind,
                external=bool(external) and where != 3, value=value)

    if r.random() < 0.15 and u'encoding' not in pro and \
            not pro.startswith(u'\n'):
        enc = r.choice(['utf-16', 'utf-8-sig'])
        d.bytes = d.text.encode(enc)
        d.encoding = enc

    return d


# -- decoding paths ---------------------------------------------------------

def u29(n):
    return refamf.u29_bytes(n)


def xml0(b):
    return '\x0f' + struct.pack('>I', len(b)) + b


def xml3(marker):
    return lambda b: marker + u29(len(b) << 1 | 1) + b


def first(data, amf, kw):
    return gen.decode(data, amf, **kw)[0]


def p_amf0(b, kw):
    return first(xml0(b), 0, kw)


def p_amf3_doc(b, kw):
    return first(xml3('\x07')(b), 3, kw)


def p_amf3_e4x(b, kw):
    return first(xml3('\x0b')(b), 3, kw)


def p_nested0(b, kw):
    return first('\x0a\x00\x00\x00\x01\x03\x00\x01k' + xml0(b) +
                 '\x00\x00\x09', 0, kw)[0]['k']


def p_nested3(b, kw):
    return first('\x09\x03\x01\x0a\x0b\x01\x03k' + xml3('\x07')(b) + '\x01',
                 3, kw)[0]['k']


def p_amf3_in_amf0(b, kw):
    return first('\x11' + xml3('\x0b')(b), 0, kw)


def p_amf3_in_amf0_nested(b, kw):
    return first('\x0a\x00\x00\x00\x01\x11\x09\x03\x01' + xml3('\x07')(b),
                 0, kw)[0][0]


def p_typed0(b, kw):
    return first('\x10\x00\x07v.Plain\x00\x01k' + xml0(b) + '\x00\x00\x09', 0,
                 kw).k


def p_ext(b, kw):
    return first('\x0a\x07\x0bv.Ext\x00\x00\x00\x01' + xml3('\x0b')(b), 3,
                 kw).items[0]


def p_bytearray(b, kw):
    return amf3.ByteArray(xml3('\x0b')(b)).readObject()


def p_incremental(b, kw):
    d = pyamf.get_decoder(3, **kw)
    d.context.clear()
    d.send('\x06\x03a')
    d.next()
    d.context.clear()
    d.send(xml3('\x07')(b))
    return d.next()


def p_sol0(b, kw):
    return sol.decode(sol_bytes(0, '\x00\x01k' + xml0(b) + '\x00'))[1]['k']


def p_sol3(b, kw):
    return sol.decode(sol_bytes(3, '\x03k' + xml3('\x07')(b) + '\x00'))[1][
        'k']


def sol_bytes(amf, body):
    rest = 'TCSO\x00\x04\x00\x00\x00\x00\x00\x01n\x00\x00\x00' + chr(amf) + \
        body
    return '\x00\xbf' + struct.pack('>I', len(rest)) + rest


def request(amf, body, header=None):
    h = ''

    if header is not None:
        h = '\x00\x01h\x00' + struct.pack('>I', len(header)) + header

    body = '\x0a\x00\x00\x00\x01' + body
    return struct.pack('>HH', amf, 1 if h else 0) + h + '\x00\x01' + \
        '\x00\x04echo\x00\x02/1' + struct.pack('>I', len(body)) + body


def p_request(b, kw):
    return remoting.decode(request(0, xml0(b)), **kw)['/1'].body[0]


def p_request3(b, kw):
    return remoting.decode(request(3, '\x11' + xml3('\x07')(b)), **kw)[
        '/1'].body[0]


def p_header(b, kw):
    return remoting.decode(request(0, '\x05', xml0(b)), **kw).headers['h']


def p_header3(b, kw):
    return remoting.decode(request(3, '\x05', '\x11' + xml3('\x0b')(b)),
                           **kw).headers['h']


def p_response(b, kw):
    body = xml0(b)
    return remoting.decode(
        '\x00\x00\x00\x00\x00\x01\x00\x0b/1/onResult\x00\x04null' +
        struct.pack('>I', len(body)) + body, **kw)['/1'].body


RECEIVED = []


class GatewayRefused(Exception):
    pass


def echo(x):
    RECEIVED.append(x)
    return x


GATEWAY = WSGIGateway({'echo': echo})


def p_gateway(b, kw):
    from StringIO import StringIO
    body = request(0, xml0(b))
    status = []
    del RECEIVED[:]
    out = GATEWAY({'REQUEST_METHOD': 'POST', 'CONTENT_LENGTH':
                   str(len(body)), 'wsgi.input': StringIO(body)},
                  lambda s, h, e=None: status.append(s))

    if RECEIVED:
        return RECEIVED[0]

    raise GatewayRefused('%s %r' % (status, out))


PATHS = dict((n[2:], f) for n, f in globals().items()
             if n.startswith('p_') and isinstance(f, types.FunctionType))
#: paths without options
FIXED = ('bytearray', 'sol0', 'sol3', 'gateway')


def show(e):
    return gen.xml_py(e)


def case(r, i):
    d = document(r)
    path = r.choice(sorted(PATHS))
    no_dtd, no_ent = True, True
    kw = {}

    if path not in FIXED and r.random() < 0.5:
        no_dtd = r.random() < 0.5
        no_ent = r.random() < 0.5

        if not no_dtd or r.random() < 0.5:
            kw['forbid_dtd'] = no_dtd
        if not no_ent or r.random() < 0.5:
            kw['forbid_entities'] = no_ent

    judge(r, d, path, kw, no_dtd, no_ent)


def judge(r, d, path, kw, no_dtd, no_ent):
    if d.kind in ('entity-bomb', 'entity-recursive') and not \
            d.forbidden(no_dtd, no_ent):
        # allowed explicitly, and expands without end
        return

    what = '%s %s (%s) %s\n%r' % (path, kw, d.kind, d.encoding,
                                  d.bytes[:500])
    del Monitor.log[:]
    Monitor.on[0] = True
    value = err = None

    try:
        try:
            value = PATHS[path](d.bytes, kw)
        except Exception, e:
            err = e
    finally:
        Monitor.on[0] = False

    name = type(err).__name__
    ck.check(not Monitor.log, 'external-access:' + path,
             lambda: '%r\n%s' % (Monitor.log, what))

    if err is not None:
        text = repr(err)
    else:
        text = repr(show(value))

    ck.check(SECRET not in text, 'external-contents:' + path,
             lambda: '%s\n%s' % (text, what))
    forbidden = d.forbidden(no_dtd, no_ent) or d.external

    if forbidden:
        ck.check(err is not None, 'accepted:' + d.kind + ':' + path,
                 lambda: '%s\n%s' % (text, what))
        ck.count('refused:' + path)
        ck.count('refused-kind:' + d.kind)
        ck.count('error:' + name)
    elif d.encoding in ('utf-8',) and d.value is not None:
        if err is not None:
            ck.violate('refused-legal:' + path, '%s\n%s' % (text, what))
        else:
            want = refamf.xml_canon(d.value)
            ck.check(show(value) == want, 'xml-value:' + path,
                     lambda: '%r\nexpected %r\n%s' % (
                         show(value), want, what))
            ck.count('accepted:' + path)

            if d.dtd:
                ck.count('explicitly-allowed')

    ck.seen((path, d.bytes, no_dtd, no_ent), nontrivial=d.dtd,
            sample=dict(path=path, document=d.bytes[:120], options=repr(kw),
                        outcome=name if err is not None else 'value'))


def matrix(r, i):
    """Every path with a document of each forbidden kind, by default, just
    after the same path was used with everything allowed."""
    path = sorted(PATHS)[i % len(PATHS)]

    for _ in range(8):
        d = document(r)

        if not d.dtd:
            continue

        if path not in FIXED:
            judge(r, d, path, dict(forbid_dtd=False, forbid_entities=False),
                  False, False)

        judge(r, d, path, {}, True, True)


def body(ck):
    ck.require('explicitly-allowed', 20)
    ck.require('external-monitor', 1)

    for p in PATHS:
        ck.require('refused:' + p, 3)

    with open(CANARY, 'w') as f:
        f.write(SECRET)

    # everything loaded before the monitor starts
    for p in sorted(PATHS):
        PATHS[p]('<x/>', {})

    System.setSecurityManager(Monitor())
    # the monitor sees what it has to see
    Monitor.on[0] = True
    open(CANARY).read()

    try:
        from java.net import Socket
        Socket('127.0.0.1', PORT)
    except Exception:
        pass
    except:   # noqa (a Java exception)
        pass

    Monitor.on[0] = False

    if len([x for x in Monitor.log if x[0] == 'read']) and \
            len([x for x in Monitor.log if x[0] == 'connect']):
        ck.count('external-monitor')

    ck.run('matrix', 4 * len(PATHS), 60 * len(PATHS), matrix, 0.4)
    ck.run('documents', 4000, 200000, case, 0.6)


vlib.main(ck, body)
