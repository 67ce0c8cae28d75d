# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C18', 'Flex messages of every kind with random subsets of their fields '
    'set, alone and several in one message, through AMF3 and AMF0, in plain '
    'and in small form, with field by field comparison; small messages '
    'written from the published format with random flag bytes; the wire is '
    'read independently; all cases non-trivial')
vlib.bootstrap()
import gen            # noqa
import refamf         # noqa
import graphcheck     # noqa
from gen import pyamf   # noqa
import datetime, struct, uuid   # noqa
from pyamf import amf3   # noqa
from pyamf.flex import data, messaging as m   # noqa

gen.register()

BASE = ['body', 'clientId', 'destination', 'headers', 'messageId',
        'timestamp', 'timeToLive']
FIELDS = {
    'AsyncMessage': BASE + ['correlationId'],
    'AcknowledgeMessage': BASE + ['correlationId'],
    'CommandMessage': BASE + ['correlationId', 'operation'],
    'RemotingMessage': BASE + ['operation', 'source'],
    'ErrorMessage': BASE + ['correlationId', 'extendedData', 'faultCode',
                            'faultDetail', 'faultString', 'rootCause'],
}
# the classes of the data management service; their own fields are dynamic
# attributes, their constructors take no arguments
DATA = ['DataMessage', 'SequencedMessage', 'PagedMessage', 'DataErrorMessage']
FIELDS['DataMessage'] = FIELDS['AsyncMessage'] + ['identity', 'operation']
FIELDS['SequencedMessage'] = FIELDS['AcknowledgeMessage'] + [
    'sequenceId', 'sequenceProxies', 'sequenceSize', 'dataMessage']
FIELDS['PagedMessage'] = FIELDS['SequencedMessage'] + [
    'pageCount', 'pageIndex']
FIELDS['DataErrorMessage'] = FIELDS['ErrorMessage'] + [
    'cause', 'propertyNames', 'serverObject']
SMALL = {'AsyncMessage': u'DSA', 'AcknowledgeMessage': u'DSK',
         'CommandMessage': u'DSC'}
NAMES = dict((k, (u'flex.data.messages.' if k in DATA else
                  u'flex.messaging.messages.') + k) for k in FIELDS)


def class_of(kind):
    return getattr(data if kind in DATA else m, kind)


EPOCH = datetime.datetime(1970, 1, 1)


def tree(r, depth=0):
    """A value without identity and without the empty mapping, which AMF3
    cannot tell from an empty array."""
    c = r.random()

    if depth < 3 and c < 0.2:
        return [tree(r, depth + 1) for _ in range(r.choice([0, 1, 2, 4]))]
    if depth < 3 and c < 0.4:
        return dict((r.choice([u'a', u'b', u'\xe9', u'DSId', u'x y']),
                     tree(r, depth + 1)) for _ in range(r.choice([1, 2, 4])))

    return r.choice([None, True, False, 0, 1, -5, 0.0, 0.5, 2 ** 40, u'', u'a',
                     u'h\xe9llo \u4e2d', gen.gen_text(r, False),
                     gen.gen_int(r), r.randint(-9, 9)])


def when(r):
    return datetime.datetime(
        r.choice([1970, 2009, 2024, 1999]), r.randint(1, 12),
        r.randint(1, 28), r.randint(0, 23), r.randint(0, 59),
        r.randint(0, 59), r.choice([0, 985000, 500000, 1000]))


def field(r, name, small):
    c = r.random()

    if name in ('clientId', 'messageId', 'correlationId'):
        if small and c < 0.5:
            return uuid.UUID(int=r.getrandbits(128))

        return r.choice([u'', u'abc', unicode(uuid.UUID(
            int=r.getrandbits(128))), gen.gen_text(r, False)])
    if name in ('timestamp', 'timeToLive'):
        if c < 0.4:
            return when(r)

        return r.choice([0, 1, 1234, 1250681083985, r.randint(0, 10 ** 12),
                         1234.0])
    if name == 'headers':
        if c < 0.2:
            return {}

        return dict((k, tree(r, 2)) for k in [
            u'DSId', u'DSEndpoint', u'DSMessagingVersion', u'\xe9']
            if r.random() < 0.5) or {u'DSId': u'nil'}
    if name == 'operation':
        return r.choice([0, 1, 2, 5, 8, 9, 12, 10000, u'echo', u'', r.randint(
            0, 13)])
    if name in ('extendedData', 'rootCause') and c < 0.2:
        return {}
    if name in ('destination', 'source', 'faultCode', 'faultString',
                'faultDetail'):
        return r.choice([u'', u'service', u'a.b.c', gen.gen_text(r, False)])

    return tree(r)


DEFAULTS = {'headers': {}, 'extendedData': {}, 'rootCause': {}}


def make(r, kind, small):
    want = {}

    for f in FIELDS[kind]:
        if r.random() < 0.55:
            want[f] = field(r, f, small)

    same = [f for f in ('clientId', 'messageId', 'correlationId',
                        'destination') if f in want]

    if len(same) > 1 and r.random() < 0.3:
        # one value in several places
        v = want[same[0]]

        for f in same[1:]:
            if f != 'destination' or not isinstance(v, uuid.UUID):
                want[f] = v

    msg = class_of(kind)(**dict((str(k), v) for k, v in want.items())) \
        if kind not in DATA and r.random() < 0.5 else class_of(kind)()

    for k, v in want.items():
        setattr(msg, k, v)

    for f in FIELDS[kind]:
        want.setdefault(f, DEFAULTS.get(f))

    return msg, want


def norm(x):
    """Type and contents, numbers by value, {} like []."""
    if isinstance(x, bool) or x is None:
        return repr(x)
    if isinstance(x, (int, long, float)):
        return ('n', repr(float(x)))
    if isinstance(x, str):
        x = x.decode('utf-8')
    if isinstance(x, unicode):
        return ('s', x)
    if isinstance(x, uuid.UUID):
        return ('uuid', x.hex)
    if isinstance(x, datetime.datetime):
        return ('d', millis(x))
    if isinstance(x, dict):
        if not x:
            return ('l',)

        return ('m',) + tuple(sorted([(norm(k), norm(v))
                                      for k, v in x.items()], key=repr))
    if isinstance(x, (list, tuple)):
        return ('l',) + tuple([norm(v) for v in x])

    return ('other', repr(x))


def millis(d):
    t = d - EPOCH
    return (t.days * 86400 + t.seconds) * 1000 + t.microseconds // 1000


def norm_field(name, v, small):
    if name in ('timestamp', 'timeToLive') and small:
        # the small form has milliseconds, and nothing for 0
        if v is None:
            return ('ms', 0)
        if isinstance(v, datetime.datetime):
            return ('ms', millis(v))

        return ('ms', int(round(v)))

    return norm(v)


def compare(kind, want, got, small, what):
    for f in FIELDS[kind]:
        if not hasattr(got, f):
            ck.violate('field-missing:' + f, what)
            return False

        a = norm_field(f, want[f], small)
        b = norm_field(f, getattr(got, f), small)

        if a != b:
            ck.violate('field:%s:%s' % ('small' if small else 'plain', f), (
                'sent %r, received %r\n%s' % (want[f], getattr(got, f),
                                              what)))
            return False

    extra = set(got.__dict__) - set(FIELDS[kind])

    if extra:
        ck.violate('field-extra', '%r %s' % (sorted(extra), what))
        return False

    return True


def cases(r, i):
    amf = r.choice([0, 3, 3])
    specs = []
    values = []
    whats = []

    for _ in range(r.choice([1, 1, 2, 4])):
        kind = r.choice(sorted(FIELDS))
        small = kind in SMALL and r.random() < 0.65
        msg, want = make(r, kind, small)
        what = '%s small=%s %r' % (kind, small, want)

        if small:
            before = dict(msg.__dict__)
            s = msg.getSmallMessage()

            if s is msg or type(s).__name__ != kind + 'Ext' or \
                    not isinstance(s, getattr(m, kind)):
                ck.violate('small-kind', '%r %s' % (type(s), what))
                return

            ck.check(before == msg.__dict__, 'small-changes', what)

            if not compare(kind, want, s, False, 'small form of ' + what):
                return

            msg = s

        values.append(msg)
        specs.append((kind, small, want))
        whats.append(what)

    what = 'AMF%d ' % amf + '\n'.join(whats)
    order = range(len(values))

    if r.random() < 0.3:
        order.append(r.choice(order))

    payload = [values[k] for k in order]
    out = pyamf.encode(payload, encoding=amf).getvalue()
    nodes = independent(out, amf, what)

    if nodes is None:
        return

    back = list(pyamf.decode(out, encoding=amf))[0]

    for k, got, n in zip(order, back, nodes):
        kind, small, want = specs[k]
        cls = getattr(m, kind + 'Ext') if small else class_of(kind)

        if type(got) is not cls:
            ck.violate('kind', 'sent %s, received %r\n%s' % (
                cls.__name__, got, what))
            return
        if not compare(kind, want, got, small, what):
            return

        alias = SMALL[kind] if small else NAMES[kind]

        if n.alias != alias or n.kind != ('ext' if small else 'obj'):
            ck.violate('wire-class', '%r %s' % (n, what))
            return

        if not small and set(n.val) != set(FIELDS[kind]):
            ck.violate('wire-fields', '%r %s' % (n, what))
            return

        ck.count('small' if small else 'plain')
        ck.count('kind:' + cls.__name__)

        if small:
            # and once more
            d2 = pyamf.encode(got, encoding=3).getvalue()
            g2 = pyamf.decode(d2, encoding=3).next()

            if not compare(kind, want, g2, True, 'again: ' + what):
                return

    for a in range(len(order)):
        for b in range(a):
            ck.check((order[a] == order[b]) == (back[a] is back[b]),
                     'identity', what)

    ck.seen(what, sample=what[:300])


# -- the small form, read and written independently --------------------------

def read_flags(rd):
    out = []

    while True:
        b = rd.r.u8()
        out.append(b & 0x7f)

        if not b & 0x80:
            return out


def scheme_for(parts):
    """BlazeDS's readExternal; the values read are kept in n.val."""
    def scheme(rd, n):
        n.by = {}

        for level in parts:
            flags = read_flags(rd)

            for i, byte in enumerate(flags):
                for bit in range(7):
                    if byte >> bit & 1:
                        v = rd.value()
                        n.val.append(v)
                        n.by[level, i, bit] = v

    return scheme


EXT = dict(refamf.EXT)
EXT[u'DSA'] = scheme_for(['abstract', 'async'])
EXT[u'DSK'] = scheme_for(['abstract', 'async', 'ack'])
EXT[u'DSC'] = scheme_for(['abstract', 'async', 'command'])


def independent(data, amf, what):
    try:
        n = (refamf.read_amf3 if amf else refamf.read_amf0)(data, EXT)[0][0]
    except (refamf.Malformed, IndexError, struct.error), e:
        ck.violate('wire-malformed', '%s: %r\n%s' % (e, data, what))
        return

    return n.val


def u29(n):
    return refamf.u29_bytes(n)


def astr(s):
    b = s.encode('utf-8')
    return u29(len(b) << 1 | 1) + b


def avalue(v):
    """AMF3 of a simple value, no references."""
    if v is None:
        return '\x01'
    if v is False:
        return '\x02'
    if v is True:
        return '\x03'
    if isinstance(v, int):
        return '\x04' + u29(v)
    if isinstance(v, float):
        return '\x05' + struct.pack('>d', v)
    if isinstance(v, unicode):
        b = v.encode('utf-8')
        return '\x06' + u29(len(b) << 1 | 1) + b
    if isinstance(v, uuid.UUID):
        return '\x0c' + u29(16 << 1 | 1) + v.bytes
    if isinstance(v, dict):
        return '\x0a\x0b\x01' + ''.join(
            [astr(k) + avalue(x) for k, x in v.items()]) + '\x01'

    return '\x09' + u29(len(v) << 1 | 1) + '\x01' + ''.join(map(avalue, v))


def foreign(r, i):
    """Bytes as BlazeDS writes them."""
    kind = r.choice(sorted(SMALL))
    want = dict((f, DEFAULTS.get(f)) for f in FIELDS[kind])
    out = '\x0a\x07' + astr(SMALL[kind])
    first = second = 0
    vals1, vals2 = [], []

    for bit, f in enumerate(BASE):
        if r.random() < 0.6:
            continue
        if f in ('clientId', 'messageId') and r.random() < 0.6:
            u = uuid.UUID(int=r.getrandbits(128)) if not vals2 or \
                r.random() < 0.7 else want['clientId']
            bit = {'clientId': 0, 'messageId': 1}[f]
            second |= 1 << bit
            want[f] = u
            vals2.append((bit, avalue(u)))
            continue

        if f in ('timestamp', 'timeToLive'):
            want[f] = float(r.choice([1, 1000, 1250681083985,
                                      r.randint(1, 10 ** 12)]))
        elif f == 'headers':
            want[f] = {u'DSId': u'nil', u'DSMessagingVersion': 1.0}
        elif f == 'body':
            want[f] = r.choice([True, False, 0, u'', u'x', [u'a', 1], [],
                                {u'a': [1, None]}])
        else:
            want[f] = r.choice([u'', u'abc', u'h\xe9'])

        first |= 1 << bit
        vals1.append(avalue(want[f]))

    if second or r.random() < 0.2:
        out += chr(first | 0x80) + chr(second)
    else:
        out += chr(first)

    out += ''.join(vals1) + ''.join([b for _, b in sorted(vals2)])
    c = r.random()

    if c < 0.3:
        out += '\x00'
    elif c < 0.6:
        want['correlationId'] = r.choice([u'', u'corr'])
        out += '\x01' + avalue(want['correlationId'])
    else:
        want['correlationId'] = uuid.UUID(int=r.getrandbits(128))
        out += '\x02' + avalue(want['correlationId'])

    if kind == 'AcknowledgeMessage':
        out += '\x00'
    elif kind == 'CommandMessage':
        if r.random() < 0.5:
            out += '\x00'
        else:
            want['operation'] = r.choice([0, 5, 8, 12])
            out += '\x01' + avalue(want['operation'])

    what = '%s %r from %r' % (kind, want, out)
    got = list(pyamf.decode(out + '\x06\x07end', encoding=3))

    if len(got) != 2 or got[1] != u'end' or \
            type(got[0]) is not getattr(m, kind + 'Ext'):
        ck.violate('foreign-kind', '%r %s' % (got, what))
        return

    if compare(kind, want, got[0], True, what):
        more = pyamf.encode(got[0], encoding=3).getvalue()
        again = list(pyamf.decode(more, encoding=3))
        compare(kind, want, again[0], True, 'again: ' + what)

    ck.count('foreign')
    ck.seen(out)


def damaged(r, i):
    """Too many flag bytes are refused."""
    kind = r.choice(sorted(SMALL))
    out = '\x0a\x07' + astr(SMALL[kind])
    level = r.randint(0, 1 if kind == 'AsyncMessage' else 2)
    over = '\x80' * r.randint(1, 3) + '\x00'
    out += (['\x80' + over, '\x00' + over, '\x00\x00' + over][level])

    try:
        got = list(pyamf.decode(out, encoding=3))
    except pyamf.DecodeError:
        ck.count('refused')
    else:
        ck.violate('too-many-flags', '%r from %r' % (got, out))

    ck.seen(out, nontrivial=False)


def offers(r, i):
    """A small form is offered only for messages that have one."""
    kind = r.choice(sorted(FIELDS) + ['AbstractMessage'])
    msg = class_of(kind)() if kind == 'AbstractMessage' else \
        make(r, kind, False)[0]
    has = kind in SMALL

    if has and r.random() < 0.3:
        # an application's own attribute, which the small form cannot carry
        msg.extra = 5
        has = False
        ck.count('extra-attribute')

    try:
        s = msg.getSmallMessage()
    except NotImplementedError:
        ck.check(not has, 'small-not-offered', kind)
        ck.count('not-offered')
    else:
        ck.check(has, 'small-offered', kind)
        t = s.getSmallMessage()
        ck.check(type(t) is type(s) and t.__dict__ == s.__dict__,
                 'small-of-small', kind)

    # instances share nothing
    a, b = class_of(kind)(), class_of(kind)()
    a.headers['x'] = 1
    ck.check(b.headers == {}, 'shared-headers', kind)
    ck.seen((kind, i), nontrivial=False)


def main(ck):
    ck.run('cases', 20000, 500000, cases, 0.6)
    ck.run('foreign', 8000, 100000, foreign, 0.25)
    ck.run('damaged', 300, 2000, damaged, 0.1)
    ck.run('offers', 300, 2000, offers, 0.1)
    ck.require('small', 200)
    ck.require('plain', 200)
    ck.require('foreign', 200)
    ck.require('refused', 20)
    ck.require('not-offered', 20)
    ck.require('extra-attribute', 5)

    for k in sorted(FIELDS):
        ck.require('kind:' + k, 10)

        if k in SMALL:
            ck.require('kind:%sExt' % k, 10)


vlib.main(ck, main)
