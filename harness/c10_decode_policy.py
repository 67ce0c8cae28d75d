# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C10', 'random class hierarchies with attribute policies (as C09); typed '
    'objects with random members (declared, read-only, excluded, renamed, '
    'unknown, property and slot names) are written by an independent writer '
    'in AMF0, AMF3 and AMF3 inside AMF0 and decoded; the complete state of '
    'the instance and the log of its property setters are compared with a '
    'policy model; non-trivial: at least one member has to be refused')
vlib.bootstrap()
import policy         # noqa
import refamf         # noqa
import graphcheck     # noqa
import gen            # noqa
from policy import pyamf, Node   # noqa
import traceback      # noqa

UNKNOWN = ['zz', 'unknown', '__dict__', '__amf__', '__slots__', 'items_']


def wire_object(r, h, serial):
    """Members a client might send, with the state they must lead to."""
    members = {}
    pool = policy.NAMES + sorted(h.readable | h.settable | h.slot_names)

    if r.random() < 0.3:
        pool = pool + UNKNOWN

    sent = dict((a, r.random() < 0.5) for a in pool)

    # mostly complete; now and then a static attribute is left out
    leave = r.random() < 0.1

    for a in h.static:
        if not leave or r.random() < 0.7:
            sent[a] = True

    if r.random() < 0.1:
        # nothing but what is forbidden and static
        for a in pool:
            sent[a] = a in h.static or a in h.exclude or a in h.readonly

    want = {}
    refused = []

    for a in sorted(sent):
        if not sent[a]:
            continue

        v, n = policy.value(r, serial[0])
        serial[0] += 1
        members[unicode(h.external(a))] = n

        if a == '__dict__':
            n = Node('obj', dict((unicode(x), Node('str', u'smuggled'))
                                 for x in h.exclude | h.readonly |
                                 set(['zz'])))
            members[u'__dict__'] = n

        if a in h.exclude or a in h.readonly:
            refused.append(a)
        elif not h.dynamic and a not in h.static and \
                a not in h.settable and a not in h.slot_names:
            refused.append(a)
        else:
            want[a] = v

    missing = [a for a in h.static if not sent.get(a)]

    return Node('obj', members, h.alias), want, refused, missing


def state(h, o):
    got = {}

    for a in h.slot_names:
        if hasattr(o, a):
            got[a] = getattr(o, a)

    if h.style == 'dict':
        got.update(o)
        ck.check(not o.__dict__, 'item-as-attribute', lambda: '%r\n%s' % (
            o.__dict__, h.describe()))
    elif not h.sealed:
        got.update(o.__dict__)

    sets = {}

    for ident, name, v in policy.LOG:
        if ident == id(o):
            sets.setdefault(name, []).append(v)

    return got, sets


def case(r, i):
    h = policy.hierarchy(r, i)
    h.register(r)

    try:
        run(r, i, h)
    finally:
        h.unregister()


def run(r, i, h):
    serial = [1]
    objs = [wire_object(r, h, serial) for _ in range(r.choice([1, 1, 2, 3]))]

    if r.random() < 0.85:
        # incomplete objects only as the last of a message
        objs = [o for o in objs if not o[3]] + [o for o in objs if o[3]][:1]

    root = Node('list', [o[0] for o in objs])

    for how in (0, 3, 10):
        del policy.LOG[:]
        amf = 3 if how == 3 else 0
        sealed = {}

        if how == 10:
            root.amf3 = True
            data = '\x11' + graphcheck.WRITE[3]([root], r, sealed)
        else:
            data = graphcheck.WRITE[amf]([root], r, sealed)

        what = 'amf%d\n%s\nsent %s' % (how, h.describe(), [
            o[0].val for o in objs])
        incomplete = [o for o in objs if o[3]]

        try:
            got = gen.decode(data, amf, strict=r.random() < 0.5)[0]
        except AttributeError:
            if incomplete:
                ck.count('missing-static-refused')
            else:
                ck.violate('refused', traceback.format_exc() + what)

            continue
        except Exception:
            ck.violate('decode-raises:' + graphcheck.exc(),
                       traceback.format_exc() + what)
            continue

        if not ck.check(not incomplete, 'missing-static-accepted',
                        lambda: '%s\n%s' % (incomplete[0][3], what)):
            continue

        for o, (node, want, refused, missing) in zip(got, objs):
            ck.count('instances')

            if not ck.check(type(o) is type(h.new()) and
                            o.__class__ is h.klass, 'class',
                            lambda: '%r\n%s' % (o, what)):
                continue

            have, sets = state(h, o)

            for a in want:
                if a in h.settable:
                    ck.check(sets.get(a) == [want[a]], 'setter',
                             lambda: 'property %r set to %r, not once to %r'
                             '\n%s' % (a, sets.get(a), want[a], what))
                    ck.count('setters')
                elif a == '__dict__':
                    ck.check(have.get('zz') != u'smuggled', 'smuggled',
                             lambda: '%r\n%s' % (have, what))
                    ck.count('smuggled')
                    have.pop(a, None)
                elif a not in have:
                    ck.violate('static-not-set' if a in h.static else
                               'not-set:%s' % h.dynamic,
                               '%r\n%s' % (a, what))
                else:
                    ck.check(have[a] == want[a], 'wrong-value',
                             lambda: '%r is %r, not %r\n%s' % (
                                 a, have[a], want[a], what))

            for a in have:
                if a not in want:
                    kind = 'excluded' if a in h.exclude else \
                        'readonly' if a in h.readonly else 'undeclared'
                    ck.violate(kind + '-set', '%r set to %r\n%s' % (
                        a, have[a], what))

            for a in sets:
                if a not in want:
                    ck.violate('forbidden-setter-called', '%r\n%s' % (
                        a, what))

            ck.count('refused', len(refused))
            ck.count('renamed', len([a for a in want if a in h.synonym]))
            ck.count('not-dynamic', not h.dynamic)

    ck.count('style:' + h.style)
    ck.seen((h.describe(), root.val and tuple(sorted(root.val[0].val))),
            sample=h.describe()[:500],
            nontrivial=any([o[2] or o[3] for o in objs]))


def body(ck):
    for k in ('refused', 'renamed', 'not-dynamic', 'setters',
              'missing-static-refused', 'smuggled'):
        ck.require(k, 20)

    for k in ('dict', 'slots', 'classic', 'diamond'):
        ck.require('style:' + k, 5)

    ck.run('hierarchies', 4000, 150000, case, 0.9)


vlib.main(ck, body)
