# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C09', 'random class hierarchies (new-style, classic, slotted, diamond, dict; '
    'properties) with random static, exclude, readonly, synonym and dynamic '
    'declarations per class; instances are encoded in AMF0 and AMF3, one or '
    'several per message, the bytes are read by an independent reader, and '
    'alias and members are compared with a policy model; non-trivial: at '
    'least one class declares something')
vlib.bootstrap()
import policy         # noqa
import refamf         # noqa
import graphcheck     # noqa
from policy import pyamf, Node   # noqa
import traceback      # noqa

U = Node('undef')


def instance(r, h, serial):
    """An instance with random attributes, and its members by policy."""
    o = h.new()
    attrs = {}

    for a in policy.NAMES:
        if not h.sealed and r.random() < 0.5:
            v, n = policy.value(r, serial[0])
            serial[0] += 1
            h.put(o, a, v)
            attrs[a] = n

    members = {}

    for a in h.slot_names:
        v, n = policy.value(r, serial[0])
        serial[0] += 1
        setattr(o, a, v)
        members[a] = n

    for p in h.readable:
        v, n = policy.value(r, serial[0])
        serial[0] += 1
        policy.STORE[id(o), p] = v
        members[p] = n

    if h.dynamic:
        members.update(attrs)

    for a in h.static:
        if a not in members:
            members[a] = attrs.get(a, U)

    want = {}

    for a in members:
        if a not in h.exclude:
            want[unicode(h.external(a))] = members[a]

    return o, want


def case(r, i):
    h = policy.hierarchy(r, i)

    if r.random() < 0.85:
        h.register(r)

    try:
        run(r, i, h)
    finally:
        h.unregister()


def run(r, i, h):
    serial = [1]
    objs = [instance(r, h, serial) for _ in range(r.choice([1, 1, 2, 3]))]

    for amf in (0, 3):
        what = 'amf%d\n%s\nexpected %s' % (
            amf, h.describe(), [o[1] for o in objs])

        try:
            data = pyamf.encode(
                [o[0] for o in objs], encoding=amf).getvalue()
            back, rd = graphcheck.READ[amf](data)
        except refamf.Malformed, e:
            ck.violate('malformed', '%s\n%s' % (e, what))
            continue
        except Exception:
            ck.violate('encode-raises:' + graphcheck.exc(),
                       traceback.format_exc() + what)
            continue

        for (o, want), n in zip(objs, back[0].val):
            ck.count('instances')
            got = dict((refamf.ukey(k), n.val[k]) for k in n.val)
            ck.check(n.kind == 'obj' and n.alias == (h.alias or u''),
                     'alias', lambda: 'written as %r\n%s' % (n.alias, what))
            extra = sorted(set(got) - set(want))
            missing = sorted(set(want) - set(got))

            for k in extra:
                a = h.internal(k)
                key = 'excluded-written' if a in h.exclude else \
                    'unexpected-written:%s' % h.dynamic
                ck.violate(key, 'member %r\n%s' % (k, what))

            for k in missing:
                a = h.internal(k)
                key = 'static-missing' if a in h.static else \
                    'missing:%s' % h.dynamic
                ck.violate(key, 'member %r\n%s' % (k, what))

            for k in set(got) & set(want):
                if refamf.canon_node(got[k], amf, True) != \
                        refamf.canon_node(want[k], amf, True):
                    ck.violate('wrong-value', 'member %r: %r\n%s' % (
                        k, got[k], what))

            ck.count('members', len(got))
            ck.count('excluded-present', len(
                [a for a in h.exclude if h.has(o, a)]))
            ck.count('undefined-statics', len(
                [k for k in want if want[k] is U]))
            ck.count('synonyms', len([
                k for k in want if h.internal(k) != k]))
            ck.count('not-dynamic', not h.dynamic)

    ck.count('style:' + h.style)
    ck.seen(h.describe(), sample=h.describe()[:500],
            nontrivial=any([d.own for d in h.decls.values()]))


def body(ck):
    for k in ('excluded-present', 'undefined-statics', 'synonyms',
              'not-dynamic'):
        ck.require(k, 20)

    for k in ('dict', 'slots', 'classic', 'diamond'):
        ck.require('style:' + k, 5)

    ck.run('hierarchies', 5000, 150000, case, 0.9)


vlib.main(ck, body)
