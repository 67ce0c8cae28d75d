# -*- coding: utf-8 -*-
"""
Random class hierarchies with attribute policies, and what their
declarations mean (independent of pyamf.alias). Shared by C09 and C10.
"""

import inspect

import vlib
pyamf = vlib.bootstrap()
import refamf                # noqa
from refamf import Node      # noqa

NAMES = ['a%d' % k for k in range(9)] + ['public', 'x_y', 'camelCase', '_u',
                                         'keys', 'items']
LOG = []         # (id of instance, property name, value) of setter calls
STORE = {}       # (id of instance, property name) -> value


def make_property(name, kind):
    def get(self):
        return STORE[id(self), name]

    def put(self, v):
        LOG.append((id(self), name, v))
        STORE[id(self), name] = v

    return property(get if 'r' in kind else None, put if 'w' in kind else None)


def _setitem(self, k, v):
    LOG.append((id(self), 'item', (k, v)))


TRAITS = [
    {'__setitem__': _setitem},
    {'__setitem__': _setitem, '__getitem__': lambda self, k: 'item',
     'has_key': lambda self, k: True},
    {'__len__': lambda self: 0},
    {'__nonzero__': lambda self: False},
    {'__contains__': lambda self, k: False, '__len__': lambda self: 3},
]


class Decl(object):
    """The declarations of one class."""

    def __init__(self):
        self.static = []
        self.exclude = []
        self.readonly = []
        self.synonym = {}
        self.dynamic = None
        self.amf3 = None
        self.own = False


class Hierarchy(object):
    def __init__(self, r, serial):
        self.r = r
        self.decls = {}         # class -> Decl, own declarations only
        self.props = {}         # class -> {name: kind}
        self.slots = {}         # class -> names
        self.registered = []
        style = r.choice(['new', 'new', 'new', 'classic', 'slots', 'diamond',
                          'dict'])
        self.style = style
        self.classes = []
        n = r.randint(1, 4)
        used = list(NAMES)
        r.shuffle(used)
        self.serial = serial
        shared_dynamic = r.choice([None, True, False])

        if style == 'diamond':
            shapes = [(), (0,), (0,), (1, 2)]
        else:
            shapes = [()] + [(k,) for k in range(n - 1)]

        for k, bases in enumerate(shapes):
            self.add(k, [self.classes[b] for b in bases], shared_dynamic)

        self.klass = self.classes[-1]
        self.alias = None

    def add(self, k, bases, shared_dynamic):
        r = self.r
        d = Decl()
        body = {}
        style = self.style
        name = 'K%d' % k

        def some(p, pool=NAMES, most=3):
            if r.random() > p:
                return []

            return r.sample(pool, r.randint(1, most))

        d.static = some(0.4)
        d.exclude = some(0.4)
        d.readonly = some(0.4)
        props = {}
        slots = ()

        if style not in ('classic', 'dict'):
            for kind in ('r', 'w', 'rw'):
                if r.random() < 0.25:
                    props['p%s%d' % (kind, k)] = kind

        if style == 'slots':
            last = k and r.random() < 0.3

            if not last or not bases:
                slots = tuple(['s%d%d' % (k, j)
                               for j in range(r.randint(0, 3))])
                body['__slots__'] = slots

        pool = NAMES + sorted(props) + list(slots)

        if r.random() < 0.2:
            d.exclude = d.exclude + some(0.9, pool)
        if r.random() < 0.2:
            d.readonly = d.readonly + some(0.9, pool)
        if r.random() < 0.15:
            d.static = d.static + some(0.9, NAMES + [
                p for p in props if 'r' in props[p]])

        if r.random() < 0.35:
            for a in some(1, pool):
                d.synonym[a] = 'ext_' + a

            if style != 'diamond' and r.random() < 0.2:
                a, b = r.sample(NAMES, 2)
                # exchanged names; only if nothing else is renamed
                d.synonym = {a: b, b: a}

        if style == 'diamond':
            d.dynamic = shared_dynamic
        elif style != 'slots' or not body.get('__slots__', ()) != ():
            d.dynamic = r.choice([None, None, True, False])

        if style == 'slots' and '__slots__' in body:
            d.dynamic = None

        if style == 'slots':
            # an attribute that the class cannot hold cannot be static
            d.static = r.sample(list(slots), r.randint(0, len(slots)))

        d.static = sorted(set(d.static))
        d.exclude = sorted(set(d.exclude))
        d.readonly = sorted(set(d.readonly))
        d.own = bool(d.static or d.exclude or d.readonly or d.synonym or
                     d.dynamic is not None) or r.random() < 0.2

        if d.own:
            meta = {}

            for a in ('static', 'exclude', 'readonly'):
                v = getattr(d, a)

                if v or r.random() < 0.1:
                    meta[a] = r.choice([tuple, list, set])(v)

            if d.synonym or r.random() < 0.1:
                meta['synonym'] = dict(d.synonym)
            if d.dynamic is not None:
                meta['dynamic'] = d.dynamic

            if r.random() < 0.5:
                body['__amf__'] = meta
            else:
                class M:
                    pass

                for a in meta:
                    setattr(M, a, meta[a])

                body['__amf__'] = M

        for p in props:
            body[p] = make_property(p, props[p])

        if style != 'dict' and r.random() < 0.2:
            # items have nothing to do with attributes
            body.update(r.choice(TRAITS))

        if style == 'classic':
            import types
            klass = types.ClassType(name, tuple(bases), body)
        else:
            klass = type(name, tuple(bases) or (
                dict if style == 'dict' else object,), body)

        self.decls[klass] = d
        self.props[klass] = props
        self.slots[klass] = slots
        self.classes.append(klass)

    # -- meaning

    def mro(self):
        return [c for c in inspect.getmro(self.klass)
                if c is not object and c is not dict]

    def new(self):
        if self.style == 'classic':
            return self.klass()

        return self.klass.__new__(self.klass)

    def put(self, o, name, v):
        if self.style == 'dict':
            o[name] = v
        else:
            setattr(o, name, v)

    def has(self, o, name):
        return name in o if self.style == 'dict' else hasattr(o, name)

    def policy(self):
        mro = self.mro()
        self.exclude = set()
        self.readonly = set()
        static = set()
        self.synonym = {}
        self.readable = set()
        self.settable = set()
        slots = set()
        dynamic = None

        for c in mro:
            d = self.decls[c]
            self.exclude.update(d.exclude)
            self.readonly.update(d.readonly)
            static.update(d.static)
            slots.update(self.slots[c])

            for a in d.synonym:
                self.synonym.setdefault(a, d.synonym[a])

            for p, kind in self.props[c].items():
                if 'r' in kind:
                    self.readable.add(p)

                if 'w' in kind:
                    self.settable.add(p)
                else:
                    self.readonly.add(p)

            if dynamic is None and d.dynamic is not None:
                dynamic = d.dynamic

        self.slot_names = slots
        self.static = static - self.exclude
        self.sealed = not hasattr(self.new(), '__dict__')

        if self.sealed:
            dynamic = False

        self.dynamic = True if dynamic is None else dynamic
        # the outside names must tell the attributes apart
        every = set(NAMES) | self.readable | self.settable | slots
        ext = [self.external(a) for a in every]

        return len(ext) == len(set(ext))

    def external(self, a):
        return self.synonym.get(a, a)

    def internal(self, w):
        for a, e in self.synonym.items():
            if e == w:
                return a

        return w

    # -- registration

    def register(self, r):
        self.alias = u'pol.%s%d' % (r.choice([u'A', u'pkg.B', u'\xdc']),
                                    self.serial)

        for c in self.classes[:-1]:
            if r.random() < 0.3:
                pyamf.register_class(c, u'pol.base.%s%d' % (
                    c.__name__, self.serial))

        pyamf.register_class(self.klass, self.alias)

    def unregister(self):
        for c in self.classes:
            try:
                pyamf.unregister_class(c)
            except Exception:
                pass

        STORE.clear()
        del LOG[:]

    def describe(self):
        out = ['style %s alias %r' % (self.style, self.alias)]

        for c in self.classes:
            d = self.decls[c]
            out.append('class %s(%s): static=%s exclude=%s readonly=%s '
                       'synonym=%s dynamic=%s meta=%s props=%s slots=%s' % (
                           c.__name__,
                           ','.join([b.__name__ for b in c.__bases__]),
                           d.static, d.exclude, d.readonly, d.synonym,
                           d.dynamic, d.own, self.props[c], self.slots[c]))

        return '\n'.join(out)


def value(r, n):
    """A distinguishable value and its node."""
    c = r.random()

    if c < 0.5:
        return n, Node('int', n)
    if c < 0.8:
        return u'value %d' % n, Node('str', u'value %d' % n)

    return [n, u'x'], Node('list', [Node('int', n), Node('str', u'x')])


def hierarchy(r, i):
    while 1:
        h = Hierarchy(r, i)

        if h.policy():
            return h
