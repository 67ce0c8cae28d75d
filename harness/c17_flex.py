# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C17', 'random histories of list and collection operations on an '
    'ArrayCollection in lock-step with a list; random value graphs with '
    'nested, shared and cyclic wrappers through AMF0 and AMF3; plain graphs '
    'with use_proxies, whose wire is read independently; and classes with '
    'proxied attributes; all cases non-trivial')
vlib.bootstrap()
import gen            # noqa
import refamf         # noqa
from gen import pyamf   # noqa
import sys            # noqa
from pyamf import amf0, amf3, flex   # noqa
from pyamf.flex import ArrayCollection, ObjectProxy   # noqa

gen.register()

AC = u'flex.messaging.io.ArrayCollection'
OP = u'flex.messaging.io.ObjectProxy'


# -- collections as lists ----------------------------------------------------

def outcome(fn, *args):
    try:
        return 'ok', fn(*args)
    except Exception, e:
        return 'error', type(e).__name__


def flex_model(l, op, args):
    """The IList operations, on a list."""
    if op == 'addItem':
        l.append(args[0])
    elif op == 'addItemAt':
        if not 0 <= args[1] <= len(l):
            raise IndexError

        l.insert(args[1], args[0])
    elif op == 'getItemAt':
        if not 0 <= args[0] < len(l):
            raise IndexError

        return l[args[0]]
    elif op == 'getItemIndex':
        return l.index(args[0]) if args[0] in l else -1
    elif op == 'removeAll':
        del l[:]
    elif op == 'removeItemAt':
        if not 0 <= args[0] < len(l):
            raise IndexError

        return l.pop(args[0])
    elif op == 'setItemAt':
        if not 0 <= args[1] < len(l):
            raise IndexError

        old = l[args[1]]
        l[args[1]] = args[0]
        return old
    elif op == 'toArray':
        return list(l)
    elif op == 'length':
        return len(l)


def flex_real(c, op, args):
    if op == 'length':
        return c.length
    if op == 'toArray':
        return list(c.toArray())

    return getattr(c, op)(*args)


LIST_OPS = {
    'append': lambda l, r: l.append(r),
    'extend': lambda l, r: l.extend([r, r]),
    'reverse': lambda l, r: l.reverse(),
    'sort': lambda l, r: l.sort(),
    'count': lambda l, r: l.count(r),
    'contains': lambda l, r: r in l,
    'len': lambda l, r: len(l),
    'iter': lambda l, r: [x for x in l],
    'bool': lambda l, r: bool(l),
    'pop': lambda l, r: l.pop(),
    'remove': lambda l, r: l.remove(r),
    'iadd': lambda l, r: list(l.__iadd__([r])),
    'head': lambda l, r: list(l[:2]),
    'delslice': lambda l, r: l.__delslice__(1, 3),
    'setslice': lambda l, r: l.__setslice__(0, 1, [r, r, r]),
    'insert': lambda l, r: l.insert(1, r),
    'plus': lambda l, r: list(l + [r]),
    'eq': lambda l, r: l == [r],
    'reversed': lambda l, r: list(reversed(l)),
    'sorted': lambda l, r: sorted(l),
    'length=': lambda l, r: setattr(l, 'length', 3),
}


def history(r, i):
    start = [r.randint(0, 5) for _ in range(r.choice([0, 0, 1, 3, 8]))]
    form = r.choice(['list', 'tuple', 'iter', 'collection', 'none'])

    if form == 'none':
        start = []
        c = ArrayCollection()
    else:
        c = ArrayCollection({'list': list, 'tuple': tuple,
                             'iter': lambda x: iter(x),
                             'collection': ArrayCollection}[form](start))

    model = list(start)
    trace = [form, start]

    for _ in range(r.randint(2, 30)):
        v = r.randint(0, 5)
        at = r.choice([0, 1, len(model) - 1, len(model), len(model) + 1, -1,
                       r.randint(0, 9)])

        if r.random() < 0.6:
            op = r.choice(['addItem', 'addItemAt', 'getItemAt', 'addItem',
                           'getItemIndex', 'removeItemAt', 'setItemAt',
                           'toArray', 'length', 'addItemAt', 'removeAll'])

            if op == 'removeAll' and r.random() < 0.7:
                continue

            args = {'addItem': (v,), 'addItemAt': (v, at), 'getItemAt': (at,),
                    'getItemIndex': (v,), 'removeItemAt': (at,),
                    'setItemAt': (v, at)}.get(op, ())
            trace.append((op,) + args)
            want = outcome(flex_model, model, op, args)
            got = outcome(flex_real, c, op, args)
        else:
            op = r.choice(sorted(LIST_OPS))
            trace.append((op, v))
            got = outcome(LIST_OPS[op], c, v)
            want = outcome(LIST_OPS[op], model, v)

            if op == 'length=':
                want = 'error', 'AttributeError'

        if want != got or list(c) != model or len(c) != len(model):
            ck.violate('collection:' + op, 'expected %r -> %r, got %r -> %r'
                       '\n%r' % (want, model, got, list(c), trace))
            return

        ck.count('operations')

        if want[0] == 'error':
            ck.count('refused')

    amf = r.choice([0, 3])
    back = list(pyamf.decode(pyamf.encode(c, encoding=amf).getvalue(),
                             encoding=amf))
    ck.check(len(back) == 1 and type(back[0]) is ArrayCollection and
             list(back[0]) == model, 'collection-roundtrip',
             lambda: '%r from %r' % (back, model))

    if pyamf.encode(c, encoding=amf).getvalue() != \
            pyamf.encode(ArrayCollection(model), encoding=amf).getvalue():
        ck.violate('collection-bytes', repr(trace))

    for bad in ({}, {'a': 1}):
        ck.check(outcome(ArrayCollection, bad) == ('error', 'TypeError'),
                 'collection-of-dict', 'accepted %r' % bad)

    ck.seen((tuple(map(repr, trace)), amf), sample=repr(trace)[:200])


# -- graphs of wrappers ------------------------------------------------------

class V(object):
    """A value: kind in scalar L D O AC OP; val; made (the Python value)."""

    def __init__(self, kind, val):
        self.kind = kind
        self.val = val


def scalar(r):
    c = r.randint(0, 6)

    if c == 0:
        return r.choice([None, True, False])
    if c == 1:
        return gen.gen_int(r)
    if c == 2:
        return r.choice([0.5, -1.25, 1e300, r.random()])
    if c == 3:
        return gen.gen_text(r, False)

    return r.randint(-5, 300)


class Graphs(object):
    def __init__(self, r, wrappers=True, cycles=True, n=14):
        self.r = r
        self.wrappers = wrappers
        self.cycles = cycles
        self.left = r.randint(1, n)
        self.done = []
        self.open = []

    def value(self, depth=0):
        r = self.r
        c = r.random()
        self.left -= 1

        if self.done and c < 0.25:
            return r.choice(self.done)
        if self.cycles and self.open and c < 0.31:
            return r.choice(self.open)
        if depth > 5 or self.left < 0 or c < 0.5:
            return V('scalar', scalar(r))

        kinds = ['L', 'D', 'O'] + (['AC', 'AC', 'OP', 'OP']
                                   if self.wrappers else [])
        v = V(r.choice(kinds), None)
        self.open.append(v)
        self.fill(v, depth)
        self.open.remove(v)
        self.done.append(v)

        return v

    def fill(self, v, depth):
        r = self.r

        if v.kind in ('L', 'AC'):
            v.val = [self.value(depth + 1)
                     for _ in range(r.choice([0, 1, 2, 3, 5]))]
        elif v.kind in ('D', 'O'):
            v.val = {}

            for _ in range(r.choice([1, 1, 2, 4])):
                v.val[r.choice([u'a', u'b', u'c', u'd', u'source', u'e',
                                u'\xe9x'[v.kind == 'O':]])] = \
                    self.value(depth + 1)
        else:
            old = [x.val for x in self.done if x.kind == 'OP']
            objs = [x for x in self.done if x.kind == 'O'] + old
            c = r.random()

            if objs and c < 0.3:
                v.val = r.choice(objs)
            else:
                t = V(r.choice(['D', 'D', 'O']), {})
                v.val = t

                for _ in range(r.choice([0, 1, 2, 4])):
                    t.val[r.choice('abcdefg').decode()] = \
                        self.value(depth + 1)

                if t.kind == 'O':
                    self.done.append(t)


def make(v, memo):
    if v.kind == 'scalar':
        return v.val
    if id(v) in memo:
        return memo[id(v)]

    if v.kind in ('L', 'AC'):
        x = memo[id(v)] = [] if v.kind == 'L' else ArrayCollection()

        for c in v.val:
            x.append(make(c, memo))
    elif v.kind == 'D':
        x = memo[id(v)] = {}

        for k, c in v.val.items():
            x[k] = make(c, memo)
    elif v.kind == 'O':
        x = memo[id(v)] = gen.Plain()

        for k, c in v.val.items():
            x.__dict__[str(k) if k != u'\xe9x' else k] = make(c, memo)
    else:
        x = memo[id(v)] = ObjectProxy()
        x._amf_object = make(v.val, memo)

    return x


def view_v(v):
    k = v.kind

    if k == 'scalar':
        return k, v.val, v

    return k, v.val, v


def view_py(x):
    if x is None or isinstance(x, (bool, int, long, float, basestring)):
        return 'scalar', x, x

    t = type(x)

    if t is ArrayCollection:
        return 'AC', list(x), x
    if t is list:
        return 'L', x, x
    if t is ObjectProxy:
        return 'OP', x._amf_object, x
    if isinstance(x, dict):
        return 'D', dict(x), x
    if t is gen.Plain:
        return 'O', x.__dict__, x

    return 'unexpected %r' % t, None, x


def norm(x):
    if isinstance(x, str):
        x = x.decode('utf-8')
    if isinstance(x, bool) or x is None or isinstance(x, unicode):
        return (type(x).__name__, x)

    return ('n', repr(float(x)))


def canon(root, view, amf):
    """A nested tuple; identity is kept per encoding: AMF0 values and the
    AMF3 values inside wrappers have tables of their own."""
    ids = {}

    def go(x, layer):
        kind, val, key = view(x)

        if kind == 'scalar':
            return norm(val)
        if kind in ('AC', 'OP'):
            layer = 3

        if (layer, id(key)) in ids:
            return ('ref', ids[layer, id(key)])

        ids[layer, id(key)] = len(ids)

        if kind in ('L', 'AC'):
            return (kind,) + tuple([go(c, layer) for c in val])
        if kind in ('D', 'O'):
            return (kind,) + tuple([
                (uni(k), go(val[k], layer))
                for k in sorted(val, key=uni)])
        if kind == 'OP':
            return (kind, go(val, layer))

        return (kind,)

    return go(root, amf)


def uni(k):
    return k.decode('utf-8') if isinstance(k, str) else unicode(k)


def differ(key, want, got, what):
    if want == got:
        return False

    d = refamf.first_difference(want, got)
    ck.violate(key, '%s\n%s' % (d, what))
    return True


def wrappers(r, i):
    amf = i % 2 * 3
    g = Graphs(r)
    root = V('L', [g.value() for _ in range(r.randint(1, 3))])
    root.val.append(g.value())
    # the cycles need the root too
    value = make(root, {})
    want = canon(root, view_v, amf)
    what = 'AMF%d %r' % (amf, want)

    if canon(value, view_py, amf) != want:
        raise vlib.Inconclusive('builder')

    strict = r.random() < 0.3
    data = pyamf.encode(value, encoding=amf, strict=strict).getvalue()
    back = list(pyamf.decode(data, encoding=amf, strict=strict))

    if len(back) != 1:
        ck.violate('wrappers-count', what)
        return

    if canon(value, view_py, amf) != want:
        ck.violate('wrappers-changed', what)

    if differ('wrappers', want, canon(back[0], view_py, amf), what):
        return

    # the attributes of a proxied object are those of the proxy
    todo = [back[0]]
    visited = set()

    while todo:
        x = todo.pop()
        kind, val, _ = view_py(x)

        if id(x) in visited or kind == 'scalar':
            continue

        visited.add(id(x))
        todo.extend([val] if kind == 'OP' else
                    val.values() if kind in ('D', 'O') else val)

        if kind == 'OP' and type(val) in (gen.Plain, pyamf.ASObject):
            attrs = view_py(val)[1]

            for k in 'abcdef':
                if hasattr(x, k) != (k in attrs) or \
                        k in attrs and getattr(x, k) is not attrs[k]:
                    ck.violate('proxy-getattr', '%s\n%s' % (k, what))

            x.newattr = marker = object()
            ck.check(val.newattr is marker, 'proxy-setattr', what)
            view_py(val)[2].__dict__.pop('newattr', None)

            if isinstance(val, dict):
                val.pop('newattr', None)

            ck.count('proxy-attributes')

    nodes = refamf.read_amf3(data)[0] if amf else refamf.read_amf0(data)[0]
    differ('wrappers-wire', want, canon(nodes[0], view_node, amf), what)
    n = want_count(want, ('AC', 'OP'))
    ck.count('wrappers', n)
    ck.count('refs', want_count(want, ('ref',)))
    ck.seen(want, sample=what[:300], nontrivial=n > 0)


def want_count(c, kinds):
    if not isinstance(c, tuple) or not c:
        return 0

    return (c[0] in kinds if isinstance(c[0], basestring) else 0) + \
        sum([want_count(x, kinds) for x in c])


def view_node(n):
    if n.kind == 'list':
        return 'L', n.val, n
    if n.kind == 'mixed' or n.kind == 'obj' and not n.alias:
        return 'D', n.val, n
    if n.kind == 'obj' and n.alias == u'v.Plain':
        return 'O', n.val, n
    if n.kind == 'ext' and n.alias == AC:
        if n.val[0].kind != 'list':
            return 'collection of %s' % n.val[0].kind, None, n

        return 'AC', n.val[0].val, n
    if n.kind == 'ext' and n.alias == OP:
        return 'OP', n.val[0], n
    if n.kind in ('null', 'undef'):
        return 'scalar', None, n
    if n.kind in ('bool', 'int', 'num', 'str'):
        return 'scalar', n.val, n

    return n.kind, None, n


# -- use_proxies -------------------------------------------------------------

def proxied(v, memo=None):
    """The graph with every list and dict wrapped once."""
    memo = {} if memo is None else memo

    if v.kind == 'scalar':
        return v
    if id(v) in memo:
        return memo[id(v)]

    if v.kind in ('L', 'AC'):
        x = memo[id(v)] = V('AC', None)
        x.val = [proxied(c, memo) for c in v.val]
        return x

    if v.kind == 'OP':
        x = memo[id(v)] = V('OP', None)
        inner = v.val

        if inner.kind == 'D':
            x.val = memo.get((id(inner), 'in'))

            if x.val is None:
                x.val = memo[id(inner), 'in'] = V('D', {})

                for k, c in inner.val.items():
                    x.val.val[k] = proxied(c, memo)
        else:
            x.val = proxied(inner, memo)

        return x

    y = V(v.kind, {})
    x = memo[id(v)] = V('OP', y) if v.kind == 'D' else y

    if v.kind == 'D':
        memo[id(v), 'in'] = y

    for k, c in v.val.items():
        y.val[k] = proxied(c, memo)

    return x


def unproxied(v, memo=None):
    """What a decoder with use_proxies gives back."""
    memo = {} if memo is None else memo

    if v.kind == 'scalar':
        return v
    if id(v) in memo:
        return memo[id(v)]
    if v.kind == 'OP':
        return unproxied(v.val, memo)

    x = memo[id(v)] = V('L' if v.kind == 'AC' else v.kind, None)

    if v.kind in ('L', 'AC'):
        x.val = [unproxied(c, memo) for c in v.val]
    else:
        x.val = dict((k, unproxied(c, memo)) for k, c in v.val.items())

    return x


def proxies(r, i):
    g = Graphs(r, wrappers=r.random() < 0.4, cycles=False)
    roots = [g.value() for _ in range(r.randint(1, 3))]

    if r.random() < 0.5:
        roots = [V('L', roots)]

    if r.random() < 0.2:
        # objects may refer to themselves, only wrappers may not
        o = V('O', {})
        o.val.update(a=o, b=g.value())
        roots.append(o)

    memo = {}
    wire = V('L', [proxied(v, memo) for v in roots])
    memo = {}
    plain = V('L', [unproxied(v, memo) for v in roots])
    memo = {}
    values = [make(v, memo) for v in roots]
    want = canon(wire, view_v, 3)
    what = 'use_proxies %r' % (want,)

    if i % 3 == 0:
        old = amf3.use_proxies_default
        amf3.use_proxies_default = True

        try:
            data = pyamf.encode(*values, **dict(encoding=3)).getvalue()
            back = list(pyamf.decode(data, encoding=3))
        finally:
            amf3.use_proxies_default = old
    else:
        e = amf3.Encoder(use_proxies=True)

        for v in values:
            e.writeElement(v)

        data = e.stream.getvalue()
        back = list(amf3.Decoder(data, use_proxies=True))

    nodes = refamf.Node('list', refamf.read_amf3(data)[0])

    if differ('proxies-wire', want, canon(nodes, view_node, 3), what):
        return
    if differ('proxies-decode', canon(plain, view_v, 3),
              canon(back, view_py, 3), what):
        return

    # a decoder without it sees the wrappers
    kept = list(amf3.Decoder(data, use_proxies=False))
    differ('proxies-kept', want, canon(kept, view_py, 3), what)
    # and wrappers are no business of an encoder without it
    bare = list(pyamf.decode(pyamf.encode(*values, **dict(
        encoding=3)).getvalue(), encoding=3))
    differ('proxies-off', canon(V('L', roots), view_v, 3),
           canon(bare, view_py, 3), what)
    ck.count('proxied', want_count(want, ('AC', 'OP')))
    ck.count('proxied-refs', want_count(want, ('ref',)))
    ck.seen(want, sample=what[:300])


# -- proxied attributes ------------------------------------------------------

counter = [0]


def declared(r):
    """A class with some proxied attributes and the names of them."""
    names = [u'a', u'b', u'c', u'd', u'e']
    prox = [n for n in names if r.random() < 0.5] or [u'a']
    meta = {'proxy': tuple(map(str, prox))}
    keep = set(names)
    kind = r.choice(['plain', 'plain', 'static', 'static', 'sealed', 'exclude',
                     'readonly', 'external-names', 'inherited', 'combined',
                     'closest'])

    if kind == 'static' or kind == 'sealed':
        meta['static'] = tuple(map(str, names[:r.randint(1, 5)]))

        if kind == 'sealed':
            meta['static'] = tuple(map(str, names))
            meta['dynamic'] = False
    elif kind == 'exclude':
        x = r.choice(names)
        meta['exclude'] = (str(x),)
        keep.discard(x)
    elif kind == 'external-names':
        meta['synonym'] = {'a': 'zz'}

    if kind == 'readonly':
        meta['readonly'] = ('e',)

    base = object

    if kind == 'inherited':
        base = type('Base', (object,), {'__amf__': meta})
        cls = type('Declared', (base,), {})
    elif kind == 'combined':
        # some declared by the class, the others by its bases
        k = r.randint(0, len(prox))
        base = type('Base', (object,), {'__amf__': {
            'proxy': tuple(map(str, prox[:k]))}})

        if r.random() < 0.4:
            base = type('Middle', (base,), {})

        cls = type('Declared', (base,), {'__amf__': {
            'proxy': tuple(map(str, prox[k:]))}})
    elif kind == 'closest':
        # the bases are registered, too
        base = type('Base', (object,), {'__amf__': {
            'proxy': tuple(map(str, prox))}})
        pyamf.register_class(base, 'v.base%d' % (counter[0] + 1))
        cls = type('Declared', (base,), {'__amf__': {
            'static': tuple(map(str, names[:r.randint(1, 5)]))}})
    else:
        cls = type('Declared', (object,), {'__amf__': meta})

    counter[0] += 1
    cls.__module__ = 'gen'
    alias = 'v.declared%d' % counter[0]
    pyamf.register_class(cls, alias)

    return cls, alias, names, prox, keep, kind


def attributes(r, i):
    amf = i % 2 * 3
    cls, alias, names, prox, keep, kind = declared(r)

    try:
        one_attributes(r, i, amf, cls, alias, names, prox, keep, kind)
    finally:
        pyamf.unregister_class(cls)


def one_attributes(r, i, amf, cls, alias, names, prox, keep, kind):
    use = amf == 3 and r.random() < 0.3
    g = Graphs(r, wrappers=False, cycles=False, n=10)
    roots = []

    def attribute(n):
        if n not in prox:
            return g.value()
        if roots and r.random() < 0.3:
            return r.choice(roots)

        v = g.value()

        while v in g.done or v.kind == 'scalar' and r.random() < 0.7:
            # a dict is not to be found both in a proxy and outside of it
            h = Graphs(r, wrappers=False, cycles=False, n=6)
            h.done = [x for x in g.done if r.random() < 0.5]
            v = V(r.choice('LDO'), None)
            h.fill(v, 1)

        roots.append(v)
        return v

    specs = []

    for _ in range(r.randint(1, 3)):
        specs.append(dict((n, attribute(n)) for n in names))

    memo = {}
    values = []

    for s in specs:
        o = cls()

        for n in names:
            setattr(o, str(n), make(s[n], memo))

        values.append(o)

    what = 'AMF%d use_proxies=%s %s proxied %r: %r' % (
        amf, use, kind, prox, [
            sorted((n, canon(s[n], view_v, amf)) for n in names)
            for s in specs])

    if use:
        e = amf3.Encoder(use_proxies=True)
    else:
        e = pyamf.get_encoder(amf)

    e.writeElement(values)
    data = e.stream.getvalue()

    # on the wire each proxied attribute is wrapped, and nothing else
    nodes = (refamf.read_amf3 if amf else refamf.read_amf0)(data)[0][0]

    if use:
        nodes = nodes.val[0]

    ren = (lambda n: u'zz' if kind == 'external-names' and n == u'a' else n)
    memo = {}
    wrap = (lambda n, v: proxied(v, memo) if use else
            shallow(v, memo) if n in prox else v)
    expect = V('L', [V('D', dict((ren(n), wrap(n, s[n])) for n in keep))
                     for s in specs])
    seen = refamf.Node('list', [])

    for n in nodes.val:
        if n.kind != 'obj' or n.alias != alias:
            ck.violate('attribute-class', '%r\n%s' % (n, what))
            return

        seen.val.append(refamf.Node('obj', n.val))

    # identity only where the wire can keep it: per table
    if differ('attribute-wire', canon(expect, view_v, amf),
              canon(seen, view_node, amf), what):
        return

    back = amf3.Decoder(data, use_proxies=True) if use else \
        pyamf.get_decoder(amf, data)
    back = back.readElement()

    if [type(x) for x in back] != [cls] * len(specs):
        ck.violate('attribute-type', '%r\n%s' % (back, what))
        return

    for s, b in zip(specs, back):
        for n in names:
            there = n in keep and not (kind == 'readonly' and n == u'e')

            if hasattr(b, n) != there:
                ck.violate('attribute-there', '%r %s\n%s' % (
                    n, there, what))
                return

            if not there:
                continue

            x = getattr(b, n)

            if n in prox and type(x) in (ArrayCollection, ObjectProxy):
                ck.violate('attribute-unwrapped', '%s is %r\n%s' % (
                    n, x, what))
                return

            # the elements below have been proxied or not on their own
            if flat(s[n]) != flat_py(x):
                ck.violate('attribute-value', '%s: expected %r, got %r\n%s'
                           % (n, flat(s[n]), flat_py(x), what))
                return

            ck.count('attributes')

    # the same value in two proxied attributes is the same object again
    for s, b in zip(specs, back):
        for m in prox:
            for n in prox:
                if m in keep and n in keep and hasattr(b, m) and \
                        hasattr(b, n) and s[m].kind in 'LD':
                    ck.check((s[m] is s[n]) ==
                             (getattr(b, m) is getattr(b, n)),
                             'attribute-shared', '%s and %s: %s' % (
                                 m, n, what))

    ck.seen(what, sample=what[:300])


def shallow(v, memo):
    """The value wrapped, its contents not."""
    if v.kind not in ('L', 'D'):
        return v
    if id(v) not in memo:
        if v.kind == 'L':
            memo[id(v)] = V('AC', v.val)
        else:
            memo[id(v)] = V('OP', V('D', v.val))

    return memo[id(v)]


def flat(v):
    """Contents without identity, wrappers looked through."""
    if v.kind == 'scalar':
        return norm(v.val)
    if v.kind in ('L', 'AC'):
        return ['L'] + [flat(c) for c in v.val]
    if v.kind == 'OP':
        return flat(v.val)

    return [v.kind] + [(uni(k), flat(v.val[k]))
                       for k in sorted(v.val, key=uni)]


def flat_py(x):
    kind, val, _ = view_py(x)

    if kind == 'scalar':
        return norm(val)
    if kind in ('L', 'AC'):
        return ['L'] + [flat_py(c) for c in val]
    if kind == 'OP':
        return flat_py(val)
    if kind in ('D', 'O'):
        return [kind] + [(uni(k), flat_py(val[k]))
                         for k in sorted(val, key=uni)]

    return kind


# -- known findings ----------------------------------------------------------

def cyclic_list():
    a = []
    a.append(a)
    e = amf3.Encoder(use_proxies=True)
    e.writeElement(a)
    b = amf3.Decoder(e.stream.getvalue(), use_proxies=True).readElement()

    return not (type(b) is list and len(b) == 1 and b[0] is b)


def cyclic_dict():
    a = {}
    a['a'] = a
    e = amf3.Encoder(use_proxies=True)
    e.writeElement(a)

    try:
        b = amf3.Decoder(e.stream.getvalue(), use_proxies=True).readElement()
    except KeyError:
        return True

    return not (b.keys() == ['a'] and b['a'] is b)


def main(ck):
    ck.probe('cyclic-list-use-proxies', cyclic_list)
    ck.probe('cyclic-dict-use-proxies', cyclic_dict)
    ck.run('history', 6000, 200000, history, 0.25)
    ck.run('wrappers', 6000, 200000, wrappers, 0.25)
    ck.run('proxies', 6000, 200000, proxies, 0.25)
    ck.run('attributes', 6000, 200000, attributes, 0.25)
    ck.require('operations', 1500)
    ck.require('refused', 100)
    ck.require('wrappers', 200)
    ck.require('refs', 100)
    ck.require('proxied', 200)
    ck.require('proxied-refs', 50)
    ck.require('attributes', 200)


vlib.main(ck, main)
