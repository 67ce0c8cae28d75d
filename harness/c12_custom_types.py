# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C12', 'random graphs of plain and adapted values (tuples, named tuples, '
    'list subclasses, sets.Set, deques, arrays, ordered, default and '
    'counting dicts, Decimals, weak references and collections) in every '
    'position are encoded in AMF0 and AMF3 and read by an independent '
    'reader; custom types are added and removed between encodes, with a log '
    'of handler calls; non-trivial: an adapted or custom value is nested in '
    'another value')
vlib.bootstrap()
import gen            # noqa
import refamf         # noqa
import graphcheck     # noqa
from gen import pyamf, Node   # noqa
import array, collections, decimal, sets, sys, traceback, weakref   # noqa

READ = {0: refamf.read_amf0, 3: refamf.read_amf3}


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MyDeque(collections.deque):
    pass


class Thing(object):
    """Something to refer to weakly."""


class Values(object):
    """Pairs of a value and the node it must be written as."""

    def __init__(self, r, amf, customs=()):
        self.r = r
        self.amf = amf
        self.pool = []
        self.left = 40
        self.keep = []
        self.kinds = set()
        self.customs = customs
        self.nested = False

    def hashable(self):
        r = self.r
        return r.choice([u'a', u'b', u'zz', 1, 2, 300, u'\u4e2d', 1.5, True])

    def node(self, v):
        if isinstance(v, bool):
            return Node('bool', v)
        if isinstance(v, (int, long)):
            return Node('int', v)
        if isinstance(v, float):
            return Node('num', v)
        if isinstance(v, str):
            v = v.decode('utf-8')
        return Node('str', v)

    def pair(self, depth=0):
        """(value, function making the node of one occurrence)"""
        r = self.r
        self.left -= 1

        if self.pool and r.random() < 0.2:
            return r.choice(self.pool)

        c = r.random()

        if self.left <= 0 or depth > 5 or c < 0.2:
            v = self.hashable()
            n = self.node(v)
            return v, lambda: n
        if c < 0.45:
            return self.container(depth)
        if self.customs and c < 0.7:
            got = r.choice(self.customs).pair(self, depth)
        else:
            got = self.adapted(depth)

        if depth:
            self.nested = True

        self.pool.append(got)
        return got

    def items(self, depth, n=None):
        r = self.r
        return [self.pair(depth + 1)
                for _ in range(r.randint(0, 4) if n is None else n)]

    def members(self, depth):
        return dict((k, self.pair(depth + 1)) for k in
                    [u'a', u'bb', u'\xe9', u'k1', u'longer key']
                    if self.r.random() < 0.4)

    def container(self, depth):
        r = self.r
        c = r.randint(0, 3)

        if c == 0:
            ps = self.items(depth)
            n = Node('list', [])
            n.val.extend([m() for v, m in ps])
            got = [v for v, m in ps], lambda: n
        elif c == 1:
            ps = self.members(depth)
            n = Node('obj', dict((k, ps[k][1]()) for k in ps))
            got = dict((k, ps[k][0]) for k in ps), lambda: n
        elif c == 2:
            ps = self.members(depth)
            ps[u'key'] = self.pair(depth + 1)
            n = Node('mixed', dict((k, ps[k][1]()) for k in ps))
            v = pyamf.MixedArray()
            v.update(dict((k, ps[k][0]) for k in ps))
            got = v, lambda: n
        else:
            return self.thing(depth)

        self.pool.append(got)
        return got

    def thing(self, depth):
        ps = self.members(depth)
        n = Node('obj', dict((k, ps[k][1]()) for k in ps), u'v.Plain')
        v = gen.Plain()

        for k in ps:
            setattr(v, k.encode('utf-8'), ps[k][0])

        got = v, lambda: n
        self.pool.append(got)
        return got

    def adapted(self, depth):
        r = self.r
        kind = r.choice(['tuple', 'namedtuple', 'mylist', 'mytuple', 'set',
                         'immutableset', 'deque', 'mydeque', 'array',
                         'ordereddict', 'defaultdict', 'counter', 'decimal',
                         'weakref', 'deadref', 'weakvalues', 'weakset'])
        self.kinds.add(kind)
        ck.count('adapted:' + kind)

        if kind in ('tuple', 'mylist', 'mytuple', 'deque', 'mydeque'):
            ps = self.items(depth)
            t = dict(tuple=tuple, mylist=MyList, mytuple=MyTuple,
                     deque=collections.deque, mydeque=MyDeque)[kind]
            v = t([x for x, m in ps])

            if kind in ('tuple', 'mylist', 'mytuple'):
                # the identity of sequences is not what is claimed here
                pass

            return v, lambda: Node('list', [m() for x, m in ps])
        if kind == 'namedtuple':
            ps = self.items(depth, 2)
            t = collections.namedtuple('Pt', 'x y')
            return t(*[x for x, m in ps]), lambda: Node(
                'list', [m() for x, m in ps])
        if kind in ('set', 'immutableset'):
            v = (sets.Set if kind == 'set' else sets.ImmutableSet)(
                [self.hashable() for _ in range(r.randint(0, 5))])
            return v, lambda: Node('list', [self.node(x) for x in v])
        if kind == 'array':
            code = r.choice(['i', 'd', 'b', 'h', 'l', 'f'])
            v = array.array(code, [r.randint(-100, 100)
                                   for _ in range(r.randint(0, 5))])
            return v, lambda: Node('list', [self.node(x) for x in v])
        if kind in ('ordereddict', 'defaultdict'):
            ps = self.members(depth)
            v = collections.OrderedDict() if kind == 'ordereddict' else \
                collections.defaultdict(list)

            for k in ps:
                v[k] = ps[k][0]

            return v, lambda: Node('obj', dict((k, ps[k][1]()) for k in ps))
        if kind == 'counter':
            v = collections.Counter(r.choice([u'abca', u'', u'\u4e2dzz']))
            return v, lambda: Node('obj', dict((k, self.node(v[k]))
                                               for k in v))
        if kind == 'decimal':
            v = decimal.Decimal(r.choice(
                ['0', '1.5', '-2.25', '1E+20', '0.1', '123456789.125']))
            return v, lambda: Node('num', float(v))
        if kind == 'weakref':
            v, m = self.thing(depth)
            self.keep.append(v)
            return weakref.ref(v), m
        if kind == 'deadref':
            v = self.dead()
            return v, lambda: Node('null')
        if kind == 'weakvalues':
            v = weakref.WeakValueDictionary()
            ps = {}

            for k in [u'one', u'two', u'\xe9']:
                if r.random() < 0.6:
                    ps[k] = self.thing(depth + 1)
                    self.keep.append(ps[k][0])
                    v[k] = ps[k][0]

            return v, lambda: Node('obj', dict((k, ps[k][1]()) for k in ps))

        v = weakref.WeakSet()
        ps = {}

        for _ in range(r.randint(0, 1)):
            p = self.thing(depth + 1)
            self.keep.append(p[0])
            v.add(p[0])
            ps[id(p[0])] = p

        return v, lambda: Node('list', [p[1]() for p in ps.values()])

    def dead(self):
        return DEAD


def _dead():
    import java.lang.System
    ref = weakref.ref(Thing())

    for _ in range(50):
        if ref() is None:
            break

        java.lang.System.gc()

    return ref if ref() is None else None


DEAD = _dead()
if DEAD is None:
    DEAD = weakref.ref(gen.Plain)   # never happens; not judged


def share_safe(values):
    """Sequences written from one object may be written as references; the
    claim is about contents, so no identity is compared for lists made of
    adapted values (see ``canon``)."""
    return values


def canon(nodes):
    """Canonical form without identities (the graphs have no cycles)."""
    return [tree(n) for n in nodes]


def tree(n):
    k = n.kind

    if k == 'list':
        return ('L',) + tuple([tree(c) for c in n.val])
    if k in ('obj', 'mixed'):
        return (k, n.alias) + tuple(
            [(refamf.ukey(x), tree(n.val[x]))
             for x in sorted(n.val, key=refamf.ukey)])
    if k in ('int', 'num'):
        return refamf.num_token(n.val, 0, True)

    return (k, n.val)


def encode_compare(r, amf, pairs, key, what):
    try:
        data = gen.encode([v for v, m in pairs], amf)
    except Exception:
        ck.violate('%s:encode:%s' % (key, graphcheck.exc()),
                   traceback.format_exc() + what())
        return None

    want = [m() for v, m in pairs]

    try:
        got, rd = READ[amf](data)
    except Exception:
        ck.violate('%s:malformed' % key, '%s\n%r\n%s' % (
            traceback.format_exc(), data[:300], what()))
        return None

    d = refamf.first_difference(canon(want), canon(got))

    if d:
        ck.violate('%s:differs' % key, '%s\n%s\nbytes %r' % (
            d, what(), data[:400]))

    return data


def adapters(r, i):
    amf = r.choice([0, 3])
    vs = Values(r, amf)
    pairs = [vs.pair(0) for _ in range(r.randint(1, 3))] + [vs.adapted(0)]
    encode_compare(r, amf, pairs, 'adapter',
                   lambda: 'amf%d %s' % (amf, repr([p[0] for p in pairs])[
                       :800]))
    ck.seen((amf, repr([tree(m()) for v, m in pairs])), nontrivial=vs.nested)


def shared_identity(r, i):
    """What an adapted value contains keeps its identity around it."""
    amf = r.choice([0, 3])
    t = gen.Plain()
    t.n = i
    holder = r.choice([
        lambda x: (x,), lambda x: collections.deque([x]),
        lambda x: collections.OrderedDict([(u'k', x)]),
        lambda x: weakref.ref(x), lambda x: MyList([x]),
        lambda x: weakref.WeakValueDictionary({u'k': x}),
        lambda x: weakref.WeakSet([x])])(t)
    out = gen.decode(gen.encode([[t, holder, t]], amf), amf)[0]

    def inner(x):
        if isinstance(x, list):
            return x[0]
        if isinstance(x, dict):
            return x[u'k']
        return x

    ck.check(len(out) == 3 and out[0] is out[2] and
             inner(out[1]) is out[0], 'identity-through-adapter',
             lambda: 'amf%d %r -> %r' % (amf, holder, out))
    ck.seen(('id', amf, type(holder).__name__))
    ck.count('identity')


def strict_decimal(r, i):
    amf = r.choice([0, 3])
    v = decimal.Decimal(r.choice(['1', '1.1', '-0']))
    w = r.choice([v, [v], {u'a': [v]}, (v,), collections.deque([v])])

    try:
        b = gen.encode([w], amf, strict=True)
    except pyamf.EncodeError:
        ck.count('strict-decimals')
    except Exception:
        ck.violate('strict-decimal:' + graphcheck.exc(),
                   traceback.format_exc())
    else:
        ck.violate('strict-decimal-accepted', '%r gave %r' % (w, b))

    ck.seen(('strict', amf, repr(w)))


def again(r, i):
    """Values that change between encodes are written as they are then."""
    Fresh = gen.Plain
    size = r.randint(1, 4)
    start = [r.randint(0, 9) for _ in range(size)]
    things = [Fresh() for _ in range(3)]

    for n, t in enumerate(things):
        t.n = n

    kind = r.choice(['deque', 'mylist', 'array', 'set', 'ordereddict',
                     'defaultdict', 'counter', 'weakvalues', 'mydeque',
                     'nested'])
    deep = []

    if kind in ('deque', 'mydeque', 'mylist'):
        v = dict(deque=collections.deque, mydeque=MyDeque,
                 mylist=MyList)[kind](start)
    elif kind == 'array':
        v = array.array('i', start)
    elif kind == 'set':
        v = sets.Set(start)
    elif kind == 'nested':
        deep.extend(start)
        v = (deep, collections.deque([deep]))
    elif kind == 'weakvalues':
        v = weakref.WeakValueDictionary()
        v[u'a'] = things[0]
    else:
        v = dict(ordereddict=collections.OrderedDict,
                 defaultdict=lambda: collections.defaultdict(int),
                 counter=collections.Counter)[kind]()
        v[u'a'] = 1

    def change():
        x = r.randint(0, 9)

        if kind == 'nested':
            deep[r.randrange(len(deep))] = x
        elif kind == 'set':
            if len(v):
                v.remove(list(v)[0])

            v.add(x + r.randint(0, 9))
        elif kind == 'weakvalues':
            v[r.choice([u'a', u'b'])] = r.choice(things)
        elif kind in ('ordereddict', 'defaultdict', 'counter'):
            v[r.choice([u'a', u'b'])] = x
        elif r.random() < 0.7:
            # of the same length
            v[r.randrange(len(v))] = x
        else:
            v.append(x)

    def model(x):
        if isinstance(x, (list, tuple, collections.deque, array.array,
                          sets.Set)):
            return Node('list', [model(y) for y in x])
        if isinstance(x, (dict, weakref.WeakValueDictionary)):
            return Node('obj', dict((k, model(x[k])) for k in x.keys()))
        if isinstance(x, Fresh):
            return Node('obj', {u'n': Node('int', x.n)}, u'v.Plain')

        return Node('int', x)

    how = r.choice(['bare', 'list', 'attribute'])
    holder = gen.Plain()
    holder.v = v

    for step in range(r.randint(2, 5)):
        amf = r.choice([0, 3])

        if how == 'bare':
            pair = (v, lambda: model(v))
        elif how == 'list':
            pair = ([v], lambda: Node('list', [model(v)]))
        else:
            pair = (holder, lambda: Node('obj', {u'v': model(v)},
                                         u'v.Plain'))

        encode_compare(r, amf, [pair], 'again:' + kind,
                       lambda: 'amf%d step %d %s %r' % (amf, step, how, v))
        ck.count('again')
        change()

    ck.seen(('again', kind, how, repr(start)))


# -- custom types -----------------------------------------------------------

class Custom(object):
    """One custom type: the classes or predicate, and its handler."""

    def __init__(self, r, n):
        self.n = n
        self.mode = r.choice(['class', 'class', 'classic', 'tuple', 'list',
                              'predicate', 'dictclass'])
        self.result = r.choice(['fresh', 'same', 'scalar'])
        self.calls = []
        self.made = []
        self.active = False
        self.was = False

        class New(object):
            pass

        class Sub(New):
            pass

        # Jython takes classic classes of one name for equal
        exec 'class Classic%d: pass' % n in locals()
        Classic = locals()['Classic%d' % n]

        class Second(object):
            pass

        class D(dict):
            pass

        self.classes = {'class': [New, Sub], 'classic': [Classic],
                        'tuple': [New, Sub, Second], 'predicate': [New],
                        'list': [New, Second], 'dictclass': [D]}[self.mode]

        if self.mode == 'predicate':
            self.key = self.predicate
        elif self.mode == 'tuple':
            self.key = (New, Second)
        elif self.mode == 'list':
            self.key = [New, Second]
        else:
            self.key = self.classes[0]

        for c in self.classes:
            if r.random() < 0.3 and self.mode != 'dictclass':
                pyamf.register_class(c, u'cust.%s.%d.%s' % (
                    ck.current['case'], n, c.__name__))

    def alias(self, c):
        try:
            return pyamf.get_class_alias(c).alias
        except pyamf.UnknownClassAlias:
            return u''

    def predicate(self, x):
        return getattr(x, 'flag', None) == self.n

    def handler(self, data, encoder):
        self.calls.append(id(data))

        if self.result == 'fresh':
            return [u'custom', data.tag, data.payload]
        if self.result == 'same':
            return data.payload

        return data.tag

    def add(self):
        pyamf.add_type(self.key, self.handler)
        self.active = self.was = True

    def pair(self, vs, depth):
        r = vs.r
        c = r.choice(self.classes)
        o = c()
        p = vs.pair(depth + 1)
        tag = r.randint(0, 1000)

        if self.mode == 'dictclass':
            o[u'tag'] = tag
            o[u'payload'] = p[0]
            # for the handler
            o.tag = tag
            o.payload = p[0]
        else:
            o.tag = tag
            o.payload = p[0]

        selected = True
        flag = None

        if self.mode == 'predicate':
            selected = r.random() < 0.6
            flag = self.n if selected else r.choice([None, -1, u'x'])
            o.flag = flag

        vs.keep.append(o)
        alias = self.alias(c)

        def node():
            if self.active and selected:
                if self.result == 'scalar':
                    n = Node('int', tag)
                elif self.result == 'same':
                    return p[1]()
                else:
                    n = Node('list', [Node('str', u'custom'),
                                      Node('int', tag), p[1]()])

                n.by = self
                return n

            d = {u'tag': Node('int', tag), u'payload': p[1]()}

            if self.mode == 'predicate':
                d[u'flag'] = Node('null') if flag is None else \
                    Node('int', flag) if isinstance(flag, int) else \
                    Node('str', flag)

            return Node('obj', d, alias)

        return o, node


def handlers(nodes):
    found = set()
    seen = set()

    def go(n):
        if id(n) in seen:
            return

        seen.add(id(n))
        found.add(getattr(n, 'by', None))

        for c in refamf.children(n):
            go(c)

    for n in nodes:
        go(n)

    return found


def refused(r, c):
    """Refused registrations change nothing."""
    if c.active:
        try:
            pyamf.add_type(c.key, lambda x, encoder: u'second')
        except KeyError:
            ck.count('duplicate-refused')
        except Exception:
            ck.violate('duplicate:' + graphcheck.exc(),
                       traceback.format_exc())
        else:
            ck.violate('duplicate-accepted', repr(c.key))
    else:
        for f in (pyamf.get_type, pyamf.remove_type):
            try:
                got = f(c.key)
            except KeyError:
                ck.count('unknown-refused')
            except Exception:
                ck.violate('unknown-type:' + graphcheck.exc(),
                           traceback.format_exc())
            else:
                ck.violate('unknown-type-found', '%r gives %r' % (
                    c.key, got))

    bad = r.choice([5, u'x', None, 1.5, (c.classes[0], 5),
                    [c.classes[0], u'no'], {}])

    try:
        pyamf.add_type(bad, c.handler)
    except TypeError:
        ck.count('invalid-refused')
    except Exception:
        ck.violate('invalid:' + graphcheck.exc(), traceback.format_exc())
    else:
        ck.violate('invalid-accepted', repr(bad))
        pyamf.remove_type(bad)


def custom(r, i):
    customs = [Custom(r, n) for n in range(r.randint(1, 3))]
    log = []

    try:
        for step in range(r.randint(2, 8)):
            c = r.choice(customs)
            op = r.random()

            if not c.active and op < 0.6:
                c.add()
                log.append('add %s' % c.mode)
                ck.count('added')
            elif c.active and op < 0.4:
                got = pyamf.remove_type(c.key)
                c.active = False
                ck.check(got == c.handler, 'remove-result', repr(got))
                log.append('remove %s' % c.mode)
                ck.count('removed')
            elif op < 0.8:
                refused(r, c)
                log.append('refused')

            if c.active:
                try:
                    ck.check(pyamf.get_type(c.key) == c.handler, 'get-type',
                             repr(c.key))
                except KeyError:
                    ck.violate('get-type-lost', repr(c.key))

            amf = r.choice([0, 3])
            vs = Values(r, amf, customs)
            pairs = [vs.pair(0) for _ in range(r.randint(1, 3))]
            pairs.append(r.choice(customs).pair(vs, 0))

            for c in customs:
                c.calls = []

            what = 'amf%d; history %s; types %s\n%s' % (
                amf, log, [(c.mode, c.result, c.active) for c in customs],
                repr([tree(m()) for v, m in pairs])[:600])

            used = handlers([m() for v, m in pairs])

            if encode_compare(r, amf, pairs, 'custom',
                              lambda: what) is not None:
                for c in customs:
                    ck.count('handler-calls', len(c.calls))

                    if c.was and not c.active:
                        ck.count('encodes-after-removal')

                    ck.check((c.calls or c not in used) and
                             (c.active or not c.calls), 'handler-calls',
                             lambda: '%d calls, used %s\n%s' % (
                                 len(c.calls), c in used, what))

            ck.seen((amf, what), nontrivial=vs.nested)
    finally:
        for c in customs:
            if c.active:
                pyamf.remove_type(c.key)

            for k in c.classes:
                try:
                    pyamf.unregister_class(k)
                except pyamf.UnknownClassAlias:
                    pass


def body(ck):
    ck.require('handler-calls', 50)
    ck.require('removed', 10)
    ck.require('duplicate-refused', 5)
    ck.require('adapted:deque', 10)
    ck.run('strict-decimal', 40, 200, strict_decimal, 0.05)
    ck.run('identity', 60, 500, shared_identity, 0.1)
    ck.require('again', 100)
    ck.run('again', 300, 5000, again, 0.1)
    ck.run('adapters', 3000, 100000, adapters, 0.4)
    ck.run('custom', 2000, 60000, custom, 0.4)


vlib.main(ck, body)
