# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C27', 'operations (encode, decode, look up, register, requests to one '
    'gateway, first use of XML and of loaded classes) run alone, then by '
    'several threads on a fresh twin of the same classes: under a scheduler '
    'that passes the turn at seeded line events of the library, and freely; '
    'all results are compared with those of running alone; non-trivial: the '
    'turn passed between threads inside the library')
import os             # noqa
import sched          # noqa
IMPORTER = sched.instrument(os.environ.get('VERIF_REPO', '/repo'))
vlib.bootstrap()
import sys            # noqa
import threading      # noqa
import gen            # noqa
import graphcheck     # noqa
import gwlib          # noqa
import gwmodel as M   # noqa
import envelope as E  # noqa
import refamf         # noqa
from gen import pyamf, Node   # noqa
from pyamf import remoting, util   # noqa
import pyamf.remoting.gateway      # noqa
import pyamf.xml      # noqa

gen.register()
NAMES = [unicode(c) for c in 'abcdefgh']


# -- random classes -----------------------------------------------------------

class External(object):
    def __writeamf__(self, out):
        out.writeObject(sorted(self.__dict__.items()))

    def __readamf__(self, inp):
        self.__dict__.update(dict(map(tuple, inp.readObject())))


class Spec(object):
    """A hierarchy of classes that can be made as often as needed."""

    def __init__(self, r, stem):
        self.r = r
        self.stem = stem
        self.defs = []
        n = r.choice([1, 2, 3, 3, 4, 6])

        for k in range(n):
            bases = []

            if k and r.random() < 0.8:
                bases = [r.randint(0, k - 1)]

                if k > 2 and r.random() < 0.2:
                    j = r.randint(0, k - 1)

                    if j not in bases:
                        bases.append(j)

            meta = {}

            def some(p, most=3):
                if r.random() < p:
                    return tuple(r.sample(NAMES, r.randint(1, most)))

            for key, p in (('static', 0.5), ('exclude', 0.3),
                           ('readonly', 0.25), ('proxy', 0.2)):
                v = some(p)

                if v:
                    meta[key] = v
            if r.random() < 0.25:
                meta['dynamic'] = r.random() < 0.5
            if r.random() < 0.15:
                meta['amf3'] = True
            if r.random() < 0.2:
                a, b = r.sample(NAMES, 2)
                meta['synonym'] = {str(a): 's' + str(b)}
            if r.random() < 0.08 and not bases:
                meta = {'external': True}

            self.defs.append(dict(
                bases=bases, meta=meta,
                props=[(p, r.random() < 0.7)
                       for p in r.sample(['p', 'q', 'r'], 2)]
                if r.random() < 0.3 else [],
                alias='%s.K%d' % (stem, k) if r.random() < 0.75 else None,
                how=r.choice(['register', 'register', 'loader', 'loader',
                              'meta']),
                mixin=r.random() < 0.2))

        self.defs[-1]['alias'] = '%s.K%d' % (stem, n - 1)
        self.values = [dict((x, self.value(r)) for x in r.sample(
            NAMES, r.randint(1, 6))) for _ in range(n)]

    def value(self, r):
        return r.choice([1, 2.5, u'text', None, True, [1, u'x'],
                         {'k': u'v'}, -r.randint(0, 2 ** 30)])

    def make(self):
        """Fresh classes, registered; returns (classes, undo)."""
        out = []
        table = {}
        undo = []

        for k, d in enumerate(self.defs):
            bases = tuple([out[j] for j in d['bases']])
            ns = {}

            if d['meta'].get('external'):
                bases = (External,)
            if d['mixin']:
                bases += (type('Mix%d' % k, (object,), {'mixed': k}),)

            m = dict(d['meta'])

            if d['alias'] and d['how'] == 'meta':
                m['alias'] = d['alias']
            if m:
                ns['__amf__'] = type('Meta', (), m)

            for p, settable in d['props']:
                ns[p] = self.prop(p, settable)

            try:
                c = type('K%d' % k, bases or (object,), ns)
            except TypeError:
                # no order of resolution
                c = type('K%d' % k, bases[:1], ns)

            out.append(c)

            if d['alias'] and d['how'] in ('register', 'meta'):
                pyamf.register_class(
                    c, d['alias'] if d['how'] == 'register' else None)
            elif d['alias']:
                table[d['alias']] = c

        def loader(alias):
            return table.get(alias)

        pyamf.register_class_loader(loader)

        def clean():
            pyamf.unregister_class_loader(loader)
            todo = list(out)

            for c in out:
                todo.extend(c.__mro__)
            for c in todo:
                if c in (object, External):
                    continue

                try:
                    pyamf.unregister_class(c)
                except pyamf.UnknownClassAlias:
                    pass

        return out, clean

    def prop(self, p, settable):
        def get(self):
            return self.__dict__.get('_' + p, u'unset ' + p)

        def put(self, v):
            self.__dict__['_' + p] = v

        return property(get, put if settable else None)


def summary(v, seen=None):
    seen = {} if seen is None else seen

    if v is None or isinstance(v, (bool, int, long, float, basestring)):
        return repr(v)
    if id(v) in seen:
        return 'ref'

    seen[id(v)] = v

    if isinstance(v, (list, tuple)):
        return [summary(x, seen) for x in v]
    if isinstance(v, dict):
        return (type(v).__name__, sorted([
            (repr(k), summary(x, seen)) for k, x in v.items()]))

    return (type(v).__name__, sorted([
        (repr(k), summary(x, seen)) for k, x in vars(v).items()]))


def outcome(fn):
    try:
        return fn()
    except Exception, e:
        return ('error', type(e).__name__, str(e)[:200])


def make_op(r, spec, near=False):
    """A function of the classes; it gives something comparable."""
    n = len(spec.defs)
    ks = [r.randint(0, n - 1) for _ in range(r.choice([1, 1, 2]))]

    if near:
        # the last class or one of its bases
        ks = [n - 1]

        while spec.defs[ks[0]]['bases'] and r.random() < 0.5:
            ks = [r.choice(spec.defs[ks[0]]['bases'])]
    elif r.random() < 0.6:
        ks[0] = n - 1

    amf = r.choice([0, 3])
    kind = r.choice(['encode', 'encode', 'decode', 'decode', 'both',
                     'lookup', 'own', 'get'])

    def load():
        # from now on they are known by their alias
        for k in ks:
            if spec.defs[k]['alias']:
                pyamf.get_class_alias(spec.defs[k]['alias'])

    if kind in ('encode', 'both'):
        def op(classes, me):
            objs = []
            load()

            for k in ks:
                o = classes[k]()
                o.__dict__.update(spec.values[k])
                objs.append(o)

            data = pyamf.encode(*objs, **dict(encoding=amf)).getvalue()
            nodes, rd = graphcheck.READ[amf](data)
            out = repr(graphcheck.canon_nodes(nodes, amf, True))

            if kind == 'both':
                out = out, summary(list(pyamf.decode(data, encoding=amf)))

            return out
    elif kind == 'decode':
        nodes = []

        for k in ks:
            d = spec.defs[k]
            o = Node('obj', {}, unicode(d['alias'] or ''))

            if d['meta'].get('external'):
                o = Node('str', u'none')
            else:
                for x in spec.values[k]:
                    o.val[x] = Node('str', u'v')

            nodes.append(o)

        data = graphcheck.WRITE[amf](nodes, r, {})

        def op(classes, me):
            vals = list(pyamf.decode(data, encoding=amf))

            for v, k in zip(vals, ks):
                if spec.defs[k]['alias'] and type(v) is not classes[k] \
                        and not isinstance(v, unicode):
                    return 'class %r' % type(v)

            return summary(vals)
    elif kind == 'lookup':
        def op(classes, me):
            out = []

            for k in ks:
                a = spec.defs[k]['alias']

                if a:
                    x = pyamf.get_class_alias(a)
                    x.compile()
                    out.append((x.alias, x.klass is classes[k], x.dynamic,
                                x.static_attrs, x.exclude_attrs,
                                x.readonly_attrs, x.proxy_attrs,
                                x.amf3, x.external,
                                x.encodable_properties,
                                x.decodable_properties,
                                sorted(x.synonym_attrs.items())))

            return repr(out)
    elif kind == 'get':
        def op(classes, me):
            load()
            c = pyamf.get_encoder(amf)
            c.writeElement(classes[ks[0]]())
            return len(c.stream)
    else:
        # a class of its own
        def op(classes, me):
            base = classes[ks[0]]
            name = '%s.Own%s' % (spec.stem, me)
            c = type('Own', (base,), {})
            pyamf.register_class(c, name)

            try:
                o = c()
                o.__dict__.update(spec.values[ks[0]])
                data = pyamf.encode(o, encoding=amf).getvalue()
                v = list(pyamf.decode(data, encoding=amf))

                if type(v[0]) is not c:
                    return 'class %r' % type(v[0])

                return summary(v)
            finally:
                x = pyamf.unregister_class(name)

                if x.klass is not c:
                    return 'unregistered %r' % x

    return op, (kind, amf, tuple(ks))


CLASSES = set(['pyamf', 'pyamf.alias', 'pyamf.util'])


def first_use(r, i):
    spec = Spec(r, 'c27x%d' % i)
    nt = r.choice([2, 2, 3, 4])
    plans = []
    same = r.random() < 0.4
    near = not same and r.random() < 0.6

    if near:
        nt = 2

    for t in range(nt):
        plans.append([make_op(r, spec, near)
                      for _ in range(1 if near else r.choice([1, 1, 2]))])

    if same:
        # everybody does the same at first
        for p in plans:
            p[0] = plans[0][0]

    what = '%r\n%r' % (
        [[x[1] for x in p] for p in plans],
        [(d['bases'], d['meta'], d['props'], d['alias'], d['how'])
         for d in spec.defs])

    # turns pass anywhere, or where classes are looked up and compiled
    match = None

    if r.random() < 0.6:
        match = CLASSES.__contains__

    # alone: every operation on classes that were never used
    alone = []
    span = 0

    for t, p in enumerate(plans):
        for op, _ in p:
            classes, clean = spec.make()

            try:
                x, n = sched.count(lambda: outcome(lambda: op(classes, t)),
                                   match)
                alone.append(x)
                span += n
            finally:
                clean()

    classes, clean = spec.make()

    def thread(t):
        def fn():
            return [outcome(lambda: op(classes, t)) for op, _ in plans[t]]

        return fn

    try:
        s = None

        if r.random() < 0.85:
            s = sched.Sched(r, r.choice([0.003, 0.01, 0.03, 0.1]), match,
                            span=span if r.random() < 0.6 else None)
            got = s.run([thread(t) for t in range(nt)])
        else:
            got = sched.free([thread(t) for t in range(nt)])

        flat = []

        for t, g in enumerate(got):
            if g is None or not g[0]:
                ck.violate('thread-died', '%s\n%s' % (g, what))
                return

            flat.extend(g[1])

        if flat != alone:
            for a, b in zip(flat, alone):
                if a != b:
                    ck.violate('first-use', '%r\nalone: %r\n%s' % (
                        a, b, what))
                    return

        again = []

        for t, p in enumerate(plans):
            for op, _ in p:
                again.append(outcome(lambda: op(classes, t)))

        if again != alone:
            ck.violate('after-first-use', '%r\nalone: %r\n%s' % (
                again, alone, what))
            return
    finally:
        clean()

    ck.count('operations', len(flat))
    ck.count('errors', len([x for x in flat if isinstance(x, tuple) and
                        x[:1] == ('error',)]))

    if s:
        ck.count('switches', s.switches)
        ck.count('steps', s.steps)
        ck.count('waits-for-locks', s.steals)
        ck.seen((i, s.signature()), nontrivial=s.switches > 0,
                sample=what[:200] + repr(s.trace[:8]))
    else:
        ck.count('free-runs')
        ck.seen(i)


# -- first use of XML ---------------------------------------------------------

def first_xml(r, i):
    old = sys.modules.pop('pyamf.xml')

    try:
        x = __import__('pyamf.xml', {}, {}, ['is_xml'])

        if x is old:
            ck.violate('harness', 'not a fresh module')

        # the others need not be there
        x.ETREE_MODULES = ['defusedxml.ElementTree']

        from defusedxml import ElementTree as ET
        tree = ET.fromstring('<a b="1">t</a>')
        ops = [
            lambda: x.is_xml(tree),
            lambda: x.is_xml(5),
            lambda: x.tostring(x.fromstring('<r><s>1</s></r>')),
            lambda: x.fromstring('<q w="2"/>').attrib['w'],
            lambda: x.tostring(tree),
        ]
        want = [True, False, '<r><s>1</s></r>', '2', '<a b="1">t</a>']
        nt = r.choice([2, 3, 4])
        plan = [[r.randint(0, 4) for _ in range(2)] for _ in range(nt)]

        def thread(t):
            def fn():
                return [outcome(ops[k]) for k in plan[t]]

            return fn

        s = sched.Sched(r, r.choice([0.02, 0.05, 0.2]),
                        lambda name: name == 'pyamf.xml',
                        span=70 if r.random() < 0.5 else None)
        got = s.run([thread(t) for t in range(nt)])

        for t, g in enumerate(got):
            ck.check(g and g[0] and
                     [str(v).replace('\n', '').split('?>')[-1]
                      for v in g[1]] == [str(want[k]) for k in plan[t]],
                     'first-xml', '%r of %r' % (g, plan[t]))
    finally:
        sys.modules['pyamf.xml'] = old
        pyamf.xml = old

    ck.count('first-xml')
    ck.count('switches', s.switches)
    ck.seen(('xml', tuple(map(tuple, plan)), s.signature()),
            nontrivial=s.switches > 0)


# -- graphs, freely -----------------------------------------------------------

class Weird(object):
    def __init__(self, v):
        self.v = v


def stress(r, i):
    """Every thread with graphs of its own, over the shared classes, type
    map and caches, while others register and remove theirs."""
    nt = 8
    work = []

    for t in range(nt):
        mine = []

        for _ in range(6):
            amf = r.choice([0, 3])
            nodes, g = graphcheck.message(r, amf, max_nodes=r.choice(
                [4, 12, 30]))
            vals = graphcheck.build(r, amf, nodes)
            mine.append((amf, nodes, vals))

        work.append(mine)

    ints = [r.randint(-2 ** 28, 2 ** 28 - 1) for _ in range(300)]
    iref = gen.encode(ints, 3)

    def codec(t):
        def fn():
            n = 0

            for amf, nodes, vals in work[t]:
                data = gen.encode(vals, amf)
                back = gen.decode(data, amf)
                d = refamf.first_difference(
                    graphcheck.canon_nodes(nodes, amf, True),
                    graphcheck.canon_values(back, amf, True))

                if d:
                    return 'AMF%d %s in %s' % (amf, d, graphcheck.expr(nodes))

                n += 1

                if gen.encode(ints, 3) != iref or \
                        gen.decode(iref, 3) != ints:
                    return 'integers'

        return fn

    def registrar(t):
        stem = 'c27s%d.%d.T%d' % (i, t, t)

        def fn():
            for k in range(25):
                c = type('T%d' % t, (object,), {})
                w = type('W%d' % t, (Weird,), {})
                alias = '%s.k%d' % (stem, k % 3)
                pyamf.register_class(c, alias)
                pyamf.add_type(w, lambda o, encoder=None: [o.v, t])
                o = c()
                o.x = k
                data = gen.encode([o, w(k)], 3)
                got = gen.decode(data, 3)

                if type(got[0]) is not c or got[0].x != k or \
                        got[1] != [k, t]:
                    return 'own class %r' % (got,)

                pyamf.unregister_class(alias)
                pyamf.remove_type(w)

                try:
                    pyamf.get_class_alias(alias)
                    return 'still registered'
                except pyamf.UnknownClassAlias:
                    pass

        return fn

    fns = [codec(t) for t in range(nt - 3)] + [registrar(t) for t in range(3)]
    got = sched.free(fns)

    for g in got:
        if g != (True, None):
            ck.violate('stress', '%s' % (g,))
            return

    ck.count('stress-runs')
    ck.seen(('stress', i))


# -- one gateway --------------------------------------------------------------

me = threading.local()


class Env(object):
    """A shared gateway that knows who asks."""

    def __init__(self):
        self.w = M.World()
        self.bad = []
        services = self.w.services()

        def whoami(request, token):
            return [request.get('x.client'), token]

        app = self.app = gwlib.WSGIGateway(services)
        app.addService(whoami, 'whoami', expose_request=True)

        def guarded(token):
            self.w.note('guarded', int(token), ())
            return token

        def auth(user, password):
            return user == password

        app.addService(guarded, 'guarded', authenticator=auth)

        def before(request, service_request, *args):
            self.seen.append((request.get('x.client'), me.client))

        self.seen = []
        before = remoting.gateway.expose_request(before)
        app.addService(lambda request, token: token, 'prepared',
                       preprocessor=before, expose_request=True)


def credentials(e, user, password):
    n = Node('obj', {u'userid': Node('str', user),
                     u'password': Node('str', password)})
    e.headers.append(E.Part(name=u'Credentials', required=False, value=n))


def client(env, r, t, count, ids):
    """Requests of one client, with their answers known beforehand."""
    def plan():
        out = []

        for k in range(count):
            c = r.random()

            if c < 0.5:
                g = M.BatchGen(r, version=3, raw=False)
                # tokens of this client only
                base = (t + 1) * 10 ** 7 + k * 10 ** 5

                def token(g=g, base=base):
                    n = base + len(g.tokens)
                    g.tokens[n] = 1
                    return n

                g.token = token
                e, reqs = g.batch(r.choice([1, 2, 3]))

                for x in g.tokens:
                    env.w.amf[x] = 3

                out.append(('batch', g, e, reqs, g.write(e)))
            else:
                e = E.Env(r.choice([0, 3]))
                n = (t + 1) * 10 ** 7 + k * 10 ** 5
                kind = r.choice(['whoami', 'good', 'bad', 'prepared'])
                target = {'good': 'guarded', 'bad': 'guarded'}.get(kind, kind)

                if kind in ('good', 'bad'):
                    credentials(e, u'u%d' % n, u'u%d' % (
                        n if kind == 'good' else n + 1))

                b = E.Part(id=u'/1', target=unicode(target),
                           args=[Node('num', float(n))])
                b.response = b.id
                e.bodies.append(b)
                out.append((kind, n, e, None, E.write(e, r, gen.SEALED)))

        return out

    steps = plan()

    def fn():
        me.client = t

        for kind, g, e, reqs, data in steps:
            rep = gwlib.wsgi(env.app, data, extra={'x.client': t})

            if rep.code != 200 or rep.problems:
                return '%s: %s %r %r' % (kind, rep.status, rep.body[:300],
                                         rep.problems)

            if kind == 'batch':
                log = [x for x in list(env.w.log) if x[0] in g.tokens]
                got = M.judge(ck, e, reqs, rep.body, log,
                              M.describe(e, reqs))

                if got is None:
                    return 'batch'

                for q, b in zip(reqs, got.bodies):
                    if q.part.target in (None, u'', u'null') and \
                            b.value.kind == 'obj' and \
                            u'messageId' in b.value.val:
                        ids.extend(M.ids_of(b))

                ck.count('gateway-batches')
            else:
                got = E.read(rep.body).bodies[0]
                v = got.value

                if kind == 'whoami':
                    ok = got.status == E.RESULT and \
                        [x.val for x in v.val] == [t, g]
                elif kind == 'bad':
                    ok = got.status == E.STATUS and \
                        v.val[u'code'].val == u'AuthenticationError'

                    if (g, 'guarded', ('L',)) in list(env.w.log):
                        return 'executed without credentials'
                else:
                    ok = got.status == E.RESULT and v.val == g

                if not ok:
                    return '%s %r: %r' % (kind, g, v)

                ck.count('gateway-' + kind)

    return fn


def gateway(r, i):
    env = Env()
    ids = []

    if r.random() < 0.4:
        nt = r.choice([2, 3])
        s = sched.Sched(r, r.choice([0.003, 0.01, 0.05]), limit=20000)
        got = s.run([client(env, r, t, 1, ids) for t in range(nt)])
        ck.count('switches', s.switches)
        ck.count('gateway-scheduled')
        sig = s.signature()
    else:
        nt = 8
        got = sched.free([client(env, r, t, 4, ids) for t in range(nt)])
        sig = i

    for t, g in enumerate(got):
        if g != (True, None):
            ck.violate('gateway', 'client %d: %s' % (t, g))
            return

    ck.check(len(ids) == len(set(ids)), 'ids-shared', repr(ids))

    for a, n in env.seen:
        ck.check(a == n, 'preprocessor-mixed', repr((a, n)))

    ck.seen(('gateway', sig, i))


def main(ck):
    ck.run('first-use', 2500, 40000, first_use, 0.6)
    ck.run('first-xml', 150, 3000, first_xml, 0.06)
    ck.run('gateway', 300, 6000, gateway, 0.16)
    ck.run('stress', 60, 1500, stress, 0.14)
    ck.require('switches', 1000)
    ck.require('operations', 150)
    ck.require('first-xml', 20)
    ck.require('gateway-batches', 40)
    ck.require('gateway-scheduled', 3)
    ck.require('stress-runs', 2)


vlib.main(ck, main)
