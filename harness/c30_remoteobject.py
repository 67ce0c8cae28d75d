# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C30', 'batches of remote-object messages of all kinds (with all kinds of '
    'headers, ids and bodies, valid and malformed) through the WSGI and '
    'Django gateways, with all ids of a history of batches collected, and '
    'remote-object calls compared with plain calls of the same dotted target; '
    'every case is non-trivial')
vlib.bootstrap()
import gen            # noqa
import refamf         # noqa
import gwlib          # noqa
import gwmodel as M   # noqa
import envelope as E  # noqa
from gen import pyamf, Node   # noqa

FRESH = set()


class Hooked(gwlib.WSGIGateway):
    """Is told of the failures."""

    def onServiceError(self, request, fault):
        self.told.append((request, fault))


def gateway(r, w, told=None):
    kw = dict(debug=r.random() < 0.3, strict=r.random() < 0.3,
              logger=M.logger(r))

    if r.random() < 0.25:
        app = gwlib.django_module().DjangoGateway(
            w.services(), expose_request=False, **kw)
        ck.count('django')
        return lambda data: gwlib.django(app, data)

    if told is not None and r.random() < 0.4:
        app = Hooked(w.services(), **kw)
        app.told = told
        told.append('hooked')
        ck.count('hooked')
        return lambda data: gwlib.wsgi(app, data)

    app = gwlib.WSGIGateway(w.services(), **kw)
    return lambda data: gwlib.wsgi(app, data)


def plain(node):
    if node.kind == 'list':
        return [plain(x) for x in node.val]

    return node.val if node.kind != 'null' else None


def replies(r, i):
    w = M.World()
    told = []
    send = gateway(r, w, told)
    hooked = bool(told)
    assigned = set()

    for _ in range(r.choice([1, 2, 4])):
        g = M.BatchGen(r, ro=r.choice([1, 1, 0.7]))
        e, reqs = g.batch()

        for q in reqs:
            if q.kind == 'amf0' and e.version != 3:
                w.amf[q.mid] = 0

        data = g.write(e)
        del w.log[:], told[:]
        rep = send(data)
        what = M.describe(e, reqs)

        if rep.code != 200:
            ck.violate('not-processed', '%s %s' % (rep.body[:600], what))
            return

        got = M.judge(ck, e, reqs, rep.body, list(w.log), what)

        if got is None:
            return

        if hooked:
            # the hook sees each failing message once, with its reply
            saw = [(getattr(x, 'messageId', None), f.messageId)
                   for x, f in told]
            sent = [(plain(b.value.val[u'correlationId']),
                     M.text(b.value.val[u'messageId']))
                    for q, b in zip(reqs, got.bodies)
                    if q.kind == 'ro' and b.status == E.STATUS]

            if saw != sent:
                ck.violate('failures-told', '%r for %r %s' % (
                    saw, sent, what))
                return

            ck.count('failures-told', len(sent))

        for q, b in zip(reqs, got.bodies):
            if q.kind != 'ro':
                continue

            for x in M.ids_of(b):
                if x in FRESH:
                    ck.violate('id-reused', '%r %s' % (x, what))
                    return

                FRESH.add(x)

            n = q.part.args[0] if q.part.args else None
            known = n.by if n is not None and n.kind == 'obj' and \
                n.alias.startswith(M.FLEX) else None
            dsid = M.text(b.value.val[u'headers'].val[u'DSId'])

            if not known:
                if dsid in assigned:
                    ck.violate('connection-id-reused', what)
                    return

                assigned.add(dsid)
                ck.count('connection-ids-assigned')
            else:
                ck.count('connection-ids-echoed')

            t = b.value.val.get(u'timestamp')
            ck.check(t is not None and t.kind in ('int', 'num') and
                     t.val > 10 ** 9, 'timestamp', what)
            ck.count('kind:' + (n.alias.rsplit(u'.', 1)[-1]
                                if n is not None and n.kind == 'obj'
                                else 'other'))

        ck.seen(data, sample=what[:300])


def outcome(part):
    """(kind, canonical value) of a plain answer or a remote-object one"""
    v = part.value

    if part.status == E.RESULT:
        if v.kind == 'obj' and v.alias.startswith(M.FLEX):
            v = v.val[u'body']

        return 'result', refamf.canon_node(v, 3, True)
    if v.alias.startswith(M.FLEX):
        return 'fault', M.text(v.val[u'faultCode']), M.text(
            v.val[u'faultString'])

    return 'fault', M.text(v.val[u'code']), M.text(v.val[u'description'])


NAMES = [u'svc.echo', u'cls.echo', u'pkg.deep.svc.echo', u'echo', u'bound',
         u'callable', u'mod.echo', u'svc', u'svc._private', u'svc.secret',
         u'svc.__class__', u'pkg.deep.echo', u'pkg', u'svc.echo.x', u'a.b.c.d',
         u'svc.', u'.svc', u'old.first', u'oldcls.nothing', u'svc.shared',
         u'\xe9.a', u'Svc.echo', u'svc.svc.echo', u'echo.echo',
         u'pkg.deep.svc.svc.echo', u'pkg.pkg.deep.svc.echo',
         u'svc.echo.echo', u'cls.svc.echo']


def equivalence(r, i):
    """destination + operation against the dotted target"""
    w = M.World()
    send = gateway(r, w)
    target = r.choice(NAMES)
    token = r.randint(0, 99)
    g = M.BatchGen(r, version=3)
    args = [M.i(token)] + [g.graph(3).node(0, True)
                           for _ in range(r.choice([0, 1, 1, 2]))]
    e = E.Env(3)
    b = E.Part(id=u'/1', target=target, args=args)
    b.response = u'/1'
    e.bodies = [b]

    for a in args:
        a.amf3 = True

    cuts = [k for k, c in enumerate(target) if c == u'.' and k]
    cut = r.choice(cuts) if cuts and r.random() < 0.8 else None
    dest, op = (None, target) if cut is None else (
        target[:cut], target[cut + 1:])
    n = g.message('RemotingMessage', operation=M.s(op),
                  destination=Node('null') if dest is None else M.s(dest),
                  body=Node('list', args))
    e2 = E.Env(3)
    b2 = E.Part(id=u'/1', target=u'null', args=[n])
    b2.response = u'/1'
    e2.bodies = [b2]
    rep = send(g.write(e))
    log1 = list(w.log)
    del w.log[:]
    rep2 = send(g.write(e2))
    log2 = list(w.log)
    what = '%r as %r, %r with %r' % (target, dest, op, args)

    if rep.code != 200 or rep2.code != 200:
        ck.violate('not-processed', '%r %r %s' % (
            rep.body[:300], rep2.body[:300], what))
        return

    ck.check(log1 == log2, 'selects-another', '%r and %r for %s' % (
        log1, log2, what))
    x, y = [outcome(E.read(q.body).bodies[0]) for q in (rep, rep2)]
    ck.check(x == y, 'answers-differ', '%r and %r for %s' % (x, y, what))
    ck.count('equivalent:' + x[0])
    ck.seen((target, dest, op, x), sample=what[:200])


def main(ck):
    ck.run('replies', 3000, 200000, replies, 0.7)
    ck.run('equivalence', 2000, 50000, equivalence, 0.3)
    ck.require('answer:ro', 200)
    ck.require('answer:ro:fault', 200)
    ck.require('connection-ids-assigned', 100)
    ck.require('connection-ids-echoed', 50)
    ck.require('django', 20)
    ck.require('hooked', 20)
    ck.require('failures-told', 50)
    ck.require('equivalent:result', 50)
    ck.require('equivalent:fault', 50)

    for k in ('RemotingMessage', 'CommandMessage', 'AsyncMessage', 'other'):
        ck.require('kind:' + k, 20)


vlib.main(ck, main)
