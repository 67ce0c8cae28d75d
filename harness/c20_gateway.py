# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C20', 'random batches of plain calls and remote-object messages (valid, '
    'failing with all kinds of exceptions, unknown, private, malformed) '
    'through the WSGI and Django gateways, alone and in histories on one '
    'gateway; the services log every execution, responses are read '
    'independently; every case is non-trivial')
vlib.bootstrap()
import gen            # noqa
import gwlib          # noqa
import gwmodel as M   # noqa
import envelope as E  # noqa
from gen import pyamf   # noqa


def gateways(r, w, django=False):
    kw = dict(debug=r.random() < 0.3, strict=r.random() < 0.3,
              logger=M.logger(r))

    if r.random() < 0.2:
        kw['authenticator'] = lambda u, p: True
    if r.random() < 0.2:
        kw['preprocessor'] = lambda *a: 'ignored'

    services = w.services()

    if django and r.random() < 0.3:
        dj = gwlib.django_module()
        app = dj.DjangoGateway(services, expose_request=False, **kw)
        ck.count('django')
        return lambda data: gwlib.django(app, data)

    if r.random() < 0.5:
        app = gwlib.WSGIGateway(services, **kw)
    else:
        app = gwlib.WSGIGateway(**kw)

        for k in sorted(services):
            app.addService(services[k], k)

    return lambda data: gwlib.wsgi(app, data)


def batches(r, i):
    """A history of batches on one gateway."""
    w = M.World()
    send = gateways(r, w, True)
    fails = sorted(M.FAILS) if i % 10 == 0 else None

    for n in range(r.choice([1, 1, 2, 4])):
        g = M.BatchGen(r, big=r.random() < 0.1, fails=fails)
        e, reqs = g.batch()

        for t in g.tokens:
            w.amf[t] = 3

        if e.version != 3:
            for q in reqs:
                if q.kind == 'amf0':
                    w.amf[q.mid] = 0

        data = g.write(e)
        del w.log[:]
        rep = send(data)
        what = M.describe(e, reqs) + '\n%r' % data[:600]

        if rep.code != 200:
            ck.violate('not-processed', '%s %r\n%s' % (
                rep.status, rep.body[:600], what))
            return

        ck.check(not rep.problems, 'protocol', '%r %s' % (rep.problems, what))
        got = M.judge(ck, e, reqs, rep.body, list(w.log), what)

        if got is None:
            return

        ck.count('batches')
        ck.count('requests', len(reqs))

        if len(reqs) > 1:
            ck.count('real-batches')
            bad = [b.status == E.STATUS for b in got.bodies]

            if any(bad) and not all(bad):
                ck.count('mixed-batches')

        for q in reqs:
            if not q.part.target or q.part.target == u'null':
                continue

            if 'fail' in q.part.target and q.calls:
                ck.count('fail:' + str(q.part.args[1].val))

        ck.seen(data, sample=what[:300])


class Bad(object):
    pass


def probes(ck):
    def send(result=None, fail=None, ro=False):
        def bad():
            if fail:
                raise fail
            return result

        def good():
            return 1

        app = gwlib.WSGIGateway({'bad': bad, 'good': good})
        g = M.BatchGen(ck.rng('probe'), version=3)
        e = E.Env(3)

        for k, t in enumerate(['bad', 'good']):
            if ro:
                n = g.message('RemotingMessage', operation=M.s(unicode(t)),
                              body=M.Node('list', []))
                b = E.Part(id=u'/%d' % k, target=u'null', args=[n])
            else:
                b = E.Part(id=u'/%d' % k, target=unicode(t), args=[])

            b.response = b.id
            e.bodies.append(b)

        return gwlib.wsgi(app, g.write(e)).code

    def unencodable():
        return any([send(x, ro=ro) != 200 for ro in (False, True)
                    for x in (lambda: 1, iter([]), type)])

    ck.probe('unencodable-result', unencodable)
    e = M.Boom('x')
    e.cause = lambda: 1
    ck.probe('unencodable-root-cause', lambda: send(fail=e, ro=True) != 200)


def main(ck):
    probes(ck)
    ck.run('batches', 4000, 200000, batches, 1.0)
    ck.require('batches', 200)
    ck.require('mixed-batches', 60)
    ck.require('answer:amf0', 150)
    ck.require('answer:amf0:fault', 150)
    ck.require('answer:ro', 100)
    ck.require('answer:ro:fault', 100)
    ck.require('django', 30)


vlib.main(ck, main)
