# -*- coding: utf-8 -*-
"""
Remoting envelopes, read and written from the published format without the
code under test. Every header and every body has its own references.
"""

import struct

import refamf
from refamf import Malformed

RESULT, STATUS, DEBUG = u'/onResult', u'/onStatus', u'/onDebugEvents'
KINDS = (RESULT, STATUS, DEBUG)


class Part(object):
    """
    A header: name, required, value.
    A body: target, response, args (list of nodes, requests) or value.
    """

    def __init__(self, **kw):
        self.name = self.target = self.response = self.value = None
        self.required = False
        self.args = None
        self.status = None     # response kinds
        self.id = None
        self.length = self.actual = 0
        self.args_amf3 = False
        self.kinds = set()
        self.__dict__.update(kw)


class Env(object):
    def __init__(self, version=0):
        self.version = version
        self.headers = []
        self.bodies = []


def read(data, ext=None):
    rd = refamf.Reader(data)
    e = Env(rd.u16())

    def text16():
        return rd.text(rd.u16())

    for _ in xrange(rd.u16()):
        h = Part(name=text16())
        h.required = rd.u8() != 0
        h.length = rd.u32()
        pos = rd.pos
        v = refamf.Amf0Reader(rd, ext or refamf.EXT)
        h.value = v.value()
        h.kinds = v.kinds
        h.parts = v.parts
        h.actual = rd.pos - pos
        e.headers.append(h)

    for _ in xrange(rd.u16()):
        b = Part(target=text16(), response=text16())
        b.length = rd.u32()
        pos = rd.pos
        v = refamf.Amf0Reader(rd, ext or refamf.EXT)

        for k in KINDS:
            if b.target.endswith(k):
                b.status = k
                b.id = b.target[:-len(k)]
                break

        if b.status:
            b.value = v.value()
        elif rd.data[pos:pos + 1] == '\x0a':
            # the array of arguments takes no reference number
            rd.pos += 1
            b.args = [v.value() for _ in xrange(rd.u32())]
            b.id = b.response
        elif rd.data[pos:pos + 1] == '\x11':
            n = v.value()

            if n.kind != 'list':
                raise Malformed('arguments are %s' % n.kind)

            b.args = n.val
            b.args_amf3 = True
            b.id = b.response
        else:
            raise Malformed('body of a request is no array')

        b.kinds = v.kinds
        b.parts = v.parts
        b.actual = rd.pos - pos
        e.bodies.append(b)

    if not rd.done():
        raise Malformed('%d bytes after the envelope' % (
            len(data) - rd.pos))

    return e


def utf(u):
    b = u.encode('utf-8') if isinstance(u, unicode) else u
    return struct.pack('>H', len(b)) + b


def write(e, rng, sealed=None, choices=True, lengths='right'):
    """
    ``lengths``: right, zero, unknown (0xffffffff). Values of version 3
    envelopes go through the AMF3 marker where their ``amf3`` flag says so.
    """
    out = [struct.pack('>HH', e.version, len(e.headers))]

    def sized(s):
        n = {'right': len(s), 'zero': 0, 'unknown': 0xffffffff}[lengths]
        return struct.pack('>I', n) + s

    for h in e.headers:
        out.append(utf(h.name) + ('\x01' if h.required else '\x00') +
                   sized(refamf.write_amf0([h.value], rng, sealed, choices)))

    out.append(struct.pack('>H', len(e.bodies)))

    for b in e.bodies:
        w = refamf.Amf0Writer(rng, sealed, choices)

        if b.args is None:
            w.value(b.value)
        elif b.args_amf3:
            n = refamf.Node('list', b.args)
            n.amf3 = True
            w.value(n)
        else:
            w.w('\x0a' + struct.pack('>I', len(b.args)))

            for a in b.args:
                w.value(a)

        target = b.target

        if b.status:
            target = b.id + b.status

        out.append(utf(target) + utf(b.response if b.response is not None
                                     else u'null') + sized(w.getvalue()))

    return ''.join(out)
