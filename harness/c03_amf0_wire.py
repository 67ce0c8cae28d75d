# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C03', 'random value graphs; the AMF0 bytes of the library are read by '
    'an independent reader of the format, and bytes of an independent writer '
    'making random legal choices are decoded by the library; every case is '
    'compared with the graph it denotes; all cases are non-trivial')
vlib.bootstrap()
import gen            # noqa
import refamf         # noqa
import graphcheck     # noqa


def body(ck):
    ck.require('cases:encoder', 200)
    ck.require('cases:decoder', 200)
    ck.run('encoder', 5000, 150000,
           lambda r, i: graphcheck.wire_out(ck, r, 0, True), 0.48)
    ck.run('decoder', 5000, 150000,
           lambda r, i: graphcheck.wire_in(ck, r, 0, True), 0.48)


vlib.main(ck, body)
