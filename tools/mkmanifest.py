#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per harness/cNN_*.py, the rest of the
properties as not applicable. Techniques and notes are listed here."""
import glob, json, os, re
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
T = {
 'C01': ('round-trip monitor: graph isomorphism oracle over seeded random value graphs', ''),
 'C02': ('round-trip monitor: graph isomorphism oracle over seeded random value graphs', ''),
 'C03': ('online trace checking of encoder output by an independent format reader, and of the decoder on output of an independent writer', ''),
 'C04': ('online trace checking of encoder output by an independent format reader, and of the decoder on output of an independent writer', ''),
 'C05': ('lock-step model monitor over random operation sequences on the real stream', ''),
 'C06': ('fuzzing with a work-counting monitor, error-class oracle and canary re-decoding', ''),
 'C07': ('differential monitor: incremental against whole decoding over cut positions', ''),
 'C08': ('history-independence monitor: replaying canary operations in perturbed processes', ''),
 'C09': ('policy oracle monitoring encoded attributes over generated class hierarchies', ''),
 'C10': ('policy oracle monitoring attribute assignment over generated class hierarchies', ''),
 'C11': ('lock-step model monitor over random registry histories', ''),
 'C12': ('differential monitor against documented plain equivalents, handler-call log', ''),
 'C13': ('instantiation log and error oracle over unknown class names in every nesting', ''),
 'C14': ('file and network access monitor and refusal oracle over hostile XML documents', ''),
 'C15': ('instant oracle over boundary and random dates in every layer', ''),
 'C16': ('lock-step model monitor and raw-bytes oracle over random typed reads and writes', ''),
 'C17': ('lock-step list model, wrapper oracle on the wire by an independent reader', ''),
 'C18': ('field equality oracle over random field subsets, plain and small encoding', ''),
 'C19': ('round-trip oracle and independent envelope reader over random envelopes', ''),
 'C20': ('exactly-once call log and per-request response oracle under injected faults', ''),
 'C21': ('call log against an authorisation oracle over random gateways and requests', ''),
 'C22': ('taint monitor: searching responses for planted traceback, path and source markers', ''),
 'C23': ('WSGI protocol monitor around the real application under hostile requests', ''),
 'C24': ('differential monitor of the Django view against the WSGI gateway', ''),
 'C25': ('correlation monitor on a scripted transport that reorders and damages responses', ''),
 'C26': ('round-trip oracle, independent header reader, open-file monitor', ''),
 'C27': ('concurrency stress on real threads with injected delays against a sequential oracle', ''),
 'C28': ('hook-call log over generated package trees and import orders', ''),
 'C29': ('processor-call log against an exactly-once, in-order oracle', ''),
 'C33': ('member and query-log oracle over random model instances in a real database, independent reader and writer', 'Uses SQLite through the JDBC driver of an installed tool.'),
 'C30': ('correlation-id and reply-kind oracle over random remote-object batches', ''),
}
NOTE = ('Explores seeded random executions of the real code under Jython 2.7; '
        'a pass says that no violation occurred in the executions counted in '
        'the evidence file. Trusts the harness models in /verif/harness and '
        'the JVM.')
NA = {
 'C31': 'The C extension needs Cython and CPython 2 headers to be compiled; the only Python 2 here is Jython, which cannot load it, so there is no execution to monitor.',
 'C32': 'Neither Twisted nor the App Engine SDK is installed (and cannot be fetched), so these gateways cannot be executed.',
 'C34': 'SQLAlchemy, Elixir and the App Engine SDK are not installed (and cannot be fetched), so no mapped instance can be created to observe.',
}
def main():
    have = {}
    for f in sorted(glob.glob(os.path.join(root, 'harness', 'c[0-9][0-9]_*.py'))):
        have[os.path.basename(f)[:3].upper()] = f
    checks, na = [], []
    for line in open(os.path.join(root, 'properties.jsonl')):
        pid = json.loads(line)['id']
        if pid in have:
            checks.append(dict(property=pid, quick_cmd='./check %s' % pid,
                thorough_cmd='VERIF_TIER=thorough ./check %s' % pid,
                evidence_file='evidence/%s.json' % pid,
                technique='runtime monitoring: ' + T[pid][0], level='exploration',
                level_note=(T[pid][1] + ' ' + NOTE).strip()))
        else:
            na.append(dict(property=pid, reason=NA.get(pid, 'Check not built yet.')))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
             notes='See DESIGN.md. All checks run the code of /repo\'s working tree directly under Jython; nothing is compiled. No hooks are added to /repo.')
    json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')
main()
