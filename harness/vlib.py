# -*- coding: utf-8 -*-
"""
Common machinery of the checks: bootstrap of the code under test, seeded case
generation, verdicts, known findings, replay files and evidence.

Everything here is Python 2.7 (Jython), like the code under test.
"""

import sys
sys.dont_write_bytecode = True

import os
import time
import json
import re
import zlib
import types
import random
import threading
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
WORK = os.environ.get('VERIF_WORK', '/tmp')


class Inconclusive(Exception):
    pass


class _VersionModule(object):
    """Stands in for pyamf/_version.py, which the build generates."""

    def find_module(self, name, path=None):
        if name == 'pyamf._version':
            return self

    def load_module(self, name):
        if name in sys.modules:
            return sys.modules[name]

        m = types.ModuleType(name)
        m.__file__ = '<generated>'
        sys.modules[name] = m
        src = open(os.path.join(REPO, 'setup.py')).read()
        found = re.search(r'^version\s*=\s*(\(.*?\))', src, re.M | re.S)
        from pyamf.versions import Version
        m.version = Version(*eval(found.group(1) if found else '(0, 8, 0)'))

        return m


def bootstrap():
    """Makes ``import pyamf`` work from /repo's working tree, built or not."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)

    if not os.path.exists(os.path.join(REPO, 'pyamf', '_version.py')):
        # generated by "setup.py build"; holds nothing but the version tuple
        sys.meta_path.insert(0, _VersionModule())

    import pyamf
    p = os.path.abspath(pyamf.__file__)

    if not p.startswith(os.path.abspath(REPO) + os.sep):
        raise Inconclusive('pyamf imported from %s' % p)

    return pyamf


def crc(*parts):
    return zlib.crc32('|'.join([
        p.encode('utf-8') if isinstance(p, unicode) else str(p)
        for p in parts])) & 0x7fffffff


class Budget(object):
    """Logical size of a run: case counts per tier, with a wall-clock cap
    that only ever cuts the workload short (never a verdict)."""

    def __init__(self, quick, thorough):
        self.limit = thorough if THOROUGH else quick
        self.start = time.time()

    def left(self):
        return self.limit - (time.time() - self.start)

    def over(self):
        # later sections get their share as well
        return self.left() < -self.limit / 5.0


class Check(object):
    """
    One run of one check.

    ``run(section, n, fn)`` calls ``fn(rng, i)`` for case numbers 0..n-1 with
    a generator that depends on (seed, section, i) only; a violation found in
    a case is replayed by running that case alone.
    """

    level = 'exploration'

    def __init__(self, pid, rule, quick_s=55, thorough_s=780,
                 assumptions=None, hang_s=150):
        self.pid = pid
        self.rule = rule
        self.start = time.time()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.required = {}
        self.violations = {}
        self.known_hit = {}
        self.assumptions = assumptions or []
        self.budget = Budget(quick_s, thorough_s)
        self.current = None
        self.case_started = None
        self.hang_s = hang_s
        self.lock = threading.RLock()
        self.findings = load_findings(pid)
        self.sections = []
        self.replay = None

        if '--replay' in sys.argv:
            self.replay = json.load(
                open(sys.argv[sys.argv.index('--replay') + 1]))

        t = threading.Thread(target=self._watch)
        t.setDaemon(True)
        t.start()

    # -- workload

    def rng(self, *parts):
        return random.Random(crc(self.pid, SEED, *parts))

    def run(self, section, quick, thorough, fn, share=None):
        """Runs up to ``quick``/``thorough`` cases; stops early when the
        section's share of the time budget is used up."""
        if self.replay is not None:
            if self.replay.get('section') != section:
                return
            seed = self.replay['seed']
            self._one(section, self.replay['case'], fn, seed)
            return

        n = thorough if THOROUGH else quick
        t0 = time.time()

        if not self.sections:
            # loading is not counted
            self.budget.start = t0

        cap = self.budget.limit * (share or 0.34)
        done = 0

        for i in xrange(n):
            if i and (time.time() - t0 > cap or self.budget.over()):
                break

            self._one(section, i, fn, SEED)
            done += 1

        self.count('cases:' + section, done)
        self.sections.append([section, done, n, fn])

    def missing(self):
        return ['%s: %d < %d' % (name, self.counters.get(name, 0), least)
                for name, least in sorted(self.required.items())
                if self.counters.get(name, 0) < least]

    caught_up = []

    def catch_up(self, limit=480):
        """On a slow or busy machine the time caps may leave too little
        observed: the sections go on until there is enough."""
        if self.replay is None and self.missing():
            self.count('catching-up')
            self.caught_up = self.missing()

        while self.replay is None and not self.violations and \
                self.missing() and time.time() - self.start < limit:
            more = False

            for sec in self.sections:
                section, done, n, fn = sec
                t0 = time.time()

                while sec[1] < n and time.time() - t0 < 8:
                    self._one(section, sec[1], fn, SEED)
                    sec[1] += 1
                    more = True

                self.count('cases:' + section, sec[1] - done)

            if not more:
                break

    def _one(self, section, i, fn, seed):
        r = random.Random(crc(self.pid, seed, section, i))
        self.current = dict(section=section, case=i, seed=seed)
        self.case_started = time.time()

        try:
            fn(r, i)
        except Inconclusive:
            raise
        except (KeyboardInterrupt, SystemExit):
            raise
        except Exception:
            self.violate(
                'unexpected-exception:' + section + ':' +
                sys.exc_info()[0].__name__,
                'case raised where the property allows no exception:\n' +
                traceback.format_exc())
        except:   # noqa (a Java exception)
            self.violate(
                'unexpected-exception:' + section + ':' +
                getattr(sys.exc_info()[0], '__name__', 'java'),
                'case raised where the property allows no exception:\n' +
                traceback.format_exc())
        finally:
            self.case_started = None

    def _watch(self):
        """A case that never ends: generous watchdog, see DESIGN.md."""
        while True:
            time.sleep(2)
            s = self.case_started

            if s is not None and time.time() - s > self.hang_s:
                cur = dict(self.current)
                stacks = []

                for tid, frame in sys._current_frames().items():
                    stacks.append(
                        ''.join(traceback.format_stack(frame)[-6:]))

                self.violate(
                    'no-termination:' + cur['section'],
                    'a case that takes milliseconds did not finish within '
                    '%d s\n%s' % (self.hang_s, '\n---\n'.join(stacks)))
                self.finish()

    # -- observations

    def seen(self, sig, sample=None, nontrivial=True):
        """One evaluation of the oracle on an execution."""
        with self.lock:
            self.evals += 1

            if nontrivial:
                if not isinstance(sig, int):
                    sig = hash(sig)

                self.distinct.add(sig)

            if sample is not None and len(self.samples) < 8 and \
                    (self.evals in (1, 2, 3) or self.evals % 97 == 0):
                self.samples.append(sample)

    def count(self, name, n=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + n

    def require(self, name, at_least):
        """The verdict "held" needs this many observations of ``name``."""
        self.required[name] = at_least

    # -- verdicts

    def violate(self, key, detail, **data):
        """Records a violation, identified by its mechanism ``key``."""
        if isinstance(detail, unicode):
            detail = detail.encode('utf-8')

        with self.lock:
            if key in self.findings:
                self.known_hit[key] = self.findings[key]
                return

            if key not in self.violations:
                self.violations[key] = dict(
                    key=key, detail=detail, data=data, count=1,
                    at=dict(self.current or {}))
            else:
                self.violations[key]['count'] += 1

    def check(self, cond, key, detail, **data):
        if not cond:
            self.violate(key, detail() if callable(detail) else detail, **data)

        return cond

    def probe(self, key, fn):
        """Runs the witness of a listed known finding: ``fn`` returns true
        while the defect is present."""
        if self.replay is not None:
            return

        if key not in self.findings:
            # not listed: a defect here is a violation like any other
            self.current = dict(section='probe:' + key, case=0, seed=SEED)

            if fn():
                self.violate(key, 'unlisted defect: ' + key)

            return

        if fn():
            self.known_hit[key] = self.findings[key]

    def finish(self):
        with self.lock:
            self._finish()

    def _finish(self):
        wall = time.time() - self.start
        out = []
        code = 0

        for key in sorted(self.known_hit):
            print 'KNOWN-FINDING: property=%s %s: %s' % (
                self.pid, key, self.known_hit[key])

        rdir = os.path.join(VERIF, 'evidence', 'replays')
        vio = []

        if self.violations:
            code = 1

            if not os.path.isdir(rdir):
                os.makedirs(rdir)

            for n, key in enumerate(sorted(self.violations)):
                v = self.violations[key]
                path = os.path.join(rdir, '%s-%d.json' % (self.pid, n))
                rec = dict(
                    property=self.pid, key=key, seed=v['at'].get('seed', SEED),
                    tier=TIER, section=v['at'].get('section'),
                    case=v['at'].get('case'), count=v['count'],
                    detail=_text(v['detail']), data=_jsonable(v['data']),
                    command='cd /verif && VERIF_TIER=%s ./check %s --replay '
                            '%s' % (TIER, self.pid, path))

                with open(path, 'w') as f:
                    json.dump(rec, f, indent=1)

                vio.append(dict(key=key, replay=path, count=v['count'],
                                detail=_text(v['detail'])[:2000]))

                if n < 12:
                    print '--- violation %s (x%d)\n%s' % (
                        key, v['count'], v['detail'][:3000])
                    print 'VIOLATION property=%s replay=%s' % (self.pid, path)

        missing = []

        if self.replay is None and not code:
            missing.extend(self.missing())

            if self.evals == 0:
                missing.append('no oracle evaluation')

        ev = dict(
            property=self.pid, tier=TIER, seed=SEED, level=self.level,
            coverage=dict(
                evaluations=self.evals,
                distinct_nontrivial=len(self.distinct),
                rule=self.rule,
                samples=[_jsonable(s) for s in self.samples] or ['none'],
                observed=self.counters),
            wall_s=round(wall, 2), caught_up=self.caught_up,
            violations=len(vio),
            violation_details=vio,
            known_findings=sorted(self.known_hit),
            assumptions=self.assumptions)

        if missing:
            ev['inconclusive'] = missing

        if self.replay is None:
            edir = os.path.join(VERIF, 'evidence')

            if not os.path.isdir(edir):
                os.makedirs(edir)

            tmp = os.path.join(edir, '.%s.tmp' % self.pid)

            with open(tmp, 'w') as f:
                json.dump(ev, f, indent=1, sort_keys=True)

            os.rename(tmp, os.path.join(edir, self.pid + '.json'))

        if missing:
            print 'INCONCLUSIVE property=%s %s' % (self.pid, missing)
            code = 2
        elif not code:
            print 'HELD property=%s evaluations=%d distinct=%d wall=%.1fs' % (
                self.pid, self.evals, len(self.distinct), wall)

        sys.stdout.flush()
        sys.stderr.flush()
        # no atexit handlers, no waiting for daemon threads
        from java.lang import Runtime
        Runtime.getRuntime().halt(code)


def _text(s):
    if isinstance(s, unicode):
        return s

    return s.decode('utf-8', 'replace')


def _jsonable(x):
    if isinstance(x, dict):
        return dict((_text(str(k)), _jsonable(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    if isinstance(x, str):
        return x.decode('latin-1')
    if isinstance(x, (unicode, int, long, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if x == x and x not in (1e999, -1e999) else repr(x)

    return _text(repr(x))


def load_findings(pid):
    """known findings: ``finding: property=C01 key=<key> <what fails>``"""
    out = {}
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')

    if not os.path.exists(path):
        return out

    for line in open(path):
        line = line.strip()

        if not line.startswith('finding:'):
            continue

        parts = line[len('finding:'):].strip().split(None, 2)

        if parts[0] == 'property=' + pid and parts[1].startswith('key='):
            out[parts[1][4:]] = parts[2] if len(parts) > 2 else ''

    return out


def main(check, fn):
    """Runs a check body; an error of the harness itself exits with 3."""
    try:
        fn(check)
        check.catch_up()
    except (Inconclusive, Exception):
        traceback.print_exc()
        sys.stdout.flush()

        if check.violations:
            check.finish()

        from java.lang import Runtime
        Runtime.getRuntime().halt(3)

    check.finish()
