# -*- coding: utf-8 -*-
"""
A cooperative scheduler for real threads: one of them runs at a time, and
before every statement of the code under test the turn may pass to another
one, as a seeded generator decides. A thread that holds the turn but does not
get on (it waits for a lock) loses it.

The statements are announced by calls that are added to the syntax trees of
the modules when they are imported. (Trace functions cannot wait: Jython
calls them under a global lock.)
"""

import __builtin__
import ast
import imp
import operator
import os
import sys
import threading
import traceback

from java.util.concurrent import CountDownLatch, TimeUnit
from java.util.concurrent.locks import ReentrantLock


class Sched(object):
    def __init__(self, r, prob, match=None, stall=0.02, limit=60000,
                 span=None):
        self.r = r
        self.prob = prob
        self.at = ()

        if span:
            # a few switches anywhere in a run of about so many steps
            self.prob = 0
            self.at = frozenset([r.randint(1, max(span, 1))
                                 for _ in range(r.choice([1, 1, 2, 3]))])

        self.match = match
        self.stall = stall
        self.limit = limit
        # the condition of the threading module polls
        self.lock = ReentrantLock()
        self.cond = self.lock.newCondition()
        self.current = None
        self.alive = set()
        self.blocked = set()
        self.progress = 0
        self.steps = 0
        self.switches = 0
        self.steals = 0
        self.trace = []

    # -- in the threads

    def point(self, me, where):
        self.lock.lock()

        try:
            self.progress += 1
            self.steps += 1
            self.blocked.discard(me)

            if self.current == me and self.steps < self.limit and \
                    (self.steps in self.at or
                     self.prob and self.r.random() < self.prob):
                self.pass_on(me, where)

            self.wait(me)
        finally:
            self.lock.unlock()

    def pass_on(self, me, where):
        others = sorted(self.alive - self.blocked - set([me]))

        if others:
            self.current = self.r.choice(others)
            self.switches += 1

            if where and len(self.trace) < 400:
                self.trace.append((me, where))

            self.cond.signalAll()

    def wait(self, me):
        while self.current != me:
            seen = self.progress
            self.cond.await(
                int(self.stall * 1000), TimeUnit.MILLISECONDS)

            if self.current != me and self.progress == seen:
                # nothing has happened for a while
                self.blocked.add(self.current)
                self.blocked.discard(me)
                self.current = me
                self.progress += 1
                self.steals += 1

    def body(self, me, fn, out):
        self.started.countDown()
        self.started.await(30, TimeUnit.SECONDS)
        self.lock.lock()

        try:
            self.wait(me)
        finally:
            self.lock.unlock()

        try:
            me_now.who = self, me

            try:
                out[me] = (True, fn())
            finally:
                me_now.who = None
        except:   # noqa
            out[me] = (False, traceback.format_exc())
        finally:
            self.lock.lock()
            self.progress += 1
            self.alive.discard(me)

            if self.current == me or self.current not in self.alive:
                if self.alive:
                    free = sorted(self.alive - self.blocked) or \
                        sorted(self.alive)
                    self.current = self.r.choice(free)

                self.cond.signalAll()

            self.lock.unlock()

    def run(self, fns, timeout=120):
        """Results by thread: (True, value) or (False, traceback); None for
        one that did not end."""
        out = [None] * len(fns)
        self.alive = set(range(len(fns)))
        self.current = self.r.choice(sorted(self.alive))
        self.started = CountDownLatch(len(fns))
        ts = []

        for k, fn in enumerate(fns):
            t = threading.Thread(target=self.body, args=(k, fn, out))
            t.setDaemon(True)
            ts.append(t)

        for t in ts:
            t.start()
        for t in ts:
            t.join(timeout)

        return out

    def signature(self):
        return hash(tuple(self.trace))


def free(fns, timeout=120):
    """All at once, as the machine likes it."""
    out = [None] * len(fns)
    gate = threading.Event()

    def body(k, fn):
        gate.wait()

        try:
            out[k] = (True, fn())
        except:   # noqa
            out[k] = (False, traceback.format_exc())

    ts = [threading.Thread(target=body, args=(k, fn))
          for k, fn in enumerate(fns)]

    for t in ts:
        t.setDaemon(True)
        t.start()

    gate.set()

    for t in ts:
        t.join(timeout)

    return out


# -- instrumentation ----------------------------------------------------------

me_now = threading.local()


class Counter(object):
    match = None

    def __init__(self):
        self.steps = 0

    def point(self, me, where):
        self.steps += 1


def count(fn, match=None):
    """(result, number of statements) of a call in this thread"""
    c = Counter()
    c.match = match
    me_now.who = c, 0

    try:
        return fn(), c.steps
    finally:
        me_now.who = None


def _point(where):
    who = getattr(me_now, 'who', None)

    if who:
        sched, me = who

        if sched.match is None or sched.match(where[0]):
            sched.point(me, where)


IOPS = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul,
        'BitOr': operator.ior, 'BitAnd': operator.iand,
        'BitXor': operator.ixor, 'LShift': operator.ilshift,
        'RShift': operator.irshift, 'Mod': operator.imod,
        'Div': operator.idiv, 'FloorDiv': operator.ifloordiv,
        'Pow': operator.ipow}


def _iop(op, a, b):
    return IOPS[op](a, b)


def _unpack(value, n):
    out = tuple(value)

    if len(out) != n:
        raise ValueError('%d values to unpack, not %d' % (len(out), n))

    return out


__builtin__._sched_point = _point
__builtin__._sched_unpack = _unpack
__builtin__._sched_iop = _iop


class Points(ast.NodeTransformer):
    """A call before every statement inside of functions."""

    def __init__(self, name):
        self.name = name
        self.inside = 0

    def call(self, stmt):
        c = ast.Expr(ast.Call(
            ast.Name('_sched_point', ast.Load()),
            [ast.Tuple([ast.Str(self.name), ast.Num(stmt.lineno)],
                       ast.Load())], [], None, None))
        ast.copy_location(c, stmt)

        return ast.fix_missing_locations(c)

    def block(self, body, doc=False):
        out = []

        for n, stmt in enumerate(body):
            is_doc = doc and n == 0 and isinstance(stmt, ast.Expr) and \
                isinstance(stmt.value, ast.Str)

            if self.inside and not is_doc and \
                    not isinstance(stmt, ast.Global):
                out.append(self.call(stmt))

            out.extend(self.split(self.visit(stmt)))

        return out

    def split(self, stmt):
        """Assignments that are several steps for the interpreter."""
        if not self.inside:
            return [stmt]

        def fix(n):
            return ast.fix_missing_locations(ast.copy_location(n, stmt))

        if isinstance(stmt, ast.Assign) and len(stmt.targets) == 1 and \
                isinstance(stmt.targets[0], ast.Tuple) and \
                all([isinstance(t, (ast.Name, ast.Attribute))
                     for t in stmt.targets[0].elts]):
            els = stmt.targets[0].elts
            out = [fix(ast.Assign(
                [ast.Name('_sched_t', ast.Store())],
                ast.Call(ast.Name('_sched_unpack', ast.Load()),
                         [stmt.value, ast.Num(len(els))], [], None, None)))]

            for n, t in enumerate(els):
                out.append(self.call(stmt))
                out.append(fix(ast.Assign([t], ast.Subscript(
                    ast.Name('_sched_t', ast.Load()),
                    ast.Index(ast.Num(n)), ast.Load()))))

            return out

        if isinstance(stmt, ast.AugAssign) and \
                isinstance(stmt.target, ast.Attribute) and \
                isinstance(stmt.target.value, ast.Name):
            t = stmt.target
            load = ast.Attribute(ast.Name(t.value.id, ast.Load()), t.attr,
                                 ast.Load())
            v = '_sched_v'

            return [
                fix(ast.Assign([ast.Name(v, ast.Store())], load)),
                fix(ast.Assign([ast.Name(v, ast.Store())], ast.Call(
                    ast.Name('_sched_iop', ast.Load()),
                    [ast.Str(type(stmt.op).__name__),
                     ast.Name(v, ast.Load()), stmt.value], [], None, None))),
                self.call(stmt),
                fix(ast.Assign([ast.Attribute(
                    ast.Name(t.value.id, ast.Load()), t.attr,
                    ast.Store())], ast.Name(v, ast.Load())))]

        return [stmt]

    def visit_FunctionDef(self, node):
        self.inside += 1
        node.body = self.block(node.body, True)
        self.inside -= 1

        return node

    def visit_ClassDef(self, node):
        old, self.inside = self.inside, 0
        node.body = [self.visit(x) for x in node.body]
        self.inside = old

        return node

    def visit_Lambda(self, node):
        return node

    def generic_visit(self, node):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)

            if isinstance(b, list) and not isinstance(node, ast.Module):
                setattr(node, f, self.block(b))
            elif isinstance(b, list):
                node.body = [self.visit(x) for x in b]

        for h in getattr(node, 'handlers', None) or []:
            h.body = self.block(h.body)

        return node


class Importer(object):
    """Loads the modules of one package with points in their functions."""

    def __init__(self, root, package):
        self.root = os.path.abspath(root)
        self.package = package
        self.loaded = []
        self.code = {}

    def path(self, name):
        base = os.path.join(self.root, *name.split('.'))

        for f, pkg in ((os.path.join(base, '__init__.py'), True),
                       (base + '.py', False)):
            if os.path.isfile(f):
                return f, pkg

    def find_module(self, name, path=None):
        if name.split('.')[0] == self.package and self.path(name):
            return self

    def load_module(self, name):
        f, pkg = self.path(name)

        if name not in self.code:
            tree = Points(name).visit(ast.parse(open(f).read(), f))
            self.code[name] = compile(tree, f, 'exec')

        m = sys.modules.get(name)

        if m is None:
            m = imp.new_module(name)

        m.__file__ = f
        m.__loader__ = self
        m.__package__ = name if pkg else name.rpartition('.')[0]

        if pkg:
            m.__path__ = [os.path.dirname(f)]

        sys.modules[name] = m

        try:
            exec self.code[name] in m.__dict__
        except:   # noqa
            sys.modules.pop(name, None)
            raise

        self.loaded.append(name)

        return m


def instrument(root, package='pyamf'):
    imp_ = Importer(root, package)
    sys.meta_path.insert(0, imp_)

    return imp_
