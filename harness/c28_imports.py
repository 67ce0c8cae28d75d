# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C28', 'random package trees (modules importing each other in all ways, '
    'circularly too, some failing for a while) and histories of hook '
    'registrations, imports, failures, removals and reloads, with the same '
    'history replayed without hooks on a twin tree; the log of module bodies '
    'and hooks is compared with the twin log; a history is non-trivial when '
    'it registers a hook')
vlib.bootstrap()
import os             # noqa
import sys            # noqa
import types          # noqa
import shutil         # noqa
import gen            # noqa
from gen import pyamf   # noqa
from pyamf import adapters         # noqa
from pyamf.util import imports     # noqa

ROOT = os.path.join(vlib.WORK, 'c28')
os.mkdir(ROOT)
sys.path.insert(0, ROOT)


class Odd(Exception):
    pass


ERRORS = {'ImportError': ImportError, 'ValueError': ValueError, 'Odd': Odd,
          'SystemExit': SystemExit, 'AttributeError': AttributeError,
          'KeyboardInterrupt': KeyboardInterrupt}


class Control(types.ModuleType):
    """Imported by the module bodies."""

    def reset(self):
        self.log = []
        self.fail = {}

    def point(self, where, name):
        rel = name.split('.', 1)
        rel = '' if len(rel) < 2 else rel[1]
        self.log.append((where, name[:1], rel))
        key = (where, name)

        if self.fail.get(key):
            kind, left = self.fail[key]

            if left:
                self.fail[key] = kind, left - 1
                self.log[-1] = ('fail-' + where, name[:1], rel)
                raise ERRORS[kind]('planned')

    def note(self, text):
        self.log.append(('note', text))


ctl = Control('c28ctl')
ctl.reset()
sys.modules['c28ctl'] = ctl


class Tree(object):
    """Files of a package, written under two names."""

    def __init__(self, r, roots):
        self.r = r
        names = ['']
        pkgs = ['']

        for k in range(r.randint(2, 7)):
            p = r.choice(pkgs)
            n = (p + '.' if p else '') + r.choice('abcdefg')

            if n in names:
                continue

            names.append(n)

            if r.random() < 0.35:
                pkgs.append(n)

        self.names = names
        self.pkgs = pkgs
        self.bodies = {}

        for n in names:
            self.bodies[n] = [self.statement(n)
                              for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]

        for root in roots:
            self.write(root)

    def statement(self, n):
        r = self.r
        target = r.choice(self.names)
        parts = n.split('.') if n else []
        pkg = parts if n in self.pkgs else parts[:-1]
        c = r.random()
        guard = r.random() < 0.3

        if c < 0.3 or not target:
            s = 'import @@' + ('.' + target if target else '')
        elif c < 0.5:
            t = target.split('.')
            s = 'from @@%s import %s' % (
                ''.join(['.' + x for x in t[:-1]]), t[-1])
        elif c < 0.75:
            # explicitly relative
            up = r.randint(0, len(pkg))
            base = '.'.join(pkg[:len(pkg) - up])
            rest = target

            if base:
                if not (target + '.').startswith(base + '.') or \
                        target == base:
                    return 'import @@.' + target

                rest = target[len(base) + 1:]

            t = rest.split('.')
            s = 'from %s%s import %s' % (
                '.' * (up + 1), '.'.join(t[:-1]), t[-1])
        elif c < 0.9:
            # implicitly relative (or absent)
            s = 'import ' + target.split('.')[-1] + 'zz' * r.randint(0, 1)
            guard = True
        else:
            s = '__import__("@@.%s")' % target

        if guard:
            return 'try:\n    %s\nexcept ImportError:\n    ' \
                'c28ctl.note("caught")' % s

        return s

    def write(self, root):
        for n in self.names:
            parts = n.split('.') if n else []
            d = os.path.join(ROOT, root, *parts)

            if n in self.pkgs:
                if not os.path.isdir(d):
                    os.makedirs(d)

                f = os.path.join(d, '__init__.py')
            else:
                if not os.path.isdir(os.path.dirname(d)):
                    os.makedirs(os.path.dirname(d))

                f = d + '.py'

            with open(f, 'w') as h:
                h.write('import c28ctl\nc28ctl.point("begin", __name__)\n')
                h.write('\n'.join(self.bodies[n]).replace('@@', root))
                h.write('\nvalue = %r\nc28ctl.point("end", __name__)\n' % n)


def state(root):
    """What importing has left behind."""
    out = []

    for k, m in sys.modules.items():
        if m is None or not (k == root or k.startswith(root + '.')):
            continue

        rel = k[len(root):]
        f = getattr(m, '__file__', '')
        f = f.replace('/' + root, '/R').replace('$py.class', '.py')
        attrs = sorted([a.replace(root, 'R') for a in vars(m) if isinstance(
            getattr(m, a), types.ModuleType) and not a.startswith('__')])
        p = [x.replace('/' + root, '/R') for x in getattr(m, '__path__', [])]
        out.append((rel, getattr(m, '__name__', '')[len(root):],
                    (getattr(m, '__package__', None) or '')[len(root):],
                    f, attrs, p, getattr(m, 'value', None)))

    return sorted(out)


def forget(root):
    for k in list(sys.modules):
        if k == root or k.startswith(root + '.'):
            del sys.modules[k]

    shutil.rmtree(os.path.join(ROOT, root), True)


def do_import(form, root, n):
    name = root + ('.' + n if n else '')

    if form == 'import':
        ns = {}
        exec 'import ' + name in ns
        ctl.log.append(('got', ns[root] is sys.modules.get(root)))
    elif form == 'from' and n:
        a, b = name.rsplit('.', 1)
        ns = {}
        exec 'from %s import %s as x' % (a, b) in ns
        ctl.log.append(('got', ns['x'] is sys.modules.get(name)))
    elif form == 'fromlist':
        m = __import__(name, {}, {}, ['value'])
        ctl.log.append(('got', m is sys.modules.get(name)))
    else:
        m = __import__(name)
        ctl.log.append(('got', m is sys.modules.get(root)))


def run(ops, root, hooked):
    """The log of a history, with the outcome of every step."""
    ctl.reset()

    for op in ops:
        kind = op[0]

        if kind == 'fail':
            ctl.fail[op[1], root + ('.' + op[2] if op[2] else '')] = \
                op[3], op[4]
            continue
        if kind == 'hook':
            if hooked:
                op[-1](root)

            continue

        ctl.log.append(('step', kind, op[1]))

        try:
            if kind == 'import':
                do_import(op[2], root, op[1])
            elif kind == 'forget':
                name = root + ('.' + op[1] if op[1] else '')
                sys.modules.pop(name, None)
            elif kind == 'reload':
                name = root + ('.' + op[1] if op[1] else '')

                if sys.modules.get(name) is not None:
                    reload(sys.modules[name])
        except ImportError, x:
            # Jython words the same failure in different ways
            ctl.log.append(('raised', 'ImportError', None))
        except (SystemExit, KeyboardInterrupt, Exception), x:
            ctl.log.append(('raised', type(x).__name__, str(x).replace(
                root, 'R')))

    return ctl.log


class Spawn(object):
    """Registered by a hook for its own module."""

    def __init__(self, hid):
        self.hid = hid

    def __call__(self, mod):
        ctl.log.append(('spawn', self.hid))


class Hook(object):
    def __init__(self, model, hid, n, action, side):
        self.model = model
        self.hid = hid
        self.n = n
        self.action = action
        self.side = side
        self.calls = 0

    def __call__(self, *args):
        self.calls += 1
        ctl.log.append(('hook', self.hid))

        if len(args) != 1 or args[0] is not sys.modules.get(self.name()):
            ck.violate('hook-argument', '%r for %s' % (args, self.name()))

        if self.action == 'import':
            __import__(self.side)
        elif self.action == 'register':
            # the module is imported by now
            imports.when_imported(self.name(), Spawn(self.hid))

    def name(self):
        root = self.model.root
        return root + ('.' + self.n if self.n else '')


class Model(object):
    """Inserts the hooks into the log of the twin."""

    def __init__(self, r, root):
        self.r = r
        self.root = root
        self.hooks = []
        self.sides = {}

    def plain(self, n, action=None, side=None):
        h = Hook(self, len(self.hooks), n, action, side)
        self.hooks.append(h)

        return h


def case(r, i):
    stem = '%04x%d' % (r.getrandbits(16), i)
    roots = 'h' + stem, 't' + stem
    tree = Tree(r, roots)
    sides = []

    for k in range(2):
        s = 's%s%d' % (stem, k)

        with open(os.path.join(ROOT, s + '.py'), 'w') as f:
            f.write('import c28ctl\nc28ctl.log.append(("side", %d))\n' % k)

        sides.append(s)

    model = Model(r, roots[0])
    targets = tree.names + [n + '.absent' for n in tree.pkgs]
    targets = [t.lstrip('.') for t in targets]
    ops = []
    nhooks = 0

    queue = []
    dense = r.random() < 0.5

    if dense:
        # hooks first, then failures, then imports
        queue = [0.0] * r.randint(2, 6) + [0.45] * r.randint(0, 3)

    for _ in range(r.randint(3, 12) + len(queue)):
        c = queue.pop(0) if queue else r.random()
        n = r.choice(tree.names)

        if c < 0.4:
            n = r.choice(tree.names if dense else targets)
            hs = []

            for _ in range(r.choice([1, 1, 1, 2, 3])):
                action = r.choice([None] * 6 + ['import', 'register'])
                hs.append(model.plain(n, action, r.choice(sides)))

            if r.random() < 0.15:
                # the same function twice
                hs.append(hs[0])

            nhooks += len(hs)
            ops.append(('hook', n, hs, register(hs, n, r)))
        elif c < 0.5:
            ops.append(('fail', r.choice(['begin', 'end']), n,
                        r.choice(sorted(ERRORS)), r.choice([1, 1, 2])))
        elif c < 0.56:
            ops.append(('forget', n))
        elif c < 0.6:
            ops.append(('reload', n))
        else:
            if r.random() < 0.05:
                n = n + '.absent' if n else 'absent'

            ops.append(('import', n, r.choice(
                ['import', 'from', 'fromlist', 'plain'])))

            if r.random() < 0.3:
                # retried
                ops.append(ops[-1])

    what = '%r\n%r' % (ops, sorted(tree.bodies.items()))

    try:
        log = list(run(ops, roots[0], True))
        left = state(roots[0])
        twin = list(run(ops, roots[1], False))
        left2 = state(roots[1])
    finally:
        for k in roots:
            forget(k)
        for s in sides:
            sys.modules.pop(s, None)
            os.remove(os.path.join(ROOT, s + '.py'))

    # without the hooks both are the same
    rest = [e for e in log if e[0] not in ('hook', 'side', 'spawn', 'now', 'later')]
    rest = [(e[0], '', e[2]) if e[0].endswith(('begin', 'end')) else e
            for e in rest]
    want = [(e[0], '', e[2]) if e[0].endswith(('begin', 'end')) else e
            for e in twin]

    if rest != want:
        k = [a == b for a, b in zip(rest, want)] + [False]
        k = k.index(False)
        ck.violate('imports-differ', 'with hooks %r, without %r (in %r)\n%s'
                   % (rest[k:k + 3], want[k:k + 3], log, what))
        return

    if left != left2:
        ck.violate('state-differs', '%r\n%r\n%s' % (
            [x for x in left if x not in left2],
            [x for x in left2 if x not in left], what))
        return

    # each hook once, where it belongs
    pending = {}
    due = []
    seen_sides = set()

    for e in log:
        if due:
            if e != due[0]:
                ck.violate('hook-missing', 'expected %r, not %r in %r\n%s' % (
                    due[0], e, log, what))
                return

            due.pop(0)
            ck.count('hooks-run')

            if e[0] == 'hook':
                due = after(e, model, sides, seen_sides) + due

            continue
        if e[0] == 'later':
            pending.setdefault(e[1], []).extend(e[2])
            ck.count('later')
        elif e[0] == 'now':
            due = [('hook', h) for h in e[2]]
            ck.count('immediate')
        elif e[0] == 'end':
            hs = pending.pop(e[2], [])
            due = [('hook', h) for h in hs]
        elif e[0] in ('hook', 'side', 'spawn'):
            ck.violate('hook-unexpected', '%r in %r\n%s' % (e, log, what))
            return

    if due:
        ck.violate('hook-missing', '%r after %r\n%s' % (due, log, what))
        return

    for e in log:
        if e[0].startswith('fail'):
            ck.count('failures')

    ck.count('registrations', nhooks)
    ck.seen(repr(log), nontrivial=nhooks > 0, sample=repr(log)[:300])


def after(e, model, sides, seen_sides):
    """What the action of a hook adds to the log."""
    h = model.hooks[e[1]]

    if h.action == 'import' and h.side not in seen_sides:
        seen_sides.add(h.side)
        return [('side', sides.index(h.side))]
    if h.action == 'register':
        return [('spawn', h.hid)]

    return []


def register(hs, n, r):
    how = r.choice(['when', 'when', 'adapter'])

    def fn(root):
        name = root + ('.' + n if n else '')
        kind = 'now' if name in sys.modules else 'later'
        ids = [h.hid for h in hs]

        if how == 'when':
            ctl.log.append((kind, n, ids))
            imports.when_imported(name, *hs)
        else:
            for h in hs:
                ctl.log.append((kind, n, [h.hid]))
                adapters.register_adapter(name, h)

    return fn


def failing_hooks(r, i):
    """A hook that raises: the importer sees it, others go on."""
    stem = '%04x%d' % (r.getrandbits(16), i)
    names = ['f%s%s' % (stem, k) for k in 'xy']

    for n in names:
        with open(os.path.join(ROOT, n + '.py'), 'w') as f:
            f.write('value = 1\n')

    log = []
    kind = r.choice(sorted(ERRORS))

    def bad(m):
        log.append('bad')
        raise ERRORS[kind]('from the hook')

    def good(m):
        log.append('good')

    imports.when_imported(names[0], good, bad)
    imports.when_imported(names[1], good)

    try:
        __import__(names[0])
    except ERRORS[kind], x:
        ck.check(str(x) == 'from the hook', 'hook-error', '%r' % x)
    else:
        ck.violate('hook-error', 'the error of a hook was lost (%s)' % kind)

    try:
        __import__(names[0])
    except ERRORS[kind]:
        pass

    for _ in range(r.randint(1, 3)):
        # the module is there, or is imported anew
        if r.random() < 0.7:
            sys.modules.pop(names[0], None)

        try:
            __import__(names[0])
        except (ERRORS[kind], ImportError), x:
            ck.violate('import-after-failing-hook', '%r in %r' % (x, log))
            break

    ck.check(log.count('bad') == 1 and log.count('good') == 1,
             'failing-hook-repeated', repr(log))
    late = []
    imports.when_imported(names[0], late.append)
    ck.check(late == [sys.modules[names[0]]], 'hook-after-failure',
             repr(late))
    __import__(names[1])
    ck.check(log.count('good') == 2, 'hook-after-failing-one', repr(log))
    ck.count('failing-hooks')
    ck.seen((kind, tuple(log)))

    for n in names:
        sys.modules.pop(n, None)
        os.remove(os.path.join(ROOT, n + '.py'))


def absent_submodule():
    """A hook for a submodule that does not exist hides the top level module
    of that name from its siblings."""
    pkg = os.path.join(ROOT, 'c28absent')
    os.mkdir(pkg)

    with open(os.path.join(pkg, '__init__.py'), 'w') as f:
        f.write('import c28ctl\n')

    imports.when_imported('c28absent.c28ctl', lambda m: None)

    try:
        __import__('c28absent')
        return False
    except ImportError:
        return True
    finally:
        forget('c28absent')


def main(ck):
    ck.probe('absent-submodule', absent_submodule)
    ck.run('histories', 4000, 100000, case, 0.85)
    ck.run('failing-hooks', 200, 2000, failing_hooks, 0.08)
    ck.require('hooks-run', 200)
    ck.require('immediate', 60)
    ck.require('later', 150)
    ck.require('failures', 60)
    ck.require('failing-hooks', 10)


vlib.main(ck, main)
