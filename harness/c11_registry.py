# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C11', 'random histories of registrations (named, anonymous, duplicate, '
    'refused), unregistrations, package registrations, class loaders and '
    'lookups, interleaved with encoding and decoding of instances, run in '
    'lock step with a two-table model; after every operation all names and '
    'classes are looked up and compared; non-trivial: the history replaces '
    'or removes a registration')
vlib.bootstrap()
import gen            # noqa
import refamf         # noqa
import graphcheck     # noqa
from gen import pyamf, Node   # noqa
import os, sys, random, traceback   # noqa
from pyamf.alias import ClassAlias, UnknownClassAlias   # noqa

PLAIN = [u'r.A', u'r.B', u'com.acme.C', u'D', u'r.\xdc\u4e2d', u'r.E f',
         u'r.A.deeper', u'x' * 40]
_serial = [0]


class Loader(object):
    def __init__(self, table):
        self.table = table
        self.calls = []

    def __call__(self, name):
        self.calls.append(name)
        c = self.table.get(name)

        if callable(c) and not isinstance(c, type) and \
                not hasattr(c, '__bases__'):
            return c()

        return c


class Explosion(Exception):
    pass


def explode():
    raise Explosion()


class Demanding:
    def __init__(self, a, b=1):
        pass


class Defaults:
    def __init__(self, a=5, b=None):
        pass


class Starred:
    def __init__(self, *args, **kw):
        pass


class DemandingNew(object):
    def __init__(self, a):
        pass


class World(object):
    """The real registry and its model."""

    def __init__(self, r, case):
        self.r = r
        _serial[0] += 1
        self.tag = '%d' % _serial[0]
        self.names = {}      # name -> registration
        self.classes = {}    # class -> registration
        self.loaders = []
        self.order = 0
        self.log = []
        self.changed = False
        self.saved = (dict(pyamf.CLASS_CACHE), set(pyamf.CLASS_LOADERS))
        self.make_classes()
        self.pool = [u'%s#%s' % (n, self.tag) for n in PLAIN]
        self.make_module()

    def restore(self):
        pyamf.CLASS_CACHE.clear()
        pyamf.CLASS_CACHE.update(self.saved[0])
        pyamf.CLASS_LOADERS.clear()
        pyamf.CLASS_LOADERS.update(self.saved[1])
        sys.modules.pop(self.modname, None)

    def make_classes(self):
        r = self.r
        self.klasses = []
        self.meta = {}

        for i in range(6):
            c = r.random()
            name = 'K%d' % i
            bases = [k for k in self.klasses
                     if k not in self.meta and isinstance(k, type)]

            if c < 0.25:
                exec 'class %s: pass' % name in locals()
                k = locals()[name]
            elif c < 0.5 and bases:
                k = type(name, (r.choice(bases),), {})
            elif c < 0.7:
                alias = u'meta.%s#%s' % (name, self.tag)
                d = {'alias': alias if r.random() < 0.6 else
                     alias.encode('utf-8')}

                if r.random() < 0.5:
                    d = type('__amf__', (), d)

                k = type(name, (object,), {'__amf__': d})
                self.meta[k] = alias
            else:
                k = type(name, (object,), {})

            self.klasses.append(k)

    def make_module(self):
        """An importable module; its dotted paths are names, too."""
        self.modname = 'vregmod%s' % self.tag
        import types
        self.mod = types.ModuleType(self.modname)
        exec ('class Y(object): pass\nclass Z(object): pass\n'
              'value = 5\ndef func(): pass\n') in self.mod.__dict__
        self.mod.Y.__module__ = self.mod.Z.__module__ = self.modname
        sys.modules[self.modname] = self.mod
        self.dotted = {u'%s.Y' % self.modname: self.mod.Y,
                       u'%s.Z' % self.modname: self.mod.Z}
        self.codecs = {}
        self.nothing = [u'%s.%s' % (self.modname, x) for x in
                        ('value', 'func', 'missing', '')] + [
                            u'no_such_mod%s.X' % self.tag, u'', u'.', u'a..b',
                            u'\xe9.\u4e2d']

    # -- model

    def put(self, klass, name, reg):
        self.order += 1

        if name is not None:
            if name in self.names or klass in self.classes:
                self.changed = True
                ck.count('replaced')

            self.names[name] = reg

        self.classes[klass] = reg

    def known_name(self, name):
        return name in self.names

    def text(self, u):
        if u is None:
            return None

        return u.encode('utf-8') if self.r.random() < 0.4 else u

    # -- the whole registry, observed

    def sweep(self, what):
        for name in self.pool + list(self.dotted) + self.loader_names():
            reg = self.names.get(name)

            if reg is None:
                # (an unknown name is searched for in the file system)
                if name in self.pool and self.r.random() < 0.15:
                    self.unknown(name, what)

                continue

            # byte strings with non-ASCII characters are not looked up
            keys = [name]

            try:
                keys.append(name.encode('ascii'))
            except UnicodeError:
                pass

            for key in keys:
                for f in (pyamf.get_class_alias, pyamf.load_class):
                    try:
                        x = f(key)
                    except Exception:
                        self.bad('name-lost:' + graphcheck.exc(), what,
                                 'lookup of %r' % (key,))
                        continue

                    ck.check(x.klass is reg[0] and x.alias == name and
                             not x.anonymous, 'name-lookup-differs',
                             lambda: '%r gives %r for %r, expected %r\n%s' % (
                                 key, x.alias, x.klass, reg[0],
                                 self.story(what)))

        for k in self.klasses + [self.mod.Y, self.mod.Z]:
            reg = self.classes.get(k)

            try:
                x = pyamf.get_class_alias(k)
            except UnknownClassAlias:
                if reg:
                    self.bad('class-lost', what, 'lookup of %r' % k)

                continue
            except Exception:
                self.bad('class-lookup:' + graphcheck.exc(), what, repr(k))
                continue

            if reg is None:
                # base classes are registered anonymously when needed
                ck.check(x.anonymous and x.klass is k, 'class-not-removed',
                         lambda: '%r is still registered as %r\n%s' % (
                             k, x.alias, self.story(what)))
            else:
                ck.check(x.klass is k and x.anonymous == (reg[1] is None) and
                         x.alias == (reg[1] or u''), 'class-lookup-differs',
                         lambda: '%r gives %r for %r, expected %r\n%s' % (
                             k, x.alias, x.klass, reg[1], self.story(what)))

    def unknown(self, name, what):
        try:
            x = pyamf.get_class_alias(name)
        except UnknownClassAlias:
            return
        except Exception:
            self.bad('unknown-name:' + graphcheck.exc(), what, repr(name))
            return

        self.bad('unknown-name-found', what, '%r gives %r' % (name, x.klass))

    def bad(self, key, what, detail):
        ck.violate(key, '%s\n%s\n%s' % (
            detail, self.story(what),
            traceback.format_exc() if sys.exc_info()[0] else ''))
        sys.exc_clear()

    def story(self, what):
        return 'history: %s\nlast: %s' % ('; '.join(self.log[-12:]), what)

    def loader_names(self):
        return [n for l in self.loaders for n in l.table]

    # -- operations

    def op_register(self):
        r = self.r
        k = r.choice(self.klasses)
        name = None if r.random() < 0.2 else r.choice(
            self.pool + self.loader_names() +
            (list(self.dotted) if r.random() < 0.2 else []))
        arg = self.text(name)
        real = name if name is not None else self.meta.get(k)

        if name is None and r.random() < 0.5:
            x = pyamf.register_class(k)
        else:
            x = pyamf.register_class(k, arg)

        reg = (k, real)
        self.put(k, real, reg)
        ck.check(x.klass is k and x.alias == (real or u''),
                 'register-result', lambda: '%r %r' % (x.klass, x.alias))
        ck.count('registered')
        return 'register %s as %r' % (k.__name__, arg)

    def op_refused(self):
        r = self.r
        k = r.choice(self.klasses)
        bad, errors = r.choice([
            ((k, u''), ValueError), ((k, ''), ValueError),
            ((5, self.pool[0]), TypeError), ((k.__name__, u'q'), TypeError),
            ((object, u'q'), TypeError), ((k(), self.pool[1]), TypeError),
            ((None, self.pool[2]), TypeError), ((k, '\xff\xfe'), ValueError),
            ((explode, self.pool[3]), TypeError),
            ((Demanding, self.pool[r.randint(0, 3)]), TypeError)])

        try:
            pyamf.register_class(*bad)
        except errors:
            ck.count('refused')
        except Exception:
            self.bad('refusal-error:' + graphcheck.exc(), repr(bad), '')
        else:
            self.bad('not-refused', repr(bad), '%r was registered' % (bad,))

        return 'refused %r' % (bad,)

    def op_usable(self):
        """Classes that can be made without arguments are accepted."""
        k = self.r.choice([Defaults, Starred, DemandingNew])
        name = u'usable#%s' % self.tag

        try:
            x = pyamf.register_class(k, name)
            ck.check(pyamf.get_class_alias(k) is x and x.alias == name,
                     'usable-lookup', repr(x))
            pyamf.unregister_class(k)
        except Exception:
            self.bad('usable-refused:' + graphcheck.exc(), repr(k), '')

        ck.count('usable')
        return 'usable %r' % k

    def op_unregister(self):
        r = self.r

        if r.random() < 0.5:
            key = r.choice(self.pool + list(self.names)[:3])
            reg = self.names.get(key)
        else:
            key = r.choice(self.klasses)
            reg = self.classes.get(key)

        what = 'unregister %r' % (key,)

        if reg is None and not isinstance(key, unicode):
            try:
                x = pyamf.get_class_alias(key)
            except UnknownClassAlias:
                pass
            else:
                # anonymous, made on behalf of a subclass
                pyamf.unregister_class(key)
                return what + ' (base)'

        try:
            x = pyamf.unregister_class(key)
        except UnknownClassAlias:
            if reg:
                self.bad('unregister-refused', what, '')

            ck.count('unregister-unknown')
            return what + ' (unknown)'
        except Exception:
            self.bad('unregister:' + graphcheck.exc(), what, '')
            return what

        if reg is None:
            self.bad('unregister-unknown-accepted', what, '')
            return what

        ck.check(x.klass is reg[0] and x.alias == (reg[1] or u''),
                 'unregister-result', lambda: '%r' % x)
        self.changed = True

        if self.names.get(reg[1]) is reg:
            del self.names[reg[1]]

        if self.classes.get(reg[0]) is reg:
            del self.classes[reg[0]]

        ck.count('unregistered')
        return what

    def op_package(self):
        r = self.r
        chosen = [k for k in self.klasses if r.random() < 0.4]
        ignore = [k.__name__ for k in chosen if r.random() < 0.2]
        package = 'pkg%s.%s' % (self.tag, r.choice(['a', 'b.c']))
        sep = r.choice(['.', ':'])
        kw = {}

        if sep != '.' or r.random() < 0.3:
            kw['separator'] = sep

        if ignore or r.random() < 0.3:
            kw['ignore'] = ignore

        form = r.randint(0, 2)
        d = dict((k.__name__, k) for k in chosen)
        d['number'] = 5
        d['function'] = explode

        if form == 0:
            ns = d
            kw['strict'] = False
        elif form == 1:
            ns = list(d.values())
        else:
            import types
            ns = types.ModuleType('vpk%s' % self.tag)
            ns.__dict__.update(d)
            kw['strict'] = False

            if r.random() < 0.3:
                some = r.sample(sorted(d), r.randint(0, len(d)))
                ns.__all__ = some
                d = dict((n, d[n]) for n in some)
                chosen = [k for k in chosen if k.__name__ in d]

        got = pyamf.register_package(ns, package, **kw)
        want = [k for k in chosen if k.__name__ not in ignore]
        ck.check(set(got) == set(want), 'package-result',
                 lambda: '%r, expected %r' % (got, want))

        for k in want:
            name = unicode(package + sep + k.__name__)
            self.put(k, name, (k, name))

            if name not in self.pool:
                self.pool.append(name)

        ck.count('packages')
        return 'package %r %r' % (package, kw)

    def op_package_refused(self):
        bad = self.r.choice([(u'',), ('',), (5, 'p'), ([], None)])

        try:
            pyamf.register_package(*bad)
        except TypeError:
            ck.count('refused')
        except Exception:
            self.bad('refusal-error:' + graphcheck.exc(), repr(bad), '')
        else:
            self.bad('package-not-refused', repr(bad), '')

        return 'refused package %r' % (bad,)

    def op_loader(self):
        r = self.r
        n = len(self.log)
        table = {}

        for j in range(r.randint(1, 3)):
            name = u'ld.%s.%d.%d' % (self.tag, n, j)
            k = r.choice(self.klasses)
            c = r.random()

            if c < 0.7:
                table[name] = k
            elif c < 0.8:
                table[name] = explode
            elif c < 0.9:
                table[name] = r.choice([5, u'text', False])
            else:
                table[name] = ClassAlias(k, name, defer=True)

        l = Loader(table)
        pyamf.register_class_loader(l)

        if r.random() < 0.3:
            pyamf.register_class_loader(l)

        self.loaders.append(l)
        ck.count('loaders')
        return 'loader for %r' % (sorted(table.items()),)

    def op_loader_remove(self):
        r = self.r
        gone = [explode, Loader({}), 5]

        if self.loaders and r.random() < 0.7:
            l = r.choice(self.loaders)
            pyamf.unregister_class_loader(l)
            self.loaders.remove(l)
            gone = [l]
            what = 'remove loader'
        else:
            what = 'remove unknown loader'

        try:
            pyamf.unregister_class_loader(r.choice(gone))
        except LookupError:
            ck.count('refused')
        except Exception:
            self.bad('refusal-error:' + graphcheck.exc(), what, '')
        else:
            self.bad('loader-removed-twice', what, '')

        if r.random() < 0.3:
            try:
                pyamf.register_class_loader(r.choice([5, None, u'x', []]))
            except TypeError:
                ck.count('refused')
            else:
                self.bad('loader-not-refused', what, '')

        return what

    def op_load(self):
        """Looking a name up that a loader or an import provides."""
        r = self.r
        names = self.loader_names() + list(self.dotted) + self.nothing
        name = r.choice(names)
        f = r.choice([pyamf.get_class_alias, pyamf.load_class])
        calls = [len(l.calls) for l in self.loaders]
        provided = [l.table[name] for l in self.loaders if name in l.table]
        known = self.names.get(name)
        what = 'load %r' % (name,)
        err = None
        x = None

        try:
            x = f(name)
        except Exception:
            err = sys.exc_info()[0]

        if known:
            ck.check(not err and x.klass is known[0], 'load-known',
                     lambda: '%r %r\n%s' % (err, x, self.story(what)))
            ck.check(calls == [len(l.calls) for l in self.loaders],
                     'loader-called-for-known-name', self.story(what))
            return what

        if provided:
            p = provided[0]

            if p is explode:
                ck.check(err is Explosion, 'loader-error-lost',
                         lambda: '%r\n%s' % (err, self.story(what)))
            elif isinstance(p, (int, unicode)):
                ck.check(err is TypeError, 'loader-bad-class',
                         lambda: '%r\n%s' % (err, self.story(what)))
            else:
                k = p.klass if isinstance(p, ClassAlias) else p
                ck.check(not err and x.klass is k and x.alias == name,
                         'loader-result', lambda: '%r %r\n%s' % (
                             err, x, self.story(what)))
                self.put(k, name, (k, name))

            ck.count('loader-lookups')
        elif name in self.dotted:
            k = self.dotted[name]
            reg = self.classes.get(k)
            ck.check(not err and x.klass is k, 'import-result',
                     lambda: '%r %r\n%s' % (err, x, self.story(what)))

            if not reg or reg[1] is None:
                self.put(k, name, (k, name))

            ck.count('import-lookups')
        else:
            ck.check(err is UnknownClassAlias, 'unknown-name-error',
                     lambda: '%r %r\n%s' % (err, x, self.story(what)))

        return what

    def op_module_class(self):
        """Registers a class under another name than its dotted path."""
        k = self.r.choice([self.mod.Y, self.mod.Z])
        name = self.r.choice(self.pool)
        pyamf.register_class(k, name)
        self.put(k, name, (k, name))
        return 'register module class as %r' % name

    def encoded(self, amf, objs):
        """By a new encoder, or by one that was used before and cleared."""
        if self.r.random() < 0.6:
            return pyamf.encode(*objs, **dict(encoding=amf)).getvalue()

        key = 'encoder', amf

        # (not kept if this raises)
        c = self.codecs.pop(key, None) or pyamf.get_encoder(amf)
        c.context.clear()
        c.stream.truncate()

        for o in objs:
            c.writeElement(o)

        self.codecs[key] = c
        ck.count('cleared-encoders')

        return c.stream.getvalue()

    def decoded(self, amf, data):
        if self.r.random() < 0.6:
            return gen.decode(data, amf)

        key = 'decoder', amf
        c = self.codecs.pop(key, None) or pyamf.get_decoder(amf)
        c.context.clear()
        c.send(data)
        out = list(c)
        self.codecs[key] = c
        ck.count('cleared-decoders')

        return out

    def op_encode(self):
        r = self.r
        amf = r.choice([0, 3])
        ks = [r.choice(self.klasses) for _ in range(3)]
        objs = []

        for n, k in enumerate(ks):
            o = k()
            o.n = n
            objs.append(o)

        what = 'encode %r' % ks

        try:
            data = self.encoded(amf, objs)
            nodes, rd = [refamf.read_amf0, None, None, refamf.read_amf3][amf](
                data)
        except Exception:
            self.bad('encode:' + graphcheck.exc(), what, '')
            return what

        for o, k, n in zip(objs, ks, nodes):
            reg = self.classes.get(k)
            want = (reg[1] or u'') if reg else self.meta.get(k, u'')
            ck.check(n.kind == 'obj' and n.alias == want, 'encoded-alias',
                     lambda: '%r encoded as %r, expected %r\n%s' % (
                         k, n, want, self.story(what)))
            ck.check(n.kind == 'obj' and u'n' in n.val,
                     'encoded-attributes', lambda: repr(n))
            ck.count('encoded')

        return what

    def op_decode(self):
        r = self.r
        amf = r.choice([0, 3])
        names = [r.choice(self.pool + list(self.names)[:2])
                 for _ in range(3)]
        nodes = [Node('obj', {u'n': Node('int', j)}, n)
                 for j, n in enumerate(names)]
        what = 'decode %r' % (names,)

        try:
            data = graphcheck.WRITE[amf](nodes, r, gen.SEALED)
            got = self.decoded(amf, data)
        except Exception:
            self.bad('decode:' + graphcheck.exc(), what, '')
            return what

        for j, (v, name) in enumerate(zip(got, names)):
            reg = self.names.get(name)

            if reg:
                ck.check(v.__class__ is reg[0] and v.n == j,
                         'decoded-class', lambda: '%r decoded to %r, expected'
                         ' %r\n%s' % (name, v, reg[0], self.story(what)))
                ck.count('decoded')
            else:
                ck.check(type(v) is pyamf.TypedObject and v.alias == name and
                         v == {u'n': j}, 'decoded-unknown',
                         lambda: '%r decoded to %r\n%s' % (
                             name, v, self.story(what)))
                ck.count('decoded-unknown')

        return what


OPS = ['register'] * 6 + ['refused'] * 2 + ['usable'] + ['unregister'] * 5 + \
    ['package', 'package_refused', 'loader', 'loader', 'loader_remove',
     'load', 'load', 'load', 'load', 'module_class'] + \
    ['encode'] * 3 + ['decode'] * 3


def case(r, i):
    w = World(r, i)

    try:
        w.sweep('nothing yet')

        for step in range(r.randint(5, 40)):
            op = r.choice(OPS)
            what = getattr(w, 'op_' + op)()
            w.log.append(what)
            w.sweep(what)
            ck.count('operations')
            ck.count('op:' + op)

        ck.seen(tuple(w.log), nontrivial=w.changed,
                sample=w.log[:6] if w.changed else None)
    finally:
        w.restore()


# -- kinds of aliases ---------------------------------------------------------

def make_type(label):
    """A kind of alias whose use is visible, both ways."""
    class Kind(ClassAlias):
        def getEncodableAttributes(self, obj, codec=None):
            d = dict(ClassAlias.getEncodableAttributes(self, obj, codec=codec))
            d['via'] = label
            return d

        def applyAttributes(self, obj, attrs, codec=None):
            ClassAlias.applyAttributes(self, obj, attrs, codec=codec)
            obj.applied = label

    Kind.__name__ = str(label)
    return Kind


class Kinds(object):
    """register_alias_type and unregister_alias_type among the rest."""

    def __init__(self, r):
        self.r = r
        _serial[0] += 1
        self.tag = '%d' % _serial[0]
        self.saved = (dict(pyamf.CLASS_CACHE), dict(pyamf.ALIAS_TYPES))
        self.log = []
        self.name = {}      # class -> name in force
        self.owner = {}     # name -> class
        self.kinds = []     # (kind, targets or callable)
        self.vague = set()  # classes and names that a removed kind may keep
        self.trees = []

        for t in 'AB':
            base = type('%s0' % t, (object,), {})
            tree = [base]

            for k in range(1, 5):
                tree.append(type('%s%d' % (t, k), (r.choice(tree),), {}))

            self.trees.append(tree)

        self.all = self.trees[0] + self.trees[1]

    def restore(self):
        for d, s in zip((pyamf.CLASS_CACHE, pyamf.ALIAS_TYPES), self.saved):
            d.clear()
            d.update(s)

    def kind_of(self, k):
        for kind, targets in self.kinds:
            if callable(targets) and targets(k) is True or \
                    not callable(targets) and issubclass(k, targets):
                return kind

    def described(self, kind):
        out = [k for k in self.all if self.kind_of(k) is kind]
        return out + [n for n, k in self.owner.items() if k in out]

    def op_register(self):
        k = self.r.choice(self.all)
        n = u'kind.%s%d#%s' % (k.__name__, self.r.randrange(3), self.tag)
        pyamf.register_class(k, n if self.r.random() < 0.5 else str(n))
        self.name[k] = n
        self.owner[n] = k
        self.vague.difference_update([k, n])
        return 'register %r %r' % (k, n)

    def op_use(self):
        """The bases of what is encoded become known without a name."""
        k = self.r.choice(self.all)
        o = k()
        o.n = 1
        pyamf.encode(o, encoding=self.r.choice([0, 3]))
        return 'encode %r' % k

    def op_kind(self):
        r = self.r

        free = [t for t in self.trees if not any([
            c in t for kind, targets in self.kinds
            for c in (targets if not callable(targets) else
                      [c for c in t if targets(c)])])]

        if not free:
            return 'no tree left'

        tree = r.choice(free)
        kind = make_type('Kind%s%d' % (tree[0].__name__, len(self.log)))

        if r.random() < 0.25:
            some = set(r.sample(tree, 2))
            targets = lambda k: k in some   # noqa
            args = (targets,)
        else:
            targets = args = tuple(r.sample(tree, r.randint(1, 2)))

        pyamf.register_alias_type(kind, *args)
        self.kinds.append((kind, targets))
        self.vague.difference_update(
            self.described(kind))
        ck.count('alias-kinds')
        return 'alias type %r %r' % (kind, args)

    def op_refused(self):
        r = self.r
        kind = make_type('Refused')
        options = [((5, self.all[0]), TypeError), ((kind,), ValueError),
                   ((self.all[0], self.all[1]), ValueError),
                   ((kind, self.all[0], 'x'),
                    (TypeError, RuntimeError))]

        for k, targets in self.kinds:
            if callable(targets):
                options.append(((kind, targets), RuntimeError))
            else:
                options.append(((kind, targets[-1]), RuntimeError))
                options.append(((kind, self.all[0], self.all[-1]) + targets,
                                RuntimeError))

        args, error = r.choice(options)
        before = dict(pyamf.ALIAS_TYPES), dict(pyamf.CLASS_CACHE)

        try:
            pyamf.register_alias_type(*args)
        except error:
            ck.count('alias-kinds-refused')
        else:
            self.bad('alias-type-accepted', repr(args))

        ck.check(before[0] == dict(pyamf.ALIAS_TYPES) and
                 sorted(map(id, before[1].values())) == sorted(
                     map(id, dict(pyamf.CLASS_CACHE).values())),
                 'alias-type-refused-changes', lambda: self.story(repr(args)))
        return 'refused %r' % (args,)

    def op_remove(self):
        if not self.kinds:
            return 'nothing to remove'

        kind, targets = self.r.choice(self.kinds)
        mine = self.described(kind)
        got = pyamf.unregister_alias_type(kind)
        ck.check(got == (targets if not callable(targets) else (targets,)),
                 'alias-type-removed', lambda: self.story(repr(got)))
        ck.check(pyamf.unregister_alias_type(kind) is None,
                 'alias-type-removed-twice', lambda: self.story(repr(kind)))
        self.kinds = [x for x in self.kinds if x[0] is not kind]
        # what was registered meanwhile may keep it
        self.vague.update(mine)
        return 'remove %r' % kind

    def story(self, what):
        return '%s after\n%s' % (what, '\n'.join(self.log))

    def bad(self, key, what):
        ck.violate(key, self.story(what + '\n' + traceback.format_exc()))

    def sweep(self):
        r = self.r
        amf = r.choice([0, 3])
        sure = [k for k in self.all if k not in self.vague]

        for k in sure:
            kind = self.kind_of(k)
            o = k()
            o.n = 1
            data = pyamf.encode(o, encoding=amf).getvalue()
            n = graphcheck.READ[amf](data)[0][0]
            want = {u'n': 1}

            if kind:
                want[u'via'] = unicode(kind.__name__)
                ck.count('alias-kind-used')

            got = dict((a, v.val) for a, v in n.val.items())
            ck.check(n.alias == self.name.get(k, u'') and got == want,
                     'alias-kind-encoding', lambda: self.story(
                         '%r as %r %r, expected %r %r' % (
                             k, n.alias, got, self.name.get(k, u''), want)))

        for name, k in sorted(self.owner.items()):
            if name in self.vague:
                continue

            data = graphcheck.WRITE[amf](
                [Node('obj', {u'n': Node('int', 4)}, name)], r, gen.SEALED)
            o = gen.decode(data, amf)[0]
            kind = self.kind_of(k)
            want = {'n': 4}

            if kind:
                want['applied'] = kind.__name__

            ck.check(type(o) is k and o.__dict__ == want,
                     'alias-kind-decoding', lambda: self.story(
                         '%r gives %r %r, expected %r %r' % (
                             name, o, o.__dict__, k, want)))
            ck.count('alias-kind-decoded')


def kinds(r, i):
    w = Kinds(r)

    try:
        for step in range(r.randint(3, 14)):
            op = r.choice(['register'] * 4 + ['use'] * 2 + ['kind'] * 3 +
                          ['refused', 'remove'])

            try:
                w.log.append(getattr(w, 'op_' + op)())
                w.sweep()
            except Exception:
                w.bad('alias-kinds:%s:%s' % (op, graphcheck.exc()), op)
                return

        ck.seen(('kinds',) + tuple(w.log))
    finally:
        w.restore()


def body(ck):
    ck.require('operations', 300)
    ck.require('replaced', 20)
    ck.require('encoded', 50)
    ck.require('decoded', 20)
    ck.require('import-lookups', 5)
    ck.require('loader-lookups', 5)
    ck.require('alias-kind-used', 50)
    ck.require('alias-kind-decoded', 50)
    ck.require('alias-kinds-refused', 5)
    ck.run('histories', 2000, 60000, case, 0.75)
    ck.run('alias-kinds', 600, 20000, kinds, 0.2)


vlib.main(ck, body)
