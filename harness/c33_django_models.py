# -*- coding: utf-8 -*-
import vlib
ck = vlib.Check(
    'C33', 'random Django model instances (unsaved, created, fetched, with '
    'relations selected, prefetched or touched, of derived, abstract and '
    'proxy models, with own keys, managers and declarations, with dynamic and '
    'private attributes) and lists and query sets of them, in a SQLite '
    'database with random rows, encoded in AMF0 and AMF3 and read by an '
    'independent reader; messages by PyAMF and by an independent writer with '
    'stored, changed, new and vanished objects, decoded; the statements sent '
    'to the database are logged; every case is non-trivial',
    assumptions=['Django %s over SQLite through JDBC; SQLAlchemy, Elixir and '
                 'App Engine are not installed' % '1.8'])
vlib.bootstrap()
import os             # noqa
import sys            # noqa
import datetime       # noqa
from decimal import Decimal   # noqa

sys.path.insert(0, os.path.join(vlib.HERE, 'dbshim'))

from django.conf import settings   # noqa
settings.configure(
    SECRET_KEY='verif', USE_TZ=False,
    MEDIA_ROOT=os.path.join(vlib.WORK, 'media'),
    DATABASES={'default': {'ENGINE': 'django.db.backends.sqlite3',
                           'NAME': ':memory:'}},
    INSTALLED_APPS=('c33app', 'django.contrib.contenttypes',
                    'django.contrib.auth'))

import refamf         # noqa
import gen            # noqa
from gen import pyamf, Node   # noqa
import pyamf.flex     # noqa
import django         # noqa
django.setup()
from django.db import models, connection   # noqa
from django.db.models import fields as djf   # noqa
from django.utils.translation import ugettext_lazy   # noqa
from django.contrib.auth import models as auth   # noqa
from django.contrib.contenttypes.models import ContentType   # noqa
from sqlite3 import dbapi2   # noqa
import c33app.models as app   # noqa

NOT = djf.NOT_PROVIDED
SECRET = u'pbkdf2$never-sent$'


class Spec(object):
    def __init__(self, fields='', fks=(), m2m=(), props=(), key='id',
                 readonly=(), name=None, natural=False, excluded=(),
                 names=(), proxied=(), static=()):
        # name:kind
        self.fields = dict([(f.split(':') + ['str'])[:2]
                            for f in fields.split()])
        self.fields[key] = 'str' if natural else 'key'
        self.fks = dict(fks)          # name -> class
        self.m2m = dict(m2m)
        self.props = props            # read by the model
        self.key = key
        self.readonly = set(readonly)
        self.natural = natural
        self.name = name
        self.excluded = set(excluded)
        self.names = dict(names)      # the names on the wire
        self.proxied = set(proxied)
        self.static = set(static)

    def ext(self, n):
        return self.names.get(n, n)


class Wrapped(object):
    """A list that is sent as an ArrayCollection."""

    def __init__(self, val):
        self.val = val

    def __repr__(self):
        return 'Wrapped(%r)' % (self.val,)


A = ('name born:date wakes:time seen:datetime score:float active:bool '
     'maybe:bool level:int big:int ratio:decimal note')
SPEC = {
    app.Author: Spec(A, props=('shout', 'nick'), readonly=('shout',)),
    app.ProxyAuthor: Spec(A, props=('shout', 'nick'), readonly=('shout',)),
    app.Tag: Spec('slug label', key='slug', natural=True),
    app.Book: Spec('title scan:file', readonly=('scan',), fks=dict(
        author=app.Author, editor=app.Author, sequel=app.Book),
        m2m=dict(tags=app.Tag)),
    app.Profile: Spec('text', fks=dict(author=app.Author)),
    app.Place: Spec('name address'),
    app.Restaurant: Spec('name address pizza:bool',
                         m2m=dict(dishes=app.Tag)),
    app.Diner: Spec('name address pizza:bool stars:int',
                    m2m=dict(dishes=app.Tag)),
    app.ProxyDiner: Spec('name address pizza:bool stars:int',
                         m2m=dict(dishes=app.Tag)),
    app.Student: Spec('name age:int group', m2m=dict(mates=app.Student)),
    app.Plain: Spec('name', fks=dict(other=app.Author)),
    app.Guarded: Spec('fixed free', readonly=('fixed',)),
    app.Keyed: Spec('what', key='code', natural=True),
    app.Special: Spec('what extra:int', key='code', natural=True),
    app.Managed: Spec('name'),
    app.Veiled: Spec('name', fks=dict(author=app.Author, editor=app.Author),
                     m2m=dict(tags=app.Tag, marks=app.Tag),
                     excluded=('author', 'tags'),
                     readonly=('editor', 'marks')),
    app.Renamed: Spec('born:date wakes:time seen:datetime plain:date '
                      'scan:file', key='ident', readonly=('scan',),
                      fks=dict(author=app.Author), m2m=dict(tags=app.Tag),
                      names=dict(ident='key', born='birth', wakes='alarm',
                                 seen='last', scan='copy', author='writer',
                                 tags='labels')),
    app.Proxied: Spec('name born:date', fks=dict(author=app.Author),
                      m2m=dict(tags=app.Tag, marks=app.Tag),
                      proxied=('tags', 'author'),
                      static=('name', 'born')),
    auth.User: Spec('username first_name last_name email is_staff:bool '
                    'is_active:bool is_superuser:bool last_login:datetime '
                    'date_joined:datetime', readonly=('username',),
                    m2m=dict(groups=auth.Group,
                             user_permissions=auth.Permission)),
    auth.Group: Spec('name', m2m=dict(permissions=auth.Permission)),
}

for c, s in SPEC.items():
    if s.name is None:
        s.name = (u'c33.' if c.__module__ == 'c33app.models' else
                  u'django.contrib.auth.models.') + c.__name__

SPEC[app.Plain].name = u''

for c in SPEC:
    if c.__module__ == 'c33app.models' and c is not app.Plain:
        pyamf.register_class(c, SPEC[c].name)

# the classes whose decoding is looked at
DECODED = [c for c in SPEC if c not in (app.Plain, auth.Group)]
DECODED.sort(key=lambda c: c.__name__)
ENCODED = sorted(SPEC, key=lambda c: c.__name__)
TABLES = app.ALL + [ContentType, auth.Permission, auth.Group, auth.User]

with connection.schema_editor() as ed:
    for c in TABLES:
        ed.create_model(c)

M2M_TABLES = set()
ROW_TABLES = set()

for c in TABLES:
    ROW_TABLES.add(c._meta.db_table)

    for f in c._meta.local_many_to_many:
        M2M_TABLES.add(f.rel.through._meta.db_table)


# --------------------------------------------------------------------------
# rows

def word(r):
    return r.choice([u'', u'a', u'0', u'\xe9t\xe9', u'x y', u'<b>', u'word',
                     u'\u2603', u'%d' % r.randrange(50)]) or u''


def value(r, kind, cls=None):
    if kind == 'str':
        return word(r)
    if kind == 'int':
        return r.choice([0, 1, 7, 2 ** 20, r.randrange(1000)])
    if kind == 'bool':
        return r.random() < 0.5
    if kind == 'file':
        return r.choice([u'', u'scans/a.png', u'scans/\xe9.txt'])
    if r.random() < 0.25:
        return None
    if kind == 'float':
        return r.choice([0.0, 1.5, -2.25, 1e10, r.random()])
    if kind == 'decimal':
        return Decimal(r.choice(['0.000', '1.500', '-12.125', '99.750']))

    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(
        r.randrange(-30000, 30000), r.randrange(86400),
        1000 * r.randrange(1000))

    if r.random() < 0.1:
        # (midnight is a false value)
        d = datetime.datetime(d.year, d.month, d.day)

    if kind == 'date':
        return datetime.date(d.year, d.month, d.day)
    if kind == 'time':
        return datetime.time(d.hour, d.minute, d.second, d.microsecond)

    return d


serial = [0]


def choose(r, classes, enc):
    """In AMF0, proxied lists are AMF3 parts, which share nothing."""
    return r.choice([c for c in classes if enc == 3 or not SPEC[c].proxied])


def fresh(r, cls):
    """An unsaved instance."""
    s = SPEC[cls]
    kw = {}

    for n, kind in s.fields.items():
        if kind != 'key':
            kw[n] = value(r, kind)

    if s.natural:
        serial[0] += 1
        kw[s.key] = u'k%d' % serial[0]
    if cls is app.Guarded:
        kw['secret'] = SECRET
    if cls is auth.User:
        serial[0] += 1
        kw['username'] = u'u%d' % serial[0]
        kw['password'] = SECRET
        kw['date_joined'] = value(r, 'datetime') or datetime.datetime(
            2000, 1, 1)
    if cls is auth.Group:
        serial[0] += 1
        kw['name'] = u'g%d' % serial[0]

    return cls(**kw)


KIN = {}

for k in ((app.Author, app.ProxyAuthor), (app.Keyed, app.Special),
          (app.Place, app.Restaurant, app.Diner, app.ProxyDiner)):
    for c in k:
        KIN[c] = [x for x in k if x is not c]


STORED = {}     # class -> list of keys


def pick(r, cls, some=0.85):
    """A stored instance or None."""
    if r.random() > some or not STORED.get(cls):
        return None

    return cls._default_manager.get(pk=r.choice(STORED[cls]))


def store(cls, x):
    STORED.setdefault(cls, []).append(x.pk)


def populate(r):
    for c in reversed(TABLES):
        for f in c._meta.local_many_to_many:
            f.rel.through._default_manager.all().delete()

    for c in reversed(TABLES):
        if c is not ContentType and c is not auth.Permission:
            c._default_manager.all().delete()

    STORED.clear()

    if not auth.Permission.objects.count():
        ct = ContentType.objects.create(app_label='c33app', model='book')

        for i in range(3):
            auth.Permission.objects.create(
                name='p%d' % i, content_type=ct, codename='p%d' % i)

    order = [app.Author, app.Tag, app.Book, app.Profile, app.Place,
             app.Restaurant, app.Diner, app.Student, app.Plain, app.Guarded,
             app.Keyed, app.Special, app.Managed, app.Veiled, app.Renamed,
             app.Proxied, auth.Group, auth.User]

    for c in order:
        s = SPEC[c]
        free = None

        for i in range(r.randint(1, 3)):
            x = fresh(r, c)

            if c is app.Profile:
                if free is None:
                    free = list(STORED[app.Author])
                if not free:
                    break

                x.author = app.Author.objects.get(pk=free.pop())
            else:
                for n, target in s.fks.items():
                    setattr(x, n, pick(r, target))

            x.save()
            store(c, x)

            for n, target in s.m2m.items():
                if target is auth.Permission:
                    keys = [p.pk for p in auth.Permission.objects.all()]
                else:
                    keys = STORED.get(target, [])

                keys = [k for k in keys if r.random() < 0.5 and
                        (target is not c or k != x.pk)]
                getattr(x, n).add(*target._default_manager.filter(
                    pk__in=keys))

    STORED[app.ProxyAuthor] = list(STORED[app.Author])
    STORED[app.ProxyDiner] = list(STORED[app.Diner])


def snapshot(tables):
    got = {}

    for t in sorted(tables):
        cur = connection.cursor()
        cur.execute('SELECT * FROM "%s"' % t)
        rows = cur.fetchall()

        if t in M2M_TABLES:
            # without the key of the link
            rows = [row[1:] for row in rows]

        got[t] = sorted(map(repr, rows))

    return got


# --------------------------------------------------------------------------
# what an instance is on the wire

def caches(x, name):
    return '_%s_cache' % name in x.__dict__


def concrete(cls):
    return cls


def group_of(x):
    if x.pk is None or x.pk is NOT:
        return id(x)

    return (x.__class__.__name__, x.pk)


def members(x):
    s = SPEC[x.__class__]
    m = {}

    for n, kind in s.fields.items():
        v = x.__dict__[n] if kind != 'file' else getattr(x, n).name

        if v is NOT:
            v = pyamf.Undefined
        elif v is None:
            pass
        elif kind == 'date':
            v = datetime.datetime(v.year, v.month, v.day)
        elif kind == 'time':
            v = datetime.datetime(1970, 1, 1, v.hour, v.minute, v.second,
                                  v.microsecond)

        m[s.ext(n)] = v

    for n in s.props:
        m[n] = getattr(x, n)

    for n in s.fks:
        if n not in s.excluded and caches(x, n):
            m[s.ext(n)] = x.__dict__['_%s_cache' % n]

    for n in s.m2m:
        if n in s.excluded:
            continue

        v = [] if x.pk is None or x.pk is NOT else list(getattr(x, n).all())
        m[s.ext(n)] = Wrapped(v) if n in s.proxied else v

    for n in x.__dict__.get('_dyn', ()):
        m[n] = x.__dict__[n]

    return m


def walk(v, seen, groups):
    """All instances reachable from what is encoded."""
    if isinstance(v, Wrapped):
        v = v.val

    if isinstance(v, (list, tuple)):
        for e in v:
            walk(e, seen, groups)
    elif isinstance(v, dict):
        for e in v.values():
            walk(e, seen, groups)
    elif isinstance(v, models.Model):
        g = group_of(v)

        if v.__class__ not in SPEC:
            return
        if id(v) in seen:
            return

        seen[id(v)] = v

        # a row is read again by each query: once is enough, but the first
        # ones differ in what they have loaded
        if len([1 for c in groups.get(g, ()) if not c[2]]) > 2:
            return

        m = members(v)
        groups.setdefault(g, []).append((v, m, v.pk is None))

        if len(seen) < 4000:
            walk(m, seen, groups)


def ms(d):
    delta = d - datetime.datetime(1970, 1, 1)
    return (delta.days * 86400 + delta.seconds) * 1000.0 + \
        delta.microseconds / 1000.0


class Matcher(object):
    def __init__(self, groups):
        self.groups = groups
        self.node_of = {}
        self.group_by = {}
        self.objects = 0

    def shallow(self, node, v):
        """None or the difference, not entering objects."""
        k = node.kind

        if isinstance(v, Wrapped):
            if k != 'ext' or node.alias != \
                    u'flex.messaging.io.ArrayCollection':
                return 'expected an ArrayCollection, is %s' % (
                    refamf.show(node),)

            return self.shallow(node.val[0], v.val)
        if isinstance(v, models.Model):
            if v.__class__ not in SPEC:
                return None if k == 'obj' else 'expected an object'
            if k != 'obj':
                return 'expected an object, is %s' % k
            if node.alias != SPEC[v.__class__].name:
                return 'class %r, expected %r' % (
                    node.alias, SPEC[v.__class__].name)

            s = SPEC[v.__class__]

            if v.pk is not None and s.ext(s.key) in node.val:
                return self.shallow(node.val[s.ext(s.key)],
                                    pyamf.Undefined if v.pk is NOT else v.pk)

            return None
        if isinstance(v, (list, tuple)):
            if k != 'list' or len(node.val) != len(v):
                return 'expected a list of %d, is %s' % (
                    len(v), refamf.show(node))

            for a, b in zip(node.val, v):
                d = self.shallow(a, b)

                if d:
                    return d
            return None
        if v is None:
            ok = k == 'null'
        elif v is pyamf.Undefined:
            ok = k == 'undef'
        elif isinstance(v, bool):
            ok = k == 'bool' and node.val == v
        elif isinstance(v, (int, long, float, Decimal)):
            ok = k in ('int', 'num') and float(node.val) == float(v)
        elif isinstance(v, datetime.datetime):
            ok = k == 'date' and node.val == ms(v)
        elif isinstance(v, (str, unicode)):
            ok = k == 'str' and node.val == v
        else:
            ok = True

        return None if ok else 'expected %r, is %s' % (v, refamf.show(node))

    def match(self, node, v, path='value'):
        d = self.shallow(node, v)

        if d:
            return '%s: %s' % (path, d)
        if isinstance(v, Wrapped):
            node = node.val[0]
            v = v.val
        if isinstance(v, (list, tuple)):
            for i, (a, b) in enumerate(zip(node.val, v)):
                d = self.match(a, b, '%s[%d]' % (path, i))

                if d:
                    return d
        if isinstance(v, models.Model) and v.__class__ in SPEC:
            g = group_of(v)

            if g in self.node_of:
                if self.node_of[g] is not node:
                    return '%s: %r is another object than before' % (path, g)
                return None
            if id(node) in self.group_by:
                return '%s: %r and %r are one object' % (
                    path, g, self.group_by[id(node)])

            self.node_of[g] = node
            self.group_by[id(node)] = g
            self.objects += 1
            why = []

            for x, m, _ in self.groups.get(g, []):
                if set(map(refamf.ukey, node.val)) != \
                        set(map(refamf.ukey, m)):
                    why.append('has %r, expected %r' % (
                        sorted(node.val), sorted(m)))
                    continue

                for n in m:
                    d = self.shallow(node.val[n], m[n])

                    if d:
                        why.append('%s: %s' % (n, d))
                        break
                else:
                    for n in sorted(m):
                        d = self.match(node.val[n], m[n],
                                       '%s.%s' % (path, n))

                        if d:
                            return d
                    return None

            return '%s: %s' % (path, '; '.join(sorted(set(why))) or
                               'unexpected object %r' % (g,))


# --------------------------------------------------------------------------
# encoding

def instance(r, enc, depth=0, c=None):
    """A random instance and how it came about."""
    how = r.choice(['get', 'get', 'select', 'touch', 'prefetch', 'new',
                    'created', 'changed'])

    if c is not None:
        how = 'new'

    c = c or choose(r, ENCODED, enc)
    s = SPEC[c]

    if how != 'new' and not STORED.get(c):
        how = 'new'

    if how == 'new':
        x = fresh(r, c)

        for n, target in s.fks.items():
            y = pick(r, target)

            if r.random() < 0.5 and (
                    y is not None or n != 'author' or c is not app.Profile):
                setattr(x, n, y)
        if r.random() < 0.4 and not s.natural:
            x.__dict__[s.key] = NOT
    else:
        q = c._default_manager.all()

        if how == 'select' and s.fks:
            q = q.select_related(*[
                n for n in s.fks if r.random() < 0.7] or [None])

            if 'sequel' in s.fks and r.random() < 0.4:
                q = q.select_related('sequel__sequel__author')
        if how == 'prefetch':
            for n in s.m2m:
                q = q.prefetch_related(n)

        key = r.choice(STORED[c])

        if how == 'created' and c in (app.Book, app.Tag, app.Place,
                                      app.Diner, app.Keyed, app.Special,
                                      app.Veiled, app.Renamed, app.Proxied):
            x = fresh(r, c)
            x.save()

            if r.random() < 0.5:
                store(c, x)
        else:
            x = [y for y in q if y.pk == key][0]

        if how == 'touch':
            for n in s.fks:
                if r.random() < 0.6:
                    getattr(x, n)
            for n in ('place_ptr', 'restaurant_ptr', 'keyed_ptr'):
                # links to parents are not sent
                if hasattr(c, n):
                    getattr(x, n)
                    ck.count('touched-parent')
            if c is app.Author:
                for n in ('profile', 'books'):
                    try:
                        list(getattr(x, n).all()) if n == 'books' else \
                            getattr(x, n)
                    except models.ObjectDoesNotExist:
                        pass
        if how == 'changed':
            for n, kind in s.fields.items():
                if kind not in ('key', 'file') and n != s.key and \
                        r.random() < 0.4:
                    setattr(x, n, value(r, kind))
            for n, target in s.fks.items():
                if r.random() < 0.4 and c is not app.Profile:
                    setattr(x, n, pick(r, target))
        if how in ('get', 'touch') and r.random() < 0.2:
            # a second connection of the row to its links
            for n in s.m2m:
                getattr(x, n).count()

    if r.random() < 0.3:
        dyn = []

        for n in ('extra_one', 'two', u'\xfcber'[1:] + u'2'):
            if r.random() < 0.5:
                v = r.choice([1, u'dyn', None, [1, 2], 2.5])

                if depth < 2 and r.random() < 0.3:
                    v = instance(r, enc, depth + 1)[0]

                setattr(x, n, v)
                dyn.append(n)

        x._dyn = dyn
    if r.random() < 0.3:
        x._private = SECRET
    if c in (app.Author, app.ProxyAuthor) and r.random() < 0.3:
        x.nick = word(r)

    ck.count('instance:' + how)
    ck.count('class:' + c.__name__)
    return x, how


def encode_case(r, i):
    if i % 12 == 0:
        populate(r)

    enc = r.choice([0, 3])
    shape = r.choice(['one', 'list', 'dict', 'query', 'again', 'mixed', 'new'])
    allowed = 0

    if shape == 'one':
        v = instance(r, enc)[0]
        send = v
    elif shape == 'query':
        c = choose(r, ENCODED, enc)
        q = c._default_manager.all()

        if r.random() < 0.3 and SPEC[c].fks:
            q = q.select_related(*list(SPEC[c].fks))
        if r.random() < 0.3:
            len(q)

        v = list(q.all())
        send = q
        allowed = 1
    elif shape == 'again':
        # the same rows read twice
        for _ in range(r.choice([1, 6])):
            x, _ = instance(r, enc)

            if x.__class__ in KIN and x.pk not in (None, NOT):
                break

        if x.pk is None or x.pk is NOT:
            v = [x, x]
        else:
            try:
                v = [x, x.__class__._default_manager.get(pk=x.pk), x]
            except models.ObjectDoesNotExist:
                v = [x, x]

            for c in KIN.get(x.__class__, []):
                # the same row as an object of another class
                try:
                    v.insert(r.randint(0, len(v)),
                             c._default_manager.get(pk=x.pk))
                    ck.count('kin')
                except models.ObjectDoesNotExist:
                    pass

        send = v
    elif shape == 'new':
        # several of one class that are not stored
        c = choose(r, ENCODED, enc)
        send = v = [instance(r, enc, 0, c)[0]
                    for _ in range(r.randint(2, 4))]
    else:
        v = [instance(r, enc)[0] for _ in range(r.randint(0, 5))]

        if v and shape == 'mixed':
            v = [v[0], [v[-1], 1], u'text', v[0]] + v

        send = v

    if shape == 'dict':
        send = dict([(u'k%d' % n, x) for n, x in enumerate(v)])

    groups = {}
    walk(v, {}, groups)
    before = snapshot(M2M_TABLES | ROW_TABLES) if r.random() < 0.1 else None
    del dbapi2.log[:]

    try:
        data = pyamf.encode(send, encoding=enc).getvalue()
    except Exception:
        import traceback
        ck.violate('encode', '%s of %r %s\n%s' % (
            shape, v, dict((g, c[0][1]) for g, c in groups.items()),
            traceback.format_exc()[-1500:]))
        return

    log = list(dbapi2.log)
    what = 'AMF%d %s of %r\n%r\n%r' % (
        enc, shape, v, [c[0][1] for c in groups.values()][:3], data[:600])
    what = what[:3000]

    if SECRET.encode('ascii') in data:
        ck.violate('private-sent', 'a private or excluded attribute is on '
                   'the wire: ' + what)
        return

    try:
        nodes, _ = (refamf.read_amf3 if enc == 3 else refamf.read_amf0)(data)
    except refamf.Malformed, e:
        ck.violate('malformed', '%s: %s' % (e, what))
        return

    m = Matcher(groups)
    node = nodes[0]

    if len(nodes) != 1:
        ck.violate('count', what)
        return
    if shape == 'dict':
        want = sorted(send)
        got = sorted(node.val)

        if map(refamf.ukey, got) != map(refamf.ukey, want):
            ck.violate('dict', 'keys %r, expected %r: %s' % (got, want, what))
            return

        d = None

        for n in want:
            d = d or m.match(node.val[n], send[n], n)
    else:
        d = m.match(node, v)

    if d:
        ck.violate('encoded', '%s\n%s' % (d, what))
        return

    # only the links are asked for
    links = 0

    for sql, args in log:
        t = sql.split()

        if t[0].upper() != 'SELECT':
            ck.violate('encode-writes', '%s\n%s' % (sql, what))
            return
        if 'INNER JOIN' in sql and [x for x in M2M_TABLES if x in sql]:
            links += 1
        elif allowed:
            allowed -= 1
        else:
            ck.violate('encode-queries', 'asked for %s %r\n%s' % (
                sql, args, what))
            return

    most = 0

    for g in m.node_of:
        if g in groups:
            most += len(SPEC[groups[g][0][0].__class__].m2m)

    if links > most + sum(
            1 for g in m.node_of if g not in groups):
        ck.violate('encode-queries', '%d queries for %d lists\n%s' % (
            links, most, what))

    if before is not None:
        ck.check(before == snapshot(M2M_TABLES | ROW_TABLES), 'encode-writes',
                 what)

    if len(m.node_of) < sum(len(c) for c in groups.values()):
        ck.count('same-row')

    ck.count('objects', m.objects)
    ck.count('links', links)
    ck.seen((enc, shape, data), sample=what[:300])


# --------------------------------------------------------------------------
# decoding

class Sent(object):
    """An object of a message and what shall become of it."""

    def __init__(self, cls, node, key, known, want):
        self.cls = cls
        self.node = node
        self.key = key          # the expected key
        self.known = known      # in the database
        self.want = want        # attribute -> expected value or Sent
        self.obj = None


def num(x):
    if isinstance(x, bool):
        return Node('bool', x)
    if isinstance(x, (int, long)) and abs(x) < 2 ** 28:
        return Node('int', x)

    return Node('num', float(x))


def to_node(v):
    if v is None:
        return Node('null')
    if v is NOT:
        return Node('undef')
    if isinstance(v, (bool, int, long, float, Decimal)):
        return num(v)
    if isinstance(v, datetime.datetime):
        return Node('date', ms(v))
    if isinstance(v, datetime.date):
        return Node('date', ms(datetime.datetime(v.year, v.month, v.day)))
    if isinstance(v, datetime.time):
        return Node('date', ms(datetime.datetime(
            1970, 1, 1, v.hour, v.minute, v.second, v.microsecond)))

    return Node('str', v)


def make(r, enc, pool, depth=0, cls=None, must=False):
    """An object of a message; ``must``: one that is stored."""
    c = cls or choose(r, DECODED, enc)

    for x in pool:
        if x.cls is c and r.random() < 0.3 and (x.known or not must):
            return x

    s = SPEC[c]
    how = r.choice(['stored', 'stored', 'changed', 'new', 'gone'])

    if must:
        how = r.choice(['stored', 'changed'])
    if not STORED.get(c):
        how = 'new'

    known = how in ('stored', 'changed')
    x = c._default_manager.get(pk=r.choice(STORED[c])) if known \
        else fresh(r, c)
    m = {}
    want = {}

    for n, kind in s.fields.items():
        if kind == 'key' or n == s.key:
            continue

        v = x.__dict__[n] if kind != 'file' else getattr(x, n).name
        stored = v

        if how == 'changed' and r.random() < 0.6:
            v = value(r, kind)
        if r.random() < 0.04:
            v = NOT

        m[s.ext(n)] = to_node(v)
        want[n] = v

        if n in s.readonly:
            want[n] = stored if known else \
                (c._meta.get_field(n).get_default() or u'')

            if kind == 'file' and not known:
                want[n] = None

    key = x.pk
    sent = key

    if how == 'gone' and not s.natural:
        sent = 100000 + r.randrange(100)
        key = None
    elif how == 'new' and not s.natural:
        sent = r.choice([None, 0, 0.0])
        key = None

        if r.random() < 0.1 and c._meta.pk.rel is None:
            sent = key = NOT

    m[s.ext(s.key)] = to_node(sent)

    if not known and s.natural:
        key = sent

    for n in s.props:
        m[n] = to_node(word(r))

        if n not in s.readonly:
            want[n] = m[n].val

    if c is app.Guarded:
        want['secret'] = x.secret if known else u''

        if r.random() < 0.5:
            m['secret'] = Node('str', u'forged')
    if c is auth.User:
        want['password'] = x.password if known else u''

        if r.random() < 0.5:
            m['password'] = Node('str', u'forged')

    for n, target in s.fks.items():
        k = r.random()
        nullable = c is not app.Profile

        if n in s.excluded or n in s.readonly:
            # whatever is sent is not taken
            if k < 0.6 and depth < 3:
                m[s.ext(n)] = r.choice([
                    make(r, enc, pool, depth + 1, target).node, Node('null')])

            want[n + '_id'] = getattr(x, n + '_id') if known else None
            continue
        if k < 0.35 and depth < 3 and target in DECODED:
            y = make(r, enc, pool, depth + 1, target, must=not nullable)
            m[s.ext(n)] = y.node
            want[n] = y
        elif k < 0.5 and nullable:
            m[s.ext(n)] = Node('null')
            want[n] = None
        elif known:
            # not loaded at the client
            want[n + '_id'] = getattr(x, n + '_id')

    for n, target in s.m2m.items():
        kept = n in s.excluded or n in s.readonly

        if kept and depth < 3 and r.random() < 0.6:
            m[s.ext(n)] = Node('list', [
                make(r, enc, pool, depth + 1, target, must=True).node
                for _ in range(r.randint(0, 2) if known else 0)])
        if kept or target not in DECODED or target is c or depth > 2:
            if known:
                want[n] = ('keys', set(
                    [y.pk for y in getattr(x, n).all()]))
        elif known and r.random() < 0.6 and not [
                1 for p in pool if p.known and p.key == x.pk and
                n in SPEC[p.cls].m2m]:
            ys = []

            for _ in range(r.randint(0, 3)):
                y = make(r, enc, pool, depth + 1, target, must=True)

                if y not in ys and y.key not in [z.key for z in ys]:
                    ys.append(y)

            v = Node('list', [y.node for y in ys])

            if n in s.proxied and r.random() < 0.8:
                v = Node('ext', [v], u'flex.messaging.io.ArrayCollection')

            m[s.ext(n)] = v
            want[n] = ('links', ys)
        elif not known and (r.random() < 0.6 or n in s.static):
            v = Node('list', [])

            if n in s.proxied and r.random() < 0.8:
                v = Node('ext', [v], u'flex.messaging.io.ArrayCollection')

            m[s.ext(n)] = v

    if r.random() < 0.3:
        m[u'dynamic'] = Node('str', u'd')
        want['dynamic'] = u'd'

    o = Sent(c, Node('obj', m, s.name), key, known, want)
    o.how = how
    pool.append(o)
    return o


def same(got, want):
    if want is NOT or got is NOT:
        return want is got
    if want is None or got is None:
        return want is got
    if isinstance(want, bool):
        return got is want
    if isinstance(want, (int, long, float, Decimal)):
        return not isinstance(got, (str, unicode)) and \
            float(got) == float(want)
    if isinstance(want, (datetime.date, datetime.time)):
        return type(got) is type(want) and got == want

    return isinstance(got, (str, unicode)) and got == want


def compare(o, x):
    """The decoded ``x`` against what was sent."""
    if o.obj is not None:
        return None if o.obj is x else 'two objects for one of the message'

    o.obj = x
    ck.count('decoded:' + o.how)
    ck.count('decoded:' + o.cls.__name__)

    if type(x) is not o.cls:
        return 'is a %r, expected %r' % (type(x), o.cls)

    pk = x.pk

    if not (pk == o.key and (pk is None) == (o.key is None)):
        return '%s: key %r, expected %r' % (o.cls.__name__, pk, o.key)

    for n in sorted(o.want):
        w = o.want[n]

        if isinstance(w, Sent):
            y = x.__dict__.get('_%s_cache' % n)

            if y is None:
                return '%s.%s is not the object sent' % (o.cls.__name__, n)

            d = compare(w, y)

            if not d and getattr(x, n + '_id') != y.pk and y.pk is not NOT:
                d = '%s.%s_id is %r, expected %r' % (
                    o.cls.__name__, n, getattr(x, n + '_id'), y.pk)
            if d:
                return d
        elif n in SPEC[o.cls].fks:
            if x.__dict__.get('_%s_cache' % n, 0) is not None or \
                    getattr(x, n + '_id') is not None:
                return '%s.%s is not None' % (o.cls.__name__, n)
        elif isinstance(w, tuple):
            keys = w[1] if w[0] == 'keys' else set([y.key for y in w[1]])
            got = set([y.pk for y in getattr(x, n).all()])

            if got != keys:
                return '%s.%s links to %r, expected %r' % (
                    o.cls.__name__, n, got, keys)
        else:
            got = getattr(x, n)

            if SPEC[o.cls].fields.get(n) == 'file':
                got = got.name

                if not got and not w:
                    continue
            if not same(got, w):
                return '%s.%s is %r, expected %r' % (
                    o.cls.__name__, n, got, w)


def decode_case(r, i):
    if i % 10 == 0:
        populate(r)

    enc = r.choice([0, 3])
    pool = []
    top = [make(r, enc, pool) for _ in range(r.randint(1, 3))]
    root = Node('list', [o.node for o in top])
    data = (refamf.write_amf3 if enc == 3 else refamf.write_amf0)([root], r)
    what = 'AMF%d %s\n%r' % (enc, refamf.show(root, 1200), data[:300])
    before = snapshot(ROW_TABLES)
    links = snapshot(M2M_TABLES)

    try:
        got = list(pyamf.decode(data, encoding=enc))[0]
    except Exception:
        import traceback
        ck.violate('decode', '%s\n%s' % (
            what, traceback.format_exc()[-2500:]))
        populate(r)
        return

    after = snapshot(ROW_TABLES)

    if after != before:
        ck.violate('decode-writes', 'decoding changed the rows of %r: %s' % (
            [t for t in before if before[t] != after[t]], what))
        populate(r)
        return

    for o, x in zip(top, got):
        d = compare(o, x)

        if d:
            ck.violate('decoded', '%s\n%s' % (d, what))
            return

    # only the lists that were sent are links that may have changed
    may = set()

    for o in pool:
        for n, w in o.want.items():
            if isinstance(w, tuple) and w[0] == 'links':
                may.add(o.cls._meta.get_field(n).rel.through._meta.db_table)

    now = snapshot(M2M_TABLES)
    bad = [t for t in links if links[t] != now[t] and t not in may]

    if bad:
        ck.violate('decode-writes', 'links changed in %r: %s' % (bad, what))

    ck.count('messages')
    ck.seen((enc, data), sample=what[:300])


def trip_case(r, i):
    """What is fetched, sent and read back is what is stored."""
    if i % 10 == 0:
        populate(r)

    enc = r.choice([0, 3])
    xs = []

    for _ in range(r.randint(1, 4)):
        c = choose(r, [c for c in DECODED if c is not app.Student], enc)
        q = c._default_manager.all()
        fks = [n for n in SPEC[c].fks if n != 'sequel']

        if fks and r.random() < 0.5:
            q = q.select_related(*fks)
        if STORED.get(c):
            xs.append(q.get(pk=r.choice(STORED[c])))

    before = snapshot(ROW_TABLES | M2M_TABLES)
    data = pyamf.encode(xs, encoding=enc).getvalue()
    what = 'AMF%d %r %r' % (enc, xs, data[:800])

    try:
        got = list(pyamf.decode(data, encoding=enc))[0]
    except Exception:
        import traceback
        ck.violate('trip-decode', '%s\n%s' % (
            what, traceback.format_exc()[-2500:]))
        return

    if snapshot(ROW_TABLES | M2M_TABLES) != before:
        ck.violate('trip-writes', what)
        return

    rows = {}

    for a, b in zip(xs, got):
        if type(b) is not type(a) or a.pk != b.pk:
            ck.violate('trip', '%r %r: %s' % (a, b, what))
            return

        for f in a._meta.concrete_fields:
            p, q = getattr(a, f.attname), getattr(b, f.attname)

            if isinstance(f, models.FileField):
                p, q = p.name, q.name
            if not same(q, p):
                ck.violate('trip', '%r.%s was %r, is %r: %s' % (
                    a, f.attname, p, q, what))
                return

        k = (type(a), a.pk)

        if k in rows:
            ck.check(rows[k] is b, 'trip-identity', what)
            ck.count('trip:identity')

        rows[k] = b

    # what is written back is what is stored
    if r.random() < 0.3:
        for b in got:
            b.save()

        if snapshot(ROW_TABLES | M2M_TABLES) != before:
            ck.violate('trip-save', 'saving what came back changes the '
                       'database: ' + what)
            populate(r)
            return

        ck.count('trip:saved')

    ck.count('trips')
    ck.seen((enc, data))


def lazy_case(r, i):
    """Translated strings are the text."""
    enc = r.choice([0, 3])
    t = word(r) + u'%d' % i
    s = ugettext_lazy(t)
    v = [s, {u'a': s}, t, ugettext_lazy(t)]
    data = pyamf.encode(v, encoding=enc).getvalue()
    nodes, _ = (refamf.read_amf3 if enc == 3 else refamf.read_amf0)(data)
    n = nodes[0].val
    texts = [n[0], n[1].val[u'a'], n[2], n[3]]
    ck.check([x.kind for x in texts] == ['str'] * 4 and
             [x.val for x in texts] == [t] * 4, 'lazy', '%r: %r' % (t, data))
    ck.count('lazy')
    ck.seen(('lazy', t, enc))


def cyclic(r=None):
    """The witness of the listed finding: friends of each other."""
    import random
    populate(random.Random(1))
    a = app.Student.objects.create(name='a')
    b = app.Student.objects.create(name='b')
    a.mates.add(b)
    store(app.Student, a)
    data = pyamf.encode(app.Student.objects.get(pk=a.pk),
                        encoding=3).getvalue()

    try:
        x = list(pyamf.decode(data, encoding=3))[0]
    except ValueError:
        return True

    return [y.pk for y in x.mates.all()] != [b.pk]


def main(ck):
    ck.run('encode', 6000, 200000, encode_case, 0.45)
    ck.run('decode', 6000, 200000, decode_case, 0.3)
    ck.run('trip', 4000, 100000, trip_case, 0.2)
    ck.run('lazy', 60, 600, lazy_case, 0.1)
    ck.probe('cyclic-many-to-many', cyclic)

    for c in ENCODED:
        ck.require('class:' + c.__name__, 8)

    for c in DECODED:
        ck.require('decoded:' + c.__name__, 5)

    ck.require('touched-parent', 4)

    for k in ('stored', 'changed', 'new', 'gone'):
        ck.require('decoded:' + k, 20)

    ck.require('objects', 400)
    ck.require('links', 60)
    ck.require('same-row', 30)
    ck.require('trips', 40)
    ck.require('trip:identity', 3)
    ck.require('trip:saved', 5)


vlib.main(ck, main)
