# -*- coding: utf-8 -*-
"""Models for C33."""

from django.db import models


class Author(models.Model):
    name = models.CharField(max_length=100)
    born = models.DateField(null=True)
    wakes = models.TimeField(null=True)
    seen = models.DateTimeField(null=True)
    score = models.FloatField(null=True)
    active = models.BooleanField(default=False)
    maybe = models.NullBooleanField()
    level = models.IntegerField(default=0)
    big = models.BigIntegerField(default=0)
    ratio = models.DecimalField(max_digits=12, decimal_places=3, null=True)
    note = models.TextField(default='', blank=True)

    @property
    def shout(self):
        return self.name.upper()

    def _get_nick(self):
        return self.__dict__.get('_nick', u'none')

    def _set_nick(self, v):
        self.__dict__['_nick'] = v

    nick = property(_get_nick, _set_nick)

    def method(self):
        return 1


class Tag(models.Model):
    slug = models.CharField(max_length=40, primary_key=True)
    label = models.CharField(max_length=40, default='')


class Book(models.Model):
    title = models.CharField(max_length=100)
    author = models.ForeignKey(Author, null=True, related_name='books')
    editor = models.ForeignKey(Author, null=True, related_name='edited',
                               db_column='ed')
    tags = models.ManyToManyField(Tag)
    sequel = models.ForeignKey('self', null=True)
    scan = models.FileField(upload_to='scans', blank=True)


class Profile(models.Model):
    author = models.OneToOneField(Author)
    text = models.CharField(max_length=50)


class Place(models.Model):
    name = models.CharField(max_length=50)
    address = models.CharField(max_length=80)


class Restaurant(Place):
    pizza = models.BooleanField(default=False)
    dishes = models.ManyToManyField(Tag)


class Diner(Restaurant):
    stars = models.IntegerField(default=0)


class Common(models.Model):
    name = models.CharField(max_length=100)
    age = models.PositiveIntegerField(null=True)

    class Meta:
        abstract = True


class Student(Common):
    group = models.CharField(max_length=5)
    mates = models.ManyToManyField('self')


class Plain(models.Model):
    """Not registered."""

    name = models.CharField(max_length=100)
    other = models.ForeignKey(Author, null=True)


class Guarded(models.Model):
    """With declarations."""

    secret = models.CharField(max_length=40, default='')
    fixed = models.CharField(max_length=40, default='')
    free = models.CharField(max_length=40, default='')

    class __amf__:
        exclude = ('secret',)
        readonly = ('fixed',)


class ProxyAuthor(Author):
    class Meta:
        proxy = True


class Keyed(models.Model):
    code = models.CharField(max_length=20, primary_key=True)
    what = models.CharField(max_length=20, default='')


class Special(Keyed):
    extra = models.IntegerField(default=0)


class Managed(models.Model):
    name = models.CharField(max_length=20, default='')

    people = models.Manager()


class ProxyDiner(Diner):
    class Meta:
        proxy = True


class Veiled(models.Model):
    """Relations with declarations."""

    name = models.CharField(max_length=20, default='')
    author = models.ForeignKey(Author, null=True, related_name='veiled')
    editor = models.ForeignKey(Author, null=True, related_name='veils')
    tags = models.ManyToManyField(Tag)
    marks = models.ManyToManyField(Tag, related_name='marked')

    class __amf__:
        exclude = ('author', 'tags')
        readonly = ('editor', 'marks')


class Renamed(models.Model):
    """Other names for everything."""

    ident = models.AutoField(primary_key=True)
    born = models.DateField(null=True)
    wakes = models.TimeField(null=True)
    seen = models.DateTimeField(null=True)
    plain = models.DateField(null=True)
    scan = models.FileField(upload_to='scans', blank=True)
    author = models.ForeignKey(Author, null=True, related_name='renamed')
    tags = models.ManyToManyField(Tag)

    class __amf__:
        synonym = {
            'ident': 'key', 'born': 'birth', 'wakes': 'alarm',
            'seen': 'last', 'scan': 'copy', 'author': 'writer',
            'tags': 'labels'}


class Proxied(models.Model):
    """Static and proxied members."""

    name = models.CharField(max_length=20, default='')
    born = models.DateField(null=True)
    tags = models.ManyToManyField(Tag)
    marks = models.ManyToManyField(Tag, related_name='marked_too')
    author = models.ForeignKey(Author, null=True, related_name='proxies')

    class __amf__:
        static = ('name', 'born')
        proxy = ('tags', 'author')


ALL = [Author, Tag, Book, Profile, Place, Restaurant, Diner, Student, Plain,
       Guarded, Keyed, Special, Managed, Veiled, Renamed, Proxied]
