# -*- coding: utf-8 -*-
"""
As much of the sqlite3 module as Django's backend needs, over the SQLite JDBC
driver (Jython has no sqlite3 module). Every statement is logged.
"""

import decimal
import re

from java.lang import Class, Thread
from java.sql import DriverManager, SQLException, Statement
from java.util import Properties
import java.lang

version_info = (2, 6, 0)
sqlite_version_info = (3, 48, 0)
paramstyle = 'qmark'
PARSE_DECLTYPES = 1
PARSE_COLNAMES = 2

#: (sql, parameters) of everything executed
log = []


class Warning(StandardError):
    pass


class Error(StandardError):
    pass


class InterfaceError(Error):
    pass


class DatabaseError(Error):
    pass


class DataError(DatabaseError):
    pass


class OperationalError(DatabaseError):
    pass


class IntegrityError(DatabaseError):
    pass


class InternalError(DatabaseError):
    pass


class ProgrammingError(DatabaseError):
    pass


class NotSupportedError(DatabaseError):
    pass


converters = {}
adapters = {}


def register_converter(name, f):
    converters[name.lower()] = f


def register_adapter(cls, f):
    adapters[cls] = f


def Binary(x):
    return buffer(x)


def error(x):
    text = x.getMessage() or ''

    if 'CONSTRAINT' in text:
        return IntegrityError(text)

    return OperationalError(text)


def to_java(v):
    f = adapters.get(type(v))

    if f:
        v = f(v)
    if v is True or v is False:
        return java.lang.Long(int(v))
    if isinstance(v, (int, long)):
        return java.lang.Long(v)
    if isinstance(v, decimal.Decimal):
        return str(v)

    return v


def driver():
    # the driver is on the class path of the JVM
    return Class.forName('org.sqlite.JDBC').newInstance()


class Connection(object):
    def __init__(self, database, **kw):
        self.jdbc = driver().connect('jdbc:sqlite:' + database, Properties())
        self.isolation_level = ''
        self.open = False

    def create_function(self, *args):
        pass

    def cursor(self, factory=None):
        return (factory or Cursor)(self)

    def end(self, word):
        if self.open:
            s = self.jdbc.createStatement()

            try:
                s.executeUpdate(word)
            finally:
                s.close()

            self.open = False

    def commit(self):
        self.end('COMMIT')

    def rollback(self):
        self.end('ROLLBACK')

    def close(self):
        self.jdbc.close()


def connect(database, **kw):
    return Connection(database, **kw)


WRITES = re.compile(r'\s*(insert|update|delete|replace)\b', re.I)


class Cursor(object):
    arraysize = 1

    def __init__(self, connection):
        self.connection = connection
        self.rows = []
        self.at = 0
        self.description = None
        self.rowcount = -1
        self.lastrowid = None

    def execute(self, sql, params=()):
        log.append((sql, params))
        c = self.connection
        word = sql.strip().split(None, 1)[0].upper().rstrip(';')

        if word in ('COMMIT', 'ROLLBACK', 'END') and not c.open:
            return self
        if WRITES.match(sql) and c.isolation_level is not None \
                and not c.open:
            s = c.jdbc.createStatement()
            s.executeUpdate('BEGIN')
            s.close()
            c.open = True

        try:
            p = c.jdbc.prepareStatement(sql)

            try:
                for i, v in enumerate(params):
                    if v is None:
                        p.setNull(i + 1, 0)
                    else:
                        p.setObject(i + 1, to_java(v))

                if p.execute():
                    self.read(p.getResultSet())
                else:
                    self.rows = []
                    self.description = None
                    self.rowcount = p.getUpdateCount()
            finally:
                p.close()

            if word == 'BEGIN':
                c.open = True
            elif word in ('COMMIT', 'ROLLBACK', 'END') and 'TO' not in \
                    sql.upper().split():
                c.open = False
            elif word in ('INSERT', 'REPLACE'):
                s = c.jdbc.createStatement()
                r = s.executeQuery('select last_insert_rowid()')
                r.next()
                self.lastrowid = r.getLong(1)
                s.close()
        except SQLException, x:
            raise error(x)

        self.at = 0
        return self

    def executemany(self, sql, rows):
        n = 0

        for r in rows:
            self.execute(sql, r)
            n += self.rowcount

        self.rowcount = n
        return self

    def read(self, rs):
        meta = rs.getMetaData()
        n = meta.getColumnCount()
        names = [meta.getColumnLabel(i + 1) for i in range(n)]
        self.description = [(x, None, None, None, None, None, None)
                            for x in names]
        kinds = None
        self.rows = []
        self.rowcount = -1

        while rs.next():
            row = []

            for i in range(n):
                v = rs.getObject(i + 1)

                if v is not None:
                    kind = (meta.getColumnTypeName(i + 1) or '').lower()
                    f = converters.get(kind.split('(')[0].split(' ')[0])

                    if f:
                        v = f(v.encode('utf-8') if isinstance(v, unicode)
                              else str(v))
                    elif isinstance(v, bool):
                        v = int(v)
                    elif not isinstance(v, (unicode, int, long, float)):
                        v = buffer(v.tostring())

                row.append(v)

            self.rows.append(tuple(row))

    def fetchone(self):
        if self.at >= len(self.rows):
            return None

        self.at += 1
        return self.rows[self.at - 1]

    def fetchmany(self, size=None):
        got = self.rows[self.at:self.at + (size or self.arraysize)]
        self.at += len(got)
        return got

    def fetchall(self):
        got = self.rows[self.at:]
        self.at = len(self.rows)
        return got

    def __iter__(self):
        while self.at < len(self.rows):
            yield self.fetchone()

    def close(self):
        self.rows = []
