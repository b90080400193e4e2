"""A stand-in for the MySQL driver: MySQLdb.connect backed by SQLite files of the scratch directory.

It has what the generic storage depends on: %s parameters, autocommit off by default, begin(), the row count of an
update that does not count unchanged rows, results stored at execute, statements that create tables committing what
is open, and its own exception classes. It does not have MySQL's collations or key lengths."""

import os
import re
import sqlite3
import urllib.parse

import MySQLdb
import _mysql_exceptions as ex

import store

DIR = None
calls = []
charsets = []


RANGES = {'TINYINT': 7, 'SMALLINT': 15, 'MEDIUMINT': 23, 'INT': 31, 'INTEGER': 31, 'BIGINT': 63}
TYPED = re.compile(r'\b(\w+)\s+(TINYINT|SMALLINT|MEDIUMINT|INT|INTEGER|BIGINT|VARCHAR)\b(?:\s*\((\d+)\))?(\s+UNSIGNED)?', re.I)
CHARSET = re.compile(r'\b(?:CHARSET|CHARACTER\s+SET)\s*=?\s*(\w+)', re.I)


def typed(m):
    """A column of SQLite that refuses the values that this column of MySQL can not hold."""
    name, kind, n, unsigned = m.group(1), m.group(2).upper(), m.group(3), m.group(4)
    if kind == 'VARCHAR':
        return '%s VARCHAR(%s) CHECK (length(%s) <= %s)' % (name, n, name, n)
    if kind == 'BIGINT' and not unsigned:
        return '%s BIGINT' % name
    lo, hi = (0, 2 ** (RANGES[kind] + 1) - 1) if unsigned else (-2 ** RANGES[kind], 2 ** RANGES[kind] - 1)
    return '%s %s CHECK (%s BETWEEN %d AND %d)' % (name, kind, name, lo, min(hi, 2 ** 63 - 1))


def translate(sql):
    if re.match(r'\s*(CREATE|ALTER)\b', sql, re.I):
        for charset in CHARSET.findall(sql):
            charsets.append(charset.lower())
        sql = TYPED.sub(typed, sql)
    s = re.sub(r'\)\s*ENGINE\s*=\s*\w+[^;]*;?\s*$', ')', sql.strip(), flags=re.I)
    s = re.sub(r'PRIMARY KEY \((\w+)\(\d+\)\)', r'PRIMARY KEY (\1)', s, flags=re.I)
    return s


DDL = re.compile(r'\s*(CREATE|ALTER|DROP|TRUNCATE|RENAME)\b', re.I)
UPDATE = re.compile(r'\s*UPDATE\s+(\w+)\b', re.I)


class Cursor(object):
    def __init__(self, conn):
        self.connection = conn
        self.rows = []
        self.pos = 0
        self.rowcount = -1
        self.closed = False
        self.lastrowid = None

    def execute(self, sql, args=None):
        if self.closed:
            raise ex.ProgrammingError(2013, 'cursor is closed')
        if isinstance(sql, bytes):
            sql = sql.decode('utf-8')
        if args is not None:
            if '?' in sql:
                raise ex.ProgrammingError(1064, 'You have an error in your SQL syntax near ?')
            if not isinstance(args, (list, tuple)):
                args = (args,)
            if sql.count('%s') != len(args):
                raise ex.ProgrammingError('not all arguments converted during bytes formatting')
            for a in args:
                if isinstance(a, str):
                    self.encodable(a)
            sql = sql.replace('%s', '?').replace('%%', '%')
        self.rows, self.pos, self.rowcount = self.connection._run(translate(sql), tuple(args or ()))
        return self.rowcount

    def encodable(self, a):
        for c in set(charsets):
            if c in ('latin1', 'ascii'):
                try:
                    a.encode(c)
                except UnicodeError:
                    raise ex.OperationalError(1366, 'Incorrect string value')

    def executemany(self, sql, rows):
        n = 0
        for r in rows:
            n += self.execute(sql, r)
        self.rowcount = n
        return n

    def fetchone(self):
        if self.pos < len(self.rows):
            self.pos += 1
            return self.rows[self.pos - 1]
        return None

    def fetchall(self):
        rest = self.rows[self.pos:]
        self.pos = len(self.rows)
        return tuple(rest)

    def fetchmany(self, size=1):
        rest = self.rows[self.pos:self.pos + size]
        self.pos += len(rest)
        return tuple(rest)

    def __iter__(self):
        return iter(self.fetchone, None)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()


class Connection(object):
    def __init__(self, path):
        self.raw = store._real_connect(path, isolation_level=None, timeout=2)
        self.auto = False
        self.open = True

    def _run(self, sql, args):
        if not self.open:
            raise ex.OperationalError(2006, 'MySQL server has gone away')
        try:
            c = self.raw.cursor()
            if DDL.match(sql):
                if self.raw.in_transaction:
                    self.raw.execute('COMMIT')
            elif not self.auto and not self.raw.in_transaction and not re.match(r'\s*(BEGIN|COMMIT|ROLLBACK|START)', sql, re.I):
                c.execute('BEGIN')
            sql = re.sub(r'^\s*START TRANSACTION\b.*', 'BEGIN', sql, flags=re.I)
            if re.match(r'\s*(COMMIT|ROLLBACK)', sql, re.I) and not self.raw.in_transaction:
                return [], 0, 0
            m = UPDATE.match(sql)
            before = c.execute('SELECT rowid, * FROM %s' % m.group(1)).fetchall() if m else None
            c.execute(sql, args)
            rows = c.fetchall() if c.description else []
            if m:
                after = c.execute('SELECT rowid, * FROM %s' % m.group(1)).fetchall()
                count = len(set(after) - set(before))
            elif c.description:
                count = len(rows)
            else:
                count = max(c.rowcount, 0)
            return rows, 0, count
        except sqlite3.IntegrityError as e:
            if 'CHECK' in str(e):
                raise ex.DataError(1264, 'Out of range value for column: %s' % e)
            raise ex.IntegrityError(1062, str(e))
        except sqlite3.OperationalError as e:
            if 'syntax' in str(e) or 'no such' in str(e):
                raise ex.ProgrammingError(1064, str(e))
            raise ex.OperationalError(1050, str(e))
        except sqlite3.Error as e:
            raise ex.ProgrammingError(1064, str(e))

    def cursor(self, *_):
        return Cursor(self)

    def autocommit(self, on):
        if self.raw.in_transaction:
            self.raw.execute('COMMIT')
        self.auto = bool(on)

    def get_autocommit(self):
        return self.auto

    def begin(self):
        if self.raw.in_transaction:
            self.raw.execute('COMMIT')
        self.raw.execute('BEGIN')

    def commit(self):
        if self.raw.in_transaction:
            self.raw.execute('COMMIT')

    def rollback(self):
        if self.raw.in_transaction:
            self.raw.execute('ROLLBACK')

    def query(self, sql):
        self._run(translate(sql), ())

    def ping(self, *_):
        pass

    def close(self):
        if self.open:
            self.open = False
            self.raw.close()

    def set_character_set(self, *_):
        pass


def database(**kw):
    """Where the database of these parameters is kept."""
    return os.path.join(DIR, urllib.parse.quote('%s,%s,%s' % (kw.get('host'), kw.get('user'), kw.get('db')), safe='') + '.mysql')


def connect(*args, **kwargs):
    names = ('host', 'user', 'passwd', 'db')
    for n, v in zip(names, args):
        kwargs[n] = v
    if 'password' in kwargs:
        kwargs['passwd'] = kwargs.pop('password')
    if 'database' in kwargs:
        kwargs['db'] = kwargs.pop('database')
    calls.append({n: kwargs.get(n) for n in names})
    conn = Connection(database(**kwargs))
    if kwargs.get('autocommit'):
        conn.autocommit(True)
    store.Hooks.made.append(conn)
    return conn


def install(directory):
    global DIR
    DIR = directory
    MySQLdb.connect = connect
    MySQLdb.Connect = connect
