"""The real SQLite backend over a real in-memory (or scratch) database.

The database only stores and returns what is in a record, apart from msg_id and the times, so a symbolic value is
handed to sqlite3 as an opaque token and put back where the token comes out again.  SQL that looks into such a value
(compares, orders, concatenates) would see the token: harnesses only query by concrete fields."""
import json as _json
import pickle as _pickle
import re
import sqlite3 as _sqlite3
import types

from symx.core import SymBool, SymInt, SymReal, SymStr
from fixtures.wire import Patch

SYM = (SymInt, SymBool, SymReal, SymStr)
MARK = re.compile('^\x02sym:(\\d+)\x03$')


class Tokens:
    def __init__(self):
        self.vals = []

    def enc(self, x):
        if isinstance(x, SYM):
            self.vals.append(x)
            return f'\x02sym:{len(self.vals) - 1}\x03'
        if type(x) is dict:
            return {self.enc(k): self.enc(v) for k, v in x.items()}
        if type(x) in (list, tuple):
            return type(x)(self.enc(v) for v in x)
        return x

    def dec(self, x):
        if type(x) is str:
            m = MARK.match(x)
            return self.vals[int(m.group(1))] if m else x
        if type(x) is dict:
            return {self.dec(k): self.dec(v) for k, v in x.items()}
        if type(x) in (list, tuple):
            return type(x)(self.dec(v) for v in x)
        return x


class Kit:
    """`with kit.patch(): db = kit.open(...)`"""

    def __init__(self, where=':memory:'):
        self.tok = tok = Tokens()
        self.commits = []  # the periodic callbacks
        self.where = where
        kit = self

        class Cursor(_sqlite3.Cursor):
            def execute(self, sql, args=()):
                args = {k: tok.enc(v) for k, v in args.items()} if isinstance(args, dict) else tuple(map(tok.enc, args))
                return super().execute(sql, args)

            def executemany(self, sql, rows):
                return super().executemany(sql, [tuple(map(tok.enc, r)) for r in rows])

            def fetchone(self):
                r = super().fetchone()
                return None if r is None else tok.dec(r)

            def fetchmany(self, *a):
                return [tok.dec(r) for r in super().fetchmany(*a)]

            def fetchall(self):
                return [tok.dec(r) for r in super().fetchall()]

            def __next__(self):
                return tok.dec(super().__next__())

        class Conn(_sqlite3.Connection):
            def cursor(self, factory=Cursor):
                return super().cursor(factory)

            def execute(self, *a):
                return self.cursor().execute(*a)

            def executemany(self, *a):
                return self.cursor().executemany(*a)

        def connect(path, *a, **kw):
            kw['factory'] = Conn
            kit.conn = _sqlite3.connect(path if kit.where is None else kit.where, *a, **kw)
            return kit.conn

        class Periodic:
            def __init__(self, cb, period, *a, **k):
                self.cb, self.period, self.on = cb, period, False
                kit.commits.append(self)

            def start(self):
                self.on = True

            def stop(self):
                self.on = False

        self.periodic = Periodic
        ns = types.SimpleNamespace
        self.sqlite3 = type('sqlite3', (), {'__getattr__': lambda s, n: getattr(_sqlite3, n), 'connect': staticmethod(connect)})()
        self.json = type('json', (), {
            '__getattr__': lambda s, n: getattr(_json, n),
            'dumps': staticmethod(lambda x, *a, **k: _json.dumps(tok.enc(x), *a, **k)),
            'loads': staticmethod(lambda x, *a, **k: tok.dec(_json.loads(x, *a, **k)))})()
        self.pickle = type('pickle', (), {
            '__getattr__': lambda s, n: getattr(_pickle, n),
            'dumps': staticmethod(lambda x, *a, **k: _pickle.dumps(tok.enc(x), *a, **k)),
            'loads': staticmethod(lambda x, *a, **k: tok.dec(_pickle.loads(x, *a, **k)))})()
        self.ioloop = ns(PeriodicCallback=Periodic, IOLoop=None)

    def patch(self):
        from ipyparallel.controller import sqlitedb as S

        tok, dates = self.tok, getattr(S, 'extract_dates', None)
        more = [] if dates is None else [(S, 'extract_dates', lambda x: tok.dec(dates(tok.enc(x))))]
        return Patch(*more, (S, 'sqlite3', self.sqlite3), (S, 'json', self.json), (S, 'pickle', self.pickle),
                     (S.ioloop, 'PeriodicCallback', self.periodic))

    def open(self, **kw):
        from ipyparallel.controller.sqlitedb import SQLiteDB
        from fixtures.wire import NullLog

        kw.setdefault('log', NullLog())
        kw.setdefault('location', '.')
        return SQLiteDB(**kw)
