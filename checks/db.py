"""D01/D02: the task databases."""
import datetime
import types

from symx.core import And, Implies, Ite, Not, Or, Sum
from symx.reg import harness, raises_nothing
from symx.sets import load_shadowed, sym_len
from symx.core import sym_int
from fixtures.sql import SQLError, Where
from fixtures.wire import NullLog

OPS = ('eq', '$eq', '$ne', '$lt', '$lte', '$gt', '$gte', '$in', '$nin')


def _ref(op, null, v, args):
    """MongoDB semantics of one test over a field that may be null"""
    vals = [a for a in args if a is not None]
    hit = Or(*[And(Not(null), v == a) for a in vals], And(null, any(a is None for a in args)))
    if op in ('eq', '$eq', '$in'):
        return hit
    if op in ('$ne', '$nin'):
        return Not(hit)
    a = vals[0]
    if v is None:
        return False
    return And(Not(null), {'$lt': v < a, '$lte': v <= a, '$gt': v > a, '$gte': v >= a}[op])


def _query(ctx, fields, ops, maxin, null_in, most=2):
    """a query over the fields: ({field: check}, reference predicate over a row)"""
    check, tests = {}, []
    for f in fields:
        sub = {}
        n = ctx.choose(f'n_{f}', [0, 1, 2] if f == fields[0] else [0, 1] if len(tests) < most else [0])
        for k in range(n):
            left = [o for o in ops if o not in sub and (o != 'eq' or n == 1)]
            op = ctx.choose(f'op_{f}{k}', left)
            if op in ('$in', '$nin'):
                m = ctx.choose(f'len_{f}{k}', list(range(maxin + 1)))
                args = [_val(ctx, f'arg_{f}{k}{i}') for i in range(m)]
                if null_in and m and ctx.flip(f'null_{f}{k}'):
                    args[0] = None
                given = args if not ctx.flip(f'tuple_{f}{k}') else tuple(args)
            else:
                args = [_val(ctx, f'arg_{f}{k}')]
                if op in ('eq', '$eq', '$ne') and ctx.flip(f'null_{f}{k}'):
                    args = [None]
                given = args[0]
            if op == 'eq':
                sub = given
            else:
                sub[op] = given
            tests.append((f, op, args))
        if n:
            check[f] = sub
    return check, tests


def _val(ctx, name):
    v = ctx.int(name, 0, 9999)
    return v if ctx.symbolic else '%04d' % v


@harness('D01', 'dict', labels=('match', 'no match', 'null', 'two tests', 'two fields'),
         quick=({'recs': 1, 'maxin': 2},), thorough=({'recs': 1, 'maxin': 2, 'most': 3}, {'recs': 2, 'maxin': 2}),
         bounds='1 (2) records with unbounded symbolic or missing values in two fields; queries with up to 2 (3) tests on '
                'one or two fields, lists of up to 2 values')
def dict_query(ctx):
    from ipyparallel.controller.dictdb import DictDB

    db = DictDB(log=NullLog())
    rows = []
    for k in range(ctx.params['recs']):
        row = {}
        for f in ('label', 'queue'):
            row[f] = None if ctx.flip(f'null{k}{f}') else _val(ctx, f'v{k}{f}')
        rows.append(row)
        db.add_record(f'm{k}', dict(row, msg_id=f'm{k}', submitted=None))
    check, tests = _query(ctx, ('label', 'queue'), OPS, ctx.params['maxin'], True, ctx.params.get('most', 2))
    keys = ['queue'] if tests and ctx.flip('keys') else None
    with raises_nothing(ctx, f'find_records({check})'):
        got = db.find_records(check, keys)
    found = [r['msg_id'] for r in got]
    ctx.check(len(set(found)) == len(found), 'a record was found twice')
    for k, row in enumerate(rows):
        want = And(*[_ref(op, row[f] is None, row[f], args) for f, op, args in tests])
        isin = f'm{k}' in found
        ctx.check(want if isin else Not(want), f'query {check} on {row}: found={isin}')
        ctx.reach('match' if isin else 'no match')
        if None in row.values():
            ctx.reach('null')
    for r in got:
        row = rows[int(r['msg_id'][1:])]
        ctx.check(r['queue'] is row['queue'] or r['queue'] == row['queue'], 'content of the record found')
        if keys:
            ctx.check(set(r) == {'msg_id', 'queue'}, f'keys {sorted(r)}')
    if any(isinstance(c, dict) and len(c) == 2 for c in check.values()):
        ctx.reach('two tests')
    if len(check) == 2:
        ctx.reach('two fields')
    # dropping what matches leaves exactly the rest
    with raises_nothing(ctx, 'drop_matching_records'):
        db.drop_matching_records(check)
    ctx.check(set(db._records) == {f'm{k}' for k in range(len(rows))} - set(found), 'records left after dropping')


@harness('D01', 'sqlite', labels=('match', 'no match', 'null', 'empty'),
         quick=({'maxin': 2},), thorough=({'maxin': 3},),
         bounds='the WHERE clause rendered for any such query, evaluated under SQL semantics on a row with unbounded '
                'symbolic or NULL values', stubs='the SQL engine (three-valued logic over the rendered clause); replayed on real sqlite3')
def sqlite_query(ctx):
    from ipyparallel.controller.sqlitedb import SQLiteDB
    from fixtures.controller import Stub

    null = {}
    row = {}
    for f in ('label', 'queue'):
        null[f] = ctx.bool(f'null{f}')
        row[f] = _val(ctx, f'v{f}')
    check, tests = _query(ctx, ('label', 'queue'), OPS, ctx.params['maxin'], False)
    if any(op == '$in' and not args for _, op, args in tests) or not tests:
        ctx.reach('empty')
    want = And(*[_ref(op, null[f], row[f], args) for f, op, args in tests])
    if ctx.symbolic:
        db = Stub(SQLiteDB, _keys=list(SQLiteDB._keys.default_args[0]) if SQLiteDB._keys.default_args else
                  SQLiteDB._keys.make_dynamic_default(), table='t', log=NullLog())
        queries = []

        class Conn:
            def execute(self, q, args=()):
                queries.append((q, list(args)))
                return types.SimpleNamespace(fetchall=lambda: [])

        db._db = Conn()
        with raises_nothing(ctx, f'find_records({check})'):
            db.find_records(check)
            db.drop_matching_records(check)
        for q, args in queries:
            head, sep, where = q.partition(' WHERE ')
            ctx.check(not sep or where.strip(), f'query {check} gives bad SQL {q!r}')
            try:
                got = Where(where or '1', args, {f: (null[f], row[f]) for f in row}).run()
            except SQLError as e:
                ctx.fail(f'query {check} gives bad SQL {q!r}: {e}')
            ctx.check(Or(And(got, want), And(Not(got), Not(want))), f'query {check} is rendered as {where!r} {args}')
        for f in row:
            ctx.reach('null')
        ctx.reach('match')
        ctx.reach('no match')
    else:
        import shutil
        import tempfile

        d = tempfile.mkdtemp()
        try:
            db = _sqlite(d)
            db.add_record('m0', {f: None if null[f] else row[f] for f in row})
            with raises_nothing(ctx, f'find_records({check})'):
                got = [r['msg_id'] for r in db.find_records(check)]
            ctx.check(bool(got) == bool(want), f'query {check} on {null} {row}: found {got}')
            db._db.close()
        finally:
            shutil.rmtree(d)


def _sqlite(d):
    from tornado import ioloop
    from ipyparallel.controller import sqlitedb
    from fixtures.wire import Patch

    with Patch((sqlitedb.ioloop, 'PeriodicCallback', lambda *a, **k: types.SimpleNamespace(start=lambda: None))):
        return sqlitedb.SQLiteDB(location=d, filename='t.db', log=NullLog())


class SymDate:
    """a timezone-aware datetime: an instant and an offset from UTC, both symbolic"""

    def __init__(self, t, off):
        self.t, self.off = t, off

    @property
    def __class__(self):
        return datetime.datetime

    @property
    def tzinfo(self):
        return self

    def astimezone(self, tz=None):
        if tz is None:
            return SymDate(self.t, self.off)
        o = tz.utcoffset(None)
        return SymDate(self.t, int(o.total_seconds()))

    def utcoffset(self):
        return self.off

    def isoformat(self, *a, **k):
        return SymText(self.t + self.off, self.off)


class SymText:
    """its ISO 8601 text: ordered by the local time it shows, then by the text of the offset"""

    def __init__(self, local, off):
        self.local, self.off = local, off


@harness('D01', 'dates', labels=('mixed offsets',), quick=({},),
         bounds='all pairs of instants (unbounded) and UTC offsets in +-14 h', stubs='datetime (an instant and an offset); '
         'sqlite3 compares the adapted texts; replayed with real datetimes')
def dates(ctx):
    from ipyparallel.controller.sqlitedb import _adapt_timestamp, _convert_timestamp

    t = [ctx.int(f't{k}', 0, 10**9) for k in range(2)]
    off = [ctx.int(f'off{k}', -14 * 60, 14 * 60) * 60 for k in range(2)]
    if ctx.symbolic:
        x = [_adapt_timestamp(SymDate(t[k], off[k])) for k in range(2)]
        ctx.check(all(isinstance(i, SymText) for i in x), 'timestamps are stored as ISO text')
        lt = x[0].local < x[1].local
        gt = x[0].local > x[1].local
        ctx.check(And(Implies(t[0] < t[1], lt), Implies(t[0] > t[1], gt)),
                  'texts of timestamps are ordered like the timestamps')
        ctx.reach('mixed offsets')
    else:
        d = [datetime.datetime.fromtimestamp(t[k], datetime.timezone(datetime.timedelta(seconds=off[k]))) for k in range(2)]
        x = [_adapt_timestamp(i) for i in d]
        ctx.check((x[0] < x[1]) == (d[0] < d[1]) or d[0] == d[1], f'{x[0]} < {x[1]}, but {d[0]} < {d[1]} is {d[0] < d[1]}')
        ctx.check(all(_convert_timestamp(a) == b for a, b in zip(x, d)), 'timestamp round trip')


class Buf:
    """a buffer of symbolic length"""

    def __init__(self, n):
        self.n = n

    def __symlen__(self):
        return self.n

    def __len__(self):
        return int(self.n)

    def __deepcopy__(self, memo):
        return self


class _When(datetime.datetime):
    pass


@harness('D02', 'culling', labels=('count', 'size', 'kept', 'updated', 'dropped', 'culled update'),
         quick=({'ops': 4},), thorough=({'ops': 5},),
         bounds='all sequences of 4 (5) adds, updates and drops; buffer lengths, both limits and the cull fraction are '
                'unbounded symbolic numbers (the record limit up to 3)')
def culling(ctx):
    mod = load_shadowed('ipyparallel.controller.dictdb', {'len': sym_len, 'int': sym_int}, 'symx_dictdb')
    db = mod.DictDB(log=NullLog())
    db._culled_ids = set()
    size = ctx.int('size_limit', 1)
    limit = ctx.int('record_limit', 1, 3)
    frac = ctx.real('cull_fraction', 0, 1)
    ctx.assume(frac > 0)
    ctx.assume(frac < 1)
    db._trait_values.update(size_limit=size, record_limit=limit, cull_fraction=frac)
    T0 = datetime.datetime(2024, 1, 1, tzinfo=datetime.timezone.utc)
    live = {}  # id -> [bytes, when]
    gone = set()
    n = 0
    for k in range(ctx.params['ops']):
        opts = ['add'] + ['update'] * bool(live) + ['drop'] * bool(live) + ['late'] * bool(gone)
        op = ctx.choose(f'op{k}', opts)
        if op == 'add':
            i = f'm{n}'
            n += 1
            b = ctx.int(f'len{k}', 0)
            # submission times need not be in the order of arrival
            when = T0 + datetime.timedelta(seconds=10 * n - (15 if n > 1 and ctx.flip(f'older{k}') else 0))
            live[i] = [b, 0, when]
            with raises_nothing(ctx, f'add {i}'):
                db.add_record(i, {'msg_id': i, 'submitted': when, 'buffers': [Buf(b)], 'result_buffers': None})
        elif op == 'update':
            i = ctx.choose(f'which{k}', sorted(live))
            b = ctx.int(f'rlen{k}', 0)
            live[i][1] = b
            with raises_nothing(ctx, f'update {i}'):
                db.update_record(i, {'result_buffers': [Buf(b)], 'completed': T0})
            ctx.reach('updated')
        elif op == 'drop':
            i = ctx.choose(f'which{k}', sorted(live))
            with raises_nothing(ctx, f'drop {i}'):
                if ctx.flip(f'how{k}'):
                    db.drop_record(i)
                else:
                    db.drop_matching_records({'msg_id': i})
            del live[i]
            ctx.reach('dropped')
        else:
            i = ctx.choose(f'which{k}', sorted(gone))
            try:
                db.update_record(i, {'completed': T0})
            except KeyError:
                ctx.reach('culled update')
            else:
                ctx.fail('updating a culled record does nothing but does not say so')
            try:
                db.get_record(i)
            except KeyError:
                pass
            else:
                ctx.fail(f'a culled record {i} came back')
        # what was culled: the oldest ones
        now = set(db._records)
        ctx.check(now <= set(live), f'records {now}')
        culled = set(live) - now
        order = sorted(live, key=lambda i: live[i][2])
        ctx.check(set(order[:len(culled)]) == culled, f'culled {sorted(culled)} of {order}')
        total = Sum([x for i in live for x in live[i][:2]])
        if culled:
            over_n = len(live) > limit
            over_b = total > size
            ctx.check(Or(over_n, over_b), f'culled {sorted(culled)} although within the limits')
            # and no more of them than it takes
            newest = order[len(culled) - 1]
            left = Sum([x for i in now for x in live[i][:2]] + live[newest][:2])
            ctx.check(Or(And(over_n, Or(len(culled) <= frac * limit, len(culled) <= len(live) - limit)),
                         left >= size * (1 - frac)), f'culled {sorted(culled)}, more than it takes')
            ctx.reach('count' if len(culled) and bool(over_n) else 'size')
        else:
            ctx.reach('kept')
        gone |= culled
        for i in culled:
            del live[i]
        total = Sum([x for i in live for x in live[i][:2]])
        ctx.check(len(live) <= limit, f'{len(live)} records')
        ctx.check(total <= size, 'more buffer bytes than the limit')
        ctx.check(db._buffer_bytes == total, 'accounted buffer bytes')
        h = db.get_history()
        ctx.check(h == sorted(live, key=lambda i: live[i][2]), f'history {h}')


@harness('D01', 'operators', labels=('$exists', '$mod', '$all', 'null', 'match', 'no match'), quick=({},),
         bounds='one record whose field is unset, any integer, or a list of up to 2 integers; $exists, $mod and $all with '
                'symbolic arguments (modulus up to 4)')
def operators(ctx):
    from ipyparallel.controller.dictdb import DictDB

    db = DictDB(log=NullLog())
    op = ctx.choose('op', ['$exists', '$mod', '$all'])
    if op == '$all':
        v = [ctx.int(f'v{k}', 0, 99) for k in range(ctx.choose('n', [0, 1, 2]))]
    else:
        v = ctx.int('v', 0, 99)
    if ctx.flip('null'):
        v = None
        ctx.reach('null')
    db.add_record('m0', {'msg_id': 'm0', 'submitted': None, 'label': v})
    if op == '$exists':
        arg = ctx.flip('arg')
        want = arg == (v is not None)
    elif op == '$mod':
        arg = [ctx.choose('mod', [1, 2, 3, 4]), ctx.int('rem', 0, 4)]
        want = False if v is None else (v % arg[0] == arg[1])
    else:
        arg = [ctx.int(f'a{k}', 0, 99) for k in range(ctx.choose('m', [0, 1, 2]))]
        want = False if v is None else And(*[Or(*[x == a for x in v]) for a in arg])
    with raises_nothing(ctx, f'{op} {arg} on {v}'):
        got = [r['msg_id'] for r in db.find_records({'label': {op: arg}})]
    ctx.check(want if got == ['m0'] else Not(want), f'{op} {arg} on {v}: found {got}')
    ctx.reach(op)
    ctx.reach('match' if got else 'no match')
