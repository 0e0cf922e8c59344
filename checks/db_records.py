"""D03: the task databases keep records as they were written."""
import datetime
import shutil
import tempfile

from symx.core import And, Or
from symx.reg import harness, raises_nothing
from fixtures.sqlite import Kit
from fixtures.wire import NullLog

T0 = datetime.datetime(2024, 1, 1, 12, tzinfo=datetime.timezone.utc)
EAST = datetime.timezone(datetime.timedelta(hours=5, minutes=30))
COLS = ('msg_id', 'header', 'metadata', 'content', 'buffers', 'submitted', 'client_uuid', 'engine_uuid', 'started', 'completed',
        'resubmitted', 'received', 'result_header', 'result_metadata', 'result_content', 'result_buffers', 'queue',
        'execute_input', 'execute_result', 'error', 'stdout', 'stderr', 'label')


def _bufs(x):
    return [bytes(b) for b in x or []]


def _flat(ctx, a, b, what):
    """`a` read back for `b` written"""
    if isinstance(b, dict):
        ctx.check(isinstance(a, dict) and set(a) == set(b), f'{what}: {a!r}, written as {b!r}')
        for k in b:
            _flat(ctx, a[k], b[k], f'{what}.{k}')
    elif isinstance(b, (list, tuple)):
        ctx.check(isinstance(a, (list, tuple)) and len(a) == len(b), f'{what}: {a!r}, written as {b!r}')
        for i, (x, y) in enumerate(zip(a, b)):
            _flat(ctx, x, y, f'{what}[{i}]')
    elif isinstance(b, datetime.datetime):
        ctx.check(isinstance(a, datetime.datetime) and a.tzinfo is not None and a == b, f'{what}: {a!r}, written as {b!r}')
    elif b is None or isinstance(b, (str, bool)):
        ctx.check(a is b or type(a) is type(b) and a == b, f'{what}: {a!r}, written as {b!r}')
    else:
        ctx.check(a is not None and a == b, f'{what}: {a!r}, written as {b!r}')


def _same(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) >= set(b) and And(*[
            _bufs(a[k]) == _bufs(b[k]) if k in ('buffers', 'result_buffers') else _same(a[k], b[k]) for k in b])
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and And(*[_same(x, y) for x, y in zip(a, b)])
    if b is None or a is None:
        return a is b
    return a == b


def _record(ctx, got, want, what):
    for k, v in want.items():
        ctx.check(k in got, f'{what}: no {k}')
        if k in ('buffers', 'result_buffers'):
            ctx.check(_bufs(got[k]) == _bufs(v), f'{what}: {k} is {got[k]!r}, written as {v!r}')
        else:
            _flat(ctx, got[k], v, f'{what}: {k}')


class Store:
    """one database over the restarts of its controller"""

    def __init__(self, ctx, backend):
        self.ctx, self.backend = ctx, backend
        self.dir = tempfile.mkdtemp(dir='/dev/shm') if backend == 'sqlite' else None
        self.kit = Kit(where=None)
        self.sessions = 0
        self.db = None

    def open(self, **kw):
        with raises_nothing(self.ctx, 'opening the database'):
            if self.backend == 'dict':
                from ipyparallel.controller.dictdb import DictDB

                self.db = DictDB(log=NullLog(), **kw)
            else:
                self.sessions += 1
                kw.setdefault('session', f'sess-{self.sessions}')
                self.db = self.kit.open(location=self.dir, **kw)
                self.ctx.check(any(p.on for p in self.kit.commits), 'records are never committed')

    def kill(self):
        """the process dies: what was not committed is gone"""
        self.kit.conn.close()
        self.kit.commits.clear()
        self.db = None

    def close(self):
        with raises_nothing(self.ctx, 'closing the database'):
            self.db.close()
        if self.backend == 'sqlite':
            for p in self.kit.commits:
                self.ctx.check(not p.on, 'the database is still committed after it was closed')
            self.kit.commits.clear()

    def tick(self):
        for p in list(self.kit.commits):
            if p.on:
                with raises_nothing(self.ctx, 'commit'):
                    p.cb()


def _new(ctx, k, n, same=False):
    from ipyparallel.controller.hub import init_record

    form = 0 if same else ctx.choose(f'form{n}', [0, 1, 2])
    bufs = [[], [b'one'], [memoryview(b'two\x00'), b'', b'\xff']][form]
    when = (T0 - datetime.timedelta(minutes=k, microseconds=k)).astimezone(EAST) if form == 1 else T0 + datetime.timedelta(minutes=k)
    a = ctx.int(f'a{n}')
    header = {'msg_id': f'm{k}', 'session': 'cli', 'date': when, 'username': "o'neil", 'msg_type': 'apply_request', 'v': a}
    msg = {'header': header, 'metadata': {'label': 'L', 'n': None}, 'content': {'x': [a, {'y': 'ü"%'}], 'code': ''},
           'buffers': bufs, 'msg_id': f'm{k}', 'parent_header': {}}
    rec = init_record(msg)
    rec['label'] = ctx.enum(f'label{n}', ['', 'lab', "'; DROP"]) if form else None
    rec['client_uuid'] = 'cli'
    rec['queue'] = 'task'
    want = dict(rec, buffers=_bufs(bufs))
    return rec, want


def _change(ctx, k, n):
    what = ctx.choose(f'change{n}', ['result', 'output', 'engine', 'again', 'clear'])
    b = ctx.int(f'b{n}')
    t = T0 + datetime.timedelta(hours=n, microseconds=1)
    if what == 'result':
        bufs = [memoryview(b'r'), b's'] if n % 2 else []
        d = {'result_header': {'msg_id': f'r{k}', 'date': t, 'b': b}, 'result_metadata': {'engine': 'e', 'started': t},
             'result_content': {'status': 'ok', 'b': [b]}, 'result_buffers': bufs, 'started': t, 'completed': t, 'received': t}
        return d, dict(d, result_buffers=_bufs(bufs))
    if what == 'output':
        s = ctx.enum(f's{n}', ['', 'out\n', 'é\x00'])
        d = {'stdout': s, 'stderr': 'e"\'', 'execute_input': 'a = "?"', 'execute_result': {'data': {'text/plain': 'r'}, 'b': b}, 'error': {'ename': 'E', 'evalue': 'no'}}
    elif what == 'engine':
        d = {'engine_uuid': ctx.enum(f'e{n}', ['e0', 'e1'])}
    elif what == 'again':
        d = {'resubmitted': f'new{n}', 'queue': 'mux'}
    else:
        d = {'engine_uuid': None, 'completed': None, 'label': None, 'result_content': None}
        ctx.reach('cleared')
    return d, d


def _compare(ctx, st, model, what):
    db = st.db
    ids = sorted(model)
    for i in ids:
        with raises_nothing(ctx, f'{what}: get_record({i})'):
            got = db.get_record(i)
        _record(ctx, got, model[i], f'{what}: {i}')
        # it is a copy
        if isinstance(got.get('content'), dict):
            got['content']['x'] = got['stdout'] = 'changed'
    for i in ('m0', 'm1', 'm2'):
        if i not in model:
            try:
                db.get_record(i)
            except KeyError:
                pass
            else:
                ctx.fail(f'{what}: there is a record {i}')
    with raises_nothing(ctx, what):
        found = db.find_records({'msg_id': {'$ne': 'nosuch'}})
        hist = db.get_history()
    ctx.check(sorted(r['msg_id'] for r in found) == ids, f'{what}: found {[r["msg_id"] for r in found]}')
    for r in found:
        _record(ctx, r, model[r['msg_id']], f'{what}: {r["msg_id"]} as found')
    ctx.check(hist == sorted(ids, key=lambda i: model[i]['submitted']), f'{what}: history {hist}')
    for i in ids:
        keys = ['label', 'result_buffers', 'header', 'submitted']
        with raises_nothing(ctx, what):
            r = db.find_records({'msg_id': i}, keys)
        ctx.check(len(r) == 1 and set(r[0]) == {'msg_id', 'label', 'result_buffers', 'header', 'submitted'}, f'{what}: {r}')
        _record(ctx, r[0], {k: model[i][k] for k in r[0]}, f'{what}: some keys of {i}')


@harness('D03', 'records', labels=('cleared', 'updated', 'dropped', 'twice', 'restarted', 'killed', 'two records'),
         quick=({'backend': 'dict', 'ops': 3}, {'backend': 'sqlite', 'ops': 3}),
         thorough=({'backend': 'dict', 'ops': 4}, {'backend': 'sqlite', 'ops': 4}),
         bounds='all sequences of 3 (4) adds, updates, drops, commits, restarts and kills on up to 3 records with symbolic '
                'numbers and texts, 0-3 buffers, times with different UTC offsets',
         stubs='SQL engine: the real sqlite3 on a scratch file, symbolic values pass through it as opaque tokens')
def records(ctx):
    ctx.lazy_str = ctx.const_hash = True
    p = ctx.params
    st = Store(ctx, p['backend'])
    try:
        with st.kit.patch():
            st.open()
            model, safe, n = {}, [{}], 0
            for k in range(p['ops']):
                ops = ['add'] + ['update', 'drop'] * bool(model) + ['twice'] * bool(model)
                if p['backend'] == 'sqlite':
                    ops += ['close', 'kill'] * bool(model) + ['tick'] * bool(k and k + 1 < p['ops'])
                op = ctx.choose(f'op{k}', ops)
                what = f'after {op} {k}'
                if op == 'add':
                    if n == 3:
                        ctx.cut("enough records")
                    rec, want = _new(ctx, n, k)
                    with raises_nothing(ctx, what):
                        st.db.add_record(f'm{n}', rec)
                    model[f'm{n}'] = want
                    n += 1
                    if len(model) > 1:
                        ctx.reach('two records')
                elif op == 'twice':
                    i = ctx.choose(f'which{k}', sorted(model))
                    rec, want = _new(ctx, int(i[1:]), k, True)
                    try:
                        st.db.add_record(i, rec)
                    except Exception:
                        ctx.reach('twice')
                    else:
                        ctx.fail(f'{i} was added twice')
                elif op == 'update':
                    i = ctx.choose(f'which{k}', sorted(model))
                    d, want = _change(ctx, int(i[1:]), k)
                    with raises_nothing(ctx, what):
                        st.db.update_record(i, dict(d))
                    model[i] = dict(model[i], **want)
                    ctx.reach('updated')
                elif op == 'drop':
                    i = ctx.choose(f'which{k}', sorted(model))
                    with raises_nothing(ctx, what):
                        if ctx.flip(f'match{k}'):
                            st.db.drop_matching_records({'msg_id': i})
                        else:
                            st.db.drop_record(i)
                    del model[i]
                    ctx.reach('dropped')
                elif op == 'tick':
                    st.tick()
                    safe = [dict(model)]
                elif op == 'close':
                    st.close()
                    safe = [dict(model)]
                    st.open()
                    ctx.reach('restarted')
                else:
                    st.kill()
                    st.open()
                    # some state since the last commit
                    left = set(st.db.get_history())
                    with raises_nothing(ctx, what):
                        got = {i: st.db.get_record(i) for i in left}
                    ok = [m for m in safe if set(m) == left and _same(got, m) is not False]
                    ctx.check(ok and Or(*[_same(got, m) for m in ok]),
                              f'{what}: {sorted(left)} left of {[sorted(m) for m in safe]}')
                    model = dict(ok[0])
                    if len(ok) > 1:
                        ctx.cut('several states it could be')
                    safe = [dict(model)]
                    ctx.reach('killed')
                if op in ('add', 'update'):
                    with raises_nothing(ctx, what):
                        got = st.db.get_record(f'm{n - 1}' if op == 'add' else i)
                    _record(ctx, got, model[got['msg_id']], what)
                if op in ('add', 'update', 'drop'):
                    safe.append(dict(model))
                if op not in ('tick',) and (k + 1 == p['ops'] or op in ('close', 'kill', 'twice')):
                    _compare(ctx, st, model, what)
            if p['backend'] == 'sqlite' and op in ('add', 'update', 'drop'):
                st.close()
                st.open()
                _compare(ctx, st, model, what + ' and a restart')
    finally:
        if st.db is not None and st.dir:
            st.kit.conn.close()
        if st.dir:
            shutil.rmtree(st.dir)


TYPES = {'dict': ('header', 'metadata', 'content', 'result_header', 'result_metadata', 'result_content'),
         'bufs': ('buffers', 'result_buffers'), 'when': ('submitted', 'started', 'completed', 'received')}


def _columns(kind):
    cols = []
    for c in COLS:
        t = 'dict text' if c in TYPES['dict'] else 'bufs blob' if c in TYPES['bufs'] else 'timestamp' if c in TYPES['when'] else 'text'
        cols.append((c, t + (' PRIMARY KEY' if c == 'msg_id' else '')))
    if kind == 'column missing':
        cols = cols[:-1]
    elif kind == 'column more':
        cols.append(('extra', 'text'))
    elif kind == 'order':
        cols[1], cols[-1] = cols[-1], cols[1]
    elif kind == 'type':
        cols[4] = ('buffers', 'blob')
    return cols


@harness('D03', 'tables', labels=('earlier session', 'old format', 'two old formats', 'own table'), quick=({},),
         bounds='up to two tables of earlier sessions in the file, each in the current or one of 4 other formats, with one '
                'record; default, own or given table names', stubs='as above')
def tables(ctx):
    import sqlite3

    ctx.lazy_str = ctx.const_hash = True
    st = Store(ctx, 'sqlite')
    kinds = ['none', 'same', 'column missing', 'column more', 'order', 'type']
    name = ctx.choose('table', [None, 'mine', ''])
    sid = ctx.choose('session', ['abc', 'a-b_c', "o'x"] if name == '' else ['abc'])
    if name == '' and sid == "o'x":
        ctx.cut('sessions are ids')
    tab = 'ipython-tasks' if name is None else name or '_' + sid.replace('-', '_')
    have = []
    k0 = ctx.choose('first', kinds)
    have.append((tab, k0))
    if k0 not in ('none', 'same'):
        have.append((tab + '_1', ctx.choose('second', kinds)))
    have.append(('other-session', ctx.choose('other', ['none', 'same', 'type'])))
    have = [(t, k) for t, k in have if k != 'none']
    try:
        import os

        c = sqlite3.connect(os.path.join(st.dir, 'tasks.db'))
        for t, k in have:
            cols = _columns(k)
            c.execute(f"""CREATE TABLE '{t}' ({', '.join(a + ' ' + b for a, b in cols)})""")
            c.execute(f"""INSERT INTO '{t}' (msg_id, submitted, label) VALUES (?, ?, ?)""" if k != 'column missing' else
                      f"""INSERT INTO '{t}' (msg_id, submitted, stdout) VALUES (?, ?, ?)""",
                      ('old-' + t, '2023-01-01T00:00:00+00:00', 'kept'))
        c.commit()

        def dump():
            return {t: (c.execute(f"SELECT sql FROM sqlite_master WHERE name = ?", (t,)).fetchall(), c.execute(f"SELECT * FROM '{t}'").fetchall())
                    for t, _ in have}

        before = dump()
        mine = [t for t, k in have if k == 'same' and t != 'other-session']
        if any(k not in ('same',) and t != 'other-session' for t, k in have):
            ctx.reach('old format' if len([1 for t, k in have if t != 'other-session' and k != 'same']) == 1 else 'two old formats')
        kw = {} if name is None else {'table': name}
        with st.kit.patch():
            for run in range(2):
                st.open(session=sid, **kw)
                want = ['old-' + t for t in mine] + ['m0'] * run
                ctx.check(st.db.get_history() == want, f'start {run} with {have}: history {st.db.get_history()}, expected {want}')
                for t in mine:
                    r = st.db.get_record('old-' + t)
                    ctx.check(r['label'] == 'kept' and r['header'] is None, f'the record of an earlier session is {r}')
                    ctx.reach('earlier session')
                if not run:
                    rec, model = _new(ctx, 0, 0, True)
                    with raises_nothing(ctx, 'add_record'):
                        st.db.add_record('m0', rec)
                _record(ctx, st.db.get_record('m0'), model, f'start {run} with {have}')
                if name == '':
                    ctx.reach('own table')
                st.close()
        after = dump()
        for t, _ in have:
            if t in mine:
                ctx.check(set(before[t][1]) <= set(after[t][1]), f'rows of {t} changed')
            else:
                ctx.check(before[t] == after[t], f'table {t} changed')
    finally:
        c.close()
        shutil.rmtree(st.dir)
