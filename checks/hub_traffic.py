"""H03/H04: the Hub's bookkeeping of requests and results, and the queries on it."""
import contextlib
import datetime

from symx.core import Not, Or
from symx.reg import harness
from fixtures.hub import HubRig
from fixtures.sqlite import Kit

FIELDS = ['msg_id', 'queue', 'client_uuid', 'engine_uuid', 'submitted', 'completed']
T0 = datetime.datetime(2024, 1, 1, tzinfo=datetime.timezone.utc)


@contextlib.contextmanager
def hub_rig(ctx):
    """a Hub on the database the case asks for"""
    kit = Kit(':memory:')
    with kit.patch():
        rig = HubRig(db=kit.open(session='s') if ctx.params.get('db') == 'sqlite' else None)
        with rig.patch():
            yield rig


class Job:
    def __init__(self, k, kind):
        self.k = k
        self.id = f'm{k}'
        self.kind = kind
        self.seen = False  # the Hub has its request
        self.where = None  # engine it is on
        self.done = None  # 'ok', 'error', 'aborted', 'died'
        self.stdout = ''
        self.stderr = ''
        self.io = {}
        self.rseq = None


class World:
    """histories of monitor traffic as the schedulers and engines would produce it"""

    def __init__(self, ctx, engines, jobs, rig=None):
        self.ctx = ctx
        self.rig = rig
        self.jobs = []
        self.engines = {}  # key -> uuid
        self.eid = {}  # key -> id
        self.completed = {}
        self.order = []
        self.nres = 0
        self.dead = set()
        self.strand = []
        base = ctx.int('counter', 0)
        self.rig.hub._trait_values['_idcounter'] = base
        for e in range(engines):
            self.join(e, f'eng{e}')

    def join(self, eid, uuid, req=None):
        r = self.rig.register(uuid, req)
        got = r[0][1]['content']['id']
        self.rig.heart('new_heart', uuid)
        key = eid if eid not in self.engines else 100 + eid
        if req is not None:
            self.ctx.check(got == req, 'requested id')
        self.eid[key] = got
        self.engines[key] = uuid
        self.completed[key] = []

    def uuid(self, e):
        return self.engines[e]

    def _msg(self, mt, content, date, parent=None, metadata=None, mid=None):
        m = self.rig.sess.msg(mt, content, metadata=metadata or {})
        if mid:
            m['header']['msg_id'] = mid
            m['msg_id'] = mid
        m['header']['date'] = date
        if parent:
            m['parent_header'] = {'msg_id': parent, 'date': T0}
        return m

    def request(self, j):
        m = self._msg('apply_request', {'c': j.id}, T0 + datetime.timedelta(seconds=j.k), mid=j.id,
                      metadata={'label': 'L' + j.id})
        m['header'].update(session='session of cli', username='somebody')
        j.session = m['header']['session']
        j.header = dict(m['header'])
        topic, ids = (b'in', [self.uuid(j.where).encode(), b'cli']) if j.kind == 'mux' else (b'intask', [b'cli'])
        self.rig.monitor(topic, ids, m, [b'req' + j.id.encode()])
        j.seen = True

    def track(self, j, e):
        m = self._msg('task_destination', {'msg_id': j.id, 'engine_id': self.uuid(e)}, T0)
        self.rig.monitor(b'tracktask', [b'tracktask', b'sched'][1:], m)
        j.where = e

    def result(self, j, status, by_engine=True):
        self.nres += 1
        j.rseq = self.nres
        e = j.where
        md = {'status': status, 'started': T0.isoformat()}
        if by_engine:
            md['engine'] = self.uuid(e)
        content = {'status': status, 'r': j.id}
        m = self._msg('apply_reply', content, T0 + datetime.timedelta(seconds=100 + self.nres), parent=j.id,
                      metadata=md)
        bufs = [b'res' + j.id.encode(), b'two']
        if j.kind == 'mux':
            self.rig.monitor(b'out', [b'cli', self.uuid(e).encode()], m, bufs)
        else:
            ids = [self.uuid(e).encode(), b'cli'] if by_engine else [b'cli']
            self.rig.monitor(b'outtask', ids, m, bufs)
        j.done = status
        if j.kind == 'mux' or by_engine and e not in self.dead and bool(status != 'aborted'):
            self.completed[e].append(j.id)
        j.by_engine = by_engine

    def iopub(self, j, what):
        n = len(j.stdout) + len(j.stderr)
        if what in ('stdout', 'stderr'):
            txt = f'{what[3]}{n};'
            mt, c = 'stream', {'name': what, 'text': txt}
            setattr(j, what, getattr(j, what) + txt)
        elif what == 'execute_input':
            mt, c = what, {'code': 'x = 1'}
            j.io[what] = 'x = 1'
        elif what == 'error':
            mt, c = what, {'ename': 'E'}
            j.io[what] = c
        else:
            mt, c = what, {'data': 1}
            j.io[what] = c
        self.rig.monitor(b'iopub', [b'engine.0.' + what.encode()], self._msg(mt, c, T0, parent=j.id))
        j.output = True

    def die(self, e, how='heart'):
        before = self.rig.loop.live()
        if how == 'heart':
            self.rig.heart('stopped_heart', self.uuid(e))
        else:
            self.rig.query('unregistration_request', {'id': self.eid[e]}, ident=b'nanny')
        t = [t for t in self.rig.loop.live() if t not in before]
        self.dead.add(e)
        self.strand.append((t[0] if t else None, [j for j in self.jobs if j.kind == 'mux' and j.where == e
                                                  and j.seen and j.done is None]))

    def fire(self):
        t, jobs = self.strand.pop(0)
        if t is None:
            self.ctx.fail('no timer started for the messages of a dead engine')
        t.fire()
        for j in jobs:
            if j.done is None:
                j.done = 'died'

    # -- oracle
    def check(self, what):
        ctx, rig = self.ctx, self.rig
        if rig.log.swallowed:
            ctx.fail(f'{what}: swallowed {rig.log.swallowed[0]}')
        verbose = True
        r = rig.query('queue_request', {'targets': None, 'verbose': True})
        c = r[0][1]['content']
        ctx.check(len(r) == 1 and c.pop('status', None) == 'ok', f'{what}: one queue_reply')
        seen = [j for j in self.jobs if j.seen]
        un = sorted(j.id for j in seen if j.kind == 'task' and j.where is None and j.done is None)
        ctx.check(sorted(c.pop('unassigned')) == un, f'{what}: unassigned tasks, expected {un}')
        ctx.check(set(c) == {str(self.eid[e]) for e in self.engines if e not in self.dead}, f'{what}: engines in queue_reply')
        for e in self.engines:
            if e in self.dead:
                continue
            got = c[str(self.eid[e])]
            q = sorted(j.id for j in seen if j.kind == 'mux' and j.where == e and j.done is None)
            t = sorted(j.id for j in seen if j.kind == 'task' and j.where == e and j.done is None)
            ctx.check(sorted(got['queue']) == q, f'{what}: queue of engine {e} is {got["queue"]}, expected {q}')
            ctx.check(sorted(got['tasks']) == t, f'{what}: tasks of engine {e} are {got["tasks"]}, expected {t}')
            ctx.check(got['completed'] == self.completed[e],
                      f'{what}: completed on engine {e}: {got["completed"]}, expected {self.completed[e]}')
        r = rig.query('queue_request', {'targets': None})
        c2 = r[0][1]['content']
        ctx.check(c2['unassigned'] == len(un) and all(
            c2[e] == {k: len(v) for k, v in c[e].items()} for e in c), f'{what}: queue_reply counts')
        r = rig.query('load_request', {'targets': None})
        c3 = r[0][1]['content']
        ctx.check(c3.get('status') == 'ok' and all(c3.get(e) == len(c[e]['queue']) + len(c[e]['tasks']) for e in c),
                  f'{what}: load_reply {c3}')
        # results
        known = [j for j in self.jobs if j.seen]
        for only in (True, False):
            r = rig.query('result_request', {'msg_ids': [j.id for j in reversed(known)], 'status_only': only})
            ctx.check(len(r) == 1 and r[0][1]['header']['msg_type'] == 'result_reply', f'{what}: one result_reply')
            m = r[0][1]
            c = m['content']
            ctx.check(c.get('status') == 'ok', f'{what}: result_reply says {c.get("evalue")}')
            pend = sorted(j.id for j in known if j.done is None)
            done = sorted(j.id for j in known if j.done is not None)
            ctx.check(sorted(c['pending']) == pend and sorted(c['completed']) == done,
                      f'{what}: pending {c["pending"]} completed {c["completed"]}, expected {pend} and {done}')
            if only:
                ctx.check(not m['buffers'], f'{what}: buffers in a status reply')
                continue
            bufs = []
            for j in sorted(known, key=lambda j: j.id):
                if j.done is None:
                    ctx.check(j.id not in c, f'{what}: content for pending {j.id}')
                    continue
                rec = c[j.id]
                self.check_record(j, rec, what)
                if not (type(j.done) is str and j.done == 'died'):
                    bufs += [b'res' + j.id.encode(), b'two']
            ctx.check([bytes(b) for b in m['buffers']] == bufs, f'{what}: result buffers {m["buffers"]}, expected {bufs}')
        r = rig.query('db_request', {'query': {'msg_id': {'$in': [j.id for j in known]}}, 'keys': FIELDS})
        ctx.check(len(r) == 1 and r[0][1]['content'].get('status') == 'ok', f'{what}: one db_reply')
        recs = {rec['msg_id']: rec for rec in r[0][1]['content']['records']}
        ctx.check(len(recs) == len(known) == len(r[0][1]['content']['records']), f'{what}: {len(recs)} of {len(known)} records')
        for j in known:
            rec = recs[j.id]
            ctx.check(rec['queue'] == j.kind and rec['client_uuid'] == j.session,
                      f'{what}: {j.id} of {j.session} by {j.kind} is recorded as {rec}')
            ctx.check((rec['completed'] is None) == (j.done is None), f'{what}: {j.id} completed {rec["completed"]}')
            ctx.check(str(rec['submitted'])[:19].replace(' ', 'T') == str(T0 + datetime.timedelta(seconds=j.k))[:19].replace(' ', 'T'),
                      f'{what}: {j.id} was submitted at {rec["submitted"]}')
            if j.where is not None and getattr(j, 'by_engine', True):
                ctx.check(rec['engine_uuid'] == self.uuid(j.where),
                          f'{what}: {j.id} is recorded on {rec["engine_uuid"]}, it was sent to {self.uuid(j.where)}')
            elif j.where is None:
                ctx.check(not rec['engine_uuid'], f'{what}: {j.id} is recorded on {rec["engine_uuid"]}')
        r = rig.query('history_request', {})
        want = [j.id for j in sorted(known, key=lambda j: j.k)]
        hist = r[0][1]['content'].get('history')
        # output whose request the Hub has not seen yet may be listed
        early = {j.id for j in self.jobs if not j.seen and getattr(j, 'output', False)}
        ctx.check(hist is not None and [i for i in hist if i not in early] == want, f'{what}: history {hist}, expected {want}')
        r = rig.query('result_request', {'msg_ids': ['nosuch'], 'status_only': False})
        ctx.check(r[0][1]['content']['status'] == 'error', f'{what}: result of an unknown message')

    def check_record(self, j, rec, what):
        ctx = self.ctx
        ctx.check(rec['header'] is not None and rec['header']['msg_id'] == j.id, f'{what}: request header of {j.id}')
        ctx.check(rec['metadata'] == {'label': 'L' + j.id}, f'{what}: request metadata of {j.id}')
        io = rec['io']
        ctx.check(io['stdout'] == j.stdout and io['stderr'] == j.stderr,
                  f'{what}: output of {j.id} {io}, expected {j.stdout!r} {j.stderr!r}')
        for k in ('execute_input', 'execute_result', 'error'):
            ctx.check(io[k] == j.io.get(k), f'{what}: {k} of {j.id}')
        rc = rec['result_content']
        if type(j.done) is str and j.done == 'died':
            ctx.check(rc['status'] == 'error' and rc['ename'] == 'EngineError', f'{what}: {j.id} died with its engine')
            self.ctx.reach('stranded')
        else:
            ctx.check(rc == {'status': j.done, 'r': j.id}, f'{what}: result of {j.id}')
        ctx.check(isinstance(rec['result_metadata'], dict), f'{what}: no result metadata for {j.id}')
        ctx.check(rec['result_header'] is not None and 'date' in rec['result_header'], f'{what}: result header')


def scripts(ctx, w, kinds, engines):
    """per job: list of steps still to happen"""
    out = []
    for k, kind in enumerate(kinds):
        j = Job(k, kind)
        w.jobs.append(j)
        out.append(j)
    return out


def options(w, p):
    """events enabled now"""
    o = []
    for j in w.jobs:
        if not j.seen:
            if all(x.seen for x in w.jobs[:j.k] if x.kind == j.kind):  # same client, same socket: in order
                o.append(('request', j))
        elif j.done is None:
            if j.kind == 'mux':
                if j.where not in w.dead:
                    o.append(('result', j))
            else:
                if j.where is None:
                    for e in w.engines:
                        if e not in w.dead or p.get('late_track'):
                            o.append(('track', j, e))
                    o.append(('fail', j))  # impossible dependency
                else:
                    if j.where not in w.dead:
                        o.append(('result', j))
                    else:
                        o.append(('fail', j))
                    if not getattr(j, 'retried', False):
                        for e in w.engines:
                            if (e not in w.dead or p.get('late_track')) and e != j.where:
                                o.append(('retry', j, e))
        if p.get('io') and len(j.stdout) + len(j.stderr) < 6 and j.k == 0:
            o.append(('iopub', j, 'stdout'))
            if 'execute_input' not in j.io and p['io'] > 1:
                o.append(('iopub', j, 'execute_input'))
                o.append(('iopub', j, 'execute_result'))
    for e in w.engines:
        if e not in w.dead and p.get('deaths', 0) > len(w.dead):
            o.append(('die', e))
    if w.strand:
        o.append(('strand',))
    if p.get('rejoin') and w.dead and len(w.engines) == p['engines']:
        o.append(('rejoin', max(w.dead)))
    return o


def _apply(w, ev, n):
    k = ev[0]
    if k == 'request':
        if ev[1].kind == 'mux':
            live = [e for e in w.engines if e not in w.dead]
            if not live:
                w.ctx.cut('no engine')
            ev[1].where = w.ctx.choose(f'to{n}', live)
        w.request(ev[1])
    elif k in ('track', 'retry'):
        if k == 'retry':
            ev[1].retried = True
            w.ctx.reach('retried')
        if ev[2] in w.dead:
            w.ctx.reach('tracked to a dead engine')
        w.track(ev[1], ev[2])
    elif k == 'result':
        w.result(ev[1], w.ctx.enum(f'status{ev[1].k}', ['ok', 'error', 'aborted']))
    elif k == 'fail':
        w.result(ev[1], 'error', by_engine=False)
        w.ctx.reach('failed by the scheduler')
    elif k == 'iopub':
        if not ev[1].seen:
            w.ctx.reach('iopub first')
        w.iopub(ev[1], ev[2])
    elif k == 'die':
        w.die(ev[1], w.ctx.choose(f'how{n}', ['heart', 'request']))
    elif k == 'strand':
        w.fire()
    elif k == 'rejoin':
        w.ctx.reach('id reused')
        w.join(ev[1], f'again{ev[1]}', req=w.eid[ev[1]])


@harness('H03', 'traffic', labels=('retried', 'failed by the scheduler', 'iopub first', 'stranded', 'tracked to a dead engine', 'id reused'),
         quick=({'kinds': ('mux', 'task'), 'engines': 2, 'events': 6, 'deaths': 1, 'late_track': 1},
                {'kinds': ('mux',), 'engines': 1, 'events': 6, 'io': 2, 'deaths': 1},
                {'kinds': ('task',), 'engines': 2, 'events': 6, 'io': 1, 'deaths': 1, 'late_track': 1},
                {'kinds': ('mux', 'mux'), 'engines': 1, 'events': 8, 'deaths': 1, 'rejoin': 1},
                {'kinds': ('task', 'task'), 'engines': 2, 'events': 7},
                {'kinds': ('task',), 'engines': 2, 'events': 5, 'deaths': 1, 'db': 'sqlite'},
                {'kinds': ('mux',), 'engines': 1, 'events': 6, 'io': 2, 'deaths': 1, 'db': 'sqlite'}),
         thorough=({'kinds': ('mux', 'task'), 'engines': 2, 'events': 6, 'io': 1, 'deaths': 1, 'late_track': 1, 'db': 'sqlite'},
                   {'kinds': ('mux', 'task'), 'engines': 2, 'events': 7, 'deaths': 1, 'late_track': 1},
                   {'kinds': ('mux', 'task'), 'engines': 2, 'events': 6, 'io': 1, 'deaths': 2, 'late_track': 1},
                   {'kinds': ('mux',), 'engines': 1, 'events': 8, 'io': 2, 'deaths': 1},
                   {'kinds': ('task',), 'engines': 2, 'events': 8, 'io': 1, 'deaths': 2, 'late_track': 1, 'rejoin': 1},
                   {'kinds': ('mux', 'mux'), 'engines': 2, 'events': 7, 'deaths': 2, 'rejoin': 1},
                   {'kinds': ('mux', 'mux', 'mux'), 'engines': 1, 'events': 9, 'deaths': 1, 'rejoin': 1},
                   {'kinds': ('task', 'task', 'task'), 'engines': 2, 'events': 7}),
         bounds='all histories of 5-6 monitored events for 1-2 requests on 1-2 engines', stubs='sockets, timers, clock')
def traffic(ctx):
    p = ctx.params
    ctx.lazy_str = ctx.const_hash = True
    with hub_rig(ctx) as rig:
        w = World(ctx, p['engines'], None, rig)
        scripts(ctx, w, p['kinds'], None)
        for n in range(p['events']):
            o = options(w, p)
            if not o:
                break
            ev = ctx.choose(f'ev{n}', o)
            _apply(w, ev, n)
        w.check('finally')
