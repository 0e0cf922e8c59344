"""H04: queries that read, purge or resubmit what the Hub has recorded."""
import datetime

from symx.core import And, Implies, Not, Or
from symx.reg import harness, raises_nothing
from fixtures.controller import Stub
from checks.hub_traffic import T0, Job, World, hub_rig


def _client(rig):
    """the real client-side decoding of Hub replies over the real Hub"""
    from ipyparallel.client.client import Client

    def send_recv(stream, mt, content=None):
        r = rig.query(mt, content)
        assert len(r) == 1, r
        return r[0][1]

    return Stub(Client, session=rig.sess, _query_stream=None, _send_recv=send_recv, _engines={})


def _error(ctx, f, what):
    from ipyparallel import error

    try:
        f()
    except error.RemoteError as e:
        return e
    except Exception as e:
        ctx.fail(f'{what}: raised {type(e).__name__}: {e}')
    ctx.fail(f'{what}: no error')


@harness('H04', 'restored', labels=('pending', 'completed', 'mixed'), quick=({'old': 3}, {'old': 2, 'db': 'sqlite'}), thorough=({'old': 4}, {'old': 3, 'db': 'sqlite'}),
         bounds='a database with 3 (4) records of an earlier session, each completed or not, and one live request; '
                'any subset of them is asked for', stubs='sockets, timers')
def restored(ctx):
    from ipyparallel.controller.hub import init_record

    ctx.const_hash = ctx.lazy_str = True
    with hub_rig(ctx) as rig:
        w = World(ctx, 1, None, rig)
        state = {}
        for k in range(ctx.params['old']):
            m = w._msg('apply_request', {'c': k}, T0 + datetime.timedelta(seconds=k), mid=f'a{k}')
            m['buffers'] = []
            rec = init_record(m)
            done = ctx.flip(f'done{k}')
            if done:
                rec.update(completed=T0, result_content={'status': 'ok', 'r': k}, result_header={'date': T0},
                           result_metadata={}, result_buffers=[b'buf%d' % k])
            rig.db.add_record(f'a{k}', rec)
            state[f'a{k}'] = done
        j = Job(9, 'mux')
        w.jobs.append(j)
        j.where = 0
        w.request(j)
        live = ctx.choose('live', ['none', 'pending', 'done'])
        if live == 'done':
            w.result(j, 'ok')
        if live != 'none':
            state[j.id] = live == 'done'
        ask = [i for i in state if ctx.flip(f'ask {i}')]
        for only in (True, False):
            r = rig.query('result_request', {'msg_ids': ask, 'status_only': only})
            ctx.check(len(r) == 1 and not rig.log.swallowed, 'one reply')
            m = r[0][1]
            c = m['content']
            ctx.check(c['status'] == 'ok', f'status_only={only}: {c.get("ename")} {c.get("evalue")}')
            ctx.check(sorted(c['completed']) == sorted(i for i in ask if state[i]),
                      f'status_only={only}: completed {c["completed"]}, expected {[i for i in ask if state[i]]}')
            ctx.check(sorted(c['pending']) == sorted(i for i in ask if not state[i]),
                      f'status_only={only}: pending {c["pending"]}')
            if not only:
                want = []
                for i in sorted(ask):
                    if state[i]:
                        want += [b'buf' + i[1:].encode()] if i[0] == 'a' else [b'res' + i.encode(), b'two']
                        ctx.check(c[i]['header']['msg_id'] == i, 'record of the request asked for')
                ctx.check([bytes(b) for b in m['buffers']] == want, 'result buffers')
        for v, l in ((True, 'completed'), (False, 'pending')):
            if any(state[i] == v for i in ask):
                ctx.reach(l)
        if len({state[i] for i in ask}) == 2:
            ctx.reach('mixed')


def _populate(ctx, w, jobs):
    for k in range(jobs):
        j = Job(k, 'mux')
        w.jobs.append(j)
        where = ctx.choose(f'where{k}', list(w.engines) + ['nowhere'] * (k == 0))
        if where == 'nowhere':  # a task that waits for its dependencies, or that they have failed
            j.kind = 'task'
            w.request(j)
            if ctx.flip(f'finished{k}'):
                w.result(j, 'error', by_engine=False)
            continue
        j.where = where
        w.request(j)
        if ctx.flip(f'finished{k}'):
            w.result(j, ctx.enum(f'status{k}', ['ok', 'error']))


@harness('H04', 'purge', labels=('refused', 'purged', 'all', 'by engine', 'unknown engine'),
         quick=({'jobs': 3, 'engines': 2}, {'jobs': 2, 'engines': 2, 'db': 'sqlite'}), thorough=({'jobs': 4, 'engines': 2}, {'jobs': 3, 'engines': 2, 'db': 'sqlite'}),
         bounds='3 (4) requests on 2 engines, each pending or finished; any subset of message and engine ids is purged',
         stubs='sockets, timers')
def purge(ctx):
    ctx.lazy_str = ctx.const_hash = True
    with hub_rig(ctx) as rig:
        w = World(ctx, ctx.params['engines'], None, rig)
        _populate(ctx, w, ctx.params['jobs'])
        c = _client(rig)
        every = ctx.flip('all')
        ids = 'all' if every else [j.id for j in w.jobs if ctx.flip(f'purge {j.id}')]
        eids = [] if every else [e for e in w.engines if ctx.flip(f'purge engine {e}')]
        bad = False if every else ctx.flip('unknown engine')
        content = {'msg_ids': ids, 'engine_ids': [w.eid[e] for e in eids]}
        if bad:
            other = ctx.int('other', 0)
            for e in w.engines:
                ctx.assume(other != w.eid[e])
            content['engine_ids'].append(other)
        r = rig.query('purge_request', content)
        ctx.check(len(r) == 1 and r[0][1]['header']['msg_type'] == 'purge_reply', 'one purge_reply')
        ok = r[0][1]['content']['status'] == 'ok'
        pending = {j.id for j in w.jobs if j.done is None}
        refused = not every and any(i in pending for i in ids)
        ctx.check(ok == (not refused and not bad), f'purge of {ids} {eids} said {r[0][1]["content"]["status"]}')
        left = rig.query('history_request', {})[0][1]['content']['history']
        ctx.check(pending <= set(left), f'pending requests purged: {pending - set(left)}')
        named = {j.id for j in w.jobs if every or j.id in ids or j.where in eids} - pending
        gone = {j.id for j in w.jobs} - set(left)
        ctx.check(gone <= named, f'purged {gone}, asked for {named}')
        if refused:
            ctx.check(not gone, f'refused but purged {gone}')
            ctx.reach('refused')
        if bad:
            ctx.reach('unknown engine')
        if ok:
            ctx.check(gone == named, f'purged {gone}, asked for {named}')
            ctx.reach('purged')
            if every:
                ctx.reach('all')
            if eids:
                ctx.reach('by engine')
        ctx.check(not rig.log.swallowed, f'swallowed {rig.log.swallowed[:1]}')
        # what is left is still answered
        ids = [i for i in left]
        m = rig.query('result_request', {'msg_ids': ids, 'status_only': False})[0][1]
        ctx.check(m['content']['status'] == 'ok' and sorted(m['content']['pending']) == sorted(pending)
                  and sorted(m['content']['completed']) == sorted(set(left) - pending), 'results after purging')


@harness('H04', 'resubmit', labels=('resubmitted', 'unknown', 'twice'), quick=({'jobs': 2}, {'jobs': 2, 'db': 'sqlite'}), thorough=({'jobs': 3}, {'jobs': 3, 'db': 'sqlite'}),
         bounds='2 (3) requests, any non-empty list of them, with or without an unknown id, resubmitted up to twice',
         stubs='sockets, timers')
def resubmit(ctx):
    ctx.const_hash = ctx.lazy_str = True
    with hub_rig(ctx) as rig:
        w = World(ctx, 1, None, rig)
        _populate(ctx, w, ctx.params['jobs'])
        ids = [j.id for j in w.jobs if ctx.flip(f'again {j.id}')]
        if ctx.flip('reverse'):
            ids.reverse()
        origin = {j.id: j.id for j in w.jobs}
        pend = {j.id for j in w.jobs if j.done is None}
        for turn in range(ctx.choose('turns', [1, 2])):
            bad = ctx.flip(f'unknown{turn}')
            ask = list(ids)
            if bad:
                ask.insert(ctx.choose(f'at{turn}', list(range(len(ids) + 1))), 'nosuch')
            if not ask:
                ctx.cut('nothing')
            r = rig.query('resubmit_request', {'msg_ids': ask})
            ctx.check(len(r) == 1 and r[0][1]['header']['msg_type'] == 'resubmit_reply', 'one resubmit_reply')
            c = r[0][1]['content']
            sent = rig.new(rig.resub)
            if bad:
                ctx.check(c['status'] == 'error' and not sent, 'nothing is resubmitted if an id is unknown')
                ctx.reach('unknown')
                continue
            ctx.check(c['status'] == 'ok', f'resubmit: {c.get("evalue")}')
            new = c['resubmitted']
            ctx.check(set(new) == set(ask) and len(set(new.values())) == len(ask)
                      and not (set(new.values()) & set(origin)), f'new ids {new}')
            ctx.check(sorted(m['header']['msg_id'] for _, m in sent) == sorted(new.values()),
                      'each task is sent once, under its new id')
            by = {m['header']['msg_id']: m for _, m in sent}
            for old, n in new.items():
                o = origin[old]
                m = by[n]
                ctx.check(m['header']['msg_type'] == 'apply_request' and m['content'] == {'c': o}
                          and [bytes(b) for b in m['buffers']] == [b'req' + o.encode()],
                          f'request resubmitted for {old} is not the original one')
                was = next(j for j in w.jobs if j.id == o).header
                ctx.check({k: v for k, v in m['header'].items() if k not in ('msg_id', 'date')}
                          == {k: v for k, v in was.items() if k not in ('msg_id', 'date')},
                          f'the header resubmitted for {old} is {m["header"]}, it was {was}')
                origin[n] = o
                pend.add(n)
            ctx.reach('resubmitted')
            if turn:
                ctx.reach('twice')
            # the Hub knows them, as pending
            r = rig.query('result_request', {'msg_ids': list(origin), 'status_only': True})[0][1]['content']
            ctx.check(r['status'] == 'ok' and set(r['pending']) == pend, f'pending {r.get("pending")}, expected {pend}')
            ids = [new[i] for i in ask]
            # traffic of the scheduler, and a result, for one of them
            n = ids[0]
            f = [x for x in rig.resub.sent if rig.sess.deserialize(rig.sess.feed_identities(x)[1])['header'][
                'msg_id'] == n][0]
            rig.mon.recv_cb([b'intask', b'hub'] + list(f))
            if ctx.flip(f'done{turn}'):
                m = w._msg('apply_reply', {'status': 'ok', 'r': n}, T0, parent=n, metadata={'status': 'ok'})
                rig.monitor(b'outtask', [b'hub'], m, [b'res'])
                pend.discard(n)
                r = rig.query('result_request', {'msg_ids': [n], 'status_only': False})[0][1]
                c = r['content']
                ctx.check(c['status'] == 'ok' and c['completed'] == [n] and c[n]['result_content'] == {
                    'status': 'ok', 'r': n} and c[n]['header']['msg_id'] == n, 'result of a resubmitted task')
        ctx.check(not rig.log.swallowed, f'swallowed {rig.log.swallowed[:1]}')


@harness('H04', 'db_query', labels=('buffers', 'both', 'none'), quick=({'recs': 3}, {'recs': 2, 'db': 'sqlite'}), thorough=({'recs': 4}, {'recs': 3, 'db': 'sqlite'}),
         bounds='3 (4) records with 0-2 request and 0-2 result buffers (or none yet), all combinations of requested keys; '
                'decoded by the real client', stubs='sockets, timers')
def db_query(ctx):
    from ipyparallel.controller.hub import empty_record

    with hub_rig(ctx) as rig:
        want = {}
        for k in range(ctx.params['recs']):
            rec = empty_record()
            nb = ctx.choose(f'nb{k}', [0, 2, None] if k else [1, 2])
            nr = ctx.choose(f'nr{k}', [0, 1, None])
            rec.update(msg_id=f'm{k}', submitted=T0 + datetime.timedelta(seconds=k), content={'c': k},
                       buffers=None if nb is None else [b'b%d%d' % (k, i) for i in range(nb)],
                       result_buffers=None if nr is None else [b'r%d%d' % (k, i) for i in range(nr)])
            rig.db.add_record(f'm{k}', rec)
            want[f'm{k}'] = ([b'b%d%d' % (k, i) for i in range(nb or 0)], [b'r%d%d' % (k, i) for i in range(nr or 0)])
        keys = ctx.choose('keys', [None, ['buffers'], ['result_buffers'], ['buffers', 'result_buffers'],
                                   ['result_buffers', 'content', 'buffers'], ['content', 'submitted'], 'result_buffers'])
        c = _client(rig)
        q = {'submitted': {'$gte': T0 + datetime.timedelta(seconds=ctx.choose('from', [0, 1]))}}
        with raises_nothing(ctx, f'db_query keys={keys}'):
            recs = c.db_query(q, keys)
        first = int((q['submitted']['$gte'] - T0).total_seconds())
        got = sorted(r['msg_id'] for r in recs)
        ctx.check(got == [f'm{k}' for k in range(first, ctx.params['recs'])], f'found {got}')
        for r in recs:
            b, rb = want[r['msg_id']]
            if keys and 'buffers' in keys and keys != 'result_buffers':
                ctx.check([bytes(x) for x in r.get('buffers') or []] == b, f'buffers of {r["msg_id"]}: {r.get("buffers")}')
                ctx.reach('buffers')
                if 'result_buffers' in keys:
                    ctx.reach('both')
            else:
                ctx.check('buffers' not in r, 'unasked buffers')
            if keys and 'result_buffers' in keys:
                ctx.check([bytes(x) for x in r.get('result_buffers') or []] == rb, f'result buffers of {r["msg_id"]}')
            if keys is None or 'submitted' in keys:
                ctx.check(r['submitted'] == T0 + datetime.timedelta(seconds=int(r['msg_id'][1:])), 'date')
                ctx.reach('none')
            if keys is None or 'content' in keys:
                ctx.check(r['content'] == {'c': int(r['msg_id'][1:])}, 'content')


@harness('H04', 'targets', labels=('all', 'ids', 'names', 'bad'), quick=({'engines': 2},), thorough=({'engines': 3},),
         bounds='2 (3) engines with arbitrary ids, any list of up to 2 targets by id or name',
         stubs='sockets, timers')
def targets(ctx):
    ctx.const_hash = ctx.lazy_str = True
    with hub_rig(ctx) as rig:
        w = World(ctx, ctx.params['engines'], None, rig)
        if ctx.flip('one dies'):
            w.die(0)
        alive = {e: w.eid[e] for e in w.engines if e not in w.dead}
        form = ctx.choose('form', ['all', 'one', 'list'])
        what = []
        if form != 'all':
            for k in range(1 if form == 'one' else ctx.choose('n', [0, 1, 2])):
                if ctx.flip(f'byname{k}'):
                    e = ctx.choose(f'e{k}', list(w.engines))
                    what.append((w.engines[e], [w.eid[e]] if e in alive else []))
                else:
                    t = ctx.int(f't{k}', 0)
                    what.append((t, [i for i in alive.values() if bool(t == i)]))
        arg = None if form == 'all' else what[0][0] if form == 'one' else [t for t, _ in what]
        for req, rep in (('queue_request', 'queue_reply'), ('load_request', 'load_reply')):
            r = rig.query(req, {'targets': arg})
            ctx.check(len(r) == 1, 'one reply')
            c = r[0][1]['content']
            if form == 'all':
                want = set(map(str, alive.values()))
                ctx.reach('all')
            elif not what or not all(x for _, x in what):
                ctx.check(c['status'] == 'error' and c['ename'] == 'IndexError', f'targets {arg}: {c}')
                ctx.reach('bad')
                continue
            else:
                want = {str(x[0]) for _, x in what}
                ctx.reach('ids' if type(what[0][0]) is not str else 'names')
            ctx.check(r[0][1]['header']['msg_type'] == rep and c.get('status') == 'ok', f'{req}: {c}')
            got = set(c) - {'status', 'unassigned'}
            ctx.check(len(got) == len(want) or form != 'all', f'{req} lists {got}, expected {want}')
            if form == 'all':
                ctx.check(got == want, f'{req} lists {got}, expected {want}')
        ctx.check(not rig.log.swallowed, f'swallowed {rig.log.swallowed[:1]}')
