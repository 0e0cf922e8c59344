"""C05: what a client retrieves from the Hub is what the engines answered."""
from symx.core import And
from symx.reg import harness, raises_nothing
from fixtures.client import Hang
from fixtures.hubworld import HubWorld


class Req:
    def __init__(self, k, kind, x, fails, ar):
        self.k, self.kind, self.x, self.fails, self.ar = k, kind, x, fails, ar
        self.id = ar.msg_ids[0]
        self.aborted = False

    def error(self):
        """name of the error, and what it says"""
        return ('TaskAborted', self.id) if self.aborted else ('ValueError', str(self.k))


def good(x, k):
    return [x + k, k]


def bad(x, k):
    raise ValueError(str(k))


def _submit(ctx, c, k, kind):
    x = ctx.int(f'x{k}')
    fails = ctx.flip(f'fails{k}')
    f = bad if fails else good
    if kind == 'exec':
        ar = c[[k % len(c.ids)]].execute('raise ValueError("%d")' % k if fails else f'y = {k}', block=False)
        ar.owner = False
    elif kind == 'mux':
        ar = c.direct_view(c.ids[k % len(c.ids)]).apply_async(f, x, k)
    else:
        ar = c.load_balanced_view().apply_async(f, x, k)
    ar.owner = False
    return Req(k, kind, x, fails, ar)


def _is(ctx, r, v, what):
    """`v` is the outcome of the request"""
    from ipyparallel import error
    from ipyparallel.client.client import ExecuteReply

    if r.fails:
        if isinstance(v, error.CompositeError):
            v = v.elist
            ctx.check(len(v) == 1, f'{what}: one error')
            ctx.check(v[0][0] == r.error()[0] and r.error()[1] in v[0][1], f'{what}: error of another request: {v[0]}')
            return
        if r.aborted:
            ctx.check(isinstance(v, error.TaskAborted) and r.id in str(v), f'{what}: {v!r} of an aborted request')
            ctx.reach('aborted')
            return
        ctx.check(isinstance(v, error.RemoteError) and v.ename == 'ValueError' and v.evalue == str(r.k),
                  f'{what}: {v!r} is not the error of the request')
        ctx.reach('error')
    elif r.kind == 'exec':
        ctx.check(isinstance(v, ExecuteReply) and v.msg_id == r.id, f'{what}: {type(v).__name__} is not its execute reply')
    else:
        ctx.check(isinstance(v, list) and len(v) == 2, f'{what}: {type(v).__name__} is not a result of the request')
        ctx.check(And(v[0] == r.x + r.k, v[1] == r.k), f'{what}: result of another request')
        ctx.reach('result')


def _world(ctx, **kw):
    ctx.lazy_str = ctx.const_hash = True
    w = HubWorld(ctx, lazy=True, assign=lambda w, m, es: es[-1], **kw)
    w.prompt = True
    w.output = lambda e, m: e.io('stream', {'name': 'stdout', 'text': f'{e.uuid}!'}, m)
    return w


def _run(ctx, w, fn):
    with w.patch():
        c = w.connect()
        cs = [c]
        try:
            fn(c, cs)
        except Hang as e:
            ctx.fail(f'waits for ever: {e}')
        finally:
            for c in cs:
                c._closed = True


def _finish(w, reqs):
    """run these requests, nothing else; the client hears of it"""
    ids = {r.id for r in reqs}
    for e in w.engines.values():
        keep = []
        while e.queue:
            f = e.queue[0]
            i, parts = w.session.feed_identities(list(f[0]))
            if w.session.deserialize(parts)['header']['msg_id'] in ids:
                e.run_one()
            else:
                keep.append(e.queue.pop(0))
        e.queue.extend(keep)
    while w.loop.callbacks:
        w.loop.callbacks.pop(0)()
        w.net.run()
    for k in list(w.order):
        while w.links.get(k):
            w.deliver(k)


def _sent(w):
    while w.loop.callbacks:
        w.loop.callbacks.pop(0)()
        w.net.run()


CALLS = ('get', 'exceptions', 'first', 'iterate', 'wait', 'dict', 'outputs', 'index', 'poll')


@harness('C05', 'retrieve',
         quick=(dict(kinds=('mux',), who='self', calls=CALLS, full=1), dict(kinds=('exec',), who='other', calls=CALLS, full=1),
                dict(kinds=('mux', 'task'), who='other', calls=('get', 'first', 'iterate', 'dict', 'index')),
                dict(kinds=('mux', 'exec'), who='self', calls=('get', 'iterate')),
                dict(kinds=('task',), who='other', lag=1, calls=('get', 'poll')),
                dict(kinds=('mux',), who='other', aborts=1, calls=('get', 'exceptions', 'iterate', 'wait')),
                dict(kinds=('task',), who='self', aborts=1, calls=('get', 'dict'))),
         thorough=tuple(dict(kinds=k, who=who, calls=CALLS, lag=lag, full=full) for k, who, lag, full in (
             (('mux', 'task'), 'self', 0, 1), (('exec', 'task'), 'other', 0, 0), (('mux', 'task', 'exec'), 'other', 0, 0),
             (('mux', 'exec'), 'self', 0, 0), (('task', 'mux'), 'other', 1, 0), (('task',), 'self', 1, 1)))
         + tuple(dict(kinds=('mux', 'task'), who=who, aborts=1, calls=('get', 'exceptions', 'first', 'iterate', 'wait', 'dict')) for who in ('self', 'other')),
         labels=('aborted', 'result', 'error', 'from the hub', 'cached', 'was pending', 'gave up waiting', 'again', 'local'),
         bounds='1-3 requests (direct, load balanced, execute) with symbolic payloads, each finished or not, cached, purged or '
                'submitted by another client; named by id, index, AsyncResult or a list in any order; each way to read the '
                'result, at any time while the rest finishes; the Hub may lag behind',
         stubs='in-process network; the Hub is the real one with its in-memory database')
def retrieve(ctx):
    p = ctx.params
    w = _world(ctx, lag=bool(p.get('lag')), engines=2)
    w.eager = not p.get('full')

    def go(c, cs):
        from ipyparallel import error
        from ipyparallel.client.asyncresult import AsyncHubResult, AsyncResult

        reqs = [_submit(ctx, c, k, kind) for k, kind in enumerate(p['kinds'])]
        _sent(w)
        for r in reqs:
            if p.get('aborts') and ctx.flip(f'aborted{r.k}'):
                with raises_nothing(ctx, 'abort'):
                    c.abort(r.id, block=True)
                r.aborted = r.fails = True
        done = [r for r in reqs if ctx.flip(f'done{r.k}')]
        if p.get('lag'):
            # engines have answered, the Hub may not know
            for e in w.engines.values():
                n = len(e.queue)
                for _ in range(n):
                    f = e.queue[0]
                    i, parts = w.session.feed_identities(list(f[0]))
                    if any(r.id == w.session.deserialize(parts)['header']['msg_id'] for r in done):
                        e.run_one()
                    else:
                        e.queue.append(e.queue.pop(0))
            # it knows of the requests
            for k in list(w.order):
                while k[1] == 'monitor' and w.links[k] and w.links[k][0][0] in (b'in', b'intask'):
                    w.deliver(k)
                while k[1] != 'monitor' and w.links[k]:
                    w.deliver(k)
        else:
            _finish(w, done)
        remote = list(done)
        if p['who'] == 'other':
            c = w.connect()
            cs.append(c)
            remote = list(reqs)
        for r in done:
            if not p.get('lag') and ctx.flip(f'cached{r.k}'):
                with raises_nothing(ctx, 'caching a result'):
                    c.get_result(r.id, owner=False).get(return_exceptions=True)
                if ctx.flip(f'purged{r.k}'):
                    c.purge_local_results(r.id)
                else:
                    remote.remove(r)
                    ctx.check(r.id in c.results, 'a result that nobody owns is not cached')
                    ctx.reach('cached')
        w.remote = [r for r in remote if r in done and p['who'] == 'other']
        # name them
        named = list(reqs)
        if len(reqs) > 1 and ctx.flip('reversed'):
            named.reverse()
        how = ctx.choose('how', ('id', 'ids', 'twice', 'ar', 'index') if p['who'] == 'self' else ('id', 'ids', 'twice'))
        if how in ('id', 'ar', 'index'):
            named = named[:1]
        if how == 'ar' and named[0].kind == 'exec':
            single = False
        else:
            single = how in ('id', 'ar', 'index')
        if how == 'twice':
            named = named[:1] + named[:1]
        spec = {'id': lambda: named[0].id, 'ids': lambda: [r.id for r in named], 'twice': lambda: [r.id for r in named],
                'ar': lambda: named[0].ar, 'index': lambda: c.history.index(named[0].id)}[how]()
        owner = ctx.flip('owner')
        block = len(p['kinds']) == 1 and ctx.flip('block')
        if any(r not in done for r in named):
            ctx.reach('was pending')
        with raises_nothing(ctx, f'get_result of {how}'):
            ar = c.get_result(spec, owner=owner, block=block)
        if block:
            ctx.check(ar.done() and all(r in done or not any(r.id in str(f) for f in ()) for r in named), 'blocking get_result')
        hub = isinstance(ar, AsyncHubResult)
        if hub:
            ctx.reach('from the hub')
        n = len(w.sent)
        _read(ctx, w, c, ar, named, single, owner, p['calls'], done)
        if all(r in done and r not in remote for r in named) and how != 'ar':
            ctx.check(not [1 for ch, m in w.sent[n:] if ch == 'registration'], 'the Hub was asked for results the client has')
        if owner and ar.done():
            left = [r.k for r in named if r.id in c.results]
            ctx.check(not left, 'the client still holds results its AsyncResult owns')
            left = [r.k for r in named if r.id in c.metadata]
            ctx.check(not left or not ar.wait_for_output(0), 'the client still holds metadata its AsyncResult owns')
        ctx.check(not any(r.id in c.outstanding for r in reqs if p['who'] == 'other'), 'outstanding in a client that did not send it')
        # and again
        if p.get('lag'):
            return
        if all(r.id in c.results for r in named):
            ids = [r.id for r in named]
            with raises_nothing(ctx, 'AsyncResult of cached results'):
                ar3 = AsyncResult(c, list(ids))
                vals = ar3.get(0, return_exceptions=True)
                ctx.check(ar3.msg_id == ids, 'metadata of cached results')
            for r, v in zip(named, vals):
                _is(ctx, r, v, 'from the cache')
            ctx.reach('local')
        with raises_nothing(ctx, 'get_result again'):
            ar2 = c.get_result([r.id for r in named], block=False)
            vals = ar2.get(return_exceptions=True)
        ctx.check(len(vals) == len(named), 'again: number of results')
        for r, v in zip(named, vals):
            _is(ctx, r, v, 'again')
        ctx.reach('again')
        # two who wait for the same
        with raises_nothing(ctx, 'get_result twice'):
            ar2, ar3 = (c.get_result([r.id for r in named], owner=False, block=False) for _ in range(2))
            ar2.get(return_exceptions=True)
            vals = ar3.get(0, return_exceptions=True)
            ctx.check(ar3.ready() and ar3.progress == len(named), 'ready, when another one has got the results')
        for r, v in zip(named, vals):
            _is(ctx, r, v, 'of two')

    _run(ctx, w, go)


def _gist(text, reqs):
    return next((r.id for r in reqs if r.aborted and r.id in text), text)


def _fails(ctx, ar, named, single, fn, what, some=False):
    """fn() raises the error(s) of the failed request(s)"""
    from ipyparallel import error

    bad_ = [r for r in named if r.fails]
    try:
        fn()
    except error.CompositeError as e:
        if single:
            ctx.fail(f'{what}: CompositeError for a single result')
        got, want = sorted((t[0], _gist(t[1], bad_)) for t in e.elist), sorted(r.error() for r in bad_)
        ctx.check(set(got) <= set(want) if some else got == want,
                  f'{what}: errors {[t[:2] for t in e.elist]}')
        return
    except (error.RemoteError, error.TaskAborted) as e:
        ctx.check(single or some or len(bad_) == 1, f'{what}: a single error')
        _is(ctx, bad_[0], e, what)
        return
    except Exception as e:
        ctx.fail(f'{what}: raised {type(e).__name__}: {str(e)[:150]}')
    ctx.fail(f'{what}: raised nothing')


def _vals(ctx, v, named, single, what):
    v = [v] if single else v
    ctx.check(isinstance(v, list) and len(v) == len(named), f'{what}: number of results')
    for r, x in zip(named, v):
        _is(ctx, r, x, what)


def _read(ctx, w, c, ar, named, single, owner, calls, done):
    from concurrent.futures import FIRST_EXCEPTION

    from ipyparallel import error

    call = ctx.choose('call', calls)
    what = f'{call}'
    bad_ = [r for r in named if r.fails]
    timeout = ctx.choose('timeout', (None, 0.25)) if call in ('get', 'wait', 'exceptions', 'first') else None
    full = False

    def ready():
        return all(r.id in [m for m, _ in w.ran] for r in named)

    if call == 'poll':
        for _ in range(3):
            with raises_nothing(ctx, 'ready'):
                got = ar.ready()
            if got:
                ctx.check(ready(), 'ready before its requests have run')
            low = [] if w.lag else [r for r in named if r.id in [m for m, _ in w.ran] and r.id not in w.client.outstanding]
            n = ar.progress
            ctx.check(n >= len(low), f'progress {n}, {len(low)} are known to be done')
            if len(set(named)) < len(named):
                break
            ctx.check(n <= len([r for r in named if r.id in [m for m, _ in w.ran]]), f'progress is {n}')
            ctx.check(not got or n == len(ar), f'ready, with a progress of {n}')
            if not w.step():
                break
        return
    if call == 'wait':
        with raises_nothing(ctx, what):
            r = ar.wait(timeout)
        ctx.check(r is ar.done() or r == ar.done(), f'{what}: returns {r}, done {ar.done()}')
        if timeout is None:
            ctx.check(r, f'{what}: not ready after waiting without a limit')
        if not r:
            ctx.reach('gave up waiting')
            return
        full = True
    elif call in ('get', 'exceptions', 'first'):
        kw = {'get': {}, 'exceptions': {'return_exceptions': True}, 'first': {'return_when': FIRST_EXCEPTION}}[call]
        try:
            v = ar.get(timeout, **kw)
        except error.TimeoutError:
            ctx.check(timeout is not None, f'{what}: timed out without a limit')
            ctx.reach('gave up waiting')
            return
        except Exception as e:
            if not bad_ or call == 'exceptions':
                ctx.fail(f'{what}: raised {type(e).__name__}: {str(e)[:150]}')
            if call == 'get':
                def again():
                    raise e
                _fails(ctx, ar, named, single, again, what)
            else:
                ctx.check(isinstance(e, (error.RemoteError, error.CompositeError, error.TaskAborted)), f'{what}: raised {e!r}')
            return
        ctx.check(not bad_ or call == 'exceptions', f'{what}: no error raised')
        if single:
            v = [v]
        _vals(ctx, v, named, False, what)
        return
    elif call == 'iterate':
        if single:
            try:
                list(ar)
            except TypeError:
                return
            except Exception as e:
                ctx.fail(f'iterating a single result: {e!r}')
            ctx.fail('iterating a single result')
        if bad_:
            return _fails(ctx, ar, named, single, lambda: list(ar), what, some=True)
        with raises_nothing(ctx, what):
            v = list(ar)
        _vals(ctx, v, named, False, what)
        return
    elif call == 'dict':
        if bad_:
            return _fails(ctx, ar, named, single, lambda: ar.get_dict(), what)
        eng = dict(w.ran)
        es = None
        try:
            d = ar.get_dict()
            es = dict(w.ran)
        except ValueError as e:
            es = [dict(w.ran)[r.id] for r in named]
            ctx.check(len(set(es)) < len(es), f'{what}: {e}')
            return
        except Exception as e:
            ctx.fail(f'{what}: raised {type(e).__name__}: {str(e)[:150]}')
        ctx.check(sorted(d) == sorted(w.engines[es[r.id]].id for r in named), f'{what}: engines {list(d)}')
        for r in named:
            _is(ctx, r, d[w.engines[es[r.id]].id], what)
        return
    elif call == 'outputs':
        with raises_nothing(ctx, 'wait_for_output'):
            ar.wait_for_output()
        import ipyparallel.client.asyncresult as A
        out = []
        real, A.print = getattr(A, 'print', None), lambda *a, **k: out.append(a[0])
        try:
            with raises_nothing(ctx, 'display_outputs'):
                ar.wait()
                ar.display_outputs()
        finally:
            del A.print
        where = dict(w.ran)
        ctx.check(all(any(f'{where[r.id]}!' in o for o in out) for r in named), f'{what}: displayed {out}')
        return
    elif call == 'index':
        if single:
            return
        with raises_nothing(ctx, what):
            ar.wait()
        for i, r in enumerate(named):
            if r.fails:
                continue
            if bad_:
                continue
            with raises_nothing(ctx, what):
                v = ar[i]
            _is(ctx, r, v, what)
        full = True
    if full and any(r.aborted for r in named):
        with raises_nothing(ctx, 'metadata'):
            got = ar['status']
        ctx.check(([got] if single else got) == ['aborted' if r.aborted else 'error' if r.fails else 'ok' for r in named], f'status is {got}')
    elif full:
        where = dict(w.ran)
        with raises_nothing(ctx, 'metadata'):
            for key, want in (('stdout', [f'{where[r.id]}!' for r in named]), ('engine_uuid', [where[r.id] for r in named]),
                              ('engine_id', [w.engines[where[r.id]].id for r in named]),
                              ('status', ['aborted' if r.aborted else 'error' if r.fails else 'ok' for r in named])):
                got = ar[key]
                got = [got] if single else got
                ctx.check(got == want, f'{key} is {got}, expected {want}')
            _times(ctx, w, ar, named, single)
            n = len(ar)
            ctx.check(n == len(named), 'len')
            ctx.check(ar.progress == n, f'progress is {ar.progress} of {n}')
            ctx.check(ar.successful() == (not bad_), 'successful')


def _times(ctx, w, ar, named, single):
    """when it happened, not when it was asked for"""
    from ipyparallel.util import _parse_date

    for key in ('submitted', 'started', 'completed', 'received'):
        got = ar[key]
        for r, t in zip(named, [got] if single else got):
            rec = w.rig.hub.db.get_record(r.id)
            want = rec[key]
            want = _parse_date(want) if isinstance(want, str) else want
            if key == 'received' and (r not in getattr(w, 'remote', named) or t is None):
                continue
            ctx.check(t == want, f'{key} is {t}, not {want}')


def _raises(ctx, what, fn, types):
    try:
        fn()
    except types:
        return
    except Exception as e:
        ctx.fail(f'{what}: raised {type(e).__name__}: {str(e)[:150]}')
    ctx.fail(f'{what}: raised nothing')


@harness('C05', 'status',
         quick=(dict(kinds=('mux', 'task'), who='self'), dict(kinds=('exec', 'mux'), who='other')),
         thorough=(dict(kinds=('mux', 'task', 'exec'), who='self'), dict(kinds=('exec', 'mux', 'task'), who='other')),
         labels=('pending', 'purged', 'refused', 'error', 'cached', 'resubmitted', 'in flight'),
         bounds='2-3 requests in any combination of finished, pending, cached; every subset and order of them named; '
                'result_status, queue_status, purging, resubmitting, history',
         stubs='in-process network; the Hub is the real one with its in-memory database')
def status(ctx):
    p = ctx.params
    w = _world(ctx, engines=2)
    w.eager = True

    def go(c, cs):
        from ipyparallel import error

        reqs = [_submit(ctx, c, k, kind) for k, kind in enumerate(p['kinds'])]
        _sent(w)
        done = [r for r in reqs if ctx.flip(f'done{r.k}')]
        _finish(w, done)
        if p['who'] == 'other':
            c = w.connect()
            cs.append(c)
        cached = []
        what = ctx.choose('what', ('status', 'results', 'queue', 'purge', 'resubmit', 'db'))
        for r in done:
            if what in ('status', 'results', 'purge') and ctx.flip(f'cached{r.k}'):
                _quiet_get(ctx, w, c, r)
                cached.append(r)
                ctx.reach('cached')
        left = [r for r in reqs if r not in done]
        with raises_nothing(ctx, 'hub_history'):
            ctx.check(c.hub_history() == [r.id for r in reqs], 'hub_history')
        named = [r for r in reqs if what == 'queue' or ctx.flip(f'named{r.k}')]
        if what != 'queue' and len(named) > 1 and ctx.flip('reversed'):
            named.reverse()
        ids = [r.id for r in named]
        if what in ('status', 'results'):
            if not named:
                return
            _status(ctx, c, named, done, what == 'status', ctx.flip('unknown'))
        elif what == 'queue':
            _queue(ctx, w, c, reqs, left)
        elif what == 'db':
            with raises_nothing(ctx, 'db_query'):
                recs = c.db_query({'msg_id': {'$in': ids}} if ids else {'completed': None},
                                  keys=ctx.choose('keys', (None, 'msg_id', ['completed', 'header', 'result_buffers'])))
            want = named if ids else left
            ctx.check(sorted(r['msg_id'] for r in recs) == sorted(r.id for r in want), 'records of a db_query')
        elif what == 'purge':
            _purge(ctx, w, c, reqs, done, left, named, cached, p['who'] == 'self')
        else:
            _resubmit(ctx, w, c, reqs, done, named)

    _run(ctx, w, go)


def _quiet_get(ctx, w, c, r):
    """retrieve a finished result into the cache"""
    with raises_nothing(ctx, 'result_status'):
        c.result_status(r.id, status_only=False) if not r.fails else c.get_result(r.id, owner=False).ready()
    ctx.check(r.id in c.results, 'a retrieved result is not cached')


def _status(ctx, c, named, done, only, unknown):
    from ipyparallel import error

    ids = [r.id for r in named]
    if unknown:
        ctx.reach('refused')
        return _raises(ctx, 'status of an unknown message', lambda: c.result_status(ids + ['nosuch'], status_only=only),
                       (error.RemoteError, KeyError))
    bad_ = [r for r in named if r in done and r.fails and r.id not in c.results]
    spec = ids[0] if len(ids) == 1 and ctx.flip('alone') else ids
    try:
        st = c.result_status(spec, status_only=only)
    except (error.RemoteError, error.CompositeError) as e:
        ctx.check(bad_ and not only, f'result_status raised {e}')
        ctx.reach('error')
        if isinstance(e, error.CompositeError):
            ctx.check(sorted(t[1] for t in e.elist) == sorted(str(r.k) for r in bad_), 'errors of result_status')
        else:
            ctx.check(len(bad_) == 1 and e.evalue == str(bad_[0].k), 'error of result_status')
        with raises_nothing(ctx, 'result_status again'):
            st = c.result_status(ids, status_only=only)
        bad_ = []
    except Exception as e:
        ctx.fail(f'result_status raised {type(e).__name__}: {str(e)[:150]}')
    ctx.check(only or not bad_, 'result_status raised no error')
    ctx.check(sorted(st['completed']) == sorted(r.id for r in named if r in done), f'completed {st["completed"]}')
    ctx.check(sorted(st['pending']) == sorted(r.id for r in named if r not in done), f'pending {st["pending"]}')
    if len(named) > len([r for r in named if r in done]):
        ctx.reach('pending')
    for r in named:
        if r in done and not only:
            ctx.check(r.id in st, 'a completed result is not returned')
            _is(ctx, r, st[r.id], 'result_status')
        else:
            ctx.check(r.id not in st, 'result of a pending request, or with its status only')


def _where(w, r):
    for e in w.engines.values():
        for f, chan in e.queue:
            ids, parts = w.session.feed_identities(list(f))
            if w.session.deserialize(parts)['header']['msg_id'] == r.id:
                return e
    return None


def _queue(ctx, w, c, reqs, left):
    t = ctx.choose('targets', ('all', 0, 1, [1, 0], None))
    verbose = ctx.flip('verbose')
    with raises_nothing(ctx, 'queue_status'):
        q = c.queue_status(t if t is not None else [0], verbose=verbose)
    want = {}
    for e in w.engines.values():
        here = [r for r in left if _where(w, r) is e]
        ran = [m for m, u in w.ran if u == e.uuid]
        d = dict(queue=[r.id for r in here if r.kind != 'task'], tasks=[r.id for r in here if r.kind == 'task'], completed=ran)
        want[e.id] = d if verbose else {k: len(v) for k, v in d.items()}
    if isinstance(t, int):
        got = {t: q}
    else:
        ids = [0, 1] if t == 'all' else t if t is not None else [0]
        ctx.check(set(q) == set(ids) | {'unassigned'}, f'queue_status lists {list(q)}')
        ctx.check(q['unassigned'] == ([] if verbose else 0), 'unassigned tasks')
        got = {i: q[i] for i in ids}
    for i, d in got.items():
        for k in want[i]:
            a, b = d[k], want[i][k]
            ctx.check((sorted(a) == sorted(b)) if verbose else a == b, f'{k} of engine {i}: {a}, expected {b}')


def _purge(ctx, w, c, reqs, done, left, named, cached, own):
    from ipyparallel import error

    how = ctx.choose('how', ('ids', 'ars', 'all', 'engine', 'local'))
    if how == 'ars' and not own:
        return
    if how == 'engine':
        e = w.engines['e%d' % ctx.choose('engine', (0, 1))]
        mine = {m for m, u in w.ran if u == e.uuid}
        gone = [r for r in done if r.id in mine]
        with raises_nothing(ctx, 'purge_results of an engine'):
            c.purge_results(targets=e.id)
    elif how == 'all':
        gone = list(done)
        if own and left:
            _raises(ctx, 'purging pending requests', lambda: c.purge_results('all'), RuntimeError)
            ctx.reach('refused')
            gone = []
        else:
            with raises_nothing(ctx, 'purge_results of everything'):
                c.purge_results('all')
    elif not named:
        return _raises(ctx, 'purging nothing', lambda: c.purge_results([]), ValueError)
    elif how == 'local':
        if any(r in left for r in named) and own:
            ctx.reach('refused')
            _raises(ctx, 'purging a pending request', lambda: c.purge_local_results([r.id for r in named]), RuntimeError)
        else:
            with raises_nothing(ctx, 'purge_local_results'):
                c.purge_local_results([r.id for r in named])
            for r in reqs:
                ctx.check((r.id in c.results) == (r in cached and r not in named), 'local results after purging')
        gone = []
    else:
        spec = [r.id if how == 'ids' else r.ar for r in named]
        gone = list(named)
        if any(r in left for r in named):
            ctx.reach('refused')
            _raises(ctx, 'purging a pending request', lambda: c.purge_results(spec), (RuntimeError, error.RemoteError))
            gone = []
        else:
            with raises_nothing(ctx, 'purge_results'):
                c.purge_results(spec)
    for r in gone:
        ctx.check(r.id not in c.results and r.id not in c.metadata, 'a purged result is still cached')
        ctx.reach('purged')
    with raises_nothing(ctx, 'hub_history'):
        h = c.hub_history()
    ctx.check(h == [r.id for r in reqs if r not in gone], f'{len(h)} records are left of {len(reqs)}, {len(gone)} purged')
    for r in reqs:
        if r in gone:
            if not any(x in cached for x in gone):
                _raises(ctx, 'result of a purged request', lambda: c.get_result(r.id).get(), error.RemoteError)
        elif r in done:
            with raises_nothing(ctx, 'a result that was not purged'):
                v = c.get_result(r.id).get(return_exceptions=True)
            _is(ctx, r, v, 'not purged')


def _resubmit(ctx, w, c, reqs, done, named):
    from ipyparallel import error

    if not named:
        return
    ids = [r.id for r in named]
    ran = len(w.ran)
    if any(r not in done for r in named):
        ctx.reach('in flight')
    bad_ = [r for r in named if r.fails]
    single = len(ids) == 1 and ctx.flip('alone')
    with raises_nothing(ctx, 'resubmit'):
        ar = c.resubmit(ids[0] if single else ids, block=False)
    ctx.check(len(set(ar.msg_ids) | set(ids)) == 2 * len(ids), 'new ids')
    ctx.check(not any(m in ar.msg_ids for m, _ in w.ran), 'ran already')
    try:
        v = ar.get()
    except (error.RemoteError, error.CompositeError) as e:
        ctx.check(bad_, f'resubmitted requests raised {e}')
    except Exception as e:
        ctx.fail(f'resubmitted requests: {type(e).__name__}: {str(e)[:150]}')
    else:
        ctx.check(not bad_, 'no error')
        v = v if isinstance(ar.msg_ids, list) and not ar._single_result else [v]
        ctx.check(len(v) == len(named), 'number of results')
        for r, x in zip(named, v):
            if r.kind == 'exec':
                ctx.check(x.msg_id in ar.msg_ids, 'execute reply')
            else:
                _is(ctx, r, x, 'resubmitted')
    ctx.reach('resubmitted')
    again = [m for m, _ in w.ran[ran:]]
    ctx.check(sorted(m for m in again if m in ar.msg_ids) == sorted(ar.msg_ids), 'each runs once')
    for old, new, r in zip(ids, ar.msg_ids, named):
        a, b = w.requests[old], w.requests[new]
        ctx.check(a['header']['msg_type'] == b['header']['msg_type'] and a['content'] == b['content']
                  and [bytes(x) for x in a['buffers']] == [bytes(x) for x in b['buffers']], 'the resubmitted request is another')
