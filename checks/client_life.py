"""C01: every request of a client resolves exactly once, with its own outcome, and leaves
nothing behind; whatever the order of replies, output, engine deaths and late results."""
from symx.core import And, is_sym
from symx.reg import harness, raises_nothing
from fixtures.client import Hang, World


class Req:
    def __init__(self, k, kind, ar, view, arg, fails):
        self.k, self.kind, self.ar, self.view, self.arg, self.fails = k, kind, ar, view, arg, fails
        self.parts = {}  # engine uuid -> (outcome, payload) as first heard by the client


class Rig(World):
    """records what reaches the client, message by message, as it happens"""

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.heard = []  # (kind, ...) in the order of delivery

    def deliver(self, link):
        f = self.links[link][0]
        ids, parts = self.session.feed_identities(list(f))
        m = self.session.deserialize(list(parts))
        self.heard.append((link[1], m))
        super().deliver(link)


def good(x, k):
    return [x + k, k]


def bad(x, k):
    raise ValueError(str(k))


def _engine_part(mid):
    """(original id, engine uuid) of a broadcast sub-message id"""
    a, _, b = mid.rpartition('_e')
    return a, 'e' + b


@harness('C01', 'lifecycle',
         quick=(dict(reqs=('one', 'exec')), dict(reqs=('one', 'lb'), kill=1), dict(reqs=('two',), kill=1),
                dict(reqs=('bcast',), kill=1), dict(reqs=('coal',)), dict(reqs=('lb', 'exec2'), race=1),
                dict(reqs=('one', 'one'), abort=1),
                dict(reqs=('one', 'exec'), kill=1, prompt=1)),
         thorough=(dict(reqs=('one', 'one'), kill=1, abort=1), dict(reqs=('one', 'exec', 'lb')), dict(reqs=('one', 'lb', 'lb'), kill=1),
                   dict(reqs=('two', 'one'), kill=1), dict(reqs=('bcast', 'one'), kill=1),
                   dict(reqs=('coal', 'lb')), dict(reqs=('lb', 'exec2'), race=2), dict(reqs=('coal',), race=2),
                   dict(reqs=('bcast',), race=2), dict(reqs=('one', 'one', 'lb'), kill=1, abort=1),
                   dict(reqs=('exec', 'exec'), kill=1, abort=1)),
         labels=('result', 'error', 'outcome stable', 'caches empty', 'died', 'stale', 'aborted'),
         bounds='up to 3 requests of any kind (direct, load balanced, execute, broadcast, coalescing) over 2 engines, '
                'symbolic payloads, every failure pattern, every delivery order of replies, output and '
                'notifications, one engine death with or without its last replies, abort at any point',
         stubs='in-process network with one ordered link per engine and channel; the engine runs the real '
               'apply/abort handlers with a minimal shell; tokens instead of JSON')
def lifecycle(ctx):
    p = ctx.params
    w = Rig(ctx, engines=2, race=p.get('race', 0), lazy=bool(p.get('abort')))
    with w.patch():
        c = w.connect()
        try:
            _lifecycle(ctx, p, w, c)
        except Hang as e:
            ctx.fail(f'a wait never ends: {e}')
        finally:
            c._closed = True


def _submit(ctx, w, c, k, kind):
    x = ctx.int(f'x{k}')
    fails = ctx.flip(f'fails{k}')
    f = bad if fails else good
    label = f'L{k}'
    if kind == 'one':
        v = c.direct_view(0)
        v.label = label
        ar = v.apply_async(f, x, k)
    elif kind == 'two':
        v = c[[1, 0]]
        v.label = label
        ar = v.apply_async(f, x, k)
    elif kind in ('exec', 'exec2'):
        v = c[[0] if kind == 'exec' else [0, 1]]
        ar = v.execute('raise ValueError("%d")' % k if fails else f'y{k} = {k}', label=label, block=False)
    elif kind == 'lb':
        v = c.load_balanced_view()
        v.label = label
        ar = v.apply_async(f, x, k)
    else:
        v = c.broadcast_view(is_coalescing=kind == 'coal')
        v.track = True
        ar = v.apply_async(f, x, k)
    return Req(k, kind, ar, v, x, fails)


def _lifecycle(ctx, p, w, c):
    def output(e, msg):
        e.io('stream', {'name': 'stdout', 'text': f'{e.uuid};'}, msg)

    w.output = output
    w.por = True
    w.prompt = bool(p.get('prompt'))
    reqs = []
    before = list(c.history)
    for k, kind in enumerate(p['reqs']):
        with raises_nothing(ctx, f'submitting a {kind} request'):
            w.barrier()
            reqs.append(_submit(ctx, w, c, k, kind))
            w.barrier()
    w.race = 0
    aborted = None
    dead = None
    outcomes = {}
    while True:
        if p.get('kill') and dead is None and ctx.flip(f'kill{w.steps}'):
            dead = w.engines['e0']
            queued = list(dead.queue)
            if not p.get('abort') and ctx.flip('lost'):
                # its last replies never left it
                for link in w.order:
                    if link[0] == ('e', 'e0') and link[1] != 'iopub':
                        for f in w.links[link]:
                            queued.append((f, link[1]))
                        w.links[link] = []
            w.kill(dead)
            for f, chan in queued:
                if chan == 'task':
                    _scheduler_error(w, f, dead)
        if p.get('abort') and aborted is None and ctx.flip(f'abort{w.steps}'):
            aborted = reqs[ctx.choose('which', range(len(reqs)))]
            w.barrier()
            if not aborted.ar.ready():
                with raises_nothing(ctx, 'abort'):
                    c.abort(aborted.ar, targets=[i for i in c.ids if i == 0] or None, block=False)
        if not w.step():
            break
        # nothing resolves before its messages are in; what is resolved stays as it is
        for r in reqs:
            if r.k in outcomes:
                _same(ctx, outcomes[r.k], _outcome(r.ar))
                ctx.reach('outcome stable')
            elif r.ar.done():
                outcomes[r.k] = _outcome(r.ar)
                exp = _expected(w, r)
                ctx.check(exp is not None, f'request {r.k} resolved before its replies are in')
        for r in reqs:
            exp = _expected(w, r)
            if exp is not None:
                ctx.check(r.ar.done(), f'request {r.k} is not resolved, though all its replies are in')
    for r in reqs:
        exp = _expected(w, r)
        ctx.check(exp is not None and r.ar.done(), f'{r.kind} request {r.k} never resolves')
        _matches(ctx, r, exp)
        ctx.check(r.ar.wait_for_output(0), f'waiting for the output of {r.kind} request {r.k} never ends')
        with raises_nothing(ctx, f'wait_for_send of {r.kind}'):
            r.ar.wait_for_send(0)
        _metadata(ctx, w, r, exp)
        ctx.check(r.view.wait(timeout=0), f'view.wait() of {r.kind} request {r.k} never ends')
        ctx.check(not r.view.outstanding, 'the view still lists the request as outstanding')
    ids = [m for r in reqs for m in r.ar.msg_ids] + [m['header']['msg_id'] for ch, m in w.sent if ch in ('mux', 'task', 'broadcast')]
    ctx.check(not c.outstanding, f'outstanding at rest: {len(c.outstanding)} of {len(ids)}')
    ctx.check(c.wait(timeout=0), 'client.wait() never ends')
    ctx.check(c.history == before + [m for r in reqs for m in r.ar.msg_ids], 'client.history')
    for r in reqs:
        ctx.check(r.view.history == r.ar.msg_ids, 'view.history')
    for name in ('results', 'metadata', '_futures', '_output_futures'):
        left = [i for i in getattr(c, name) if i in ids]
        ctx.check(not left, f'client.{name} still holds {len(left)} finished request(s)')
    left = {e: s for e, s in c._outstanding_dict.items() if s}
    ctx.check(not left, 'messages still listed as outstanding on an engine')
    ctx.reach('caches empty')


def _scheduler_error(w, frames, e):
    """what the task scheduler answers for a task lost with its engine"""
    from ipyparallel import error

    ids, parts = w.session.feed_identities(list(frames))
    m = w.session.deserialize(list(parts))
    orig = m['parent_header'] if m['header']['msg_type'].endswith('reply') else m['header']
    try:
        raise error.EngineError(f'Engine {e.uuid!r} died')
    except error.EngineError:
        content = error.wrap_exception()
    r = w.session.msg('apply_reply', content, parent={'header': orig, **orig},
                      metadata={'engine': '', 'status': 'error'})
    r['parent_header'] = orig
    w.post('sched', 'task', w.session.serialize(r))


def _expected(w, r):
    """list of (outcome, engine uuid) per message of the request, from what has been heard;
    None while something is missing"""
    out = []
    for mid in r.ar.msg_ids:
        first = None
        for chan, m in w.heard:
            h = m['header']['msg_type']
            if chan == 'notification' and h == 'unregistration_notification':
                if _on(w, r, mid, m['content']['uuid']):
                    first = ('died', m['content']['uuid'])
            elif chan in ('mux', 'task', 'broadcast'):
                md = m['metadata']
                pid = md['original_msg_id'] if r.kind == 'coal' else m['parent_header']['msg_id']
                if pid == mid:
                    st = m['content']['status']
                    if r.kind == 'lb' and not md.get('engine'):
                        st = 'died'
                    first = (st, md.get('engine'))
            if first:
                break
        if first is None:
            return None
        out.append(first)
    return out


def _on(w, r, mid, uuid):
    if r.kind == 'lb':
        return False  # the scheduler answers for these
    if r.kind == 'coal':
        return True
    if r.kind == 'bcast':
        return _engine_part(mid)[1] == uuid
    return {0: 'e0', 1: 'e1'}[dict(zip(r.ar.msg_ids, r.ar._targets))[mid]] == uuid


def _outcome(ar):
    e = ar.exception(0)
    return ('err', e) if e is not None else ('ok', ar.result(0))


def _same(ctx, a, b):
    ctx.check(a[0] == b[0] and a[1] is b[1], 'the outcome of a request changed')


def _matches(ctx, r, exp):
    from ipyparallel import error

    kind, val = _outcome(r.ar)
    sts = [s for s, _ in exp]
    if all(s == 'ok' for s in sts):
        ctx.reach('result')
        ctx.check(kind == 'ok' and r.ar.successful(), f'{r.kind}: expected a result')
        single = r.kind in ('one', 'lb')
        if r.kind.startswith('exec'):
            ctx.check(len(val) == len(exp), 'number of results')
            return
        vals = [val] if single else val
        n = 2 if r.kind == 'coal' else len(exp)
        ctx.check(isinstance(vals, list) and len(vals) == n, f'{r.kind}: number of results')
        for v in vals:
            ctx.check(isinstance(v, list) and len(v) == 2, 'shape of a result')
            ctx.check(And(v[0] == r.arg + r.k, v[1] == r.k), f'{r.kind}: value of a result')
        return
    ctx.check(kind == 'err' and not r.ar.successful(), f'{r.kind}: expected an error')
    errs = [s for s in sts if s != 'ok']
    single = r.kind in ('one', 'lb', 'coal')
    if single:
        es = [val]
    else:
        ctx.check(isinstance(val, error.CompositeError) or 'aborted' in errs, f'{r.kind}: kind of error')
        es = None
    if es is None:
        return
    st = errs[0]
    e = es[0]
    if st == 'died':
        ctx.reach('died')
        ctx.check(isinstance(e, error.RemoteError) and e.ename == 'EngineError', f'{r.kind}: engine death reported as {e!r}')
    elif st == 'aborted':
        ctx.reach('aborted')
        ctx.check(isinstance(e, error.TaskAborted), 'kind of error of an aborted task')
    else:
        ctx.reach('error')
        ctx.check(isinstance(e, error.RemoteError) and e.ename == 'ValueError' and e.evalue == str(r.k),
                  f'{r.kind}: error of another request: {e!r}')
        if r.kind != 'coal':
            ctx.check(e.engine_info.get('engine_uuid') == exp[0][1], 'engine of an error')


def _metadata(ctx, w, r, exp):
    md = r.ar.metadata
    mds = [md] if isinstance(md, dict) else md
    if r.kind == 'coal':
        if exp[0][0] == 'ok':
            ctx.check(sorted(mds[0]['engine_uuid']) == ['e0', 'e1'], 'engines of a coalesced result')
            ctx.check([f'e{i}' for i in mds[0]['engine_id']] == mds[0]['engine_uuid'], 'engine ids')
        return
    ctx.check(len(mds) == len(exp), 'number of metadata entries')
    for mid, m, (st, uuid) in zip(r.ar.msg_ids, mds, exp):
        if r.kind not in ('bcast',):
            ctx.check(m['label'] == f'L{r.k}', 'label in the metadata')
        ctx.check(m['msg_id'] == mid, 'message id in the metadata')
        if st == 'died':
            later = [h for ch, h in w.heard if ch in ('mux', 'task', 'broadcast')
                     and h['parent_header']['msg_id'] == mid and h['metadata'].get('engine')]
            if later:
                ctx.reach('stale')
            continue
        ctx.check(m['status'] == st, 'status in the metadata')
        ctx.check(m['engine_uuid'] == uuid, 'engine in the metadata')
        gone = [h for ch, h in w.heard if ch == 'notification']
        if not gone:
            ctx.check(m['engine_id'] == int(uuid[1:]), 'engine id in the metadata')
        if st != 'aborted':
            ctx.check(m['stdout'] == f'{uuid};', 'output in the metadata')


class Timed(Rig):
    """waits take time: one that ends without what it waits for has taken all of its limit"""

    limit = None
    now = 0
    waits = 0

    def until(self, cond, timeout, what):
        if self.limit is None:
            return super().until(cond, timeout, what)
        ctx = self.ctx
        self.waits += 1
        if self.waits > 8:
            ctx.cut('waits too often')
        if cond() or (not is_sym(timeout) and timeout is not None and timeout <= 0):
            return cond()
        if timeout is None or (not is_sym(timeout) and timeout > 1e8):
            ctx.check(self.limit == -1, f'{what} without a limit')
            while not cond():
                if not self.step():
                    raise Hang(what)
            return True
        ctx.check(self.limit != -1, f'{what} gives up')
        ctx.check(timeout <= self.limit, 'a wait longer than was asked for')
        end = self.now + timeout
        while not cond() and self.ready() and ctx.flip(f'w{self.waits}_{self.steps}'):
            t = ctx.real(f'd{self.waits}_{self.steps}', 0)
            ctx.assume(self.now + t <= end)
            self.now = self.now + t
            self.step()
        if not cond():
            self.now = end
        return cond()


JOBS = ('none', 'ar', 'id', 'index', 'negative', 'ars', 'mixed', 'future', 'empty', 'done')


@harness('C01', 'waiting',
         quick=(dict(reqs=('lb', 'one')),),
         thorough=(dict(reqs=('lb', 'two')), dict(reqs=('two', 'exec')), dict(reqs=('one', 'bcast', 'lb'))),
         labels=JOBS + ('time is up', 'all are done'),
         bounds='2-3 requests, any of them named in every way, waiting by client or view, with a symbolic limit or none, '
                'all delivery orders, at symbolic instants', stubs='waits take symbolic time')
def waiting(ctx):
    p = ctx.params
    w = Timed(ctx, engines=2, assign=lambda w, m, es: es[-1])
    w.prompt = True
    with w.patch():
        c = w.connect()
        try:
            _waiting(ctx, p, w, c)
        except Hang as e:
            ctx.fail(f'a wait never ends: {e}')
        finally:
            c._closed = True


def _waiting(ctx, p, w, c):
    reqs = [_submit(ctx, w, c, k, kind) for k, kind in enumerate(p['reqs'])]
    for _ in range(2):
        if not ctx.flip(f'early{w.steps}'):
            break
        w.step()
    k = ctx.choose('request', range(len(reqs)))
    r = reqs[k]
    by_view = bool(ctx.flip('by view'))
    v = r.view
    who = v if by_view else c
    hist = v.history if by_view else c.history
    how = ctx.choose('how', JOBS)
    ctx.reach(how)
    i = hist.index(r.ar.msg_ids[0])
    every = [m for x in reqs for m in x.ar.msg_ids]
    jobs, ids = {
        'none': (None, list(v.history) if by_view else every), 'ar': (r.ar, r.ar.msg_ids), 'id': (r.ar.msg_ids[0], r.ar.msg_ids[:1]),
        'index': (i, [hist[i]]), 'negative': ([i - len(hist)], [hist[i]]), 'ars': ([x.ar for x in reqs], every),
        'mixed': ([r.ar.msg_ids[-1], reqs[0].ar, i], [r.ar.msg_ids[-1], hist[i]] + reqs[0].ar.msg_ids),
        'future': ([r.ar._children[0] if isinstance(r.ar._children, (list, tuple)) else r.ar._children], r.ar.msg_ids[:1]),
        'empty': ([], []), 'done': ([m for m in every if m not in c.outstanding], []),
    }[how]
    free = bool(ctx.flip('no limit'))
    w.limit = -1 if free else ctx.real('limit', 0)
    if not free:
        ctx.assume(w.limit > 0)
    start, steps = w.now, w.steps
    kw = {} if free and ctx.flip('default') else {'timeout': w.limit}
    with raises_nothing(ctx, f'waiting for {how}'):
        ok = who.wait(jobs, **kw) if how != 'none' or kw else who.wait()
    done = all(_heard(w, m) for m in ids)
    ctx.check(bool(ok) == done, f'wait({how}): returned {ok}')
    if done:
        ctx.reach('all are done')
        # the last thing that happened was one of them
        ctx.check(w.steps == steps or any(_heard(w, m) == len(w.heard) for m in ids), f'wait({how}): waited for more')
    else:
        ctx.reach('time is up')
        ctx.check(not free and w.now == start + w.limit, f'wait({how}): ended early')
    ctx.check(free or w.now - start <= w.limit, f'wait({how}): took longer than its limit')
    for m in ids:
        if done:
            x = next(x for x in reqs if m in x.ar.msg_ids)
            if all(_heard(w, y) for y in x.ar.msg_ids):
                ctx.check(x.ar.done(), 'a request is not done after waiting for it')


def _heard(w, mid):
    """the position of the (first) reply, from 1, if there is one"""
    for i, (ch, m) in enumerate(w.heard):
        if ch in ('mux', 'task', 'broadcast') and m['parent_header'].get('msg_id') == mid:
            return i + 1
    return 0
