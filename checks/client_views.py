"""C04: views and clients address exactly the engines, flags and messages they name."""
from symx.core import And, Or, Not
from symx.reg import harness, raises_nothing
from fixtures.client import Engine, Hang, World


def _world(ctx, ids, **kw):
    w = World(ctx, ids=ids, **kw)
    w.prompt = True
    return w


def _run(ctx, w, fn):
    with w.patch():
        w.c = w.connect()
        try:
            fn(w.c)
        except Hang as e:
            ctx.fail(f'waits for ever: {e}')
        finally:
            w.c._closed = True


def _join(w, i):
    u = f'e{i}'
    w.engines[u] = Engine(w, i, u)
    w.notify('registration_notification', {'id': i, 'uuid': u})


def _quiet(w):
    """the client hears of everything that happened"""
    por, w.por = w.por, False
    while True:
        r = w.ready()
        if not r:
            return
        k, x = r[0]
        if k == 'io':
            w.loop.callbacks.pop(0)()
            w.net.run()
        elif k == 'deliver':
            w.deliver(x)
        elif k == 'run':
            x.run_one()


def who(x):
    import ipyparallel.util as U

    return [U.get_ipython().engine.id, x]


def _index(ids, spec):
    """what the documentation says `spec` means, given the registered ids"""
    ids = sorted(ids)
    if spec is None or isinstance(spec, str):
        return ids
    if isinstance(spec, slice):
        return ids[spec]
    if isinstance(spec, (list, tuple, range)):
        if any(i not in ids for i in spec):
            return None
        return list(spec)
    if spec < 0:
        return [ids[int(spec)]] if -len(ids) <= spec else None
    return [int(spec)] if spec in ids else None


KINDS = ('int', 'slice', 'list', 'all', 'none', 'range')


def _spec(ctx, kind, lo, hi):
    if kind == 'int':
        return ctx.int('t', lo, hi)
    if kind == 'slice':
        a, b = ctx.choose('start', (None, 'a')), ctx.choose('stop', (None, 'b'))
        step = ctx.choose('step', (None, 2, -1))
        return slice(a and ctx.int('a', lo, hi).__index__(), b and ctx.int('b', lo, hi).__index__(), step)
    if kind in ('list', 'tuple'):
        n = ctx.choose('length', (1, 2))
        s = [ctx.int(f'i{k}', 0, hi).__index__() for k in range(n)]
        return s if ctx.flip('as list') else tuple(s)
    if kind == 'range':
        return range(ctx.int('a', 0, hi).__index__(), ctx.int('b', 0, hi).__index__())
    return 'all' if kind == 'all' else None


@harness('C04', 'targets',
         quick=tuple(dict(ids=(0, 2), kind=k, view=v) for k in KINDS for v in ('direct', 'lb', 'broadcast')
                     if (k, v) not in (('slice', 'broadcast'), ('slice', 'lb'))),
         thorough=tuple(dict(ids=(0, 1, 3), events=1, kind=k, view=v) for k in KINDS for v in ('direct', 'lb', 'broadcast')),
         labels=('applied', 'no such engine', 'nothing'),
         bounds='2-4 registered engines with gaps in their ids, up to 2 registrations or deaths, targets given as any '
                'int in -4..5, slice, list, tuple, range, all or none; direct, load balanced and broadcast views',
         stubs='in-process network')
def targets(ctx):
    p = ctx.params
    ids = list(p['ids'])
    w = _world(ctx, ids, assign=lambda w, m, es: es[-1])
    x = ctx.int('x')

    def go(c):
        live = set(ids)
        for k in range(p.get('events', 0)):
            ev = ctx.choose(f'event{k}', (None, 'join', 'leave'))
            if ev == 'join':
                i = max(w.engines[u].id for u in w.engines) + 1 if ctx.flip('new id') else 2
                if i in live:
                    ctx.cut('id in use')
                _join(w, i)
                live.add(i)
            elif ev == 'leave' and live:
                i = ctx.choose('who', sorted(live))
                w.kill(w.engines[f'e{i}'])
                live.discard(i)
            _quiet(w)
            ctx.check(c.ids == sorted(live), 'client.ids are not the registered engines, in order')
            ctx.check(len(c) == len(live) and [v.targets for v in c] == sorted(live), 'len or iteration of the client')
        spec = _spec(ctx, p['kind'], -4, 5)
        want = _index(live, spec)
        if p['view'] == 'broadcast' and want and len(set(want)) < len(want):
            ctx.cut('an engine named twice in a broadcast')
        where = ctx.choose('where', ('view', 'call')) if p['view'] != 'lb' else 'view'
        n0 = len(w.ran)
        try:
            mk = {'direct': c.direct_view, 'lb': c.load_balanced_view, 'broadcast': c.broadcast_view}[p['view']]
            if where == 'view':
                if p['view'] == 'direct' and not isinstance(spec, str) and spec is not None and ctx.flip('index'):
                    v = c[spec]
                else:
                    v = mk(spec)
                    if spec is None and p['view'] == 'direct':
                        ctx.check(want == (v.targets if v.targets != 'all' else want), 'view of all engines')
                ctx.check(len(v) == len(want or ()) or p['view'] == 'lb', f'len(view) of {spec}')
                ar = v.apply_async(who, x)
            else:
                v = mk('all')
                if spec is None:
                    ctx.cut('no targets given')
                ar = v._really_apply(who, [x], targets=spec, block=False)
        except (IndexError, KeyError) as e:
            if want is None:
                ctx.check(not c.outstanding and len(w.ran) == n0, 'messages sent in spite of a bad target')
                ctx.reach('no such engine')
                return
            ctx.fail(f'targets {spec} of {sorted(live)}: raised {type(e).__name__}: {e}')
        except Exception as e:
            if not want:
                ctx.reach('nothing')
                return
            ctx.fail(f'targets {spec} of {sorted(live)}: raised {type(e).__name__}: {e}')
        ctx.check(want is not None, f'targets {spec} of {sorted(live)} did not raise')
        _quiet(w)
        ran = [w.engines[u].id for _, u in w.ran[n0:]]
        if p['view'] == 'lb':
            t = [m for ch, m in w.sent if ch == 'task'][-1]['metadata']['targets']
            allowed = [f'e{i}' for i in want]
            ctx.check(sorted(t) == sorted(allowed) if want else not t,
                      f'targets of the task: {t} instead of {allowed}') if t or set(want) != live else None
            if not want:
                ctx.reach('nothing')
                return
            r = ar.get(0)
            ctx.check(r[0] in want, 'a task ran on another engine')
            ctx.check(r[1] == x, 'value')
        else:
            ctx.check(sorted(ran) == sorted(want), f'targets {spec} of {sorted(live)}: ran on {ran}')
            if not want:
                ctx.reach('nothing')
                return
            r = ar.get(0)
            single = isinstance(spec, int) and p['view'] == 'direct'
            rs = [r] if single else r
            ctx.check([y[0] for y in rs] == want, f'targets {spec}: results of {[y[0] for y in rs]} instead of {want}')
            for y in rs:
                ctx.check(y[1] == x, 'value')
        ctx.reach('applied')

    _run(ctx, w, go)


@harness('C04', 'lazy',
         quick=(dict(ids=(0, 1)),), thorough=(dict(ids=(0, 1), events=2), dict(ids=(0, 2, 3), events=2)),
         labels=('all', 'fixed', 'gone'),
         bounds='an "all" view and a view of all current engines made before 1-2 registrations or deaths, used afterwards')
def lazy(ctx):
    p = ctx.params
    ids = list(p['ids'])
    w = _world(ctx, ids)

    def go(c):
        va, vf = c.direct_view(), c[:]
        live = set(ids)
        for k in range(p.get('events', 1)):
            if ctx.flip('join'):
                i = max(w.engines[u].id for u in w.engines) + 1
                _join(w, i)
                live.add(i)
            else:
                i = ctx.choose('who', sorted(live))
                if len(live) == 1:
                    ctx.cut('no engine left')
                w.kill(w.engines[f'e{i}'])
                live.discard(i)
            _quiet(w)
        for v, want, what in ((va, sorted(live), 'all'), (vf, ids, 'fixed')):
            n0 = len(w.ran)
            how = ctx.choose('how', ('apply', 'execute', 'push', 'map'))
            try:
                if how == 'apply':
                    ar = v.apply_async(who, 1)
                elif how == 'execute':
                    ar = v.execute('z = 1', block=False)
                elif how == 'push':
                    ar = v.push({'z': 1}, block=False)
                else:
                    ar = v.map_async(abs, list(range(4)))
            except Exception as e:
                ctx.check(not set(want) <= live, f'{what} view, {how}: raised {type(e).__name__}: {e}')
                ctx.check(len(w.ran) == n0 or how == 'map', 'sent to some engines, then failed')
                ctx.reach('gone')
                continue
            ctx.check(set(want) <= live, f'{what} view, {how} to engines that are gone')
            _quiet(w)
            ran = [w.engines[u].id for _, u in w.ran[n0:]]
            ctx.check(sorted(ran) == want, f'{what} view, {how}: ran on {ran} instead of {want}')
            ctx.check(ar.ready(), f'{how} never ends')
            ctx.reach(what)

    _run(ctx, w, go)


class Racy(list):
    """a list the io thread may change things around"""

    def __init__(self, w, it):
        super().__init__(it)
        self.w = w

    def append(self, x):
        self.w.preempt()
        super().append(x)
        self.w.preempt()


@harness('C04', 'wait_for_engines',
         quick=(dict(ids=(0,), waits=2), dict(ids=(0,), waits=1, race=1), dict(ids=(), waits=1, timeout=1)),
         thorough=(dict(ids=(0,), waits=2, race=1, joins=3), dict(ids=(0, 1), waits=3), dict(ids=(0,), waits=2, timeout=1)),
         labels=('enough', 'left', 'timeout', 'waits'),
         bounds='up to 3 waits for a symbolic number of engines, 2-3 registrations and a death in any order, also between the '
                'steps of the call; time-outs at any point',
         stubs='a blocking call is a non-blocking one followed by waiting for its future')
def wait_for_engines(ctx):
    p = ctx.params
    w = _world(ctx, list(p['ids']))

    def go(c):
        state = dict(n=len(p['ids']), next=10, joins=p.get('joins', 2))
        tops = []

        def event(k):
            if k == 'join':
                state['joins'] -= 1
                _join(w, state['next'])
                state['next'] += 1
                state['n'] += 1
                for t in tops:
                    t['top'] = max(t['top'], state['n'])
            else:
                e = [e for e in w.engines.values() if e.alive][0]
                state['n'] -= 1
                for t in tops:
                    if t['top'] < t['want'] and not t['out']:
                        t['left'] = True
                w.kill(e)
            _quiet(w)

        def preempt():
            if p.get('race') and state['joins'] and ctx.flip('preempted'):
                event('join')

        w.preempt = preempt
        c._registration_callbacks = Racy(w, c._registration_callbacks)
        fs = []
        while True:
            opts = ['stop'] if len(fs) == p['waits'] else []
            if len(fs) < p['waits']:
                opts.append('wait')
            if state['joins']:
                opts.append('join')
            if state['n'] and fs and not any(t['left'] for t in tops):
                opts.append('leave')
            if w.loop.live():
                opts.append('expire')
            k = ctx.choose('next', opts)
            if k == 'stop':
                break
            if k == 'wait':
                n = ctx.int(f'n{len(fs)}', 1, 4)
                t = dict(want=n, top=state['n'], left=False, out=False)
                tops.append(t)
                with raises_nothing(ctx, 'wait_for_engines'):
                    f = c.wait_for_engines(n, block=False, **(dict(timeout=5) if p.get('timeout') else {}))
                _quiet(w)
                fs.append(f)
            elif k == 'expire':
                tm = w.loop.live()[0]
                i = len(w.loop.timers) - len(w.loop.live())
                tm.alive = False
                with raises_nothing(ctx, 'time-out'):
                    tm.fire()
                for t, f in zip(tops, fs):
                    if not t['out'] and t['top'] < t['want'] and not t['left'] and f.done():
                        t['out'] = True
            else:
                event(k)
            for t, f in zip(tops, fs):
                if t['left']:
                    ctx.check(f.done() and f.exception(0) is not None, 'an engine left, but the wait goes on')
                    ctx.reach('left')
                elif t['top'] >= t['want']:
                    ctx.check(f.done(), 'enough engines are registered, but the wait never ends')
                    if not t['out']:
                        ctx.check(f.exception(0) is None, 'enough engines are registered, but the wait failed')
                        ctx.reach('enough')
                elif t['out']:
                    ctx.check(type(f.exception(0)).__name__ == 'TimeoutError', 'kind of error of a time-out')
                    ctx.reach('timeout')
                else:
                    ctx.check(not f.done(), 'the wait ended before enough engines were registered')
                    ctx.reach('waits')
        for t, f in zip(tops, fs):
            if f.done():
                continue
        left = [x for x in c._registration_callbacks]
        ctx.check(len(left) == sum(not f.done() for f in fs), 'callbacks of finished waits are left behind')

    _run(ctx, w, go)


# ---------------------------------------------------------------- flags
FLAGS = dict(label=(None, 'a', 'b'), retries=(0, 3), timeout=(None, 0, 2.5), after=(None, 'ids', 'dep', 'dict', 'ar'),
             follow=(None, 'ids', 'ar'), targets=(None, [1], [0, 1]))
BAD = dict(timeout=-1, after=7, retries='x', bogus=1)


def _value(w, name, v, ar):
    """the value of a flag, and what the scheduler should get for it"""
    from ipyparallel import Dependency

    if name in ('after', 'follow'):
        return {None: (None, (set(), True, True, False)), 'ids': (['m1', 'm2'], ({'m1', 'm2'}, True, True, False)),
                'dep': (Dependency(['m1'], all=False, success=False, failure=True), ({'m1'}, False, False, True)),
                'dict': (Dependency(['m2'], all=False, failure=True).as_dict(), ({'m2'}, False, True, True)),
                'ar': (ar, (set(ar.msg_ids), True, True, False))}[v]
    if name == 'targets':
        return v, None if v is None else [f'e{i}' for i in v]
    return v, (v or None if name == 'timeout' else v)


def _meaning(md, name):
    from ipyparallel import Dependency

    v = md[name]
    if name in ('after', 'follow'):
        d = Dependency(v)
        return set(d), d.all, d.success, d.failure
    if name in ('targets', 'timeout'):
        return v or None  # no timeout is 0 or None
    return v


def _flags(v):
    return {n: getattr(v, n) for n in v._flag_names}


@harness('C04', 'flags',
         quick=(dict(flag='after', other='label', other2='retries'), dict(flag='follow', other='timeout', other2='label'),
                dict(flag='timeout', other='targets', other2='after'), dict(flag='retries', other='after', other2='timeout'),
                dict(flag='targets', other='retries', other2='label')),
         thorough=tuple(dict(flag=a, other=b, other2=c) for a in FLAGS for b in FLAGS for c in FLAGS
                        if len({a, b, c}) == 3),
         labels=('sent', 'refused', 'restored'),
         bounds='any value of two flags set on a view, any value of one flag set for a with-block or a call, invalid '
                'values and unknown names at any place, errors inside the block',
         stubs='in-process network')
def flags(ctx):
    p = ctx.params
    w = _world(ctx, (0, 1), assign=lambda w, m, es: es[0])

    def go(c):
        other = c[0].apply_async(abs, -1)
        _quiet(w)
        a, b, b2 = p['flag'], p['other'], p['other2']
        v = c.load_balanced_view()
        exp = {n: _value(w, n, FLAGS[n][0], other)[1] for n in FLAGS}
        for n in (b, b2):
            x, y = _value(w, n, ctx.choose(n, FLAGS[n]), other)
            v.set_flags(**{n: x})
            exp[n] = y
        before = _flags(v)
        how = ctx.choose('how', ('temp', 'call', 'bad temp', 'error inside', 'set inside'))
        x, y = _value(w, a, ctx.choose(a, FLAGS[a]), other)
        n0 = len(w.sent)
        if how == 'call':
            if x is None:
                ctx.cut('no flag given')
            v._really_apply(abs, [1], block=False, **{a: x})
            exp1 = dict(exp, **{a: y})
        elif how == 'temp':
            with v.temp_flags(**{a: x}):
                v.apply_async(abs, 1)
            exp1 = dict(exp, **{a: y})
        elif how == 'set inside':
            x2, y2 = _value(w, b, ctx.choose(f'{b} inside', FLAGS[b]), other)
            with v.temp_flags(**{a: x}):
                v.set_flags(**{b: x2})
                v.apply_async(abs, 1)
            exp1 = dict(exp, **{a: y, b: y2})
        elif how == 'error inside':
            try:
                with v.temp_flags(**{a: x}):
                    raise ZeroDivisionError
            except ZeroDivisionError:
                pass
        else:
            bad = ctx.choose('bad', sorted(BAD))
            kw = {a: x, bad: BAD[bad]} if ctx.flip('bad last') else {bad: BAD[bad], a: x}
            kw[bad] = BAD[bad]
            try:
                with v.temp_flags(**kw):
                    ctx.fail(f'temp_flags({bad}={BAD[bad]!r}) was accepted')
            except Exception:
                ctx.reach('refused')
        after = _flags(v)
        for n in before:
            ctx.check(after[n] is before[n] or after[n] == before[n], f'{how}: flag {n} changed from {before[n]!r} to {after[n]!r}')
        ctx.reach('restored')
        v.apply_async(abs, 2)
        _quiet(w)
        sent = [m for ch, m in w.sent[n0:] if ch == 'task']
        exps = [exp1, exp] if how in ('temp', 'call', 'set inside') else [exp]
        ctx.check(len(sent) == len(exps), f'{how}: {len(sent)} messages sent')
        for m, e in zip(sent, exps):
            for n in FLAGS:
                got = _meaning(m['metadata'], n)
                ctx.check(got == e[n], f'{how}: flag {n} sent as {got!r} instead of {e[n]!r}')
            ctx.reach('sent')

    _run(ctx, w, go)


# ---------------------------------------------------------------- histories, purge, abort
OPS = ('apply', 'lb', 'bcast', 'map', 'scatter', 'block', 'bad')


@harness('C04', 'books',
         quick=(dict(ops=2, seqs=OPS), dict(ops=2, seqs=('apply', 'lb', 'map'), purge=1)),
         thorough=(dict(ops=3, seqs=OPS), dict(ops=3, seqs=('apply', 'lb', 'bcast', 'block'), purge=1)),
         labels=('history', 'outstanding', 'purged', 'refused', 'done'),
         bounds='sequences of up to 4 operations of any kind on two views of either kind, purges and waits in between, '
                'replies delivered at any point',
         stubs='in-process network; engines answer at once')
def books(ctx):
    p = ctx.params
    w = _world(ctx, (0, 1), assign=lambda w, m, es: es[-1])

    def go(c):
        views = {'apply': c[0], 'lb': c.load_balanced_view(), 'bcast': c.broadcast_view(), 'map': c[:], 'scatter': c[:],
                 'block': c[1], 'bad': c[1]}
        mine = {k: [] for k in views}
        allids = []
        purged = set()
        # who ran what, as far as the client can know
        for k in range(p['ops']):
            op = ctx.choose(f'op{k}', p['seqs'])
            v = views[op]
            while w.loop.callbacks:
                w.step()
            n0 = len(w.sent)
            h0 = len(c.history)
            with raises_nothing(ctx, op):
                if op in ('apply', 'lb', 'bcast'):
                    ar = v.apply_async(abs, -k)
                elif op == 'map':
                    ar = v.map_async(abs, [1, 2])
                elif op == 'scatter':
                    ar = v.scatter('s', [1, 2], block=False)
                elif op == 'block':
                    ar = None
                    ctx.check(v.apply_sync(abs, -k) == k, 'result')
                else:
                    ar = None
                    try:
                        v.apply_sync(lambda: 1 / 0)
                    except Exception:
                        pass
            ids = ar.msg_ids if ar else [m['header']['msg_id'] for ch, m in w.sent[n0:]]
            ctx.check(c.history[h0:] == ids, f'client.history after {op}')
            mine[op] += ids
            allids += ids
            n = 0
            while w.ready() and (w.loop.callbacks or ctx.flip(f'step{k}_{n}')):
                w.step()
                n += 1
            for q, vv in views.items():
                ctx.check(vv.history == mine[q], f'history of the {q} view after {op}')
                ctx.check(vv.outstanding <= set(mine[q]), f'outstanding set of the {q} view lists messages of others')
                ctx.check(set(mine[q]) & c.outstanding <= vv.outstanding, f'outstanding set of the {q} view')
            ctx.reach('history')
            if c.outstanding:
                ctx.reach('outstanding')
            if p.get('purge') and ctx.flip(f'purge{k}'):
                _purge(ctx, w, c, allids, purged)
        _quiet(w)
        for q, vv in views.items():
            ctx.check(vv.wait(timeout=0), f'wait of the {q} view')
            ctx.check(not vv.outstanding, f'outstanding at rest: the {q} view')
        ctx.check(not c.outstanding and c.history == allids, 'client.history')
        ctx.reach('done')

    _run(ctx, w, go)


def _purge(ctx, w, c, allids, purged):
    ran = {i: u for i, u in w.ran}
    keep = c.results.copy()
    how = ctx.choose('how', ('all', 'id', 'engine'))
    named = set()
    kw = {}
    if how == 'all':
        named = set(allids) | set(c.outstanding)
        kw = dict(jobs='all')
    elif how == 'id':
        i = ctx.choose('which', allids)
        named = {i}
        kw = dict(jobs=ctx.choose('as', (i, [i])))
    else:
        named = {i for i in allids if ran.get(i) == 'e0' or i in c.outstanding and _sent_to(w, i) == 'e0'}
        kw = dict(targets=0)
    out = set(c.outstanding) & named
    try:
        c.purge_local_results(**kw)
    except RuntimeError:
        ctx.check(out, f'purge of finished messages refused ({how})')
        ctx.check(dict(c.results) == dict(keep), 'a refused purge removed results')
        ctx.reach('refused')
        return
    except Exception as e:
        ctx.fail(f'purge_local_results({how}): {type(e).__name__}: {e}')
    if how == 'engine':
        named -= out  # the client may not know yet where they run
    else:
        ctx.check(not out, f'purged messages that are outstanding ({how})')
    left = set(keep) - set(c.results)
    ctx.check(left == named & set(keep), f'purge by {how} removed {len(left)} results instead of {len(named & set(keep))}')
    for i in named:
        ctx.check(i not in c.metadata and i not in c._futures and i not in c._output_futures, 'purged, but still in the caches')
    purged |= named
    ctx.reach('purged')


def _sent_to(w, mid):
    for ch, m in w.sent:
        if m['header']['msg_id'] == mid:
            return 'e0'  # or another one: refusing to purge is right if it may be this one


@harness('C04', 'abort',
         quick=(dict(),), thorough=(dict(engines=3),),
         labels=('aborted', 'kept', 'nothing'),
         bounds='three queued requests on 2-3 engines, any subset of them named by id, result or default, any targets, '
                'through the client or a view; engines run what is left afterwards',
         stubs='in-process network; engines run the real abort and apply handlers')
def abort(ctx):
    from ipyparallel import error

    p = ctx.params
    ne = p.get('engines', 2)
    w = _world(ctx, list(range(ne)), lazy=True)
    seen = []

    def go(c):
        va, vb = c[0], c[list(range(ne))]
        x = ctx.int('x')
        ars = [va.apply_async(abs, -1), vb.apply_async(who, x), va.apply_async(abs, -3)]
        while w.loop.callbacks:
            w.step()
        via = ctx.choose('via', ('client', 'view a', 'view b'))
        what = ctx.choose('what', (None, 'ar', 'id', 'list', 'mixed', 'none'))
        if what == 'none':
            jobs, named = [], set()
        elif what is None:
            jobs = None
            named = set(c.outstanding if via == 'client' else (va if via == 'view a' else vb).outstanding)
        else:
            a = ctx.choose('which', ars)
            b = ctx.choose('second', ars)
            jobs = {'ar': a, 'id': a.msg_ids[0], 'list': list(a.msg_ids), 'mixed': [a, b.msg_ids[-1]]}[what]
            named = {'ar': set(a.msg_ids), 'id': {a.msg_ids[0]}, 'list': set(a.msg_ids),
                     'mixed': set(a.msg_ids) | {b.msg_ids[-1]}}[what]
        t = ctx.choose('targets', (None, 0, [ne - 1]))
        on = {None: None, 0: [0]}[t] if not isinstance(t, list) else t
        if on is None:
            on = [0] if via == 'view a' else list(range(ne))
        n0 = len(w.routed)
        who_ = dict(client=c).get(via) or (va if via == 'view a' else vb)
        with raises_nothing(ctx, 'abort'):
            who_.abort(jobs, targets=t, block=False)
        while w.loop.callbacks:
            w.step()
        ctl = [(u, m) for ch, u, m in w.routed[n0:] if ch == 'control']
        if named:
            ctx.check(sorted(u for u, _ in ctl) == [f'e{i}' for i in on], f'abort sent to {[u for u, _ in ctl]} instead of {on}')
        for _, m in ctl:
            ctx.check(named and set(m['content']['msg_ids']) == named, 'abort request for other messages')
        _quiet(w)
        ran = {i for i, _ in w.ran}
        for ar in ars:
            ctx.check(ar.ready(), 'never resolves')
            tg = ar._targets if isinstance(ar._targets, list) else [ar._targets]
            for mid, eng in zip(ar.msg_ids, tg):
                gone = mid in named and eng in on
                ctx.check((mid in ran) != gone, f'a request {"named" if gone else "not named"} in the abort ' + ('ran' if gone else 'did not run'))
                f = [f for f in ar._children if f.msg_id == mid][0]
                if gone:
                    ctx.check(isinstance(f.exception(0) or f.result(0), error.TaskAborted), 'outcome of an aborted request')
                    ctx.reach('aborted')
                else:
                    ctx.check(f.exception(0) is None and not isinstance(f.result(0), Exception), 'outcome of a request that was kept')
                    ctx.reach('kept')
        if not named:
            ctx.check(not ctl, 'aborting nothing sent an abort request')
            ctx.reach('nothing')

    _run(ctx, w, go)


class Ruled(World):
    """every engine, and the Hub, answers controls; `refuse`: those who answer with an error"""

    refuse = ()
    got = None

    def deliver(self, link):
        if self.client._closed:
            self.links[link].pop(0)  # nobody listens
        else:
            super().deliver(link)

    def incoming(self, chan, frames):
        from ipyparallel import error

        idents, rest = self.session.feed_identities(list(frames[1:]))
        msg = self.session.deserialize(list(rest))
        mt = msg['header']['msg_type']
        if chan != 'control' and mt != 'shutdown_request':
            return super().incoming(chan, frames)
        to = idents[0].decode() if chan == 'control' else 'hub'
        self.got.append((to, mt, msg['content']))
        content = {'status': 'ok'}
        if to in self.refuse:
            try:
                raise ValueError(to)
            except ValueError:
                content = error.wrap_exception()
        elif to == 'hub':
            self.notify('shutdown_notification', {})
        reply = self.session.msg(mt.replace('request', 'reply'), content, parent=msg)
        if to == 'hub':
            self.post('hub2', 'query', self.session.serialize(reply))
        else:
            self.post(('e', to), 'control', self.session.serialize(reply))


@harness('C04', 'controls',
         quick=(dict(ids=(0, 2)),), thorough=(dict(ids=(0, 1, 3)),),
         labels=('ok', 'refused', 'later', 'closed', 'open', 'nobody', 'told'),
         bounds='clear, signal and shutdown of any of 2-3 engines through the client or a view, blocking or not, any of the engines '
                'and the Hub refusing, replies and the end of the Hub heard in any order',
         stubs='in-process network; engines and the Hub answer as chosen')
def controls(ctx):
    from ipyparallel import error

    p = ctx.params
    ids = list(p['ids'])
    w = Ruled(ctx, ids=ids)
    w.got = []

    def go(c):
        what = ctx.choose('what', ('clear', 'signal', 'shutdown', 'hub', 'other client'))
        if what == 'other client':
            if ctx.flip('a request is outstanding'):
                c[0].apply_async(who, 1)
            w.notify('shutdown_notification', {})
            _quiet(w)
            ctx.check(c._closed, 'the controller has ended, but the client is open')
            ctx.reach('told')
            return
        via = ctx.choose('via', ('client', 'view'))
        if what in ('signal',) and via == 'view':
            ctx.cut('views send no signals')
        spec = ctx.choose('targets', (None, 'int', 'list', 'slice', 'all'))
        if spec == 'int':
            spec = ctx.int('t', -4, 5)
        elif spec is not None:
            spec = {'list': ids[::-1], 'slice': slice(1, None), 'all': 'all'}[spec]
        sig = ctx.int('sig', 1, 64)
        own = ids[1:]
        who_ = c if via == 'client' else c[own]
        on = _index(ids, spec)
        if via == 'view' and (spec is None or isinstance(spec, str) and what in ('shutdown',)):
            on = own
        if what == 'hub':
            on = ids
        block = ctx.flip('block')
        refuse = [f'e{i}' for i in ids if ctx.flip(f'refuses{i}')]
        if what == 'hub' and ctx.flip('hub refuses'):
            refuse.append('hub')
        w.refuse = refuse
        kw = dict(block=block)
        if not (spec is None and what == 'shutdown' and via == 'client'):
            kw['targets'] = spec
        content = {'signal': {'sig': sig}, 'clear': {}}.get(what, {'restart': False})
        raised = fut = None
        try:
            if what == 'clear':
                fut = who_.clear(**kw)
            elif what == 'signal':
                fut = who_.send_signal(sig, **kw)
            else:
                fut = who_.shutdown(**kw, **(dict(hub=True) if what == 'hub' else {}))
        except error.RemoteError as e:
            raised = e
        except Exception as e:
            ctx.check(on is None and isinstance(e, (IndexError, ValueError, TypeError)), f'{what}: {type(e).__name__}: {e}')
            ctx.check(not w.got, 'raised, but sent something')
            ctx.reach('nobody')
            return
        ctx.check(on is not None, f'{what} of an engine that does not exist')
        while w.loop.callbacks:
            w.step()
        mine = [g for g in w.got if g[0] != 'hub']
        ctx.check(sorted(g[0] for g in mine) == sorted(f'e{i}' for i in on), f'{what} sent to {[g[0] for g in mine]} instead of {on}')
        name = {'clear': 'clear_request', 'signal': 'signal_request'}.get(what, 'shutdown_request')
        for _, mt, got in mine:
            ctx.check(mt == name and sorted(got) == sorted(content), f'{what} sent as {mt}')
            for k in content:
                ctx.check(got[k] == content[k], f'content of a {what}')
        ctx.check(len(w.got) - len(mine) == (what == 'hub'), 'requests to the Hub')
        no = [u for u in refuse if u == 'hub' or int(u[1:]) in on]
        if block or what == 'hub':
            ctx.check((raised is not None) == bool(no), f'{what}: {no} refused, but {"an" if raised else "no"} error is raised')
            if no:
                ctx.check(raised.ename == 'ValueError' and raised.evalue in no, 'error of somebody else')
                ctx.reach('refused')
            else:
                ctx.reach('ok')
            if what == 'hub':
                _quiet(w)
                if not no:
                    ctx.check(c._closed, 'the cluster is shut down, but the client is open')
                    ctx.reach('closed')
                elif 'hub' in no:
                    ctx.check(not c._closed, 'the Hub refused to end, but the client is closed')
                    ctx.reach('open')
            return
        ctx.check(raised is None, 'raises, though nobody waits')
        if what != 'shutdown':
            n = sum(bool(l) for k, l in w.links.items() if k[1] == 'control')
            ctx.check(fut.done() == (n == 0), f'done with {n} replies missing')
            while w.step():
                n = sum(bool(l) for k, l in w.links.items() if k[1] == 'control')
                ctx.check(fut.done() == (n == 0), f'done with {n} replies missing')
            sts = [m['content']['status'] for m in fut.result(0)]
            ctx.check(sts == ['error' if f'e{i}' in refuse else 'ok' for i in on], 'statuses of the engines')
            ctx.reach('later')
        else:
            _quiet(w)
        ctx.check(not c._closed, 'the client is closed')

    _run(ctx, w, go)


@harness('C04', 'engine sets',
         quick=(dict(waits=2),), thorough=(dict(waits=3, sets=2),),
         labels=('enough', 'stopped', 'told', 'waits'),
         bounds='1-3 waits for a symbolic number of engines, or as many as the cluster has, on 1-2 engine sets with other '
                'callbacks; engines registering and sets stopping in any order',
         stubs='in-process network; engine sets are real launchers without processes')
def engine_sets(ctx):
    from traitlets.config import LoggingConfigurable
    from ipyparallel.cluster.launcher import BaseLauncher

    p = ctx.params
    w = _world(ctx, [0])

    class ES(BaseLauncher):
        args = ['engines']
        n = 0

        def _log_output(self, *a):
            pass

    def go(c):
        class Cluster(LoggingConfigurable):
            pass

        cl = Cluster()
        cl.engines = {f's{i}': ES(work_dir='/', config=None, state='running') for i in range(p.get('sets', 1))}
        total = 0
        for i, es in enumerate(cl.engines.values()):
            es.n = ctx.int(f'size{i}', 1, 3)
            total = total + es.n
        cl.n = None
        if ctx.flip('n configured'):
            cl.n = total = ctx.int('total', 1, 4)
        c._trait_values['cluster'] = cl
        told = []
        sets = list(cl.engines.values())
        for i, es in enumerate(sets):
            es.on_stop(lambda d, i=i: told.append((i, 'first')))
        later = ctx.choose('registered later', range(p['waits'] + 1))
        waits, stopped, n, joins = [], [], 1, 2
        while True:
            if len(waits) == later and len(told) == 0 and not stopped and not any('last' in getattr(f, 'tag', '') for f in sets[0].stop_callbacks):
                def last(d):
                    told.append((0, 'last'))
                last.tag = 'last'
                sets[0].on_stop(last)
                later = -1
            opts = [] if len(waits) < p['waits'] else ['stop']
            if len(waits) < p['waits'] and not stopped:
                opts.append('wait')
            if stopped and 'stop' not in opts:
                opts.append('stop')
            if joins:
                opts.append('join')
            if len(stopped) < len(sets):
                opts.append('die')
            k = ctx.choose('next', opts)
            if k == 'stop':
                break
            if k == 'wait':
                want = ctx.int(f'want{len(waits)}', 1, 4) if ctx.flip('given') else None
                with raises_nothing(ctx, 'wait_for_engines'):
                    f = c.wait_for_engines(want, block=False)
                _quiet(w)
                waits.append([total if want is None else want, f, n, False])
            elif k == 'join':
                _join(w, 10 + joins)
                joins -= 1
                n += 1
                _quiet(w)
                for t in waits:
                    if not t[3]:
                        t[2] = n
            else:
                i = ctx.choose('set', [i for i in range(len(sets)) if i not in stopped])
                stopped.append(i)
                for t in waits:
                    if t[2] < t[0]:
                        t[3] = True
                told.clear()
                with raises_nothing(ctx, 'the end of an engine set'):
                    sets[i].notify_stop({'exit_code': 1})
                ctx.check(told.count((i, 'first')) == 1, 'the end of an engine set is not told to its cluster')
                if i == 0 and later == -1:
                    ctx.check(told.count((0, 'last')) == 1, 'the end of an engine set is not told to everybody')
                ctx.reach('told')
                _quiet(w)
            for want, f, top, left in waits:
                if top >= want:
                    ctx.check(f.done() and f.exception(0) is None, 'enough engines are registered, but the wait goes on or failed')
                    ctx.reach('enough')
                elif left:
                    ctx.check(f.done() and type(f.exception(0)).__name__ == 'EngineError', 'an engine set stopped, but the wait goes on')
                    ctx.reach('stopped')
                else:
                    ctx.check(not f.done(), 'the wait ended before enough engines were registered')
                    ctx.reach('waits')
        if all(f.done() for _, f, _, _ in waits):
            for i, es in enumerate(sets):
                if i not in stopped:
                    ctx.check(len(es.stop_callbacks) == 1 + (i == 0 and later == -1), 'callbacks of an engine set lost or left behind')

    _run(ctx, w, go)
