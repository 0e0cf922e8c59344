"""C02: AsyncResults report exactly the outcomes of their messages, whenever and however they are asked."""
from symx.core import And, is_sym
from symx.reg import harness, raises_nothing
from fixtures.client import Hang, World


class Results(World):
    """messages of a client that finish in any order, driven by whatever blocks"""

    def __init__(self, ctx, n, engines=None, chunks=None):
        from ipyparallel.client.client import Client

        self.ctx = ctx
        self.steps = 0
        self.shell = None
        self.packer = None
        self.race = 0
        self.chosen = []
        self.any_order = True
        w = self

        class SimClient(Client):
            def __init__(self):
                pass

            def __del__(self):
                pass

        self.client = SimClient()
        self.ids = [f'm{i}' for i in range(n)]
        self.futures = []
        for i, m in enumerate(self.ids):
            self.client.outstanding.add(m)
            self.client.history.append(m)
            f = self.client.create_message_futures(m, {'msg_type': 'apply_request'}, async_result=True)
            self.client.metadata[m]['engine_id'] = (engines or list(range(n)))[i]
            self.futures.append(f[0])
        self.pending = list(range(n))
        self.output_pending = []
        self.outcome = [None] * n
        self.order = []
        del w

    def ready(self):
        return self.pending + self.output_pending

    def step(self):
        if not self.pending:
            return False
        self.steps += 1
        self.finish(self.ctx.choose(f's{self.steps}', list(self.pending)))
        return True

    def finish(self, i):
        self.pending.remove(i)
        self.order.append(i)
        f = self.futures[i]
        self.client.outstanding.discard(self.ids[i])
        f.output.set_result(None)
        f.set_result(self.outcome[i])


def _error(i, kind='remote'):
    from ipyparallel import error

    if kind == 'mix':
        kind = ('composite', 'aborted', 'remote')[i]
    if kind == 'aborted':
        return error.TaskAborted(str(i))
    if kind == 'composite':
        return error.CompositeError('some', [('ValueError', str(i), f'tb{i}', {'engine_id': i})])
    return error.RemoteError('ValueError', str(i), f'tb{i}',
                             {'engine_id': i, 'engine_uuid': f'e{i}', 'method': 'apply'})


def _same_error(e, i):
    return e.ename == 'ValueError' and e.evalue == str(i)


def _eq(ctx, a, b, what):
    a, b = list(a), list(b)
    ctx.check(len(a) == len(b), f'{what}: {len(a)} elements instead of {len(b)}')
    for x, y in zip(a, b):
        if isinstance(y, Exception) or isinstance(x, Exception):
            ctx.check(x is y, f'{what}: wrong exception')
        elif isinstance(y, (list, tuple)):
            _eq(ctx, x, y, what)
        else:
            ctx.check(x == y, f'{what}: wrong element')


OPS = ('get', 'get0', 'exceptions', 'first', 'waits', 'iterate', 'dict', 'join', 'misc')
CHUNKS = {2: (2, 1), 3: (2, 2, 1)}


def _world(ctx, p, cls=Results):
    """children, what they return, and the sequence the result as a whole stands for"""
    from ipyparallel.client import map as Map
    from ipyparallel.client.asyncresult import AsyncMapResult, AsyncResult

    n = p.get('n', 3)
    kind = p['kind']
    w = cls(ctx, n)
    w.fails = [ctx.flip(f'fails{i}') for i in range(n)]
    w.chunks = [1] * n
    values = []
    if kind in ('many', 'single'):
        for i in range(n):
            values.append(ctx.int(f'v{i}'))
    else:
        w.chunks = list(CHUNKS[n])
        typ = p.get('typ', 'list')
        k = 0
        for c in w.chunks:
            part = [ctx.int(f'v{k + j}') for j in range(c)]
            k += c
            if typ == 'array':
                import numpy

                a = numpy.empty(len(part), dtype=object)
                a[:] = part
                part = a
            elif typ == 'scalar':
                part = part[0]
            else:
                part = {'list': list, 'tuple': tuple}[typ](part)
            values.append(part)
    w.values = values
    w.outcome = [_error(i, p.get('errors', 'remote')) if f else v for i, (f, v) in enumerate(zip(w.fails, values))]
    w.ret = bool(p.get('ret'))
    with w.patch():
        if kind == 'single':
            w.ar = AsyncResult(w.client, w.futures[0], fname='f', targets=[0], return_exceptions=w.ret)
        elif kind == 'many':
            w.ar = AsyncResult(w.client, list(w.futures), fname='f', targets=None if p.get('lb') else list(range(n)),
                               return_exceptions=w.ret)
        else:
            m = Map.RoundRobinMap() if kind == 'robin' else Map.Map()
            w.ar = AsyncMapResult(w.client, list(w.futures), m, fname='f', ordered=kind != 'unordered',
                                  return_exceptions=w.ret,
                                  chunk_sizes=dict(zip(w.ids, w.chunks)) if p.get('typ') != 'scalar' else None)
    if p.get('typ') == 'scalar':
        w.chunks = [1] * n
    w.targets = None if p.get('lb') else list(range(n))
    w.robin = kind == 'robin'
    w.single = kind == 'single'
    w.scalar = p.get('typ') == 'scalar'
    w.map = kind not in ('single', 'many')
    w.ordered = kind != 'unordered'
    return w


def _flat(w, part):
    return list(part) if w.map and not w.scalar and not isinstance(part, Exception) else [part]


def _whole(w, exceptions=False):
    parts = w.outcome if exceptions else w.values
    if w.robin and not (exceptions and any(w.fails)) and not w.scalar:
        out = []
        for j in range(max(len(x) for x in parts)):
            out += [x[j] for x in parts if len(x) > j]
        return out
    return [v for x in parts for v in _flat(w, x)]


def _check_error(ctx, w, e, failed):
    from ipyparallel import error

    if w.single:
        ctx.check(e is w.outcome[0], 'the error of a single result')
        return
    ctx.check(isinstance(e, error.CompositeError), f'kind of error: {type(e).__name__}')
    ctx.check([x[1] for x in e.elist] == [str(i) for i in failed], 'errors collected in a CompositeError')


@harness('C02', 'api',
         quick=tuple(dict(kind=k) for k in ('single', 'many', 'map', 'unordered', 'robin'))
         + (dict(kind='map', typ='tuple', n=2), dict(kind='map', typ='array', n=2), dict(kind='map', typ='scalar', n=2),
            dict(kind='many', errors='mix', lb=1), dict(kind='map', errors='mix', n=2), dict(kind='single', errors='mix'),
            dict(kind='many', ret=1, n=2), dict(kind='map', ret=1, n=2), dict(kind='unordered', ret=1, n=2)),
         thorough=tuple(dict(kind=k, errors='mix') for k in ('single', 'many', 'map', 'unordered', 'robin'))
         + tuple(dict(kind=k, early=3) for k in ('single', 'many', 'map', 'unordered', 'robin'))
         + tuple(dict(kind=k, typ=t, ret=r) for k in ('map', 'unordered', 'robin') for t in ('tuple', 'array', 'scalar')
                 for r in (0, 1)) + tuple(dict(kind=k, ret=1) for k in ('many', 'map', 'unordered', 'robin')),
         labels=OPS, bounds='up to 3 messages of 1-2 elements, every failure pattern, every order of completion, '
                            'each API call before/between/after completions',
         stubs='waits complete messages in symbolic order instead of blocking; messages are completed directly')
def api(ctx):
    p = ctx.params
    w = _world(ctx, p)
    fired = []
    with w.patch():
        ar = w.ar
        ar.add_done_callback(fired.append)
        try:
            for _ in range(len(w.futures)):
                if not ctx.flip(f'early{w.steps}'):
                    break
                w.step()
            op = OPS[ctx.choose('op', range(len(OPS)))]
            _state(ctx, w)
            globals()['_op_' + op](ctx, w, ar)
            ctx.reach(op)
            while w.step():
                _state(ctx, w)
            _state(ctx, w)
        except Hang as e:
            ctx.fail(f'waits for ever: {e}')
        ctx.check(fired == [ar], 'done callbacks run once')


def _failed(w, among=None):
    return [i for i in range(len(w.fails)) if w.fails[i] and (among is None or i in among)]


def _mine(w):
    return [0] if w.single else list(range(len(w.futures)))


def _state(ctx, w):
    """what can be seen without waiting"""
    ar = w.ar
    mine = _mine(w)
    done = [i for i in mine if i not in w.pending]
    ready = len(done) == len(mine)
    ctx.check(ar.done() == ready, 'done()')
    ctx.check(ar.ready() == ready, 'ready()')
    ctx.check(ar.wait(0) == ready, 'wait(0)')
    total = sum(w.chunks[i] for i in mine)
    ctx.check(len(ar) == total, 'len()')
    ctx.check(ar.progress == sum(w.chunks[i] for i in done), 'progress')
    if ready:
        bad = _failed(w, mine)
        quiet = w.ret and not w.single
        ctx.check(ar.successful() == (not bad or quiet), 'successful()')
        if bad and not quiet:
            _check_error(ctx, w, ar.exception(0), bad)


def _op_get(ctx, w, ar):
    from ipyparallel import error

    bad = _failed(w, _mine(w))
    try:
        v = ar.get()
    except (error.RemoteError, error.TaskAborted) as e:
        ctx.check(bad and not w.ret, 'get() raised, though nothing failed')
        _check_error(ctx, w, e, bad)
        return
    except Exception as e:
        ctx.fail(f'get(): raised {type(e).__name__}: {e}')
    ctx.check(not bad or w.ret, 'get() returned, though messages failed')
    _value(ctx, w, v, 'get()')


def _value(ctx, w, v, what):
    if w.single:
        ctx.check(v is w.outcome[0] if w.fails[0] else v == w.values[0], f'{what}: value')
    else:
        _eq(ctx, v, _whole(w, any(w.fails)), what)


def _op_get0(ctx, w, ar):
    from ipyparallel import error

    mine = _mine(w)
    ready = not [i for i in mine if i in w.pending]
    bad = _failed(w, mine)
    n = w.steps
    try:
        v = ar.get(timeout=0)
    except TimeoutError:
        ctx.check(not ready, 'get(0) timed out, though all is done')
    except (error.RemoteError, error.TaskAborted) as e:
        ctx.check(ready and bad and not w.ret, 'get(0) raised early')
        _check_error(ctx, w, e, bad)
    except Exception as e:
        ctx.fail(f'get(0): raised {type(e).__name__}: {e}')
    else:
        ctx.check(ready and (not bad or w.ret), 'get(0) returned early')
        _value(ctx, w, v, 'get(0)')
    ctx.check(w.steps == n, 'get(0) waited')


def _op_exceptions(ctx, w, ar):
    with raises_nothing(ctx, 'get(return_exceptions=True)'):
        v = ar.get(return_exceptions=True)
    _value(ctx, w, v, 'get(return_exceptions=True)')


def _op_first(ctx, w, ar):
    from ipyparallel import error

    mine = _mine(w)
    bad = _failed(w, mine)
    try:
        v = ar.get(return_when='FIRST_EXCEPTION')
    except (error.RemoteError, error.TaskAborted) as e:
        ctx.check(bad and not w.ret, 'get(FIRST_EXCEPTION) raised, though nothing failed')
        pending = [i for i in mine if i in w.pending]
        seen = [i for i in bad if i not in w.pending]
        if pending:
            # raised as soon as the first one failed
            ctx.check(len(seen) >= 1, 'get(FIRST_EXCEPTION) returned before anything failed')
            es = [x[1] for x in e.elist] if isinstance(e, error.CompositeError) else [e.evalue if isinstance(e, error.RemoteError) else str(e)]
            ctx.check(all(x in [str(i) for i in seen] for x in es) and es, 'error of something else')
        else:
            ctx.check(True, '')
    except Exception as e:
        ctx.fail(f'get(FIRST_EXCEPTION): raised {type(e).__name__}: {e}')
    else:
        ctx.check(not bad or w.ret, 'get(FIRST_EXCEPTION) returned, though messages failed')
        if not (w.ret and bad):
            _value(ctx, w, v, 'get(FIRST_EXCEPTION)')


def _op_waits(ctx, w, ar):
    when = ctx.choose('when', ['FIRST_COMPLETED', 'FIRST_EXCEPTION', 'ALL_COMPLETED'])
    mine = _mine(w)
    before = w.steps
    start = [i for i in mine if i not in w.pending]
    with raises_nothing(ctx, f'wait({when})'):
        done, pending = ar.wait(return_when=when)
    fin = [i for i in mine if i not in w.pending]
    ids = lambda ars: sorted(m for a in ars for m in a.msg_ids)  # noqa: E731
    ctx.check(ids(done) == sorted(w.ids[i] for i in fin), f'wait({when}): done')
    ctx.check(ids(pending) == sorted(w.ids[i] for i in mine if i not in fin), f'wait({when}): pending')
    for a in done:
        ctx.check(a.ready(), 'a done result is not ready')
    if when == 'ALL_COMPLETED':
        ctx.check(len(fin) == len(mine), 'wait(ALL_COMPLETED) returned early')
    elif when == 'FIRST_COMPLETED':
        ctx.check(len(fin) >= 1, 'wait(FIRST_COMPLETED) returned early')
        if start:
            ctx.check(w.steps == before, 'wait(FIRST_COMPLETED) waited for more')
    elif len(fin) < len(mine):
        ctx.check(bool(_failed(w, fin)), 'wait(FIRST_EXCEPTION) returned early')
        if _failed(w, start):
            ctx.check(w.steps == before, 'wait(FIRST_EXCEPTION) waited for more')


def _op_iterate(ctx, w, ar):
    from ipyparallel import error

    if w.single:
        try:
            list(ar)
        except TypeError:
            return
        ctx.fail('iterating a single result')
    mine = _mine(w)
    ready = not w.pending
    bad = _failed(w)
    got = []
    raised = None
    try:
        for v in ar:
            got.append((v, list(w.order)))
            # others may finish meanwhile
            while w.pending and ctx.flip(f'between{w.steps}'):
                w.step()
    except (error.RemoteError, error.TaskAborted) as e:
        raised = e
    except Exception as e:
        ctx.fail(f'iterating: raised {type(e).__name__}: {e}')
    vals = [v for v, _ in got]
    if w.ret or not bad:
        ctx.check(raised is None, 'iterating raised')
        want = _whole(w, w.ret)
        if not w.ordered and not ready:
            _permuted(ctx, w, vals)
        else:
            _eq(ctx, vals, want, 'iterating')
        return
    ctx.check(raised is not None, 'iterating swallowed an error')
    es = [x[1] for x in raised.elist]
    ctx.check(es and all(x in [str(i) for i in bad] for x in es), 'iterating: error of something else')
    if w.ordered and not w.robin:
        _eq(ctx, vals, _whole(w)[:len(vals)], 'iterating up to the error')
        if vals:
            first = sum(w.chunks[i] for i in mine[:bad[0]])
            ctx.check(len(vals) == first, 'iterating stopped early')


def _permuted(ctx, w, vals):
    """elements of whole chunks, in the order in which chunks finished as far as that was seen"""
    vals = list(vals)
    ctx.check(len(vals) == sum(len(_flat(w, x)) for x in w.outcome), 'iterating: number of elements')
    left = list(range(len(w.values)))
    while left:
        for i in left:
            part = _flat(w, w.outcome[i])
            if len(part) <= len(vals) and all(a is b for a, b in zip(part, vals)):
                break
        else:
            ctx.fail('iterating: not the elements of the remaining chunks')
        left.remove(i)
        vals = vals[len(part):]


def _op_dict(ctx, w, ar):
    from ipyparallel import error

    if w.map:
        return
    bad = _failed(w, _mine(w))
    try:
        d = ar.get_dict()
    except (error.RemoteError, error.TaskAborted) as e:
        ctx.check(bad and not w.ret, 'get_dict() raised')
        _check_error(ctx, w, e, bad)
        return
    except Exception as e:
        ctx.fail(f'get_dict(): raised {type(e).__name__}: {e}')
    ctx.check(sorted(d) == _mine(w), 'get_dict(): engines')
    for i, v in d.items():
        ctx.check(v is w.outcome[i] if w.fails[i] else v == w.values[i], 'get_dict(): value')


def _op_join(ctx, w, ar):
    from ipyparallel import error
    from ipyparallel.client.asyncresult import AsyncResult

    mine = _mine(w)
    with raises_nothing(ctx, 'split'):
        parts = ar.split()
    ctx.check([m for a in parts for m in a.msg_ids] == [w.ids[i] for i in mine], 'split(): messages')
    for a, i in zip(parts, mine):
        ctx.check(a.ready() == (i not in w.pending), 'split(): ready')
    if not w.single and ctx.flip('separate'):
        # results of separate calls
        mixed = ctx.flip('mixed')
        parts = [AsyncResult(w.client, f, fname='f', targets=None if t is None else [t], return_exceptions=w.ret)
                 for f, t in zip(w.futures, ([None] if mixed else []) + (w.targets or [None] * len(w.futures))[mixed:])]
    with raises_nothing(ctx, 'join'):
        j = AsyncResult.join(*parts)
    ctx.check(j.msg_ids == [w.ids[i] for i in mine], 'join(): messages')
    bad = _failed(w, mine)
    try:
        v = j.get()
    except (error.RemoteError, error.TaskAborted) as e:
        ctx.check(bad and not w.ret, 'join(): raised')
        _check_error(ctx, w, e, bad)
        return
    except Exception as e:
        ctx.fail(f'join().get(): raised {type(e).__name__}: {e}')
    ctx.check(not bad or w.ret, 'join(): lost an error')
    if w.single:
        return
    vs = w.outcome
    if w.map and not w.scalar:
        vs = [x if isinstance(x, Exception) else list(x) for x in vs]
        v = [x if isinstance(x, Exception) else (list(x[0]) if len(x) == 1 and not hasattr(x[0], 'name')
                                                 and isinstance(x[0], (list, tuple)) else list(x)) for x in v]
    _eq(ctx, v, vs, 'join().get()')


def _op_misc(ctx, w, ar):
    from ipyparallel import error

    mine = _mine(w)
    ready = not [i for i in mine if i in w.pending]
    bad = _failed(w, mine)
    ids = ar.engine_id
    ctx.check((ids if w.single else list(ids)) == (0 if w.single else mine), 'metadata attributes')
    if w.single:
        return
    whole = _whole(w, bool(bad))
    i = ctx.choose('i', range(len(whole)))
    for key, want in ((i, whole[i]), (slice(i, None), whole[i:])):
        try:
            v = ar[key]
        except TimeoutError:
            ctx.check(not ready, 'indexing timed out')
        except (error.RemoteError, error.TaskAborted):
            ctx.check(ready and bad, 'indexing raised')
        except Exception as e:
            ctx.fail(f'indexing: raised {type(e).__name__}: {e}')
        else:
            ctx.check(ready and (not bad or w.ret), 'indexing returned early')
            _eq(ctx, [v] if isinstance(key, int) else v, [want] if isinstance(key, int) else want, 'indexing')


def plus_id(x):
    from ipyparallel.util import get_ipython

    return x + get_ipython().engine.id


def fails_on(x, bad):
    from ipyparallel.util import get_ipython

    i = get_ipython().engine.id
    if i in bad:
        raise ValueError(str(i))
    return x + i


@harness('C02', 'coalesced',
         quick=(dict(engines=3), dict(engines=2, coalescing=0)),
         thorough=(dict(engines=4), dict(engines=3, coalescing=0)),
         labels=('all', 'error'),
         bounds='broadcasts to every non-empty list of up to 4 engines, coalescing or not, any of which fails',
         stubs='in-process network, one broadcast scheduler (B01/B02 check the tree)')
def coalesced(ctx):
    from ipyparallel import error

    p = ctx.params
    w = World(ctx, engines=p['engines'])
    with w.patch():
        c = w.connect()
        try:
            ids = [i for i in range(p['engines']) if ctx.flip(f'to{i}')]
            if not ids:
                ctx.cut('no targets')
            if ctx.flip('reversed'):
                ids.reverse()
            x = ctx.int('x')
            bad = [i for i in ids if ctx.flip(f'fails{i}')]
            v = c.broadcast_view(ids, is_coalescing=bool(p.get('coalescing', 1)))
            ar = v.apply_async(fails_on, x, bad)
            how = ctx.choose('how', ('get', 'dict'))
            try:
                r = ar.get() if how == 'get' else ar.get_dict()
            except error.RemoteError as e:
                ctx.check(bad, f'raised {e!r}')
                if not isinstance(e, error.CompositeError):
                    ctx.check(e.ename == 'ValueError' and e.evalue in [str(i) for i in bad], 'error of another engine')
                else:
                    ctx.check({t[1] for t in e.elist} <= {str(i) for i in bad}, 'error of another engine')
                ctx.reach('error')
            except Exception as e:
                ctx.fail(f'{how}: raised {type(e).__name__}: {e}')
            else:
                ctx.check(not bad, 'an error was lost')
                want = {i: x + i for i in ids}
                if how == 'dict':
                    ctx.check(sorted(r) == sorted(ids), f'get_dict of engines {list(r)}')
                    for i in ids:
                        ctx.check(r[i] == want[i], 'get_dict: result of another engine')
                else:
                    ctx.check(len(r) == len(ids), 'number of results')
                    for a, i in zip(r, ids):
                        ctx.check(a == want[i], 'result of another engine')
                ctx.reach('all')
        except Hang as e:
            ctx.fail(f'waits for ever: {e}')
        finally:
            c._closed = True


class Timed(Results):
    """waits take time: one that ends without what it waits for has taken all of its limit"""

    def __init__(self, ctx, *a, **k):
        super().__init__(ctx, *a, **k)
        self.now = 0
        self.waits = 0

    def until(self, cond, timeout, what):
        ctx = self.ctx
        self.waits += 1
        if self.waits > 12:
            ctx.cut('waits too often')
        if cond():
            return True
        if timeout is None:
            ctx.fail(f'{what} without a limit')
        if isinstance(timeout, (int, float)) and not is_sym(timeout) and timeout <= 0:
            return False
        end = self.now + timeout
        ctx.check(timeout <= self.limit, 'a wait longer than was asked for')
        while not cond() and self.pending and ctx.flip(f'w{self.waits}_{self.steps}'):
            t = ctx.real(f'd{self.waits}_{self.steps}', 0)
            ctx.assume(self.now + t <= end)
            self.now = self.now + t
            self.step()
        if not cond():
            self.now = end
        return cond()

    def clock(self):
        return self.now


TIMED = ('get', 'wait', 'waits', 'result', 'exception', 'dict', 'first', 'output')


@harness('C02', 'limits',
         quick=(dict(kind='many', n=2), dict(kind='map', n=2), dict(kind='single', n=1)),
         thorough=(dict(kind='many', n=3), dict(kind='map', n=3), dict(kind='unordered', n=3), dict(kind='robin', n=2)),
         labels=TIMED + ('in time', 'too late'),
         bounds='up to 3 messages; a symbolic time limit; messages finish at symbolic instants; each call that takes a limit',
         stubs='waits take symbolic time')
def limits(ctx):
    import time

    import ipyparallel.client.asyncresult as A

    p = ctx.params
    w = _world(ctx, p, Timed)

    class T:
        def __getattr__(self, name):
            return getattr(time, name)

    t = T()
    t.perf_counter = t.monotonic = t.time = w.clock
    with w.patch((A, 'time', t)):
        for _ in range(len(w.futures)):
            if not ctx.flip(f'early{w.steps}'):
                break
            w.step()
        op = ctx.choose('op', TIMED)
        ctx.reach(op)
        w.limit = ctx.real('limit', 0)
        ctx.assume(w.limit > 0)
        w.ret = False
        mine = _mine(w)
        start = w.now
        _limited(ctx, w, w.ar, op, w.limit)
        ready = not [i for i in mine if i in w.pending]
        ctx.check(w.now - start <= w.limit, f'{op}: took longer than its limit')
        ctx.reach('in time' if ready else 'too late')


def _limited(ctx, w, ar, op, t):
    from ipyparallel import error

    mine = _mine(w)
    call = {'get': lambda: ar.get(t), 'wait': lambda: ar.wait(t), 'result': lambda: ar.result(t), 'exception': lambda: ar.exception(t),
            'dict': lambda: ar.get_dict(t), 'waits': lambda: ar.wait(t, return_when='FIRST_EXCEPTION'),
            'first': lambda: ar.get(t, return_when='FIRST_EXCEPTION'), 'output': lambda: ar.wait_for_output(t)}[op]
    late = err = v = None
    start = w.now
    try:
        v = call()
    except TimeoutError:
        late = True
    except (error.RemoteError, error.TaskAborted) as e:
        err = e
    except Exception as e:
        ctx.fail(f'{op}: raised {type(e).__name__}: {e}')
    pending = [i for i in mine if i in w.pending]
    bad = _failed(w, [i for i in mine if i not in w.pending])
    if op in ('wait', 'output'):
        ctx.check(not late and err is None and bool(v) == (not pending), f'{op}: returned {v}')
    elif op == 'waits':
        ctx.check(not late and err is None, 'wait raised')
        ctx.check(len(v[1]) == len(pending), 'pending')
        ctx.check(not pending or bool(bad) or w.now == start + t, 'ended early')
        return
    elif op == 'first' and pending and bad:
        ctx.check(err is not None, 'no error, though one is there')
        return
    else:
        ctx.check(bool(late) == bool(pending), f'{op}: {"late" if late else "not late"}')
        if not late and op != 'exception':
            ctx.check((err is not None) == bool(bad), f'{op}: error')
        elif not late:
            ctx.check((v is not None) == bool(bad), 'exception()')
    if pending:
        ctx.check(w.now == start + t, f'{op}: ended early')
