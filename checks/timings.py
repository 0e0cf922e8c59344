"""C08: when a request was submitted, started, completed and received, what the timing properties of an
AsyncResult make of that, and what a waiting user is shown.  All instants are symbolic; the clocks of
client and engines agree on nothing."""
import datetime as dt

from symx.core import And, Eq, Implies, Not, Or, Sum
from symx.reg import harness, raises_nothing
from checks.client_life import Rig, _scheduler_error
from fixtures.client import Hang

UTC = dt.timezone.utc
_now = None  # the clock of the run


def mark():
    """called by the code of a request while it runs"""
    _now.world.marks[_now.world.running] = _now()


class Span:
    """difference of two instants"""

    def __init__(self, z):
        self.z = z

    def total_seconds(self):
        return self.z

    def __add__(self, o):
        return Span(self.z + (o.z if isinstance(o, Span) else o.total_seconds()))

    __radd__ = __add__

    def __truediv__(self, o):
        if isinstance(o, dt.timedelta):
            return self.z / o.total_seconds()
        return Span(self.z / o)


class Instant(dt.datetime):
    """a datetime whose text is unique and whose value is symbolic"""

    def __new__(cls, k=None, z=None, place=None, *a, **kw):
        self = super().__new__(cls, 2030, 1, 1, 0, 0, 0, k, tzinfo=UTC)
        self.k, self.z, self.place = k, z, place
        return self

    def __lt__(self, o):
        return self.z < o.z

    def __le__(self, o):
        return self.z <= o.z

    def __gt__(self, o):
        return self.z > o.z

    def __ge__(self, o):
        return self.z >= o.z

    def __eq__(self, o):
        return isinstance(o, Instant) and self.k == o.k

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self.k

    def __sub__(self, o):
        return Span(self.z - o.z)

    def replace(self, **kw):
        return self

    def astimezone(self, tz=None):
        return self

    def timestamp(self):
        return self.z


class Clock:
    def __init__(self, ctx, w):
        self.ctx, self.world = ctx, w
        self.stamps = []
        self.last = {}
        w.running = None
        w.marks = {}

    def place(self):
        return self.world.running[1] if self.world.running else 'client'

    def __call__(self, tz=None):
        k = len(self.stamps)
        z = self.ctx.int(f't{k}', 0, 10**6)
        p = self.place()
        if p in self.last:
            self.ctx.assume(z >= self.last[p])
        self.last[p] = z
        self.stamps.append(Instant(k, z, p))
        return self.stamps[-1]

    def parse(self, s, *a, **kw):
        """an instant from its text"""
        s = s.replace('Z', '+00:00')
        d = dt.datetime.fromisoformat(s)
        return self.stamps[d.microsecond]

    def of(self, x):
        """the stamp that something in a message is"""
        if isinstance(x, Instant):
            return x
        return None if x is None else self.parse(x)

    def patches(self):
        import ipyparallel.client.asyncresult as A
        import ipyparallel.util as U
        from jupyter_client import session as S

        clock = self

        class DT(dt.datetime):
            @classmethod
            def now(cls, tz=None):
                return clock(tz)

            utcnow = now

            @classmethod
            def fromisoformat(cls, s):
                return clock.parse(s)

        class Meta(type(DT)):
            def __instancecheck__(cls, o):
                return isinstance(o, dt.datetime)

        DT = Meta('datetime', (DT,), {})
        return [(U, 'datetime', DT), (U, 'dateutil_parse', self.parse), (A, 'datetime', DT), (S, 'utcnow', self)]


def fine(x, k):
    from checks.timings import mark

    mark()
    return x


def sour(x, k):
    from checks.timings import mark

    mark()
    raise ValueError(str(k))


class Timed(Rig):
    """knows which engine runs what, and when messages left and arrived"""

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.clock = Clock(ctx, self)
        self.arrived = {}  # (channel, message id) -> range of stamps taken while it was handled

        for e in self.engines.values():
            real = e.run_one

            def run_one(e=e, real=real):
                frames = e.queue[0][0]
                idents, parts = self.session.feed_identities(list(frames))
                self.running = (self.session.deserialize(list(parts))['header']['msg_id'], e.uuid)
                try:
                    real()
                finally:
                    self.running = None

            e.run_one = run_one

    def deliver(self, link):
        lo = len(self.clock.stamps)
        super().deliver(link)
        m = self.heard[-1][1]
        self.arrived[id(m)] = (lo, len(self.clock.stamps))


BOUNDS = ('1-2 requests of any kind over 2 engines, each done or failing or lost with its engine, all delivery orders; '
          'symbolic instants on unrelated clocks')


@harness('C08', 'stamps',
         quick=(dict(reqs=('one',), kill=1), dict(reqs=('two',)), dict(reqs=('lb',), kill=1), dict(reqs=('exec2',)), dict(reqs=('coal',)),
                dict(reqs=('bcast',))),
         thorough=(dict(reqs=('two',), kill=1), dict(reqs=('one', 'lb'), kill=1), dict(reqs=('bcast',), kill=1), dict(reqs=('exec2', 'one')),
                   dict(reqs=('exec2',), kill=1), dict(reqs=('coal',), kill=1)),
         labels=('times', 'serial', 'wall', 'elapsed', 'not ready', 'never started'),
         bounds=BOUNDS,
         stubs='in-process network; clocks give symbolic instants; the text of a time stands for its instant')
def stamps(ctx):
    global _now
    p = ctx.params
    w = Timed(ctx, engines=2)
    w.por = True
    _now = w.clock
    with w.patch(*w.clock.patches()):
        c = w.connect()
        try:
            _stamps(ctx, p, w, c)
        except Hang as e:
            ctx.fail(f'a wait never ends: {e}')
        finally:
            c._closed = True


def _submit(ctx, c, k, kind):
    f = sour if ctx.flip(f'fails{k}') else fine
    if kind == 'one':
        return c.direct_view(0).apply_async(f, k, k)
    if kind == 'two':
        return c[[1, 0]].apply_async(f, k, k)
    if kind.startswith('exec'):
        return c[[0] if kind == 'exec' else [0, 1]].execute(
            'from checks.timings import mark; mark()' + (';raise ValueError()' if f is sour else ''), block=False)
    if kind == 'lb':
        return c.load_balanced_view().apply_async(f, k, k)
    return c.broadcast_view(is_coalescing=kind == 'coal').apply_async(f, k, k)


def _stamps(ctx, p, w, c):
    clock = w.clock
    reqs = []
    for k, kind in enumerate(p['reqs']):
        with raises_nothing(ctx, 'submitting'):
            w.barrier()
            lo = len(clock.stamps)
            ar = _submit(ctx, c, k, kind)
            reqs.append((kind, ar, lo, len(clock.stamps)))
            w.barrier()
    dead = None
    asked = False
    while True:
        if p.get('kill') and dead is None and ctx.flip(f'kill{w.steps}'):
            dead = w.engines['e0']
            if ctx.flip('lost'):
                for link in w.order:
                    if link[0] == ('e', 'e0') and link[1] != 'iopub':
                        lost = w.links[link]
                        w.links[link] = []
                        if link[1] == 'task':
                            for f in lost:
                                _scheduler_error(w, f, dead)
            w.kill(dead)
        if not asked and ctx.flip(f'ask{w.steps}'):
            asked = True
            w.barrier()
            for kind, ar, lo, hi in reqs:
                _elapsed(ctx, w, ar)
        if not w.step():
            break
    for kind, ar, lo, hi in reqs:
        ctx.check(ar.done(), 'a request is never done')
        with raises_nothing(ctx, f'times of {kind}'):
            mds = ar.metadata
            mds = mds if isinstance(mds, list) else [mds]
            want = [_times(ctx, w, kind, ar, mid, md, lo, hi) for mid, md in zip(ar.msg_ids, mds)]
            _figures(ctx, w, kind, ar, want)


def _reply(w, kind, mid):
    for chan, m in w.heard:
        if chan in ('mux', 'task', 'broadcast'):
            orig = m['metadata'].get('original_msg_id') if kind == 'coal' else m['parent_header'].get('msg_id')
            if orig == mid:
                return m
    return None


def _times(ctx, w, kind, ar, mid, md, lo, hi):
    """the four times of one request; returns them"""
    clock = w.clock
    sub, start, comp, recv = (clock.of(md[k]) for k in ('submitted', 'started', 'completed', 'received'))
    ctx.check(sub is not None and lo <= sub.k < hi, f'{kind}: submitted is not when it was')
    m = _reply(w, kind, mid)
    heard = None
    if m is not None:
        heard = w.arrived[id(m)]
    if heard is not None and recv is not None and not heard[0] <= recv.k < heard[1]:
        # given up before the reply came
        ctx.check(any(h[0] == 'notification' for h in w.heard) and recv.k < heard[0], f'{kind}: received is not when the reply came')
        m = None
    ctx.check(recv is not None and recv.place == 'client' and recv.k >= hi, f'{kind}: received')
    ctx.check(comp is not None, f'{kind}: completed is missing')
    uuid = m and m['metadata'].get('engine')
    if uuid:
        ctx.check(start is not None and start.place == comp.place, f'{kind}: times of different places')
        who = [(i, e) for (i, e) in w.marks if (i.rpartition('_e')[0] if kind in ('coal',) else i) == mid and e == start.place]
        ctx.check(len(who) == 1, f'{kind}: started on an engine where it did not run')
        ran = w.marks[who[0]]
        ctx.check(And(start <= ran, ran <= comp, start.k < ran.k < comp.k), f'{kind}: not between started and completed while it ran')
        if kind != 'coal':
            ctx.check(start.place == uuid, f'{kind}: times of another engine')
        ctx.reach('times')
    else:
        ctx.check(start is None, f'{kind}: a request that nobody is known to have started has started')
        ctx.reach('never started')
    return sub, start, comp, recv


def _figures(ctx, w, kind, ar, want):
    subs, starts, comps, recvs = zip(*want)
    ran = [(s, c) for s, c in zip(starts, comps) if s is not None]
    total = Sum([c.z - s.z for s, c in ran]) if ran else 0
    t = ar.serial_time
    ctx.check(Eq(t, total), f'{kind}: serial_time')
    ctx.reach('serial')
    hi, lo = _max(recvs), _min(subs)
    ctx.check(Eq(ar.wall_time, hi - lo), f'{kind}: wall_time')
    ctx.check(Eq(ar.elapsed, hi - lo), f'{kind}: elapsed when done')
    ctx.reach('wall')
    if len(ran) == len(want):
        ctx.check(Eq(ar.timedelta(ar.submitted, ar.started), _max(starts) - lo), f'{kind}: timedelta')
        ctx.check(Eq(ar.timedelta(ar.started, ar.completed, max, min), _min(comps) - _max(starts)), f'{kind}: timedelta with keys')


def _max(xs):
    r = xs[0].z
    for x in xs[1:]:
        from symx.core import Ite
        r = Ite(x.z > r, x.z, r)
    return r


def _min(xs):
    from symx.core import Ite
    r = xs[0].z
    for x in xs[1:]:
        r = Ite(x.z < r, x.z, r)
    return r


def _elapsed(ctx, w, ar):
    clock = w.clock
    if ar.ready():
        return
    for name in ('serial_time', 'wall_time'):
        try:
            getattr(ar, name)
            ctx.fail(f'{name} of an unfinished request')
        except TimeoutError:
            pass
        except Exception as e:
            ctx.fail(f'{name} of an unfinished request raised {type(e).__name__}')
    lo = len(clock.stamps)
    with raises_nothing(ctx, 'elapsed'):
        t = ar.elapsed
    ctx.reach('not ready')
    now = clock.stamps[-1]
    ctx.check(now.k >= lo, 'elapsed without looking at the clock')
    subs = [clock.of(s) for s in ([ar.submitted] if ar._single_result else ar.submitted)]
    ctx.check(Eq(t, now.z - _min(subs)), 'elapsed of an unfinished request')
    ctx.reach('elapsed')


class Bar:
    """what the user sees"""

    def __init__(self, total):
        self.total, self.n, self.closed, self.seen = total, 0, False, []

    def update(self, n=1):
        self.n += n
        self.seen.append(self.n)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


class Polled(Rig):
    vain = 0

    def until(self, cond, timeout, what):
        n = self.steps
        r = super().until(cond, timeout, what)
        if timeout and not r and self.steps == n:
            self.vain += 1
            if self.vain > 1:
                self.ctx.cut('polls in vain')
        return r


@harness('C08', 'interactive',
         quick=(dict(kind='two'), dict(kind='map'), dict(kind='one'), dict(kind='two', kill=1)),
         thorough=(dict(kind='three'), dict(kind='three', kill=1), dict(kind='map', kill=1)),
         labels=('complete', 'time is up', 'first', 'exception', 'partial'),
         bounds='1-3 tasks (or a map of 3 elements in uneven chunks) that succeed, fail or are lost; any number of deliveries '
                'within each interval, at most 2 in vain; symbolic clock and time limit, or none; every return_when',
         stubs='in-process network; a progress bar that records')
def interactive(ctx):
    import time

    import ipyparallel.client.asyncresult as A

    p = ctx.params
    n = 3 if p['kind'] == 'three' else 2
    w = Polled(ctx, engines=n)
    w.por = True
    w.prompt = True  # output is C06
    bars = []
    last = [ctx.int('c0', 0, 1000)]
    calls = [0]

    def perf_counter():
        if calls[0] > 20:
            ctx.cut('polls too often')
        calls[0] += 1
        z = ctx.int(f'c{calls[0]}', 0, 1000)
        ctx.assume(z >= last[0])
        last[0] = z
        return z

    class Time:
        def __getattr__(self, name):
            return getattr(time, name)

    T = Time()
    T.perf_counter = T.monotonic = T.time = perf_counter

    def progress(*a, total=None, **k):
        bars.append(Bar(total))
        return bars[-1]

    with w.patch((A, 'time', T), (A, 'progress', progress)):
        c = w.connect()
        try:
            _interactive(ctx, p, w, c, bars, last, n)
        except Hang as e:
            ctx.fail(f'a wait never ends: {e}')
        finally:
            c._closed = True


def _ok(x):
    return x


def _odd(x):
    if x % 2:
        raise ValueError(str(x))
    return x


def _interactive(ctx, p, w, c, bars, last, n):
    kind = p['kind']
    fails = ctx.flip('fails')
    f = _odd if fails else _ok
    with raises_nothing(ctx, 'submitting'):
        if kind == 'map':
            ar = c.load_balanced_view().map_async(f, [0, 1, 2], chunksize=2)
        elif kind == 'one':
            ar = c[0].apply_async(f, 1)
        else:
            ar = c[list(range(n))].map_async(f, list(range(n)))
    total = 3 if kind == 'map' else 1 if kind == 'one' else n
    sizes = [2, 1] if kind == 'map' else [1] * total
    if p.get('kill'):
        for i in range(p['kill']):
            if ctx.flip(f'early{i}'):
                w.step()
        e = w.engines['e0']
        for link in w.order:
            if link[0] == ('e', 'e0') and link[1] in ('mux', 'task'):
                lost, w.links[link] = w.links[link], []
                for f_ in lost:
                    if link[1] == 'task':
                        _scheduler_error(w, f_, e)
        w.kill(e)
    if ctx.flip('done before'):
        with raises_nothing(ctx, 'deliveries'):
            w.drain()
    limit = ctx.int('limit', 0, 100) if ctx.flip('limited') else ctx.choose('none', (None, -1))
    when = ctx.choose('when', (None, 'ALL_COMPLETED', 'FIRST_COMPLETED', 'FIRST_EXCEPTION'))
    tic = last[0]
    up = None
    try:
        with raises_nothing(ctx, 'wait_interactive'):
            ar.wait_interactive(interval=0.5, timeout=limit, **({'return_when': when} if when else {}))
    except TimeoutError:
        up = True
    ctx.check(len(bars) == 1 and bars[0].closed, 'the progress bar is left open')
    bar = bars[0]
    ctx.check(bar.total == total and len(ar) == total, 'total of the progress bar')

    def done():
        return [i for i in range(len(ar._children)) if ar.msg_ids[i] in [m['parent_header'].get('msg_id') for ch, m in w.heard if ch in ('mux', 'task')]
                or ar.msg_ids[i] not in c.outstanding]

    d = done()
    count = sum(sizes[i] for i in d)
    ctx.check(bar.n == count and ar.progress == count, 'tasks shown as done')
    ctx.check(all(0 <= a <= b <= total for a, b in zip(bar.seen, bar.seen[1:])), 'progress went backwards')
    bad_ = [i for i in d if ar._children[i].exception(0) is not None or isinstance(ar._children[i].result(0), Exception)]
    if count and count < total:
        ctx.reach('partial')
    full = len(d) == len(ar.msg_ids)
    there = {'FIRST_COMPLETED': bool(d), 'FIRST_EXCEPTION': full or bool(bad_)}.get(when, full)
    if there:
        ctx.reach({'FIRST_COMPLETED': 'first', 'FIRST_EXCEPTION': 'exception'}.get(when, 'complete'))
        ctx.check(not up, 'timed out, though it was done')
    else:
        ctx.reach('time is up')
        ctx.check(limit is not None and limit != -1, 'ended too early')
        ctx.check(last[0] - tic > limit, 'ended before its time was up')
