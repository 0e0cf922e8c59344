"""The real Client and its views over an in-process network, with engines that run the
real apply/abort/clear handlers of the kernel.  Everything that would block the user's
thread drives the network instead, one symbolically chosen delivery at a time."""
import concurrent.futures
import threading
import time

import zmq

from fixtures.net import FakeContext, Net, NetSock, NetStream
from fixtures.wire import FakeLoop, NullLog, Packer, Patch, make_session

PORTS = ('control', 'task', 'mux', 'iopub', 'notification', 'registration', 'broadcast')
INFO = dict({p: 1 + i for i, p in enumerate(PORTS)}, interface='tcp://127.0.0.1', ssh='', location=None,
            task_scheme='leastload', pack='json', unpack='json', key='k', signature_scheme='hmac-sha256')


class Hang(BaseException):
    """the user's thread waits for something that can no longer happen"""


class Shell:
    """what the kernel's handlers need of IPython's shell"""

    def __init__(self, engine):
        self.engine = engine
        self.user_ns = {'__name__': '__main__', '__builtins__': __builtins__, 'get_ipython': lambda: self}
        self.user_global_ns = self.user_ns
        self._last_traceback = None

    def showtraceback(self, *a, **k):
        self._last_traceback = ['tb']

    def reset(self, new_session=True):
        keep = {k: self.user_ns[k] for k in ('__name__', '__builtins__', 'get_ipython')}
        self.user_ns.clear()
        self.user_ns.update(keep)


class Engine:
    def __init__(self, world, eid, uuid):
        from ipyparallel.engine.kernel import IPythonParallelKernel

        self.world = world
        self.id = eid
        self.uuid = uuid
        self.alive = True
        self.session = make_session(world.packer)
        real = self.session.send

        # as IPEngine does for every message of its session
        def send(stream, msg_or_type, *a, **k):
            k['metadata'] = dict(k.get('metadata') or {})
            k['metadata'].setdefault('engine', uuid)
            return real(stream, msg_or_type, *a, **k)

        self.session.send = send
        self.shell = Shell(self)

        class SimKernel(IPythonParallelKernel):
            session = shell = ident = engine_id = aborted = log = shell_is_blocking = None

        self.kernel = k = SimKernel.__new__(SimKernel)
        k.session, k.shell, k.ident, k.engine_id = self.session, self.shell, uuid, eid
        k.aborted, k.log = set(), NullLog()
        k._abort_queues = self._abort_queues
        self.queue = []
        self.abort_all = False

    def _abort_queues(self, *a, **k):
        for frames, chan in self.queue:
            self._aborting.append(frames)

    def out(self, dst):
        """a socket-like whose messages go to the client's socket `dst`, in order per engine"""
        w = self.world

        class Out:
            def send_multipart(_, frames, **k):
                w.post(('e', self.uuid), dst, list(frames))

            def __getattr__(_, name):
                if name.startswith('__'):
                    raise AttributeError(name)
                return lambda *a, **k: None

            @property
            def __class__(_):
                return zmq.Socket
        return Out()

    def io(self, msg_type, content, parent, buffers=None, metadata=None):
        self.session.send(self.out('iopub'), msg_type, content, parent=parent, ident=b'engine.topic',
                          buffers=buffers, metadata=metadata)

    def receive(self, frames, chan):
        self.queue.append((frames, chan))

    def run_one(self):
        frames, chan = self.queue.pop(0)
        idents, parts = self.session.feed_identities(list(frames))
        msg = self.session.deserialize(parts)
        out = self.out(chan)
        k = self.kernel
        self.world.shell = self.shell
        if k.should_handle(out, msg, idents):
            mt = msg['header']['msg_type']
            self.world.ran.append((msg['header']['msg_id'], self.uuid))
            if mt == 'apply_request':
                self.world.output(self, msg)
                k.apply_request(out, idents, msg)
            else:
                self.execute(out, idents, msg)
        self.world.shell = None
        self.io('status', {'execution_state': 'idle'}, msg)

    def execute(self, out, idents, msg):
        k = self.kernel
        md = k.init_metadata(msg)
        self.world.output(self, msg)
        try:
            exec(msg['content']['code'], self.shell.user_ns)
            content = {'status': 'ok', 'execution_count': 1}
        except Exception as e:
            content = {'status': 'error', 'ename': type(e).__name__, 'evalue': str(e), 'traceback': [f'tb-{self.uuid}-{e}'],
                       'engine_info': k.get_engine_info(method='execute')}
            self.io('error', dict(content), msg)
        md = k.finish_metadata(msg, md, content)
        self.session.send(out, 'execute_reply', content, metadata=md, parent=msg, ident=idents)

    def control(self, frames):
        idents, parts = self.session.feed_identities(list(frames))
        msg = self.session.deserialize(parts)
        mt = msg['header']['msg_type']
        getattr(self.kernel, mt)(self.out('control'), idents, msg)


class Remote(NetSock):
    """the cluster's end of one of the client's channels"""

    def __init__(self, net, kind, cb):
        super().__init__(net, kind)
        self.cb = cb

    def receive(self, frames):
        self.cb(frames)


class World:
    """one client, some engines.  `lazy`: engines run a request as an event of its own
    (otherwise at once); `output(engine, msg)`: what a request publishes."""

    por = False
    policy = None  # a fixed order of deliveries: 0 the oldest link first, -1 the newest first
    prompt = False  # output is delivered at once
    any_order = False  # of what is done at once
    patient = False  # finite waits end only when nothing else can happen
    idle = 0

    def __init__(self, ctx, engines=2, lazy=False, race=False, assign=None, hub=None, info=None, ids=None):
        self.ctx = ctx
        self.lazy = lazy
        self.race = race
        self.assign = assign or (lambda w, msg, es: w.ctx.choose('assign', es))
        self.hub = hub
        self.packer = hub.packer if hub else Packer()
        self.net = Net()
        self.ran = []
        self.shell = None  # of the engine whose code is running, if any
        self.links = {}
        self.order = []
        self.tasks = []
        self.output = lambda e, m: None
        self.blocked = 0
        self.steps = 0
        self.sleep = {}
        self.lost = []
        self.sent = []
        self.routed = []
        self.requests = {}  # msg id -> the message, as it left the client
        self.engines = {}
        ids = list(range(engines)) if ids is None else ids
        for i in ids:
            self.engines[f'e{i}'] = Engine(self, i, f'e{i}')
        self.loop = _Loop(self)
        self.info = dict(INFO, **(info or {}))
        self.session = make_session(self.packer)

    # ---- patches under which the client lives
    def patch(self, *more):
        import ipyparallel.client.asyncresult as A
        import ipyparallel.client.client as C
        import ipyparallel.client.futures as F
        import ipyparallel.client.view as V
        from jupyter_client.session import Session

        w = self

        def event():
            return PumpEvent(w)

        F_ = concurrent.futures.Future
        result, exception = F_.result, F_.exception

        def blocking(real):
            def method(f, timeout=None):
                if not f.done():
                    w.until(f.done, timeout, 'Future.result')
                return real(f, 0)

            return method

        def sleep(s):
            if not w.step():
                raise Hang('sleeps for ever')

        import ipyparallel as ipp
        import ipyparallel.util as U

        def ip():
            return w.shell
        return Patch((C, 'Session', lambda **k: make_session(w.packer, cls=Session)), (C, 'ZMQStream', NetStream),
                     (C, 'Event', event), (F, 'Event', event), (A, 'Event', event), (threading, 'Event', event),
                     (F_, 'result', blocking(result)), (F_, 'exception', blocking(exception)),
                     (concurrent.futures, 'wait', self.wait), (time, 'sleep', sleep),
                     (concurrent.futures, 'ThreadPoolExecutor', lambda *a, **k: Pool(w)),
                     (C, 'print', lambda *a, **k: None), (ipp, '_NONINTERACTIVE', True),
                     (U, 'get_ipython', ip), (V, 'get_ipython', ip), (C, 'get_ipython', ip), (A, 'get_ipython', ip),
                     *more)

    def connect(self, **kw):
        from ipyparallel.client import client as C

        w = self

        class SimClient(C.Client):
            def _start_io_thread(self):
                self._io_loop = w.loop
                self._setup_streams()

            def _stop_io_thread(self):
                pass

        net = self.net
        for name in PORTS:
            if name in ('iopub', 'notification'):
                continue
            s = Remote(net, zmq.ROUTER, lambda f, name=name: self.incoming(name, f))
            s.bind(f"{self.info['interface']}:{self.info[name]}")
        import ipyparallel.client.client as C

        class Poller:
            def register(self, *a):
                pass

            def poll(self, *a):
                net.run()
                return [1]

        with Patch((C, 'zmq', _zmq_with(Poller))):
            self.client = SimClient(self.info, context=FakeContext(net), **kw)
        self.socks = {n: getattr(self.client, f'_{n}_socket') for n in (
            'mux', 'task', 'broadcast', 'iopub', 'notification', 'control', 'query')}
        return self.client

    # ---- cluster side
    def incoming(self, chan, frames):
        """a message of the client arrives at the controller"""
        parts = frames[1:]
        idents, rest = self.session.feed_identities(list(parts))
        msg = self.session.deserialize(list(rest))
        self.sent.append((chan, msg))
        self.routed.append((chan, idents[0].decode() if idents else None, msg))
        mt = msg['header']['msg_type']
        self.requests[msg['header']['msg_id']] = msg
        i = parts.index(b'<IDS|MSG>')
        body = [b'cli'] + parts[i:]
        if chan == 'registration':
            if mt == 'connection_request':
                m = self.session.msg('connection_reply', {'status': 'ok', 'engines': {
                    str(e.id): e.uuid for e in self.engines.values() if e.alive}}, parent=msg)
                sock = [s for s in self.net.socks if not isinstance(s, Remote)][0]
                sock.receive(self.session.serialize(m))
            else:
                self.ask_hub(mt, msg)
        elif chan == 'mux' or chan == 'control':
            e = self.engines.get(idents[0].decode())
            if e is None or not e.alive:
                self.lost.append(msg)
            elif chan == 'control':
                e.control(body)
            else:
                self.to_engine(e, body, chan)
        elif chan == 'task':
            es = [e for e in self.engines.values() if e.alive]
            t = msg['metadata'].get('targets')
            if t:
                es = [e for e in es if e.uuid in t]
            if es:
                self.to_engine(self.assign(self, msg, es), body, chan)
        elif chan == 'broadcast':
            self.broadcast(msg, body)

    def ask_hub(self, mt, msg):
        self.hub.q.recv_cb([b'cli'] + self.session.serialize(msg))
        for f in self.hub.q.sent[self.hub.seen.get('query', 0):]:
            self.post('hub', 'query', list(f)[1:])
        self.hub.seen['query'] = len(self.hub.q.sent)

    def to_engine(self, e, frames, chan):
        e.receive(frames, chan)
        if not self.lazy:
            while e.queue:
                e.run_one()

    def broadcast(self, msg, body):
        """one scheduler, a leaf (the tree itself is B01/B02)"""
        orig = msg['header']['msg_id']
        md = dict(msg['metadata'])
        targets = md['targets']
        self.coal = getattr(self, 'coal', {})
        if md['is_coalescing']:
            self.coal[orig] = {t[0]: None for t in targets}, targets
        for uuid, eid in targets:
            m = dict(msg, header=dict(msg['header'], msg_id=f'{orig}_{uuid}'), msg_id=f'{orig}_{uuid}',
                     metadata=dict(md, original_msg_id=orig, targets=[[uuid, eid]]))
            bufs = [bytes(b) for b in msg['buffers']]
            e = self.engines.get(uuid)
            if e is not None and e.alive:
                self.to_engine(e, [b'cli'] + self.session.serialize(m) + bufs, 'broadcast')

    def post(self, src, dst, frames):
        """a message towards the client: idents are those of the routing, dropped on the way"""
        if dst == 'broadcast':
            ids, parts = self.session.feed_identities(list(frames))
            m = self.session.deserialize(list(parts))
            if m['metadata'].get('is_coalescing'):
                orig = m['metadata']['original_msg_id']
                got, targets = self.coal[orig]
                got[src[1]] = m
                if any(v is None for v in got.values()):
                    return
                worst = [r for r in got.values() if r['metadata'].get('status') == 'error'] or [m]
                m = dict(worst[0])
                m['metadata'] = dict(m['metadata'], broadcast_targets=targets)
                frames = self.session.serialize(m) + [bytes(b) for r in got.values() for b in r['buffers']]
        key = (src, dst)
        if key not in self.links:
            self.links[key] = []
            self.order.append(key)
        self.links[key].append(frames)
        if dst == 'iopub' and self.prompt:
            self.deliver(key)

    def notify(self, mt, content):
        m = self.session.msg(mt, content)
        self.post('hub', 'notification', self.session.serialize(m))

    def kill(self, e, heard=True):
        """the engine is gone; `heard`: the hub tells the clients"""
        e.alive = False
        e.queue = []
        self.barrier()
        if heard:
            self.notify('unregistration_notification', {'id': e.id, 'uuid': e.uuid})

    # ---- events
    def ready(self):
        r = []
        if self.loop.callbacks:
            r.append(('io', None))
        r += [('deliver', k) for k in self.order if self.links[k]]
        if self.lazy:
            r += [('run', e) for e in self.engines.values() if e.alive and e.queue]
        if self.tasks:
            r.append(('task', None))
        return r

    def step(self):
        r = self.ready()
        if not r:
            return False
        self.steps += 1
        if r[0][0] == 'io':
            k, x = r[0]
        else:
            if self.por:
                r = self.reduce(r)
            i = 0 if len(r) == 1 else self.policy % len(r) if self.policy is not None else self.ctx.choose(f's{self.steps}', range(len(r)))
            k, x = r[i]
            if self.por:
                t = self.touches(k, x)
                self.sleep.update((self.label(*y), self.touches(*y)) for y in r[:i])
                self.sleep = {n: u for n, u in self.sleep.items() if None not in (t, u) and t != u}
        if k == 'io':
            self.loop.callbacks.pop(0)()
            self.net.run()
        elif k == 'deliver':
            self.deliver(x)
        elif k == 'run':
            x.run_one()
        else:
            self.tasks.pop(0)()
        return True

    # partial order reduction with sleep sets: events that touch different messages commute, only one
    # of their orders is followed to the end (every state is still visited)
    @staticmethod
    def label(k, x):
        return (k, str(x if k == 'deliver' else getattr(x, 'uuid', '')))

    def touches(self, k, x):
        if k == 'run':
            return x.uuid
        if k == 'deliver' and x[1] in ('iopub', 'mux', 'task', 'broadcast'):
            ids, parts = self.session.feed_identities(list(self.links[x][0]))
            m = self.session.deserialize(list(parts))
            if m['metadata'].get('is_coalescing') and x[1] == 'broadcast':
                return m['metadata']['original_msg_id']
            return m['parent_header'].get('msg_id')
        return None

    def reduce(self, r):
        keep = [y for y in r if self.label(*y) not in self.sleep]
        if not keep:
            self.ctx.cut('another order of independent deliveries')
        return keep

    def barrier(self):
        self.sleep.clear()

    def deliver(self, link):
        f = self.links[link].pop(0)
        s = self.socks[link[1]]
        n = len(s.stream.errors)
        s.receive(f)
        if len(s.stream.errors) > n:
            e = s.stream.errors[-1]
            self.ctx.fail(f'the handler of a {link[1]} message raised {type(e).__name__}: {e}')

    def drain(self):
        while self.step():
            pass

    # ---- blocking
    def until(self, cond, timeout, what):
        n = 0
        while not cond():
            if timeout is not None and timeout <= 0:
                break
            if timeout is not None and self.patient:
                # polls again until there is nothing left that could happen
                if self.step():
                                continue
                self.idle += 1
                if self.idle > 3:
                    raise Hang(what)
                break
            if timeout is not None and timeout < 1e6:
                # a finite wait may see any number of deliveries
                n += 1
                if n > 2 or not self.ctx.flip(f'w{self.steps}_{n}'):
                    break
                if not self.step():
                    break
            elif not self.step():
                raise Hang(what)
        return cond()

    def wait(self, fs, timeout=None, return_when='ALL_COMPLETED'):
        fs = InOrder(fs if isinstance(fs, (list, tuple, InOrder)) else sorted(fs, key=lambda f: str(getattr(f, 'msg_ids', None) or getattr(f, 'msg_id', None))))

        def cond():
            done = {f for f in fs if f.done()}
            if return_when == 'FIRST_COMPLETED':
                return bool(done)
            if return_when == 'FIRST_EXCEPTION' and any(
                    not f.cancelled() and f.exception(0) is not None for f in done):
                return True
            return len(done) == len(fs)

        self.until(cond, timeout, 'concurrent.futures.wait')
        done = [f for f in fs if f.done()]
        if self.any_order and len(done) > 1 and self.ctx.flip(f'reversed{self.steps}'):
            done.reverse()
        return concurrent.futures._base.DoneAndNotDoneFutures(InOrder(done), InOrder(f for f in fs if f not in done))


class InOrder(set):
    """a set that is iterated in a given order"""

    def __init__(self, it=()):
        self.first = list(it)
        super().__init__(self.first)

    def __iter__(self):
        seen = list(dict.fromkeys(x for x in self.first if x in self))
        return iter(seen + [x for x in set.__iter__(self) if x not in seen])


def _zmq_with(Poller):
    class Z:
        def __getattr__(self, name):
            return getattr(zmq, name)

    z = Z()
    z.Poller = Poller
    return z


class _Loop(FakeLoop):
    def __init__(self, world):
        super().__init__()
        self.world = world

    def add_callback(self, cb, *a, **k):
        super().add_callback(cb, *a, **k)
        w = self.world
        if w.race:
            # the io thread may run (and replies may arrive) before the caller goes on
            n = 0
            while n < w.race and w.ready() and w.ctx.flip(f'race{w.steps}_{n}'):
                w.step()
                n += 1


class PumpEvent:
    def __init__(self, world):
        self.world = world
        self.flag = False

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def is_set(self):
        return self.flag

    isSet = is_set

    def wait(self, timeout=None):
        return self.world.until(lambda: self.flag, timeout, 'Event.wait')


class Pool:
    """a one-thread executor whose tasks run when the world chooses, in order"""

    def __init__(self, world):
        self.world = world
        self.closed = False
        self.mine = []

    def submit(self, fn, *a, **k):
        if self.closed:
            raise RuntimeError('cannot schedule new futures after shutdown')
        f = concurrent.futures.Future()

        def run():
            self.mine.remove(run)
            try:
                f.set_result(fn(*a, **k))
            except Exception as e:
                f.set_exception(e)

        self.mine.append(run)
        self.world.tasks.append(run)
        return f

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()

    def shutdown(self, wait=True, **k):
        self.closed = True
        self.world.until(lambda: not self.mine, None, 'pool shutdown')
