"""E02: how engines join and leave.  N01: the nanny relays, signals and reports."""
import types

from symx.core import And, Not
from symx.reg import harness, raises_nothing
from fixtures.wire import FakeLoop, FakeSocket, FakeStream, FakeTime, NullLog, Packer, Patch, make_session


class Names:
    """a module with some names replaced"""

    def __init__(self, mod, **kw):
        self.__dict__.update(kw, _mod=mod)

    def __getattr__(self, name):
        return getattr(self._mod, name)


class Sock(FakeStream):
    """a zmq socket that records options, connections and messages"""

    def __init__(self, kind):
        super().__init__(kind)
        self.kind = kind
        self.opts = {}
        self.urls = []
        self.closed = False
        self.inbox = []

    @property
    def __class__(self):
        import zmq

        return zmq.Socket

    def __setattr__(self, name, value):
        import zmq

        if name in ('IDENTITY', 'identity'):
            self.opts[int(zmq.IDENTITY)] = value
        elif name in ('LINGER', 'linger'):
            self.opts[int(zmq.LINGER)] = value
        else:
            object.__setattr__(self, name, value)

    def setsockopt(self, k, v):
        self.opts[int(k)] = v

    set = setsockopt

    def connect(self, url):
        self.urls.append(url)

    def bind_to_random_port(self, url, **k):
        self.urls.append(url)
        return 4321

    def recv_multipart(self, *a, **k):
        return self.inbox.pop(0)

    def close(self, *a, **k):
        self.closed = True

    def messages(self, sess):
        out = []
        for f in self.sent:
            ids, parts = sess.feed_identities(list(f))
            out.append((ids, sess.deserialize(parts)))
        return out


class Ctx:
    def __init__(self):
        self.sockets = []

    @property
    def __class__(self):
        import zmq

        return zmq.Context

    def socket(self, kind):
        import zmq

        self.sockets.append(Sock(zmq.SocketType(kind).name))
        return self.sockets[-1]

    def term(self):
        pass


class Periodic:
    def __init__(self, cb, ms, *a, **k):
        self.cb, self.ms, self.running = cb, ms, False

    def start(self):
        self.running = True

    def stop(self):
        self.running = False


class EngineRig:
    """the real IPEngine on fake sockets, loop and clock"""

    def __init__(self, ctx, now=None):
        import zmq
        import zmq.asyncio  # noqa

        from ipyparallel.engine import app as A

        self.ctx, self.A = ctx, A
        self.packer = Packer()
        self.hub = make_session(self.packer)
        self.session = make_session(self.packer)
        self.loop = FakeLoop()
        self.stopped = 0
        self.loop.stop = self._stop
        self.context = Ctx()
        self.hearts, self.periodic, self.streams, self.nannies = [], [], [], []
        app = self.app = A.IPEngine(log=NullLog())
        for k, v in dict(session=self.session, loop=self.loop, context=self.context, ident=self.session.session,
                         registration_url='tcp://127.0.0.1:100', timeout=5).items():
            app._trait_values[k] = v
        app._trait_values['bident'] = app.ident.encode()
        self.time = FakeTime()
        if now is not None:
            self.time.time = self.time.monotonic = now
        rig = self

        class Poller:
            def register(self, *a):
                self.sock = a[0]

            async def poll(self, timeout=None):
                return [(self.sock, zmq.POLLIN)] if self.sock.inbox else []

        zasync = Names(zmq.asyncio, Poller=Poller)

        def stream(sock, loop=None):
            s = FakeStream('stream')
            s.socket = s.sock = sock
            rig.streams.append(s)
            return s

        class Heart:
            def __init__(self, *a, **k):
                rig.hearts.append((a, k))

            def start(self):
                rig.beating = True

        def periodic(cb, ms, *a, **k):
            rig.periodic.append(Periodic(cb, ms))
            return rig.periodic[-1]

        class Thread:
            io_loop = self.loop

            def __init__(self, *a, **k):
                pass

            def start(self):
                pass

        class Kernel:
            kw = None

            @classmethod
            def instance(cls, **kw):
                rig.kernel_kw = kw
                k = cls()
                k.kw = kw
                k.shell = types.SimpleNamespace(display_pub=types.SimpleNamespace())
                return k

            @property
            def __class__(self):
                return A_Kernel

            def start(self):
                rig.started = True

        class KApp:
            def __init__(self, **k):
                self.exec_lines = []

            @property
            def __class__(self):
                return A_KApp

            def __getattr__(self, name):
                if name.startswith('__'):
                    raise AttributeError(name)
                return lambda *a, **k: None

        A_Kernel, A_KApp = A.Kernel, A.IPKernelApp
        import signal

        def nanny(**kw):
            rig.nannies.append(kw)
            return 'tcp://127.0.0.1:777', 'handle'

        import tornado.ioloop as I
        import zmq.eventloop.zmqstream as Z
        self.patches = [
            (A, 'zmq', Names(zmq, asyncio=zasync)), (A, 'time', self.time), (A, 'Heart', Heart),
            (A, 'ioloop', Names(I, PeriodicCallback=periodic)), (A, 'zmqstream', Names(Z, ZMQStream=stream)),
            (A, 'IOPubThread', Thread), (A, 'ControlThread', Thread), (A, 'Kernel', Kernel), (A, 'IPKernelApp', KApp),
            (A, 'start_nanny', nanny), (A, 'localhost', lambda: '127.0.0.1'),
            (A, 'signal', Names(signal, signal=lambda *a: None)),
        ]
        app.redirect_output = lambda *a: None

        class Log(NullLog):
            name = 'IPEngine'

            def critical(self, msg, *a, exc_info=None, **k):
                if exc_info:
                    import sys

                    rig.error = repr(sys.exc_info()[1])

        self.error = None
        app._trait_values['log'] = Log()

    def _stop(self):
        self.stopped += 1

    def patch(self):
        return Patch(*self.patches)


@harness('E02', 'heartbeat', quick=({'events': 7},), thorough=({'events': 9}, {'events': 8, 'pings': 2}),
         labels=('stopped', 'survived a miss', 'disabled', 'late ping'),
         bounds='all sequences of up to 7 (thorough 9) checks with or without pings before each, at symbolic instants, and a symbolic limit of '
                'missed beats; pings may still be waiting on the socket when the check runs',
         stubs='sockets, timers, clock, the Heart thread')
def heartbeat(ctx):
    ctx.lazy_str = ctx.const_hash = True
    clock = [ctx.int('t0', 1)]
    rig = EngineRig(ctx, now=lambda: clock[0])
    app = rig.app
    app._trait_values['id'] = 3
    limit = ctx.int('max_heartbeat_misses', 0, 20)
    app._trait_values['max_heartbeat_misses'] = limit
    period = ctx.int('hb_period', 1, 100000)
    with rig.patch():
        reg = app._trait_values['registrar'] = rig.context.socket(5)
        with raises_nothing(ctx, 'start_heartbeat'):
            app.start_heartbeat('ping', 'pong', period, app.bident)
        ctx.check(len(rig.hearts) == 1 and rig.beating, 'one heart beats')
        a, k = rig.hearts[0]
        ctx.check(k.get('heart_id') == app.bident and a[:2] == ('ping', 'pong'), 'the heart beats under the identity of the engine')
        if limit == 0:
            ctx.check(not rig.periodic, 'the check of heartbeats is disabled with 0')
            ctx.reach('disabled')
            return
        ctx.check(len(rig.periodic) == 1 and rig.periodic[0].running, 'heartbeats are checked')
        p = rig.periodic[0]
        ctx.check(p.ms >= period, 'heartbeats are checked more often than they are sent')
        listener = rig.streams[0]
        ctx.check(listener.recv_cb is not None, 'pings of the controller are not heard')
        silent = 0  # complete check periods without ping
        pinged = True
        for n in range(ctx.params['events']):
            ev = ctx.choose(f'ev{n}', ['none', 'ping', 'queued'])
            for i in range(1 if ev != 'ping' else ctx.params.get('pings', 1)):
                clock[0] = clock[0] + ctx.int(f'dp{n}_{i}', 1)
                if ev == 'ping':
                    listener.recv_cb([b'beat'])
                    pinged = True
                elif ev == 'queued':
                    listener.pending.append([b'beat'])
                    pinged = True
                    ctx.reach('late ping')
            clock[0] = clock[0] + ctx.int(f'dt{n}', 1)
            silent = 0 if pinged else silent + 1
            pinged = False
            with raises_nothing(ctx, 'check of the heartbeat'):
                p.cb()
            if rig.stopped:
                ctx.check(rig.stopped == 1, 'stopped once')
                ctx.check(silent >= limit, f'the engine stops after {silent} silent periods')
                m = [m for _, m in reg.messages(rig.hub)]
                ctx.check([x['header']['msg_type'] for x in m] == ['unregistration_request'], 'unregisters once')
                c = m[0]['content']
                ctx.check(c['id'] == 3 and c.get('uuid', app.ident) == app.ident, f'unregisters {c}')
                ctx.reach('stopped')
                return
            ctx.check(silent <= limit, f'the engine goes on after {silent} silent periods')
            if silent:
                ctx.reach('survived a miss')
        ctx.check(not reg.sent, 'unregisters while it goes on')


@harness('E02', 'join', quick=({'leaves': 2}, {'leaves': 3}), thorough=({'leaves': 2}, {'leaves': 3}, {'leaves': 4}),
         labels=('joined', 'refused', 'no reply', 'other id', 'direct control', 'via nanny'),
         bounds='1-4 broadcast leaves; requested id None or 0-3; replies that grant any id of 0-7, refuse, or never come; '
                'with and without nanny and with and without curve keys; symbolic ports',
         stubs='sockets, poller, clock, kernel, threads, Heart, the nanny process')
def join(ctx):
    ctx.lazy_str = ctx.const_hash = True
    rig = EngineRig(ctx)
    app = rig.app
    n = ctx.params['leaves']
    want = ctx.choose('requested', [None, 0, 3])
    app._trait_values['id'] = want
    app._trait_values['enable_nanny'] = nanny = ctx.flip('nanny')
    curve = ctx.flip('curve')
    if curve:
        app._trait_values.update(curve_serverkey=b'SK', curve_secretkey=b'sec', curve_publickey=b'pub')
    else:
        app._trait_values.update(curve_serverkey=b'', curve_secretkey=b'', curve_publickey=b'')
    ports = {k: 100 + i for i, k in enumerate(('registration', 'mux', 'task', 'control', 'iopub', 'hb_ping', 'hb_pong'))}
    info = dict(ports, interface='tcp://127.0.0.1', broadcast=[200 + i for i in range(n)])
    app.connection_info = info
    kind = ctx.choose('reply', ['ok', 'refused', 'none'])
    got = ctx.choose('granted', [0, 1, 3, 5, 6]) if kind == 'ok' else None
    with rig.patch():
        regs = []
        real = rig.context.socket

        def socket(k):
            s = real(k)
            if not regs:
                regs.append(s)
                if kind != 'none':
                    content = dict(id=got, status='ok', hb_period=3000, connection_info=info) if kind == 'ok' else \
                        dict(status='error', ename='KeyError', evalue='in use', traceback=[])
                    w = FakeStream('w')
                    rig.hub.send(w, 'registration_reply', content=content)
                    s.inbox.append(w.sent[0])
            return s

        rig.context.socket = socket
        left = None
        try:
            c = app.register()
            c.send(None)
            ctx.fail('register waits for something else')
        except StopIteration:
            pass
        except SystemExit as e:
            left = e.code
        except Exception as e:
            ctx.fail(f'register: {type(e).__name__}: {e}')
        reg = regs[0]
        ctx.check(reg.urls == ['tcp://127.0.0.1:100'], 'registers at the registration url')
        m = [m for _, m in reg.messages(rig.hub)]
        ctx.check(m and m[0]['header']['msg_type'] == 'registration_request', 'a registration request first')
        ctx.check(m[0]['content'] == dict({'uuid': app.ident}, **({} if want is None else {'id': want})), 'requests its id')
        import zmq
        keys = {zmq.CURVE_SERVERKEY: b'SK', zmq.CURVE_SECRETKEY: b'sec', zmq.CURVE_PUBLICKEY: b'pub'}

        def secured(s, server=b'SK'):
            for k, v in keys.items():
                v = server if k == zmq.CURVE_SERVERKEY else v
                ctx.check(s.opts.get(int(k)) == (v if curve else None), f'{s.kind} {s.urls}: key {k!r}')

        secured(reg)
        if kind != 'ok':
            ctx.check(left not in (None, 0), f'not registered, but the engine exits with {left}')
            ctx.check(not rig.hearts, 'the heart of an engine that is not registered beats')
            rest = [x['header']['msg_type'] for x in m[1:]]
            if kind == 'none':
                ctx.check(rest == ['unregistration_request'], f'gives up with {rest}')
                ctx.check(m[1]['content'].get('uuid') == app.ident, 'gives up in the name of another engine')
                ctx.reach('no reply')
            else:
                ctx.check(rest == [], 'only an engine that is registered, or may be, unregisters')
                ctx.reach('refused')
            return
        ctx.check(left is None and len(m) == 1, f'granted an id, but the engine exits: {rig.error}')
        ctx.check(app.id == got, 'has the granted id')
        ctx.reach('joined')
        if want is not None and got != want:
            ctx.reach('other id')
        by = {}
        for s in rig.context.sockets:
            for u in s.urls:
                by.setdefault(u, []).append(s)
        # the controller's broadcast tree expects engine i at leaf i % n
        url = 'tcp://127.0.0.1:%d'
        need = [url % ports['mux'], url % ports['task'], url % (200 + got % n)]
        for u in need + [url % ports['iopub']]:
            ctx.check(len(by.get(u, [])) == 1, f'{u}: connected {len(by.get(u, []))} times')
            s = by[u][0]
            ctx.check(s.opts.get(int(zmq.IDENTITY)) == app.bident, f'{u}: identity')
            secured(s)
        for i in range(n):
            ctx.check((url % (200 + i) in by) == (i == got % n), f'engine {got} at leaf {i} of {n}')
        shell = {id(by[u][0]) for u in need}
        ctrl = 'tcp://127.0.0.1:777' if nanny else url % ports['control']
        ctx.check(len(by.get(ctrl, [])) == 1 and (url % ports['control'] in by) == (not nanny), 'control channel')
        secured(by[ctrl][0], b'pub' if nanny else b'SK')
        kw = rig.kernel_kw
        ctx.check({id(s.sock) for s in kw['shell_streams']} == shell, 'the kernel serves all shell channels')
        ctx.check(kw['control_stream'].sock is by[ctrl][0], 'the kernel serves the control channel')
        ctx.check(kw['engine_id'] == got and kw['ident'] == app.ident, 'the kernel knows its engine')
        ctx.check(len(rig.nannies) == int(nanny), 'one nanny')
        if nanny:
            k = rig.nannies[0]
            ctx.check(k['engine_id'] == got and k['identity'] == app.bident and k['control_url'] == url % ports['control']
                      and k['registration_url'] == app.registration_url, f'the nanny is told {k}')
            ctx.check([k['curve_serverkey'], k['curve_secretkey'], k['curve_publickey']] ==
                      ([b'SK', b'sec', b'pub'] if curve else [b''] * 3), 'keys of the nanny')
            ctx.reach('via nanny')
        else:
            ctx.reach('direct control')
        ctx.check(len(rig.hearts) == 1 and rig.beating, 'the heart beats')
        a, k = rig.hearts[0]
        ctx.check(list(a[:2]) == [url % ports['hb_ping'], url % ports['hb_pong']] and k['heart_id'] == app.bident, 'heart')
        # everything the engine sends from now on says who sent it
        w = FakeStream('w')
        md = ctx.choose('metadata', [None, {}, {'a': 1}])
        app.session.send(w, 'x_reply', content={'status': 'ok'}, metadata=md, buffers=[b'b'])
        mm = rig.hub.deserialize(rig.hub.feed_identities(list(w.sent[0]))[1])
        ctx.check(mm['metadata'] == dict(md or {}, engine=app.ident) and mm['content'] == {'status': 'ok'} and
                  [bytes(b) for b in mm['buffers']] == [b'b'], 'messages of a registered engine name it')


# ---------------------------------------------------------------------------------------------------------------


class Gone(Exception):
    pass


class Parent:
    """psutil.Process of the engine"""

    def __init__(self, rig):
        self.rig = rig
        self.alive = True
        self.signals = []

    def wait(self, timeout=None):
        import psutil

        if self.alive:
            self.rig.waits += 1
            if timeout and self.rig.waits > 2:
                # the watcher sleeps until the process is gone
                self.alive = False
                return 0
            raise psutil.TimeoutExpired(timeout)
        return 0

    def status(self):
        import psutil

        if not self.alive:
            raise psutil.NoSuchProcess(1)
        return 'sleeping'

    def send_signal(self, sig):
        import psutil

        if not self.alive:
            raise psutil.NoSuchProcess(1)
        if sig == 200:
            raise OSError('no such signal')
        self.signals.append(sig)


class Pipe:
    def __init__(self, broken):
        self.broken = broken
        self.data = []
        self.closed = 0

    def write(self, s):
        self.data.append(s)

    def flush(self):
        pass

    def close(self):
        self.closed += 1
        if self.broken:
            raise BrokenPipeError


class NannyRig:
    def __init__(self, ctx, broken):
        import psutil
        import signal

        import zmq
        from ipyparallel.engine import nanny as N

        self.ctx = ctx
        self.packer = Packer()
        self.client = make_session(self.packer)
        self.waits = 0
        self.parent = Parent(self)
        self.loop = FakeLoop()
        self.stopped = 0
        self.handlers = {}
        self.loop.stop = self._stop
        self.loop.add_handler = lambda fd, h, ev: self.handlers.__setitem__(fd, h)
        self.loop.remove_handler = lambda fd: self.handlers.pop(fd)
        self.context = Ctx()
        self.threads = []
        self.streams = {}
        self.pipe = Pipe(broken)
        rig = self

        class Thread:
            def __init__(self, target=None, **k):
                self.target = target

            def start(self):
                rig.threads.append(self.target)

        def stream(sock, loop=None):
            s = FakeStream(sock.kind)
            s.sock = sock
            rig.streams[sock.kind] = s
            return s

        self.patches = [
            (N, 'psutil', Names(psutil, Process=lambda pid: self.parent)), (N, 'ZMQStream', stream),
            (N, 'Session', lambda **k: make_session(self.packer)),
            (N, 'zmq', Names(zmq, Context=lambda *a: self.context)), (N, 'Thread', Thread),
            (N, 'IOLoop', types.SimpleNamespace(current=lambda *a, **k: self.loop, READ=1, ERROR=4)),
            (N, 'local_logger', lambda *a: NullLog()),
            (N, 'signal', Names(signal, signal=lambda *a: None)),
        ]
        with self.patch():
            self.nanny = N.KernelNanny(
                pid=1, engine_id=7, control_url='tcp://127.0.0.1:1', registration_url='tcp://127.0.0.1:2',
                identity=b'uuid7', curve_serverkey=b'', curve_publickey=b'', curve_secretkey=b'', config=None,
                pipe=self.pipe)
            self.nanny.log = NullLog()
            try:
                self.nanny.start().send(None)
            except StopIteration:
                pass

    def patch(self):
        return Patch(*self.patches)

    def _stop(self):
        self.stopped += 1


def _request(ctx, rig, n):
    """a control request: (kind, sig, frames)"""
    kind = ctx.choose(f'request{n}', ['abort_request', 'other', 'signal', 'no signal', 'malformed', 'undecodable'])
    s = FakeStream('out')
    sig = None
    if kind == 'signal':
        sig = ctx.choose(f'sig{n}', [2, 15, 'SIGINT', 'SIGTERM', 'SIGNOPE', 200])
        c = {'sig': sig}
    elif kind == 'no signal':
        c = {}
    else:
        c = {'x': ctx.int(f'x{n}')}
    idents = [b'client'] if ctx.flip(f'single{n}') else [b'route', b'client']
    mt = 'signal_request' if 'signal' in kind else 'abort_request' if kind == 'abort_request' else 'custom'
    m = rig.client.send(s, mt, c, buffers=[b'buf'] if kind == 'other' else [], ident=idents)
    frames = s.sent[0]
    if kind == 'malformed':
        frames = [f for f in frames if f != b'<IDS|MSG>']
    elif kind == 'undecodable':
        frames = frames[:len(idents) + 2] + [b'?'] * 4
    return kind, sig, idents, m, frames


@harness('N01', 'relay', quick=({'events': 3},), thorough=({'events': 4},),
         labels=('relayed', 'signalled', 'signal of a dead engine', 'bad signal', 'malformed', 'parent reply', 'pipe first',
                 'exit first', 'broken pipe'),
         bounds='all sequences of 3 (thorough 4) control requests of 6 kinds with symbolic content, replies of the engine, '
                'the pipe closing and the process exiting, with pending callbacks of the loop run at any point',
         stubs='psutil, sockets, loop, threads and signal handlers')
def relay(ctx):
    import signal as S

    ctx.lazy_str = ctx.const_hash = True
    broken = ctx.flip('broken pipe')
    rig = NannyRig(ctx, broken)
    control, parent = rig.streams['ROUTER'], rig.streams['DEALER']
    ctx.check(control.sock.opts.get(5) == b'uuid7' or b'uuid7' in control.sock.opts.values(), 'the nanny has the identity of the engine')
    ctx.check(rig.pipe.data == ['tcp://127.0.0.1:4321\n'], 'the engine is told where to connect')
    ended = []
    relayed, back, signals, replies = [], [], [], []

    def notices():
        return [m for s in rig.context.sockets if 'tcp://127.0.0.1:2' in s.urls for _, m in s.messages(rig.client)]

    with rig.patch():
        for n in range(ctx.params['events']):
            if rig.loop.callbacks and ctx.flip(f'callbacks{n}'):
                rig.loop.run_callbacks()
            if rig.stopped:
                break
            opts = ['request', 'reply']
            if rig.pipe in rig.handlers:
                opts.append('pipe')
            if rig.threads:
                opts.append('exit')
            if rig.parent.alive and 'die' not in ended:
                opts.append('die')
            ev = ctx.choose(f'ev{n}', opts)
            if ev == 'request':
                kind, sig, idents, m, frames = _request(ctx, rig, n)
                with raises_nothing(ctx, f'{kind} request'):
                    control.recv_cb(list(frames))
                if kind in ('abort_request', 'other'):
                    relayed.append(frames)
                    ctx.reach('relayed')
                elif 'signal' in kind:
                    ok = False
                    if kind == 'signal' and sig not in ('SIGNOPE', 200) and rig.parent.alive:
                        signals.append(getattr(S, sig) if isinstance(sig, str) else sig)
                        ok = True
                        ctx.reach('signalled')
                    else:
                        ctx.reach('bad signal' if rig.parent.alive else 'signal of a dead engine')
                    replies.append((len(relayed), idents, m, ok))
                else:
                    ctx.reach('malformed')
            elif ev == 'reply':
                f = [b'client', b'<IDS|MSG>', b'any', b'bytes%d' % n]
                with raises_nothing(ctx, 'reply of the engine'):
                    parent.recv_cb(list(f))
                back.append(f)
                ctx.reach('parent reply')
            elif ev == 'die':
                rig.parent.alive = False
                ended.append('die')
            elif ev == 'pipe':
                ended.append('pipe')
                if broken:
                    ctx.reach('broken pipe')
                ctx.reach('exit first' if 'exit' in ended else 'pipe first')
                with raises_nothing(ctx, 'pipe closed'):
                    rig.handlers[rig.pipe](rig.pipe, 4)
            else:
                # the watching thread sees the process exit
                ended.append('exit')
                with raises_nothing(ctx, 'watching thread'):
                    rig.threads.pop(0)()
                ctx.check(rig.loop.callbacks, 'the thread that watches the engine ends silently')
        got = [[bytes(x) if not isinstance(x, bytes) else x for x in f] for f in parent.sent]
        ctx.check(got == relayed, f'relayed to the engine: {len(got)} messages, requests for it: {len(relayed)}')
        out = []
        answers = []
        for f in control.sent:
            if f in back:
                out.append(f)
            else:
                ids, parts = rig.client.feed_identities(list(f))
                answers.append((ids, rig.client.deserialize(parts)))
        ctx.check(out == back, 'replies of the engine are relayed')
        ctx.check(rig.parent.signals == signals, f'signals {rig.parent.signals}, requested {signals}')
        ctx.check(len(answers) == len(replies), f'{len(answers)} replies to {len(replies)} signal requests')
        for (ids, a), (_, idents, m, ok) in zip(answers, replies):
            ctx.check(ids == idents, 'a reply goes to its requester')
            ctx.check(a['parent_header']['msg_id'] == m['header']['msg_id'], 'a reply names its request')
            ctx.check(a['header']['msg_type'] == 'signal_reply', f'reply of type {a["header"]["msg_type"]}')
            ctx.check((a['content']['status'] == 'ok') == ok, f'reply {a["content"]["status"]}')
            if not ok:
                ctx.check(a['content']['ename'] in ('AttributeError', 'KeyError', 'NoSuchProcess', 'OSError'), 'error of the signal')
        if not ended or ended == ['die']:
            ctx.check(not notices(), 'the engine is unregistered while it lives')
        rig.loop.run_callbacks()
        if 'pipe' in ended or 'exit' in ended:
            with raises_nothing(ctx, 'end'):
                while rig.threads:
                    rig.threads.pop(0)()
                if rig.pipe in rig.handlers and ctx.flip('pipe at last'):
                    rig.handlers[rig.pipe](rig.pipe, 4)
                rig.loop.run_callbacks()
            n = notices()
            ctx.check(len(n) == 1, f'the Hub hears {len(n)} times that the engine has gone')
            ctx.check(n[0]['header']['msg_type'] == 'unregistration_request' and n[0]['content'].get('id') == 7
                      and n[0]['content'].get('uuid', 'uuid7') == 'uuid7', f'notice {n[0]["content"]}')
            s = [s for s in rig.context.sockets if 'tcp://127.0.0.1:2' in s.urls]
            import zmq
            ctx.check(all(x.opts.get(int(zmq.LINGER), -1) > 0 for x in s), 'the notice is dropped, or the nanny hangs, if it can\'t be sent at once')
            ctx.check(rig.stopped >= 1, 'the nanny ends')
            # the streams' sockets are closed with the loop
            ctx.check(all(x.closed for x in s), 'a socket left open keeps the nanny from ending')
