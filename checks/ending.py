"""K03: controllers and engines that are told to end do, and leave nothing behind; an engine waits for its controller as long as told."""
import asyncio
import os
import signal
import sys
import types

from symx.core import Not
from symx.reg import harness, raises_nothing
from fixtures.wire import FakeStream, NullLog, Patch
from fixtures.wiring import Names, Wiring

SIGNALS = {'INT': signal.SIGINT, 'TERM': signal.SIGTERM, 'ABRT': signal.SIGABRT}


class Fake:
    """a process that is started"""

    world = None

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.name, self.daemon = target, name, bool(daemon)
        self.started = self.terminated = 0
        self.dead = False
        self.pid = 100 + len(self.world.made)
        self.world.made.append(self)
        self.run = lambda: None

    def start(self):
        self.world.ctx.check(not self.world.handlers, 'a process is started after the signal handlers are installed, and inherits them')
        self.started += 1

    def is_alive(self):
        return bool(self.started) and not self.terminated and not self.dead

    def terminate(self):
        if self.dead:
            raise OSError(3, 'no such process')
        self.terminated += 1

    kill = terminate

    def join(self, timeout=None):
        pass


class Ends(Wiring):
    """a controller whose event loop runs what the harness says"""

    def __init__(self, ctx):
        super().__init__(ctx)
        import zmq.devices.basedevice as bd

        self.made, self.handlers, self.timers, self.soon = [], {}, [], []
        w = self

        class Process(Fake):
            world = w

        class Thread(Process):
            pass

        from ipyparallel.controller import hub as H

        def install(sig, h):
            w.handlers[sig] = h

        self.patches = [x for x in self.patches if x[:2] not in ((self.A, 'Process'),)]
        self.patches += [(self.A, 'Process', Process), (bd.ProcessDevice, '_launch_class', Process), (bd.ThreadDevice, '_launch_class', Thread),
                         (self.A, 'signal', install), (H, 'time', Names(__import__('time'), sleep=lambda s: None))]
        self.Thread = Thread

    def port(self, name):
        """K01 is about ports"""
        return 20000 + self.asked()

    def asked(self):
        self.n_ports = getattr(self, 'n_ports', 0) + 1
        return self.n_ports

    class Loop:
        """of the controller"""

        def __init__(self, w):
            self.w, self.stopped, self.closed = w, 0, 0

        def start(self):
            self.w.body()
            for cb in list(self.w.soon):
                cb()
            self.w.ctx.check(self.stopped, 'the controller was told to end, and its event loop goes on')

        def stop(self):
            self.stopped += 1

        def close(self, **k):
            self.closed += 1

        def add_callback_from_signal(self, f, *a, **k):
            self.w.soon.append(lambda: f(*a, **k))

        add_callback = add_callback_from_signal

        def time(self):
            return 1000.0

        def add_timeout(self, t, f, *a, **k):
            self.w.timers.append((t, lambda: f(*a, **k)))

        call_at = add_timeout

        def call_later(self, t, f, *a, **k):
            self.add_timeout(self.time() + t, f, *a, **k)


@harness('K03', 'controller', quick=({'threads': False, 'how': 'signal'}, {'threads': True, 'how': 'signal'}, {'threads': False, 'how': 'request'}, {'threads': False, 'how': 'interrupt'}),
         thorough=tuple({'threads': t, 'how': h, 'depth': 2, 'signals': 3} for t in (False, True) for h in ('signal', 'request', 'interrupt')),
         labels=('signal', 'request', 'interrupt', 'dead child', 'files kept', 'files removed', 'file gone'),
         bounds='controllers with processes or threads, broadcast trees of depth 0-1 (thorough 2), pure or python task scheduler; '
                'ended by 1-2 (3) signals of 3 kinds, a shutdown request, or an interrupt; any subset of children of one kind already dead; connection '
                'files reused or not, either one gone before',
         stubs='sockets, event loop, processes and signal handlers (K01 checks what they connect)')
def controller(ctx):
    """it ends, its processes end, and its connection files are removed unless they are to be reused"""
    ctx.lazy_str = ctx.const_hash = True
    p = ctx.params
    w = Ends(ctx)
    try:
        depth = ctx.choose('depth', list(range(1 + p.get('depth', 1))))
        scheme = ctx.choose('scheme', ['pure', 'leastload'] if not depth else ['leastload'])
        reuse = ctx.flip('reuse files')
        cfg = {'IPController': {'use_threads': p['threads'], 'broadcast_scheduler_depth': depth, 'reuse_files': reuse},
               'TaskScheduler': {'scheme_name': scheme}}
        for x in ('ports', 'engine_ports', 'client_ports'):
            cfg['IPController'][x] = []
        app = w.start(config=cfg)
        ctx.reach(p['how'])
        files = [os.path.join(w.sec, f) for f in (app.client_json_file, app.engine_json_file)]
        ctx.check(all(os.path.exists(f) for f in files), 'the connection files are missing')
        app._trait_values['loop'] = app.hub._trait_values['loop'] = loop = w.Loop(w)
        gone = ctx.choose('gone', [None, 0, 1] if not depth or p.get('depth', 1) > 1 else [None])
        with Patch(*w.patches):
            end(ctx, p, w, app, loop, files, gone)
        for n, f in enumerate(files):
            if reuse and gone != n:
                ctx.check(os.path.exists(f), 'a connection file that is to be reused is removed')
                ctx.reach('files kept')
            else:
                ctx.check(not os.path.exists(f), f'the controller has ended, and its connection file {os.path.basename(f)} is still there')
                ctx.reach('files removed')
    finally:
        w.close()


def end(ctx, p, w, app, loop, files, gone):
    how = p['how']

    def body():
        procs = [q for q in w.made if not isinstance(q, w.Thread)]
        ctx.check(all(q.started == 1 for q in w.made), f'{[(q.name, q.started) for q in w.made]} started')
        ctx.check(len([q for q in w.made]) >= 1, 'no heart monitor')
        if not p['threads']:
            ctx.check(len(procs) >= len(app.children) + 1, f'{len(procs)} processes for {len(app.children)} children and the heart monitor')
        if gone is not None:
            os.remove(files[gone])
            ctx.reach('file gone')
        # children that have died before, and what terminating them says
        some = ctx.choose('dead', [None] + list(range(len(procs))) + ['others'])
        w.lost = [q for n, q in enumerate(procs) if n == some or some == 'others' and n]
        for q in w.lost:
            q.dead = True
            ctx.reach('dead child')
        if how == 'interrupt':
            raise KeyboardInterrupt
        if how == 'request':
            client = b'client'
            msg = app.session.msg('shutdown_request')
            frames = [client] + app.session.serialize(msg)
            sent = []
            for s in ('query', 'notifier'):
                out = FakeStream(s)
                sent.append(out)
                app.hub._trait_values[s] = out
            run(lambda: app.hub.dispatch_query([f if isinstance(f, bytes) else f.bytes for f in frames]))
            for what, out in zip(('shutdown_reply', 'shutdown_notification'), sent):
                got = []
                for m in out.sent:
                    idents, parts = app.session.feed_identities([bytes(getattr(x, 'bytes', x)) for x in m])
                    got.append((app.session.deserialize(parts)['header']['msg_type'], idents))
                ctx.check([g[0] for g in got] == [what], f'a shutdown request is answered with {got}')
                if what == 'shutdown_reply':
                    ctx.check(got[0][1] == [client], 'somebody else is told')
            ctx.check(len(w.timers) == 1, 'a shutdown request does not end the controller')
            t, f = w.timers[0]
            ctx.check(1000 < t <= 1010, f'the controller ends at {t}')
            f()
            ctx.fail('a shutdown request does not end the controller')
        for n in range(p.get('signals', 2)):
            if n and not ctx.flip(f'signal {n} comes'):
                break
            s = ctx.choose(f'signal {n}', list(SIGNALS))
            h = w.handlers.get(SIGNALS[s])
            ctx.check(callable(h), f'SIG{s} is not handled')
            h(SIGNALS[s], None)
            if not n:
                for q in procs:
                    ctx.check(q.dead or q.terminated, f'{q.name or q.target} is not terminated')

    w.body = body
    w.lost = []
    try:
        app.start()
    except SystemExit as e:
        ctx.check(how == 'request' and not e.code, f'exits with {e.code!r}')
    else:
        ctx.check(how != 'request', 'goes on after a request to shut down')
    for q in w.made:
        # multiprocessing ends daemons with their parent
        ctx.check(isinstance(q, w.Thread) or not q.is_alive() or q.daemon, f'{q.name or q.target} outlives the controller')


def run(f):
    """in an event loop of its own"""
    async def go():
        r = f()
        for _ in range(3):
            await asyncio.sleep(0)
        if asyncio.iscoroutine(r):
            await r

    loop = asyncio.new_event_loop()
    try:
        loop.run_until_complete(go())
    finally:
        loop.close()


@harness('K03', 'engine', labels=('registering', 'running', 'coroutine', 'INT', 'early'),
         quick=({},), thorough=({'signals': 4},),
         bounds='kernels that run by themselves or by a coroutine (ipykernel 6 and 7), whose stop is a function or a coroutine function; up to 2 (4) signals of 2 kinds in 3 moments: '
                'while it registers, while it runs, after its kernel has ended',
         stubs='registration and kernel; a real event loop runs the real start(), for at most 60 rounds')
def engine(ctx):
    """SIGTERM ends an engine at any moment, SIGINT at none"""
    from ipyparallel.engine import app as A

    new = ctx.flip('ipykernel 7')
    coroutine = ctx.flip('stop is a coroutine') if new else False
    signals = [(ctx.choose(f'signal {n}', ['INT', 'TERM']), ctx.choose(f'round {n}', [1, 9])) for n in range(ctx.params.get('signals', 2))
               if not n or ctx.flip(f'signal {n} comes')]
    signals.sort(key=lambda x: x[1])
    late = ctx.flip('registers late')
    handlers = {}
    fake = Names(signal, signal=handlers.__setitem__)
    out = sys.stdout, sys.stderr
    aloop = asyncio.new_event_loop()
    state = types.SimpleNamespace(rounds=0, over=False, registered=False, stops=0, termed=None)
    forever = []

    async def sleep(t, *a):
        if t < 1:
            return await real_sleep(0)
        f = aloop.create_future()
        forever.append(f)
        await f

    real_sleep = asyncio.sleep
    aio = Names(asyncio, sleep=sleep)

    asyncio.set_event_loop(aloop)
    try:
        loop = aloop.run_until_complete(_io())
        with Patch((A, 'signal', fake), (A, 'asyncio', aio)):
            app = A.IPEngine(log=_Log())
            app._trait_values.update(loop=loop)
            done = aloop.create_future()

            class K:
                def __init__(self):
                    if new:
                        self.stop = self._astop if coroutine else self._stop

                @property
                def __class__(self):
                    return A.Kernel

                def _stop(self):
                    state.stops += 1
                    if not done.done():
                        done.set_result(None)

                async def _astop(self):
                    self._stop()

            async def register():
                app.init_signal()
                for _ in range(3):
                    await real_sleep(0)
                if late:
                    for _ in range(12):
                        await real_sleep(0)
                app._trait_values['kernel'] = K()
                if new:
                    app._kernel_start_future = done
                state.registered = True
                sys.stdout = sys.stderr = redirected

            redirected = open(os.devnull, 'w')

            def tick():
                state.rounds += 1
                for s, r in signals:
                    if r == state.rounds:
                        h = handlers.get(SIGNALS[s])
                        if h is None:
                            ctx.check(not state.registered, f'SIG{s} is not handled')
                            state.early = True
                            continue
                        ctx.reach('running' if state.registered else 'registering')
                        h(SIGNALS[s], None)
                        if s == 'TERM':
                            if state.termed is None:
                                state.termed = state.rounds
                            ctx.check(sys.stdout is sys.__stdout__ and sys.stderr is sys.__stderr__, 'output of a stopping engine is still redirected')
                        else:
                            ctx.reach('INT')
                if state.rounds < 60:
                    aloop.call_soon(tick)
                else:
                    state.over = True
                    aloop.stop()

            aloop.call_soon(tick)
            app.register = register
            try:
                app.start()
            except (SystemExit, RuntimeError):  # depends on the version of tornado
                pass
            if new:
                ctx.reach('coroutine')
            if state.termed is not None:
                ctx.check(not state.over, 'a terminated engine goes on')
                ctx.check(state.rounds <= state.termed + 25, 'a terminated engine ends late')
                if new and state.registered and state.termed > 5 and not late:
                    ctx.check(state.stops >= 1, 'the kernel is not stopped')
            else:
                ctx.check(state.over, 'an engine that nobody ended has ended')
                ctx.reach('early')
            redirected.close()
    finally:
        sys.stdout, sys.stderr = out
        for t in asyncio.all_tasks(aloop):
            t.cancel()
        aloop.run_until_complete(real_sleep(0))
        aloop.close()
        asyncio.set_event_loop(None)


async def _io():
    from tornado.ioloop import IOLoop

    return IOLoop.current()


class _Log(NullLog):
    name = 'IPEngine'


@harness('K03', 'wait', labels=('arrives', 'never', 'late', 'environment', 'there', 'no wait'),
         quick=({},), bounds='time limit and time of arrival of the connection file unbounded below 0.6 s (in steps of 0.1 s of waiting); file by name, by cluster id, or the environment; '
                             'a startup command and script given or not',
         stubs='the clock; the rest of the configuration is what the real engine loads')
def wait(ctx):
    """an engine starts with the connection file that arrives in time, and exits otherwise"""
    import json
    import tempfile
    import shutil

    from ipyparallel.engine import app as A
    from traitlets.config import Config

    ctx.lazy_str = ctx.const_hash = True
    d = tempfile.mkdtemp(prefix='wait')
    try:
        sec = os.path.join(d, 'security')
        os.mkdir(sec)
        where = ctx.choose('where', ['default', 'cluster', 'named', 'environment'])
        start = 1000
        limit = ctx.real('limit', 0, 0.6) if where != 'environment' else 0
        when = ctx.real('when', 0, 2)
        never = ctx.flip('never')
        info = {'interface': 'tcp://127.0.0.1', 'location': '127.0.0.1', 'registration': 4321, 'key': 'k', 'signature_scheme': 'hmac-sha256',
                'pack': 'json', 'unpack': 'json', 'curve_serverkey': None}
        path = {'default': os.path.join(sec, 'ipcontroller-engine.json'), 'cluster': os.path.join(sec, 'ipcontroller-c-engine.json'),
                'named': os.path.join(d, 'x.json'), 'environment': None}[where]
        with open(os.path.join(sec, 'ipcontroller-other-engine.json'), 'w') as f:
            json.dump(dict(info, registration=9999), f)
        clock = types.SimpleNamespace(now=start, slept=0)

        def exists(p):
            if p != path:
                return os.path.exists(p)
            if never:
                return False
            if clock.now - start >= when:
                with open(path, 'w') as f:
                    json.dump(info, f)
                return True
            return False

        def sleep(t):
            clock.slept += 1
            ctx.check(clock.now - start <= limit, 'waits longer than it is told')
            clock.now += t

        time = Names(__import__('time'), sleep=sleep, monotonic=lambda: clock.now, time=lambda: clock.now)
        fos = Names(os, path=Names(os.path, exists=exists))
        extra = {}
        if ctx.flip('startup'):
            extra = {'startup_command': 'a = 1', 'startup_script': 'script.py'}
        if where == 'cluster':
            extra['cluster_id'] = 'c'
        if where == 'named':
            extra['url_file'] = path
        env = {k: v for k, v in os.environ.items() if not k.startswith('IPP_')}
        if where == 'environment':
            env['IPP_CONNECTION_INFO'] = json.dumps(info)
        path0 = list(sys.path)
        with Patch((A, 'time', time), (A, 'os', fos), (os, 'environ', env)):
            app = A.IPEngine(log=_Log(), config=Config())
            app._trait_values['profile_dir'] = types.SimpleNamespace(security_dir=sec, location=d)
            app.cli_config = Config()
            for k, v in extra.items():
                setattr(app, k, v)
            app.wait_for_url_file = limit
            code = None
            try:
                app.init_engine()
            except SystemExit as e:
                code = e.code
            finally:
                sys.path[:] = path0
        if where == 'environment':
            ctx.check(code is None and not clock.slept, 'waits for a file, and has what it needs')
            ctx.reach('environment')
        elif never:
            ctx.check(code == 1, f'the connection file never arrives, and the engine goes on: {code}')
            ctx.check(clock.now - start >= limit, 'gives up too early')
            ctx.reach('never')
        elif code is None:
            ctx.check(clock.now - start >= when, 'starts without the file')
            ctx.reach('arrives' if clock.slept else 'there')
        else:
            ctx.check(code == 1, f'exits with {code}')
            ctx.check(when > limit, 'the file arrives in time, and the engine gives up')
            ctx.reach('late' if clock.slept else 'no wait')
        if code is None:
            ctx.check(app.registration_url == 'tcp://127.0.0.1:4321', f'registers at {app.registration_url}')
            c = app.config.IPKernelApp
            ctx.check(('a = 1' in c.exec_lines, 'script.py' in c.exec_files) == (('startup_command' in extra,) * 2),
                      f'runs {c.exec_lines} and {c.exec_files} at the start')
    finally:
        shutil.rmtree(d, ignore_errors=True)
