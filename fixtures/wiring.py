"""The real IPController on recorded sockets: everything it would start in processes or threads is run once,
up to its event loop, and the sockets each part binds and connects are kept, by part."""
import asyncio
import json
import multiprocessing
import os
import re
import shutil
import tempfile
import types

import zmq

from fixtures.wire import FakeLoop, FakeStream, NullLog, Patch
from symx.core import And, is_sym

from zmq.eventloop.zmqstream import ZMQStream as _Stream

_Socket, _Context = zmq.Socket, zmq.Context


class Names:
    """a module with some names replaced"""

    def __init__(self, mod, **kw):
        self.__dict__.update(kw, _mod=mod)

    def __getattr__(self, name):
        return getattr(self._mod, name)


class Sock(FakeStream):
    """a socket, and a stream over it"""

    def __init__(self, part, kind):
        super().__init__(kind)
        self.part = part
        self.kind = zmq.SocketType(kind).name
        self.opts = {}
        self.ends = []  # ('bind' | 'connect', url, options at that time)
        self.inbox = [[b'\x01']] if self.kind == 'XPUB' else []
        self.closed = False

    @property
    def __class__(self):
        return _Socket

    @property
    def socket(self):
        return self

    @socket.setter
    def socket(self, v):
        pass

    def __setattr__(self, name, value):
        opt = getattr(zmq, name.upper(), None) if name.isupper() or name.startswith('curve_') or name == 'identity' else None
        if opt is not None:
            self.opts[int(opt)] = value
        else:
            object.__setattr__(self, name, value)

    def setsockopt(self, k, v):
        self.opts[int(k)] = v

    set = setsockopt_string = setsockopt

    def set_hwm(self, v):
        self.opts[int(zmq.SNDHWM)] = self.opts[int(zmq.RCVHWM)] = v

    def bind(self, url):
        self.ends.append(('bind', url, dict(self.opts)))

    def connect(self, url):
        self.ends.append(('connect', url, dict(self.opts)))

    def recv_multipart(self, *a, **k):
        return self.inbox.pop(0)

    def poll(self, *a, **k):
        return zmq.POLLIN if self.inbox else 0

    def close(self, *a, **k):
        self.closed = True


class Stream(FakeStream):
    def __init__(self, sock, loop=None):
        super().__init__('stream')
        self.socket = sock

    @property
    def __class__(self):
        return _Stream

    def _emit(self):
        m, self._part = self._part, []
        self.socket.sent.append(m)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.socket, name)

    @property
    def kind(self):
        return self.socket.kind


class Context:
    """one per process (or thread) that would exist"""

    def __init__(self, wiring, part):
        self.wiring, self.part = wiring, part
        self.sockets = []

    @property
    def __class__(self):
        return _Context

    def socket(self, kind, *a, **k):
        s = Sock(self.part, kind)
        self.sockets.append(s)
        self.wiring.sockets.append(s)
        return s

    def term(self, *a, **k):
        pass

    destroy = term


def context_class(wiring):
    """zmq.Context"""

    class Meta(type):
        def __call__(cls, *a, **k):
            return Context(wiring, wiring.part)

        def __instancecheck__(cls, x):
            return isinstance(x, _Context)

    class ContextClass(metaclass=Meta):
        @classmethod
        def instance(cls, *a, **k):
            return Context(wiring, wiring.part)

    return ContextClass


class Device:
    """what a monitored queue binds and connects, as sockets"""

    def __init__(self, wiring, q, n):
        self.q = q
        out = []
        for side in ('in', 'out', 'mon'):
            s = Sock(f'device{n}', int(getattr(q, side + '_type')))
            s.side = side
            for k, v in getattr(q, f'_{side}_sockopts'):
                s.setsockopt(k, v)
            for u in getattr(q, f'_{side}_binds'):
                s.bind(u)
            for u in getattr(q, f'_{side}_connects'):
                s.connect(u)
            out.append(s)
            wiring.sockets.append(s)
        self.ins, self.outs, self.mon = out


class Wiring:
    """a profile directory, and the controllers, clients and engines that use it"""

    def __init__(self, ctx, hook=None):
        import ipyparallel.util as U
        from ipyparallel.apps import baseapp as B
        from ipyparallel.controller import app as A
        from ipyparallel.controller import broadcast_scheduler as bs
        from ipyparallel.controller import heartmonitor as hm
        from ipyparallel.controller import scheduler as sch
        from tornado import ioloop as I
        import zmq.eventloop.zmqstream as Z

        self.ctx, self.A = ctx, A
        self.dir = tempfile.mkdtemp(prefix='wiring-')
        self.sec = os.path.join(self.dir, 'security')
        self.log = os.path.join(self.dir, 'log')
        os.mkdir(self.sec, 0o700)
        os.mkdir(self.log)
        self.part = 'controller'
        self.sockets, self.procs, self.devices = [], [], []
        self.keys = 0
        self.randoms = []
        self.terms = {}
        self.stale = []
        w = self

        def random_ports(n):
            ps = [w.port('random') for _ in range(n)]
            w.randoms.extend(ps)
            return ps

        def keypair():
            w.keys += 1
            return b'PUB%d' % w.keys, b'SEC%d' % w.keys

        class Process:
            pid = 1

            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
                self.run = lambda: target(*args, **(kwargs or {}))
                self.target, self.name, self.started = target, name, False
                w.procs.append(self)

            def start(self):
                self.started = True

            def terminate(self):
                pass

            @property
            def __class__(self):
                return _Process

        class Loop:
            """asyncio's loop, for the heart monitor"""

            def run_until_complete(self, coro):
                try:
                    coro.send(None)
                except StopIteration:
                    return
                raise AssertionError('waits')

            def __getattr__(self, name):
                if name.startswith('__'):
                    raise AttributeError(name)
                return lambda *a, **k: None

        def io(*a, **k):
            return FakeLoop()

        class IOLoopClass:
            current = instance = staticmethod(io)

            def __call__(self, *a, **k):
                return FakeLoop()

        def periodic(*a, **k):
            return types.SimpleNamespace(start=lambda: None, stop=lambda: None)

        time = Names(__import__('time'), sleep=lambda s: None)
        loops = Names(I, IOLoop=IOLoopClass(), PeriodicCallback=periodic)
        self.patches = [
            (zmq, 'Context', context_class(self)), (zmq, 'curve_keypair', keypair),
            (multiprocessing, 'Process', Process), (A, 'Process', Process),
            (A, 'ZMQStream', Stream), (sch, 'ZMQStream', Stream), (bs, 'ZMQStream', Stream), (hm, 'ZMQStream', Stream),
            (sch, 'zmqstream', Names(Z, ZMQStream=Stream)), (Z, 'ZMQStream', Stream),
            (sch, 'ioloop', loops), (I.IOLoop, 'current', staticmethod(io)), (I, 'PeriodicCallback', periodic),
            (hm, 'asyncio', Names(asyncio, new_event_loop=Loop)),
            (A, 'time', time), (U, 'select_random_ports', random_ports), (U, 'ip_for_host', lambda h: '127.0.0.1'),
            (B.BaseParallelApplication, 'initialize', lambda s, argv=None: None),
            (json, 'dumps', self._dumps), (json, 'loads', self._loads),
            (json, 'dump', lambda o, f, **k: f.write(self._dumps(o, **k))),
            (json, 'load', lambda f, **k: self._loads(f.read(), **k)),
        ]
        import traitlets.log as tl
        self.patches.append((tl, 'get_logger', lambda: NullLog()))
        self.patches.append((sch, 'local_logger', lambda *a, **k: NullLog()))
        _Process = multiprocessing.Process
        self._real = json.dumps, json.loads
        self.services = []

        def starts(cls):
            real = cls.__dict__.get('start')

            def start(s, *a, **k):
                w.services.append(s)
                return (real or super(cls, s).start)(*([s] if real else []), *a, **k)
            self.patches.append((cls, 'start', start))

        from ipyparallel.controller.task_scheduler import TaskScheduler

        for cls in (TaskScheduler, bs.BroadcastScheduler, hm.HeartMonitor):
            starts(cls)

    # -- ports
    def port(self, name):
        p = self.ctx.int(name, 1, 65535)
        # ports that are free now were not handed out by this controller, and are in no pool
        others = [q for q in self.terms.values() if not any(q is x for x in self.stale)]
        self.ctx.assume(And(*[p != q for q in others]))
        if self.stale:
            self.stale = []  # at most one is that of an earlier controller
        self.terms[format(p)] = p
        return p

    def split(self, url):
        """(transport, host or path, port term)"""
        proto, rest = url.split('://')
        m = re.match(r'(.*)[:-](<[^>]*>|\d+)$', rest)
        if not m or m[2] not in self.terms:
            return proto, rest, None
        if proto == 'ipc':
            return proto, rest[:m.start(2)], self.terms[m[2]]
        return proto, m[1], self.terms[m[2]]

    # -- JSON text that keeps the ports' terms
    def _dumps(self, o, **k):
        def conv(x):
            if is_sym(x):
                return {'$': format(x)}
            if isinstance(x, dict):
                return {q: conv(v) for q, v in x.items()}
            if isinstance(x, (list, tuple)):
                return [conv(v) for v in x]
            return x
        return self._real[0](conv(o), **k)

    def _loads(self, s, **k):
        return self._real[1](s, object_hook=lambda d: self.terms[d['$']] if set(d) == {'$'} else d)

    # -- programs
    def start(self, part='controller', config=None, reuse=False, **traits):
        """start a controller, up to its event loop"""
        from traitlets.config import Config

        A = self.A
        self.part = part
        self.sockets, self.procs, self.devices, self.services = [], [], [], []
        self.stale = self.randoms[:1] + self.randoms[-1:] if reuse else []
        A.IPController.clear_instance()
        with Patch(*self.patches):
            app = A.IPController(config=Config(config or {}), log=NullLog(), **traits)
            pd = types.SimpleNamespace(security_dir=self.sec, log_dir=self.log, location=self.dir)
            app._trait_values.update(profile_dir=pd, loop=FakeLoop(), context=Context(self, part))
            app.initialize([])
            for n, q in enumerate(app.children):
                if hasattr(q, '_in_binds'):
                    self.devices.append(Device(self, q, n))
            self.app = app
            for n, p in enumerate(self.procs):
                self.part = f'{p.target.__name__}{n}'
                p.part = self.part
                p.run()
            self.part = part
        return app

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class Crash(BaseException):
    """the process dies"""


_hook = []


def _audit(event, args):
    if _hook and event in _FILE_EVENTS:
        _hook[-1](event, args)


_FILE_EVENTS = {'open', 'os.rename', 'os.remove', 'os.chmod', 'os.truncate', 'os.link', 'os.symlink', 'shutil.move',
                'tempfile.mkstemp', 'os.chown', 'os.utime'}
_installed = []


class FileEvents:
    """calls `before(event, args)` before each operation on files below `root` in a with block"""

    def __init__(self, root, before):
        self.root, self.before = root, before

    def __enter__(self):
        import sys

        if not _installed:
            sys.addaudithook(_audit)
            _installed.append(True)
        _hook.append(self._event)
        return self

    def _event(self, event, args):
        paths = [os.fspath(a) for a in args if isinstance(a, (str, os.PathLike))]
        if not any(p.startswith(self.root) for p in paths if isinstance(p, str)):
            return
        if event == 'open' and not (isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR)):
            return
        h = _hook.pop()  # the callback may look at the files
        try:
            self.before(event, paths)
        finally:
            _hook.append(h)

    def __exit__(self, *a):
        _hook.pop()
