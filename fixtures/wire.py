"""Stand-ins for sockets, loops, clocks and logs; a real jupyter Session whose
(de)serialisation of message parts keeps Python objects (and symbolic values) as they are."""
import logging
import os

from jupyter_client.session import Session as _Session


class NullLog:
    """accepts every logging call, formats nothing"""

    level = logging.CRITICAL

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None

    def getEffectiveLevel(self):
        return logging.CRITICAL

    def isEnabledFor(self, level):
        return False

    @property
    def __class__(self):
        return logging.Logger


class FakeSocket:
    def __init__(self):
        self.opts = {}

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


class FakeStream:
    """A ZMQStream that records whole multipart messages (as bytes frames)."""

    def __init__(self, name='stream', on_send=None):
        self.name = name
        self.sent = []
        self._part = []
        self.on_send = on_send
        self.recv_cb = None
        self.socket = FakeSocket()
        self.pending = []  # messages delivered on flush()

    @property
    def __class__(self):
        from zmq.eventloop.zmqstream import ZMQStream

        return ZMQStream

    def on_recv(self, cb, copy=True):
        self.recv_cb = cb

    def on_recv_stream(self, cb, copy=True):
        self.recv_cb = lambda msg: cb(self, msg)

    def stop_on_recv(self):
        self.recv_cb = None

    def flush(self, *a, **k):
        while self.pending and self.recv_cb:
            self.recv_cb(self.pending.pop(0))

    def send(self, frame, flags=0, copy=True, track=False, callback=None, **kw):
        import zmq

        self._part.append(_b(frame))
        if not (int(flags) & int(zmq.SNDMORE)):
            self._emit()

    def send_multipart(self, frames, flags=0, copy=True, track=False, callback=None, **kw):
        self._part.extend(_b(f) for f in frames)
        self._emit()
        import zmq

        return zmq.MessageTracker()

    def _emit(self):
        m, self._part = self._part, []
        self.sent.append(m)
        if self.on_send:
            self.on_send(m)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


def _b(f):
    if isinstance(f, (bytes, str)):
        return f
    b = getattr(f, 'bytes', None)
    if b is not None:
        return b
    return bytes(f) if isinstance(f, (memoryview, bytearray)) else f


class FakeLoop:
    """records timers; the harness fires them"""

    def __init__(self, now=None):
        self.timers = []  # [deadline, cb, alive]
        self.now = now or (lambda: 1000.0)
        self.callbacks = []

    @property
    def __class__(self):
        from tornado.ioloop import IOLoop

        return IOLoop

    def time(self):
        return self.now()

    def add_timeout(self, deadline, callback, *a, **k):
        import datetime

        if isinstance(deadline, datetime.timedelta):
            deadline = self.now() + deadline.total_seconds()
        t = Timer(deadline, (lambda: callback(*a, **k)))
        self.timers.append(t)
        return t

    def call_later(self, delay, callback, *a, **k):
        return self.add_timeout(self.now() + delay, callback, *a, **k)

    def call_at(self, when, callback, *a, **k):
        return self.add_timeout(when, callback, *a, **k)

    def remove_timeout(self, t):
        if t is not None:
            t.alive = False

    def add_callback(self, cb, *a, **k):
        self.callbacks.append(lambda: cb(*a, **k))

    def spawn_callback(self, cb, *a, **k):
        self.callbacks.append(lambda: cb(*a, **k))

    def run_callbacks(self):
        while self.callbacks:
            self.callbacks.pop(0)()

    def live(self):
        return [t for t in self.timers if t.alive]

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


class Timer:
    def __init__(self, deadline, cb):
        self.deadline = deadline
        self.cb = cb
        self.alive = True

    def fire(self):
        self.alive = False
        self.cb()


class FakeTime:
    """a clock module: every reading is a fresh, larger instant"""

    def __init__(self, start=1000.0, step=0.001):
        self.t = start
        self.step = step

    def time(self):
        self.t += self.step
        return self.t

    monotonic = perf_counter = time

    def sleep(self, s):
        self.t += s

    def __getattr__(self, name):
        import time

        return getattr(time, name)


class Packer:
    def __init__(self):
        self.table = {}
        self.n = 0
        self.sessions = 0

    def pack(self, obj):
        self.n += 1
        tok = b'\x00P%d' % self.n
        self.table[tok] = _copy(obj)
        return tok

    def unpack(self, tok):
        if not isinstance(tok, bytes):
            tok = bytes(tok)
        return _copy(self.table[tok])


def _copy(o):
    """structural copy of JSON-like data (what a JSON round trip would give)"""
    t = type(o)
    if t in (str, bytes, int, float, bool, type(None)):
        return o
    if isinstance(o, dict):
        return {_key(k): _copy(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_copy(v) for v in o]
    import datetime

    if isinstance(o, datetime.datetime):
        return o.isoformat().replace('+00:00', 'Z')
    if t in (set, frozenset):
        raise TypeError('set is not JSON serializable')
    return o


def _key(k):
    if isinstance(k, str):
        return k
    if k is None or isinstance(k, bool):
        return {None: 'null', True: 'true', False: 'false'}[k]
    if isinstance(k, (int, float)):
        return str(k)
    raise TypeError(f'keys must be str, int, float, bool or None, not {type(k).__name__}')


def make_session(packer=None, key=b'', cls=None):
    """a real jupyter_client Session; only the byte encoding of the parts is replaced"""
    from jupyter_client import session as S

    cls = cls or _Session
    s = cls.__new__(cls)
    # skip packer probing and key generation, but keep all of the real methods
    S.Configurable.__init__(s)
    s.__dict__.setdefault('_pid', os.getpid())
    s.pid = os.getpid()
    s.key = key
    packer = packer or Packer()
    s.pack = packer.pack
    s.unpack = packer.unpack
    s.none = packer.pack({})
    packer.sessions += 1
    s.session = f'sess{packer.sessions}'
    s.username = 'u'
    s.log = NullLog()
    s.packer_table = packer
    return s


class Patch:
    """temporarily set attributes (module globals): with Patch((mod,'time',x), ...):"""

    def __init__(self, *triples):
        self.triples = triples

    _MISSING = object()

    def __enter__(self):
        self.saved = []
        for obj, name, val in self.triples:
            self.saved.append((obj, name, obj.__dict__.get(name, self._MISSING)))
            setattr(obj, name, val)
        return self

    def __exit__(self, *a):
        for obj, name, old in reversed(self.saved):
            if old is self._MISSING:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
