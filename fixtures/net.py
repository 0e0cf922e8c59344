"""An in-process model of ZeroMQ: sockets addressed by url and identity, per-link FIFO
queues whose delivery order the harness chooses.  Only ROUTER/DEALER/PUB/SUB/XREQ roles."""
import zmq as _zmq
from zmq.eventloop.zmqstream import ZMQStream as _Stream

from fixtures.wire import FakeLoop, FakeSocket, FakeStream, NullLog, Patch, _b

_Context = _zmq.Context


class Net:
    def __init__(self):
        self.urls = {}  # url -> [socks]
        self.links = {}  # (src, dst) -> [frames]
        self.order = []  # links in creation order
        self.n = 0
        self.dropped = []
        self.socks = []

    def attach(self, sock, url):
        self.urls.setdefault(url, []).append(sock)
        sock.attached.append(url)

    def peers(self, sock):
        out = []
        for u in sock.attached:
            for s in self.urls[u]:
                if s is not sock and (s.bound_on(u) != sock.bound_on(u)) and s not in out:
                    out.append(s)
        return out

    def send(self, src, frames):
        src.sent.append(frames)
        kind = src.kind
        peers = self.peers(src)
        if kind == _zmq.ROUTER:
            ident, body = frames[0], frames[1:]
            dst = [p for p in peers if p.identity == ident][:1]
        elif kind == _zmq.PUB:
            dst, body = [p for p in peers if p.kind == _zmq.SUB and p.wants(frames[0])], frames
        else:
            dst, body = peers[:1], frames
        if not dst and kind != _zmq.PUB:
            self.dropped.append((src, frames))
        for d in dst:
            m = ([src.identity] if d.kind == _zmq.ROUTER else []) + list(body)
            key = (src, d)
            if key not in self.links:
                self.links[key] = []
                self.order.append(key)
            self.links[key].append(m)

    def ready(self):
        return [k for k in self.order if self.links[k]]

    def deliver(self, link):
        m = self.links[link].pop(0)
        link[1].receive(m)

    def run(self, choose=None, limit=10000):
        """deliver everything; `choose(list of links)` picks the next one"""
        while limit:
            r = self.ready()
            if not r:
                return
            self.deliver(choose(r) if choose else r[0])
            limit -= 1
        raise RuntimeError('network does not come to rest')


class NetSock:
    def __init__(self, net, kind):
        self.net = net
        self.kind = kind
        net.n += 1
        self.identity = b'auto%d' % net.n
        self.attached = []
        self._bound = set()
        self.subs = set()
        self.sent = []
        self.stream = None
        self.inbox = []
        self.closed = False
        self._part = []
        net.socks.append(self)

    @property
    def __class__(self):
        return _zmq.Socket

    def bound_on(self, url):
        return url in self._bound

    def bind(self, url):
        self._bound.add(url)
        self.net.attach(self, url)

    def connect(self, url):
        self.net.attach(self, url)

    def setsockopt(self, opt, val):
        if opt == _zmq.IDENTITY:
            self.identity = val
        elif opt == _zmq.SUBSCRIBE:
            self.subs.add(val)

    set = setsockopt

    def __setattr__(self, k, v):
        if k in ('IDENTITY', 'ROUTING_ID'):
            k = 'identity'
        self.__dict__[k] = v

    def wants(self, topic):
        return any(topic.startswith(s) for s in self.subs)

    def close(self, linger=None):
        self.closed = True

    def send(self, frame, flags=0, copy=True, track=False, **kw):
        self._part.append(_b(frame))
        if not (int(flags) & int(_zmq.SNDMORE)):
            m, self._part = self._part, []
            self.net.send(self, m)
        return _zmq.MessageTracker() if track else None

    def send_multipart(self, frames, flags=0, copy=True, track=False, **kw):
        self._part.extend(_b(f) for f in frames)
        m, self._part = self._part, []
        self.net.send(self, m)
        return _zmq.MessageTracker() if track else None

    def recv_multipart(self, flags=0, copy=True, track=False):
        if not self.inbox:
            raise _zmq.Again()
        m = self.inbox.pop(0)
        return m if copy else [_zmq.Message(f) for f in m]

    def receive(self, frames):
        if self.stream is not None and self.stream.cb:
            self.stream.fire(frames)
        else:
            self.inbox.append(frames)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


class NetStream:
    def __init__(self, sock, loop=None, *a, **k):
        self.__dict__['socket'] = sock
        sock.stream = self
        self.cb = None
        self.copy = True
        self.errors = []

    @property
    def __class__(self):
        return _Stream

    def on_recv(self, cb, copy=True):
        self.cb = cb
        self.copy = copy
        self._drain()

    def on_recv_stream(self, cb, copy=True):
        self.on_recv((lambda m: cb(self, m)) if cb else None, copy)

    def stop_on_recv(self):
        self.cb = None

    def _drain(self):
        while self.cb and self.socket.inbox:
            self.fire(self.socket.inbox.pop(0))

    def fire(self, frames):
        """what the event loop does with an exception out of a handler: log it, go on"""
        try:
            self.cb(list(frames) if self.copy else [_zmq.Message(f) for f in frames])
        except Exception as e:
            self.errors.append(e)

    def flush(self, *a, **k):
        """deliver everything in flight towards this stream"""
        net = self.socket.net
        for link in list(net.ready()):
            while link[1] is self.socket and net.links[link]:
                net.deliver(link)

    def closed(self):
        return self.socket.closed

    def send(self, *a, **k):
        return self.socket.send(*a, **k)

    def send_multipart(self, frames, flags=0, copy=True, track=False, callback=None, **kw):
        r = self.socket.send_multipart(frames, copy=copy, track=track)
        return r

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.socket, name)


class FakeContext:
    """zmq.Context whose sockets live in a Net"""

    def __init__(self, net):
        self.net = net

    @property
    def __class__(self):
        return _Context

    def socket(self, kind, **kw):
        return NetSock(self.net, kind)

    def instance(self):
        return self

    def __call__(self, *a, **k):
        return self

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None
