"""Pieces of the real controller wired over the in-process network."""
import types

from fixtures.net import FakeContext, Net, NetStream
from fixtures.wire import FakeLoop, NullLog, Packer, Patch, make_session


class Stub:
    """an object with given attributes; methods it lacks are taken, unbound, from a real class"""

    def __init__(self, cls, **attrs):
        self.__dict__['_cls'] = cls
        self.__dict__.update(attrs)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        cls = self.__dict__['_cls']
        for k in cls.__mro__:
            if name in k.__dict__:
                v = k.__dict__[name]
                if isinstance(v, types.FunctionType):
                    return types.MethodType(v, self)
                if isinstance(v, staticmethod):
                    return v.__func__
                if isinstance(v, classmethod):
                    return types.MethodType(v.__func__, cls)
                if isinstance(v, property):
                    return v.fget(self)
                break
        raise AttributeError(name)


def environment(net, packer, loop):
    """patches under which the controller's launch functions build over `net`"""
    import jupyter_client.session as js
    import zmq

    from ipyparallel.controller import broadcast_scheduler as bs
    from ipyparallel.controller import scheduler as sch

    import ipyparallel.client.client  # noqa: imported before anything is patched
    import ipyparallel.controller.app  # noqa
    import ipyparallel.controller.hub  # noqa
    import ipyparallel.engine.app  # noqa
    import ipyparallel.engine.kernel  # noqa
    from tornado.ioloop import IOLoop

    real = js.Session

    def session(*a, **k):
        return make_session(packer, cls=real)

    ctx = FakeContext(net)
    return Patch((zmq, 'Context', ctx), (js, 'Session', session), (sch, 'ZMQStream', NetStream),
                 (bs, 'ZMQStream', NetStream), (sch.zmqstream, 'ZMQStream', NetStream),
                 
                 (IOLoop, 'current', staticmethod(lambda *a, **k: loop)))


def controller_stub(depth, **kw):
    """an IPController as far as launching schedulers is concerned"""
    from ipyparallel.controller.app import IPController

    leaves = 2 ** depth
    ids = [format(i, f'0{d + 1}b') for d in range(1, depth + 1) for i in range(2 ** d)]
    attrs = dict(
        broadcast_scheduler_depth=depth, number_of_leaf_schedulers=leaves,
        number_of_broadcast_schedulers=2 * leaves - 1, mq_class='zmq.devices.ThreadMonitoredQueue',
        client_info=dict(interface='tcp://c', broadcast=1, notification=2, registration=3, task=4, mux=5,
                         control=6, iopub=7, task_scheme='leastload'),
        engine_info=dict(interface='tcp://e', broadcast=[100 + i for i in range(leaves)], registration=3,
                         task=14, mux=15, control=16, iopub=17, hb_ping=18, hb_pong=19, nanny=20),
        internal_info=dict(interface='tcp://i', broadcast={b: 200 + i for i, b in enumerate(ids)}),
        log_level=10, log_url='', config={'Session': {'key': b'k'}}, enable_curve=False, curve_secretkey=b'', curve_publickey=b'',
        log=NullLog(), children=[], monitor_url='tcp://mon:1')
    attrs.update(kw)
    return Stub(IPController, **attrs)


class _Stop(BaseException):
    pass


def engine_addresses(info, eid, uuid, packer):
    """the shell addresses the real engine connects to once registered with id `eid`"""
    from ipyparallel.engine.app import IPEngine

    sess = make_session(packer)
    urls = []

    class EngStub(Stub):
        def __getattr__(self, name):
            try:
                return Stub.__getattr__(self, name)
            except AttributeError:
                raise _Stop(name)

    e = EngStub(IPEngine, session=sess, context=FakeContext(Net()), loop=FakeLoop(), bident=uuid, id=None,
                log=types.SimpleNamespace(name='x', info=lambda *a: None, debug=lambda *a: None,
                                          warning=lambda *a: None),
                connection_info=info, enable_nanny=True, curve_serverkey=None)
    e.start_nanny = _stop
    msg = sess.msg('registration_reply', {'status': 'ok', 'id': eid, 'hb_period': 1, 'max_heartbeat_misses': 1})

    def connect(s, url, *a, **k):
        if e.shell_socket is s:
            urls.append(url)

    coro = IPEngine.complete_registration(e, sess.serialize(msg), connect, connect)
    try:
        coro.send(None)
    except (StopIteration, _Stop):
        pass
    finally:
        coro.close()
    return urls


def _stop(*a, **k):
    raise _Stop()
