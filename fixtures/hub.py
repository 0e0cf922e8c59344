"""The real Hub on fake streams, timers and an in-memory engine-state file."""
import types

from fixtures.wire import FakeLoop, FakeStream, FakeTime, NullLog, Packer, Patch, make_session


class LoudLog(NullLog):
    """remembers that an unexpected exception was logged and swallowed"""

    def __init__(self):
        self.swallowed = []

    def exception(self, *a, **k):
        import sys

        if a and isinstance(a[0], str) and a[0].startswith('Uncaught'):
            e = sys.exc_info()[1]
            self.swallowed.append(f'{type(e).__name__}: {e}')


class _SyncFuture:
    def __init__(self, coro, hub):
        try:
            coro.send(None)
        except StopIteration:
            pass
        except Exception as e:
            hub.log.swallowed.append(f'{type(e).__name__}: {e}')

    def add_done_callback(self, cb):
        pass


class HubRig:
    def __init__(self, db=None, engine_state_file='', **kw):
        from ipyparallel import util
        from ipyparallel.controller import hub as H
        from ipyparallel.controller.dictdb import DictDB

        self.H = H
        self.packer = Packer()
        self.sess = make_session(self.packer)
        self.loop = FakeLoop()
        self.q, self.mon, self.note, self.resub = (FakeStream(n) for n in ('query', 'mon', 'note', 'resub'))
        self.log = LoudLog()
        self.db = DictDB(log=NullLog()) if db is None else db
        self.hub = H.Hub(loop=self.loop, session=self.sess, query=self.q, monitor=self.mon, notifier=self.note,
                         resubmit=self.resub, db=self.db, engine_info={'e': 1}, client_info={'c': 1},
                         log=self.log, engine_state_file=engine_state_file, registration_timeout=5,
                         heartmonitor_period=3000, **kw)
        rig = self
        aio = types.SimpleNamespace(ensure_future=lambda c: _SyncFuture(c, rig.hub))
        self.time = FakeTime()
        self.patches = [(util, 'asyncio', aio), (H, 'time', self.time)]
        self.seen = {}

    def patch(self, *more):
        return Patch(*self.patches, *more)

    # -- feeding
    def query(self, msg_type, content, ident=b'c1'):
        """send a request; returns the (idents, msg) replies"""
        m = self.sess.msg(msg_type, content)
        self.q.recv_cb([ident] + self.sess.serialize(m))
        return self.new(self.q)

    def monitor(self, topic, idents, msg, buffers=()):
        self.mon.recv_cb([topic] + list(idents) + self.sess.serialize(msg) + list(buffers))

    def heart(self, kind, *hearts):
        m = self.sess.msg(kind, {'hearts': [h for h in hearts]})
        self.monitor(b'heartmonitor', [b'heartmonitor', b''], m)

    def register(self, uuid, req=None):
        c = {'uuid': uuid}
        if req is not None:
            c['id'] = req
        return self.query('registration_request', c, ident=uuid.encode())

    # -- reading
    def new(self, stream):
        k = self.seen.get(stream.name, 0)
        out = []
        for f in stream.sent[k:]:
            ids, parts = self.sess.feed_identities(f)
            out.append((ids, self.sess.deserialize(parts)))
        self.seen[stream.name] = len(stream.sent)
        return out


class Crash(BaseException):
    """the process is killed here"""


class StateFile:
    """open() and the file operations of os over a dict of in-memory files. Written data reaches the file when it is
    flushed or closed; with `crash`, it is called before every step that changes a file and may raise Crash: then what
    was written so far may or may not have reached the file."""

    def __init__(self, crash=None):
        import io
        import os

        self.files = {}
        self.crash = None
        outer = self

        def step(what):
            if outer.crash:
                outer.crash(what)

        self.step = step

        class W(io.StringIO):
            def __init__(self, name, data='', mode='r'):
                super().__init__(data)
                self.name_ = self.name = name
                self.mode = mode
                if 'a' in mode:
                    self.seek(0, 2)

            def fileno(self):
                return 99

            def write(self, data):
                n = super().write(data)
                if self.mode != 'r':
                    step(('write', self.name_, self.getvalue()))
                return n

            def flush(self):
                if self.mode != 'r' and not self.closed:
                    step(('write', self.name_, self.getvalue()))
                    outer.files[self.name_] = self.getvalue()

            def close(self):
                if not self.closed:
                    self.flush()
                super().close()

            def __exit__(self, *exc):
                if exc[0] is not None and issubclass(exc[0], Crash):
                    self.mode = 'r'
                self.close()

        def open_(name, mode='r', *a, **k):
            name = str(name)
            if 'w' in mode or 'x' in mode:
                step(('open', name, ''))
                outer.files[name] = ''
                return W(name, mode=mode)
            if name not in outer.files:
                if 'a' in mode:
                    outer.files[name] = ''
                else:
                    raise FileNotFoundError(name)
            return W(name, outer.files[name], mode if 'a' in mode or '+' in mode else 'r')

        self.open = open_
        path = types.SimpleNamespace(**{k: getattr(os.path, k) for k in (
            'join', 'basename', 'dirname', 'split', 'splitext', 'abspath')})
        path.exists = path.isfile = path.lexists = lambda p: str(p) in outer.files

        def replace(a, b):
            if str(a) not in outer.files:
                raise FileNotFoundError(a)
            step(('replace', str(b), None))
            outer.files[str(b)] = outer.files.pop(str(a))

        def remove(p):
            if str(p) not in outer.files:
                raise FileNotFoundError(p)
            step(('remove', str(p), None))
            del outer.files[str(p)]

        self.os = types.SimpleNamespace(
            path=path, remove=remove, unlink=remove, replace=replace, rename=replace, fsync=lambda fd: None,
            getpid=os.getpid, fspath=os.fspath, makedirs=lambda *a, **k: None)
