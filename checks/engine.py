"""E01: engines answer every request once, and never run aborted ones.  N01: the nanny relays and reports."""
import asyncio
import sys

from symx.reg import harness, raises_nothing
from fixtures.wire import FakeLoop, FakeStream, NullLog, Packer, Patch, make_session


class TextPacker(Packer):
    """like JSON, refuses text that cannot be encoded"""

    def pack(self, obj):
        _encodable(obj)
        return super().pack(obj)


def _encodable(o):
    if type(o) is str:
        o.encode('utf8', errors='surrogateescape')
    elif isinstance(o, dict):
        for k, v in o.items():
            _encodable(k)
            _encodable(v)
    elif isinstance(o, (list, tuple)):
        for v in o:
            _encodable(v)


class Out:
    """sys.stdout of an engine"""

    def __init__(self, log):
        self.log = log
        self.closed = False

    def write(self, s):
        self.log.append(('write', s))

    def flush(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        self.log.append(('flush',))

    def close(self):
        self.closed = True


class Result:
    error_before_exec = error_in_exec = None
    success = True


class Payload:
    def read_payload(self):
        return []

    def clear_payload(self):
        pass


class Shell:
    loop_runner = None

    def __init__(self):
        self.configurables = []
        self.payload_manager = Payload()
        self.execution_count = 1
        self.user_ns = {'__name__': '__main__'}
        self.user_global_ns = self.user_ns
        self._last_traceback = None
        self.parent = None

    def set_parent(self, parent):
        self.parent = parent
        self.data_pub.set_parent(parent)

    def showtraceback(self, *a, **k):
        e = sys.exc_info()[1]
        if type(e).__name__ == 'Unshown':
            raise RuntimeError('no traceback')
        try:
            self._last_traceback = [str(e)]
        except Exception:
            self._last_traceback = ['<exception str() failed>']

    def init_user_ns(self):
        pass

    def transform_cell(self, code):
        return code

    def run_cell(self, code, store_history=True, silent=False, **k):
        r = Result()
        try:
            exec(code, self.user_ns)
        except BaseException as e:
            self.showtraceback()
            r.success, r.error_in_exec = False, e
        if store_history:
            self.execution_count += 1
        return r

    def user_expressions(self, d):
        return {}

    def reset(self, new_session=True):
        self.user_ns.clear()
        self.user_ns.update(self.base)


def drive(coro):
    try:
        coro.send(None)
    except StopIteration:
        return
    raise AssertionError('a handler waits')


class Engine:
    def __init__(self, ctx):
        import jupyter_client.session  # noqa
        from ipykernel.ipkernel import IPythonKernel
        from ipykernel.kernelbase import Kernel
        from traitlets import Any

        from ipyparallel.engine.kernel import IPythonParallelKernel

        self.ctx = ctx
        self.packer = TextPacker()
        self.log = []  # everything observable, in order
        self.client = make_session(self.packer)
        self.session = make_session(self.packer)
        self.shell_stream = FakeStream('shell', on_send=lambda m: self.log.append(('shell', m)))
        self.control_stream = FakeStream('control', on_send=lambda m: self.log.append(('control', m)))
        self.iopub = FakeStream('iopub', on_send=lambda m: self.log.append(('iopub', m)))
        sh = self.shell = Shell()
        sh.user_ns.update(__builtins__=__builtins__, hook=self.hook)
        sh.base = dict(sh.user_ns)

        def init(k, **kw):
            k.shell = sh
            Kernel.__init__(k, **kw)

        class SimKernel(IPythonParallelKernel):
            shell = Any()
            io_loop = Any()
            session = Any()

        with Patch((IPythonKernel, '__init__', init)):
            self.kernel = SimKernel(engine_id=5, ident='uuid5', session=self.session, iopub_socket=self.iopub,
                                    user_ns=sh.user_ns, log=NullLog(), shell_streams=[self.shell_stream],
                                    control_stream=self.control_stream)
        self.kernel._control_lock = asyncio.Lock()
        self.kernel.io_loop = self.loop = FakeLoop()
        self.reqs = {}
        self.running = None
        self.during = []

    def patch(self):
        self.out, self.err = Out(self.log), Out(self.log)
        return Patch((sys, 'stdout', self.out), (sys, 'stderr', self.err))

    def hook(self, what, *a):
        """called by the code that runs on the engine"""
        if what == 'ran':
            self.log.append(('ran', a[0]))
            while self.during:
                self.during.pop(0)()
        elif what == 'close':
            sys.stdout.close()
        elif what == 'none':
            sys.stdout = None
        elif what == 'publish':
            self.shell.data_pub.publish_data(a[0])

    def frames(self, msg_type, content, buffers=(), metadata=None, ident=b'client'):
        import zmq

        s = FakeStream('out')
        m = self.client.send(s, msg_type, content, buffers=list(buffers), metadata=metadata, ident=ident)
        return m['header']['msg_id'], [zmq.Frame(bytes(f)) for f in s.sent[0]]

    def feed(self, frames):
        drive(self.kernel.dispatch_shell(list(frames)))

    def control(self, frames):
        drive(self.kernel.dispatch_control(list(frames)))

    def decode(self, frames, copy=True):
        idents, parts = self.client.feed_identities(list(frames))
        m = self.client.deserialize(parts)
        m['idents'] = idents
        return m


CODE = '''
def ok(x):
    hook('ran', KK)
    seen.append(KK)
    return (x, extra)
def error(x):
    hook('ran', KK)
    raise ValueError('e%d' % KK)
def exits(x):
    hook('ran', KK)
    import sys
    sys.exit(3)
def interrupt(x):
    hook('ran', KK)
    raise KeyboardInterrupt('e%d' % KK)
def badstr(x):
    hook('ran', KK)
    class Odd(Exception):
        def __str__(self):
            raise RuntimeError('no')
    raise Odd()
def unshown(x):
    hook('ran', KK)
    raise type('Unshown', (Exception,), {})('e%d' % KK)
def surrogate(x):
    hook('ran', KK)
    raise ValueError('\\ud800')
def unmet(x):
    hook('ran', KK)
    from ipyparallel.error import UnmetDependency
    raise UnmetDependency('e%d' % KK)
def unsendable(x):
    hook('ran', KK)
    return (i for i in [1])
def closes(x):
    hook('ran', KK)
    hook('close')
    return x
def nostdout(x):
    hook('ran', KK)
    hook('none')
    return x
def drops(x):
    hook('ran', KK)
    for k in [k for k in globals() if k.startswith('_') and not k.startswith('__')]:
        del globals()[k]
    return x
def publish(x):
    hook('ran', KK)
    hook('publish', {'a': x, 'b': b'bytes' * 3})
    return x
'''
APPLY = ('ok', 'error', 'exits', 'interrupt', 'badstr', 'surrogate', 'unshown', 'unmet', 'unsendable', 'closes', 'nostdout', 'drops', 'publish',
         'unreadable')
FAILS = {'error': 'ValueError', 'exits': 'SystemExit', 'interrupt': 'KeyboardInterrupt', 'badstr': 'Odd', 'unshown': 'Unshown',
         'surrogate': 'ValueError', 'unmet': 'UnmetDependency', 'unsendable': 'TypeError', 'unreadable': None}
EXEC = ('exec', 'execerr')
OTHER = ('unsigned', 'foreign')
CONTROL = ('abort', 'abort_two', 'abort_str', 'abort_all', 'abort_none', 'clear', 'foreign', 'unsigned')


class Req:
    pass


def _request(ctx, e, k, kind):
    import pickle

    from ipyparallel.serialize import pack_apply_message

    r = Req()
    r.k, r.kind = k, kind
    r.x = ctx.int(f'x{k}')
    md = {'is_broadcast': ctx.flip(f'b{k}'), 'original_msg_id': 'o', 'label': 'l'} if k == 0 else {}
    r.md = md
    if kind in APPLY:
        ns = {'__name__': '__main__'}
        exec(CODE.replace('KK', str(k)), ns)
        if kind == 'unreadable':
            bufs = [pickle.dumps(1), b'garbage']
        else:
            bufs = pack_apply_message(ns[kind], (r.x,), {})
        r.id, r.frames = e.frames('apply_request', {}, bufs, md)
    elif kind in EXEC:
        code = f'hook("ran", {k})\nseen.append({k})\n' + ('1/0' if kind == 'execerr' else 'extra')
        r.id, r.frames = e.frames('execute_request', {'code': code, 'silent': False, 'user_expressions': {}}, (), md)
    else:
        r.id, r.frames = e.frames('apply_request' if kind != 'foreign' else 'strange_request', {}, [b'x', b'y'])
        if kind == 'unsigned':
            r.frames = r.frames[:4]
    e.reqs[r.id] = r
    r.started = r.aborted = r.done = False
    r.maybe = False
    return r


def _answers(e, r):
    return [m for ch, f in ((x[0], x[1]) for x in e.log if x[0] == 'shell') for m in [e.decode(f)]
            if m['parent_header'].get('msg_id') == r.id]


@harness('E01', 'requests',
         quick=(dict(n=1, kinds=APPLY + EXEC + OTHER, control=CONTROL, during=1),
                dict(n=2, kinds=('ok', 'error', 'closes', 'exec', 'execerr', 'unsigned'), control=('abort', 'abort_all', 'clear')),
                dict(n=2, kinds=APPLY + EXEC + OTHER, control=()),
                dict(n=3, kinds=('ok', 'execerr', 'exec'), control=('abort', 'abort_two', 'abort_none'))),
         thorough=(dict(n=2, kinds=APPLY + EXEC + OTHER, control=CONTROL, during=1),
                   dict(n=3, kinds=('ok', 'error', 'exec', 'execerr', 'closes', 'unsigned'), control=('abort', 'abort_all', 'clear')),
                   dict(n=3, kinds=APPLY + EXEC, control=())),
         labels=('aborted', 'abort too late', 'abort while running', 'cleared', 'ignored', 'error', 'published', 'result'),
         bounds='1-3 requests in the queue of an engine: functions that return (symbolic) values, raise any kind of exception, '
                'print, publish data, cannot be read or sent, close the standard output; executed code; malformed messages; an '
                'abort (by id, by a list of one or two, of unknown ids, of everything), clear or unknown control request at any point',
         stubs="IPython's shell (exec in the user namespace), ZMQ streams; JSON is replaced by structural copies of what it accepts")
def requests(ctx):
    p = ctx.params
    e = Engine(ctx)
    e.shell.user_ns.update(extra='extra', seen=[])
    e.shell.base.update(e.shell.user_ns)
    seen = e.shell.user_ns['seen']
    reqs = [_request(ctx, e, k, ctx.choose(f'kind{k}', p['kinds'])) for k in range(p['n'])]
    waiting = list(reqs)
    state = {'control': ctx.choose('control', ('none',) + tuple(p['control'])), 'cleared': False, 'aborting': False}
    target = None
    targets = []
    if state['control'] in ('abort', 'abort_two', 'abort_str'):
        known = [r for r in reqs if r.kind not in OTHER]
        n = 2 if state['control'] == 'abort_two' else 1
        if len(known) < n:
            ctx.cut('nothing to abort')
        target = ctx.choose('target', known)
        targets = [target]
        if n == 2:
            targets.append(ctx.choose('other', [x for x in known if x is not target]))
    during = bool(p.get('during')) and state['control'] != 'none' and ctx.flip('during')
    controls = []

    def control():
        what = state['control']
        state['control'] = 'none'
        if what in ('abort', 'abort_two', 'abort_str', 'abort_all', 'abort_none'):
            ids = [t.id for t in targets]
            content = {'abort': {'msg_ids': ['unknown'] + ids}, 'abort_two': {'msg_ids': ids + ['unknown']}, 'abort_str': {'msg_ids': target and target.id},
                       'abort_all': {'msg_ids': None}, 'abort_none': {'msg_ids': []}}[what]
            mid, frames = e.frames('abort_request', content)
            for t in targets:
                if t in waiting:
                    t.aborted = True
                else:
                    ctx.reach('abort while running' if e.running is t else 'abort too late')
            if not targets:
                for r in waiting:
                    r.maybe = True
        elif what == 'clear':
            mid, frames = e.frames('clear_request', {})
            if e.running is None:
                state['cleared'] = True
        else:
            mid, frames = e.frames('strange_request', {})
            if what == 'unsigned':
                frames = frames[:4]
        with raises_nothing(ctx, f'control request: {what}'):
            e.control(frames)
        controls.append((what, mid))
        if what == 'clear':
            ctx.reach('cleared')
            ns = {k for k in e.shell.user_ns if not k.startswith('__')}
            ctx.check(ns == {k for k in e.shell.base if not k.startswith('__')}, 'clear left something')

    with e.patch():
        while waiting:
            if state['control'] != 'none' and not during and ctx.flip(f'now{len(waiting)}'):
                control()
            r = waiting.pop(0)
            e.running = r
            if during and state['control'] != 'none':
                if state['control'] == 'clear':
                    ctx.cut('clearing the namespace under a running function')
                e.during.append(control)
            start = len(e.log)
            names = set(e.shell.user_ns)
            with raises_nothing(ctx, f'handling {r.kind}'):
                try:
                    e.feed(r.frames)
                except ValueError:
                    if r.kind != 'closes':  # ipykernel flushes, too
                        raise
            e.running = None
            sys.stdout, sys.stderr = e.out, e.err
            e.out.closed = False
            _check(ctx, e, r, start, names, reqs)
            if ctx.flip(f'loop{len(waiting)}'):
                cbs, e.loop.callbacks = e.loop.callbacks, []
                for cb in cbs:
                    c = cb()
                    if hasattr(c, 'send'):
                        drive(c)
        if state['control'] != 'none' and not e.during:
            control()
    # nobody is answered twice, or for somebody else
    n = len([1 for x in e.log if x[0] == 'shell'])
    ctx.check(n == len([r for r in reqs if r.kind not in OTHER]), f'{n} replies')
    want = [mid for what, mid in controls if what not in ('foreign', 'unsigned')]
    got = [e.decode(x[1]) for x in e.log if x[0] == 'control']
    ctx.check([m['parent_header']['msg_id'] for m in got] == want, 'replies to control requests')
    for m, what in zip(got, [w for w, _ in controls if w not in ('foreign', 'unsigned')]):
        ctx.check(m['msg_type'] == ('clear_reply' if what == 'clear' else 'abort_reply') and m['content']['status'] == 'ok'
                  and m['idents'] == [b'client'], 'reply to a control request')
    ran = [r.k for r in reqs if r.started and r.kind in ('ok', 'exec', 'execerr')]
    if not state['cleared']:
        ctx.check(seen == ran, f'the user namespace saw {seen}, expected {ran}')


def _check(ctx, e, r, start, names, reqs):
    from ipyparallel.serialize import deserialize_object

    log = e.log[start:]
    runs = [x[1] for x in log if x[0] == 'ran']
    answers = _answers(e, r)
    what = f'{r.kind} request'
    if r.kind in OTHER:
        ctx.check(not runs and not answers, f'{what} was answered')
        ctx.reach('ignored')
        return
    ctx.check(len(answers) == 1, f'{what}: {len(answers)} replies')
    m = answers[0]
    c, md = m['content'], m['metadata']
    typ = 'execute_reply' if r.kind in EXEC else 'apply_reply'
    ctx.check(m['msg_type'] == typ and m['idents'] == [b'client'], f'{what}: reply of type {m["msg_type"]}')
    ctx.check(md['engine'] == 'uuid5' and md['status'] == c['status'], f'{what}: metadata')
    ctx.check(md['is_broadcast'] == r.md.get('is_broadcast', False) and md['original_msg_id'] == r.md.get('original_msg_id', '')
              and md['label'] == r.md.get('label') and md['is_coalescing'] is False, f'{what}: metadata of the request')
    ctx.check(md['dependencies_met'] == (r.kind != 'unmet' or not runs), f'{what}: dependencies_met')
    # output is complete once the engine is idle
    idle = [i for i, x in enumerate(log) if x[0] == 'iopub' and _is_idle(e, x[1], r)]
    reply = [i for i, x in enumerate(log) if x[0] == 'shell']
    if 'closes' != r.kind and 'nostdout' != r.kind:
        ctx.check(len(idle) == 1 and idle[0] == max(i for i, x in enumerate(log) if x[0] in ('iopub', 'shell')
                                                    and _of(e, x[1], r)), f'{what}: idle is not the last message')
    for x in log:
        if x[0] == 'iopub':
            mm = e.decode(x[1])
            if mm['msg_type'] not in ('status',):
                ctx.check(mm['parent_header'].get('msg_id') == r.id, f'{what}: {mm["msg_type"]} of another request')
    if r.aborted or (r.maybe and c['status'] == 'aborted') or (r.kind in EXEC and _after_error(reqs, r) and c['status'] == 'aborted'):
        ctx.check(c['status'] == 'aborted' and not runs, f'an aborted {what} was run')
        ctx.check(not m['buffers'], 'buffers of an aborted request')
        ctx.reach('aborted')
        return
    ctx.check(c['status'] != 'aborted', f'{what} was aborted by mistake')
    ctx.check(runs == ([r.k] if r.kind != 'unreadable' else []), f'{what} was run {len(runs)} times')
    r.started = True
    if r.kind in APPLY and r.kind not in ('closes', 'nostdout', 'unreadable'):
        last = [i for i, x in enumerate(log) if x[0] == 'ran'][0]
        ctx.check(any(x[0] == 'flush' for x in log[last:reply[0]]), f'{what}: output was not flushed before the reply')
    left = {k for k in set(e.shell.user_ns) - names if not k.startswith('__')}
    ctx.check(not left, f'{what} left {left} in the namespace')
    if r.kind in FAILS or r.kind == 'execerr':
        ctx.check(c['status'] == 'error', f'{what}: status {c["status"]}')
        name = FAILS.get(r.kind, 'ZeroDivisionError')
        ctx.check(name is None or c['ename'] == name, f'{what}: error {c["ename"]}')
        if r.kind in ('error', 'unmet', 'interrupt', 'unshown'):
            ctx.check(c['evalue'] == f'e{r.k}', f'{what}: {c["evalue"]}')
        ctx.check(isinstance(c['evalue'], str) and isinstance(c['traceback'], list), 'error without text')
        if r.kind != 'surrogate':
            ctx.check(r.kind in ('badstr', 'unreadable', 'unsendable', 'unshown') or len(c['traceback']) == 1, 'no traceback')
        ei = c['engine_info']
        ctx.check(ei['engine_uuid'] == 'uuid5' and ei['engine_id'] == 5 and ei['method'] == ('execute' if r.kind in EXEC else 'apply'),
                  'engine_info of an error')
        ctx.check(md['engine_info']['engine_uuid'] == 'uuid5', 'engine_info in metadata')
        ctx.check(not m['buffers'], 'buffers of an error')
        ctx.reach('error')
    else:
        ctx.check(c['status'] == 'ok', f'{what}: status {c["status"]}: {c}')
        if r.kind in APPLY:
            v, rest = deserialize_object(m['buffers'])
            ctx.check(not rest and (v[0] == r.x and v[1] == 'extra' if r.kind == 'ok' else v == r.x), f'{what}: result')
        ctx.reach('result')
    if r.kind == 'publish':
        data = [e.decode(x[1]) for x in log if x[0] == 'iopub' and e.decode(x[1])['msg_type'] == 'data_message']
        ctx.check(len(data) == 1 and sorted(data[0]['content']['keys']) == ['a', 'b'], 'published data')
        v, rest = deserialize_object(data[0]['buffers'])
        ctx.check(v['a'] == r.x and v['b'] == b'bytes' * 3, 'published data')
        ctx.reach('published')


def _after_error(reqs, r):
    return any(q.kind == 'execerr' and q.started for q in reqs[:r.k])


def _is_idle(e, frames, r):
    m = e.decode(frames)
    return m['msg_type'] == 'status' and m['content']['execution_state'] == 'idle' and m['parent_header'].get('msg_id') == r.id


def _of(e, frames, r):
    return e.decode(frames)['parent_header'].get('msg_id') == r.id
