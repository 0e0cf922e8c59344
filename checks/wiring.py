"""K01: every address the controller hands out is served by the part that it is meant for.
K02: connection files are complete, private, and survive restarts."""
from symx.core import And, Eq, Not, Or
from symx.reg import harness, raises_nothing
from checks.engine_life import EngineRig
from fixtures.wire import FakeStream, Patch
from fixtures.wiring import Context, Crash, FileEvents, Names, Sock, Wiring

WILD = ('*', '0.0.0.0')


def reaches(w, a, b):
    """term: connecting to url `a` reaches what is bound at `b`"""
    p, h, x = w.split(a)
    q, g, y = w.split(b)
    if p != q or (h != g and g not in WILD):
        return False
    if x is None or y is None:
        return a == b
    return True if x is y else Eq(x, y)


def clash(w, a, b):
    p, h, x = w.split(a)
    q, g, y = w.split(b)
    if p != q or (h != g and g not in WILD and h not in WILD):
        return False
    if x is None or y is None:
        return a == b
    return True if x is y else Eq(x, y)


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.w = Wiring(ctx)

    def sock(self, s):
        return s if isinstance(s, Sock) and type(s) is Sock else s.socket

    def server(self, url, what):
        """the socket bound where a connection to `url` ends"""
        ctx, w = self.ctx, self.w
        hits, others = [], []
        for s in w.bound:
            for kind, u, _ in s.ends:
                r = reaches(w, url, u) if kind == 'bind' else False
                if r is True:
                    hits.append(s)
                elif r is not False:
                    others.append(r)
        all = [e[1] for s in w.bound for e in s.ends if e[0] == "bind"]
        if not hits:
            ctx.check(Or(*others) if others else False, f'{what} connects to {url}: bound are {all}')
        ctx.check(len(hits) == 1 and (not others or Not(Or(*others))), f'{what} connects to {url}: bound are {all}')
        return hits[0]

    def one(self, s, what):
        """the one url socket `s` connects to"""
        us = [u for k, u, _ in self.sock(s).ends if k == 'connect']
        self.ctx.check(len(us) == 1, f'{what} connects to {us}')
        return us[0]

    def same(self, s, t, what):
        self.ctx.check(s is self.sock(t), f'{what} ends at another socket: {s.kind} {s.ends}')

    def client(self):
        """a client that reads the connection file"""
        import json
        import os

        import zmq

        from ipyparallel.client import client as C

        w, ctx = self.w, self.ctx
        sess = w.app.session
        socks = []

        class Cx(Context):
            def socket(self, kind, *a, **k):
                s = Context.socket(self, kind, *a, **k)
                socks.append(s)
                return s

        class Poller:
            def register(self, *a):
                pass

            def poll(self, *a):
                # the hub hears the request and replies
                q = socks[0]
                try:
                    idents, parts = sess.feed_identities(list(q.sent[-1]))
                    m = sess.deserialize(parts)
                except Exception as e:
                    ctx.fail(f'the controller cannot read what the client sends: {type(e).__name__}: {e}')
                ctx.check(m['header']['msg_type'] == 'connection_request', 'the client asks for a connection')
                out = FakeStream('r')
                sess.send(out, 'connection_reply', content={'status': 'ok', 'engines': {'0': 'e'}}, parent=m)
                q.inbox.append(out.sent[0])
                return [(q, zmq.POLLIN)]

        class Cl(C.Client):
            def _start_io_thread(self):
                pass

            def close(self, *a, **k):
                pass

        path = os.path.join(w.sec, w.app.client_json_file)
        w.part = 'client'
        with Patch(*w.patches, (C, 'zmq', Names(zmq, Poller=Poller)), (C, 'localhost', lambda: '127.0.0.1'),
                   (C, 'is_local_ip', lambda ip: True)):
            c = Cl(path, context=Cx(w, 'client'))
        ctx.check(c.ids == [0] if not hasattr(c, '_notification_socket') else list(c._ids) == [0], 'the client hears of the engines')
        by = {}
        for s in socks:
            by.setdefault(s.kind, []).append(s)
        return c, socks

    def engine(self, eid):
        import os

        import zmq

        w, ctx = self.w, self.ctx
        rig = EngineRig(ctx)
        app = rig.app
        sess = w.app.session
        app._trait_values.pop('session')
        app.url_file = os.path.join(w.sec, w.app.engine_json_file)
        app._trait_values['enable_nanny'] = True
        w.part = 'engine'
        with Patch(*w.patches), rig.patch():
            app.load_connection_file()
            cx = Context(w, 'engine')
            app._trait_values['context'] = cx
            app._trait_values['ident'] = app.session.session
            app._trait_values['bident'] = app.ident.encode()
            real = cx.socket
            socks = []

            def socket(kind):
                s = real(kind)
                if not socks:
                    out = FakeStream('r')
                    sess.send(out, 'registration_reply',
                              content=dict(id=eid, status='ok', hb_period=3000, max_heartbeat_misses=10))
                    s.inbox.append(out.sent[0])
                socks.append(s)
                return s

            cx.socket = socket
            c = app.register()
            try:
                c.send(None)
                ctx.fail('register waits')
            except StopIteration:
                pass
        ctx.check(rig.error is None, f'the engine cannot join: {rig.error}')
        idents, parts = sess.feed_identities(list(socks[0].sent[0]))
        try:
            m = sess.deserialize(parts)
        except Exception as e:
            ctx.fail(f'the controller cannot read what the engine sends: {type(e).__name__}: {e}')
        ctx.check(m['header']['msg_type'] == 'registration_request', 'the engine registers')
        return rig, app, socks


def addresses(ctx, what):
    """traits for the addresses to listen on"""
    tr = {}
    if 'transport' in what:
        t = ctx.choose('transport', ['tcp', 'ipc', 'engines ipc', 'clients ipc'])
        if t == 'ipc':
            tr['transport'] = 'ipc'
        elif t == 'engines ipc':
            tr['engine_transport'] = 'ipc'
        elif t == 'clients ipc':
            tr['client_transport'] = 'ipc'
        if t != 'tcp':
            tr['ip'] = '/tmp/sock'
            if t != 'ipc':
                tr['monitor_ip'] = '127.0.0.1'
                tr['client_ip' if t == 'engines ipc' else 'engine_ip'] = '127.0.0.1'
                if ctx.flip('same text'):
                    tr = dict(tr, ip='127.0.0.1', engine_ip='127.0.0.1', client_ip='127.0.0.1')
            return tr
    if 'ip' in what:
        ips = ['127.0.0.1', '127.0.0.2', '*', '0.0.0.0']
        e, c, m = (ctx.choose(f'{k} ip', ips[:n]) for k, n in (('engine', 4), ('client', 4), ('monitor', 3)))
        tr.update(engine_ip=e, client_ip=c, monitor_ip=m)
    return tr


def pools(ctx, w, sizes):
    tr = {}
    for k in ('engine_ports', 'client_ports', 'ports'):
        n = ctx.choose(k, sizes)
        if n:
            tr[k] = [w.port(f'{k}{i}') for i in range(n)]
    return tr


def deprecated(ctx, w):
    tr = {}
    which = ctx.choose('deprecated', ['all', 'mux', 'task', 'control', 'iopub', 'hb', 'regport', 'notifier_port', 'mon_port'])
    for k in ('mux', 'task', 'control', 'iopub', 'hb'):
        if which in (k, 'all'):
            tr[k] = (w.port(f'{k}a'), w.port(f'{k}b'))
    for k in ('regport', 'notifier_port', 'mon_port'):
        if which in (k, 'all'):
            tr[k] = w.port(k)
    return tr


def verify(ctx, W, scheme, depth, curve, keyed=False):
    """one controller has been started: who is connected with whom?"""
    import zmq

    w = W.w
    app = w.app
    w.bound = [s for s in w.sockets if any(k == 'bind' for k, _, _ in s.ends)]
    binds = [(s, u) for s in w.bound for k, u, _ in s.ends if k == 'bind']
    pairs = [(clash(w, u, v), s, t, u, v) for i, (s, u) in enumerate(binds) for t, v in binds[:i]]
    for r, s, t, u, v in pairs:
        ctx.check(r is not True, f'{s.kind} and {t.kind} are both bound to {u} {v}')
    ctx.check(And(*[Not(r) for r, *_ in pairs if r is not False]), f'ports bound twice: {[u for _, u in binds]}')
    hub = app.hub
    task = [s for s in w.services if type(s).__name__ == 'TaskScheduler']
    tree = [s for s in w.services if type(s).__name__ == 'BroadcastScheduler']
    heart = [s for s in w.services if type(s).__name__ == 'HeartMonitor']
    ctx.check(len(heart) == 1, 'one heart monitor')
    ctx.check(len(tree) == 2 ** (depth + 1) - 1, f'{len(tree)} broadcast schedulers at depth {depth}')
    ctx.check(len(task) == (scheme not in ('pure', 'none')), 'one task scheduler')
    dev = {}
    for d in w.devices:
        dev[d.q.in_prefix if hasattr(d.q, 'in_prefix') else d.q._in_prefix if hasattr(d.q, '_in_prefix') else None] = d
    # everything that is monitored is monitored by the hub
    mons = [d.mon for d in w.devices] + [s.mon_stream for s in task + tree] + [heart[0].monitor_stream]
    for m in mons:
        W.same(W.server(W.one(m, 'a monitored part'), 'a monitored part'), hub.monitor, 'monitoring')
    for s in task + tree:
        W.same(W.server(W.one(s.notifier_stream, 'scheduler'), 'notifications of a scheduler'), hub.notifier, 'notifications')
        W.same(W.server(W.one(s.query_stream, 'scheduler'), 'queries of a scheduler'), hub.query, 'queries')
    # clients
    with raises_nothing(ctx, 'a client connects'):
        c, socks = W.client()
    def end(s, name):
        return W.server(W.one(s, name), name)

    W.same(end(c._query_socket, 'registration'), hub.query, 'queries of a client')
    W.same(end(c._notification_socket, 'notification'), hub.notifier, 'notifications of a client')
    mux = end(c._mux_socket, 'mux of a client')
    control = end(c._control_socket, 'control of a client')
    iopub = end(c._iopub_socket, 'iopub of a client')
    broad = end(c._broadcast_socket, 'broadcast of a client')
    tin = end(c._task_socket, 'task of a client') if scheme != 'none' else None
    if scheme != 'none':
        W.same(end(hub.resubmit, 'resubmit'), tin, 'resubmitted tasks')
    ctx.check(c._config['task_scheme'] == scheme, 'the scheme that the client reads')

    def device(side, s, what):
        for d in w.devices:
            if getattr(d, side) is s:
                return d
        ctx.fail(f'{what} ends at {s.kind} {s.ends}')

    mux, control, iopub = device('ins', mux, 'mux'), device('ins', control, 'control'), device('outs', iopub, 'iopub')
    if scheme == 'pure':
        tout = device('ins', tin, 'task').outs
    elif scheme != 'none':
        W.same(tin, task[0].client_stream, 'tasks')
        tout = task[0].engine_stream
    kinds = {'mux': (mux, 'ROUTER', 'ROUTER'), 'control': (control, 'ROUTER', 'ROUTER'), 'iopub': (iopub, 'SUB', 'PUB')}
    for name, (d, i, o) in kinds.items():
        ctx.check((d.ins.kind, d.outs.kind) == (i, o), f'{name} is {d.ins.kind} {d.outs.kind}')
    ctx.check(len({id(d) for d in (mux, control, iopub)}) == 3, 'three devices')
    ctx.check(mux.q._in_prefix == b'in' and mux.q._out_prefix == b'out', 'topics of mux') if hasattr(mux.q, '_in_prefix') else None
    for s, opt in ((iopub.ins, b''), (hub.monitor, b''), (c._iopub_socket, b''), (c._notification_socket, b'')):
        ctx.check(W.sock(s).opts.get(int(zmq.SUBSCRIBE)) == opt, 'subscribed to everything')
    # the tree
    root = [s for s in tree if W.sock(s.client_stream) is broad]
    ctx.check(len(root) == 1, 'the root of the tree')
    leaves, seen = {}, []

    def walk(node, path):
        seen.append(node)
        if node.is_leaf:
            ctx.check(len(path) == depth, 'a leaf at another depth')
            leaves[int(path or '0', 2)] = node.engine_stream
            return
        subs = list(zip(node.connected_sub_scheduler_ids, node.outgoing_streams))
        ctx.check(len(subs) == 2, 'two branches')
        for n, (ident, out) in enumerate(subs):
            kids = [k for k in tree if k is not node and [u for q, u, _ in W.sock(k.client_stream).ends if q == 'connect']
                    and end(k.client_stream, 'scheduler') is W.sock(out)]
            ctx.check(len(kids) == 1, f'{len(kids)} schedulers below a branch')
            ctx.check(W.sock(kids[0].client_stream).opts.get(int(zmq.IDENTITY)) == ident, 'identity of a scheduler')
            walk(kids[0], path + str(n))

    walk(root[0], '')
    ctx.check(len(seen) == len(tree), 'all of the schedulers are in the tree')
    # engines
    n = 2 ** depth
    for eid in range(n + 1):
        with raises_nothing(ctx, 'an engine connects'):
            rig, eng, es = W.engine(eid)
        W.same(W.server(W.one(es[0], 'registration'), 'registration'), hub.query, 'registration of an engine')
        shell = [W.server(u, 'shell of an engine') for k, u, _ in eng.shell_socket.ends
                 if scheme != 'none' or not u.endswith(f'{format(w.app.engine_info["task"])}')]
        want = [mux.outs, leaves[eid % n]] + ([tout] if scheme != 'none' else [])
        ctx.check(len(shell) == len(want) and all(any(W.sock(x) is s for s in shell) for x in want),
                  f'engine {eid} is connected to {[s.ends for s in shell]}')
        ctx.check(len(rig.nannies) == 1, 'a nanny')
        W.same(W.server(rig.nannies[0]['control_url'], 'control of the nanny'), control.outs, 'control of an engine')
        W.same(W.server(W.one(eng.iopub_socket, 'iopub'), 'iopub'), iopub.ins, 'iopub of an engine')
        a, k = rig.hearts[0]
        w.engine_urls = [a[0], a[1], rig.nannies[0]['control_url']]
        W.same(W.server(a[0], 'heart'), heart[0].ping_stream, 'pings')
        W.same(W.server(a[1], 'heart'), heart[0].pong_stream, 'pongs')
        if curve:
            ctx.check(k.get('curve_serverkey') == app.curve_publickey and k.get('curve_secretkey'), 'keys of the heart')
            ctx.check(rig.nannies[0].get('curve_serverkey') == app.curve_publickey, f'keys of the nanny')
        else:
            ctx.check(not k.get('curve_serverkey'), 'keys of the heart')
    # encryption: everywhere, or nowhere
    ctx.check(bool(app.session.key) == (not curve) or keyed and app.session.key, 'messages are signed, unless they are encrypted')
    for s in w.sockets:
        for kind, u, opts in s.ends:
            if u == 'tcp://127.0.0.1:777':  # the nanny's own
                continue
            srv = opts.get(int(zmq.CURVE_SERVER))
            pub = opts.get(int(zmq.CURVE_SERVERKEY))
            if kind == 'bind':
                ctx.check(bool(srv) == curve, f'{s.kind} bound to {u}: curve {srv}')
                if curve:
                    ctx.check(opts.get(int(zmq.CURVE_SECRETKEY)) == app.curve_secretkey, f'{s.kind} {u}: other secret key')
            elif curve:
                ctx.check(pub == app.curve_publickey and opts.get(int(zmq.CURVE_SECRETKEY)) and opts.get(int(zmq.CURVE_PUBLICKEY)),
                          f'{s.kind} connected to {u}: {pub}')
            else:
                ctx.check(pub is None, f'{s.kind} connected to {u}: {pub} without curve')
    ctx.reach('wired')


def economy(ctx, w, engine, client, common):
    """engine and client ports come from their own pools, then from the common one"""
    def term(u):
        return w.split(u)[2]

    def within(ps, qs):
        return [p for p in ps if any(p is q for q in qs)]

    used = [term(u) for s in w.bound for k, u, _ in s.ends if k == 'bind']
    parts = {}
    for s in w.sockets:
        for k, u, _ in s.ends:
            if k == 'connect' and s.part in ('engine', 'client'):
                t = term(u)
                if t is not None and not any(t is x for x in parts.setdefault(s.part, [])):
                    parts[s.part].append(t)
    hb = [term(u) for u in w.engine_urls]
    engine_ports = parts['engine'] + [t for t in hb if not any(t is x for x in parts['engine'])]
    client_ports = [t for t in parts['client'] if not within([t], engine_ports)]
    for name, pool, ports in (('engine', engine, engine_ports), ('client', client, client_ports)):
        ctx.check(len(within(used, pool)) == len(within(ports, pool)), f'{name} ports for something else')
        ctx.check(len(within(ports, pool)) == min(len(ports), len(pool)), f'{name} ports left over: {ports} {pool}')
        if len(within(ports, pool)) < len(ports):
            ctx.check(within(ports, common) or len(within(used, common)) == len(common), f'no common port for {name}')
    if within(used, w.randoms):
        ctx.check(len(within(used, common)) == len(common), 'random ports, but some are left over')
        ctx.reach('random')
    else:
        ctx.reach('no random')


@harness('K01', 'served', quick=({'vary': 'ip'}, {'vary': 'transport'}, {'vary': 'shape'}, {'vary': 'pools'}, {'vary': 'ports'}),
         thorough=({'vary': 'ip shape'}, {'vary': 'transport shape'}, {'vary': 'pools shape'}, {'vary': 'ports'}),
         labels=('wired', 'random', 'no random'),
         bounds='interfaces of engines, clients and monitor from 4, 4 and 3; tcp, ipc and mixed; 4 schemes, depths 0-2, with and '
                'without curve, threads or processes; pools of 0, 1, 4 or 20 ports each; deprecated port settings; all ports are '
                'symbolic (thorough: combined with each other); engines 0 to 2**depth',
         stubs='zmq contexts, streams, loops and devices (which record), multiprocessing.Process (run in this process up to its '
               'event loop), select_random_ports (fresh symbolic ports), host name lookup')
def served(ctx):
    ctx.lazy_str = ctx.const_hash = True
    vary = ctx.params['vary']
    W = World(ctx)
    w = W.w
    try:
        tr = addresses(ctx, vary)
        scheme, depth, curve = 'leastload', 1, False
        if 'shape' in vary:
            scheme = ctx.choose('scheme', ['leastload', 'pure', 'none', 'plainrandom'])
            depth = ctx.choose('depth', [1, 0, 2])
            curve = ctx.flip('curve')
            tr['use_threads'] = ctx.flip('threads')
        if 'pools' in vary:
            tr.update(pools(ctx, w, [0, 1, 4, 20]))
        if vary == 'ports':
            tr.update(deprecated(ctx, w))
        if curve:
            tr['enable_curve'] = True
        tr['broadcast_scheduler_depth'] = depth
        cfg = {'IPController': tr}
        if scheme != 'leastload':
            cfg['TaskScheduler'] = {'scheme_name': scheme}
        with raises_nothing(ctx, 'the controller starts'):
            w.start(config=cfg)
        verify(ctx, W, scheme, depth, curve)
        if 'pools' in vary and scheme != 'none':  # which has ports for tasks, and no service
            economy(ctx, w, *(tr.get(k, []) for k in ('engine_ports', 'client_ports', 'ports')))
    finally:
        w.close()


def files(w):
    out = {}
    for f in (w.app_client, w.app_engine):
        try:
            with open(f) as g:
                out[f] = g.read()
        except FileNotFoundError:
            pass
    return out


def intact(ctx, w, when):
    """nobody else can read the key, and who finds a file can use it"""
    import json
    import os

    for f in os.listdir(w.sec):
        p = os.path.join(w.sec, f)
        st = os.stat(p)
        with open(p) as g:
            text = g.read()
        if '"key"' in text:
            ctx.check(st.st_mode & 0o077 == 0, f'{f} has mode {st.st_mode & 0o777:o} {when}')
        if f.endswith('.json'):
            try:
                d = w._loads(text)
            except ValueError:
                ctx.fail(f'{f} is incomplete {when}')
            ctx.check({'key', 'registration', 'interface', 'mux', 'pack', 'location', 'ssh'} <= set(d), f'{f} is incomplete {when}')


CHANGES = {
    'depth up': ({}, {'broadcast_scheduler_depth': 2}), 'depth down': ({}, {'broadcast_scheduler_depth': 0}),
    'scheme': ({}, {'scheme': 'pure'}), 'curve on': ({}, {'enable_curve': True}), 'curve off': ({'enable_curve': True}, {}),
    'curve': ({'enable_curve': True}, {'enable_curve': True}), 'ip': ({}, {'ip': '127.0.0.2'}),
    'ips': ({'engine_ip': '127.0.0.2'}, {}), 'wild': ({'engine_ip': '*'}, {'client_ip': '*'}),
    'transport': ({'transport': 'ipc', 'ip': '/tmp/sock'}, {}), 'threads': ({}, {'use_threads': True}),
    'pack': ({}, {'packer': 'pickle'}), 'ssh': ({}, {'ssh_server': 'gate'}), 'nothing': ({}, {}),
    'to reuse': ({'reuse_files': False}, {}),
}


def config(w, opts, pool):
    tr = dict(broadcast_scheduler_depth=1, reuse_files=True, **pool)
    tr.update({k: v for k, v in opts.items() if k not in ('scheme', 'packer')})
    cfg = {'IPController': tr}
    scheme = opts.get('scheme', 'leastload')
    if 'scheme' in opts:
        cfg['TaskScheduler'] = {'scheme_name': scheme}
    if 'packer' in opts:
        cfg['Session'] = {'packer': opts['packer'], 'unpacker': opts['packer']}
    return cfg, scheme, tr['broadcast_scheduler_depth'], bool(tr.get('enable_curve'))


@harness('K02', 'restart', quick=({'mode': 'change'}, {'mode': 'crash'}, {'mode': 'full'}, {'mode': 'damage'}),
         thorough=({'mode': 'change'}, {'mode': 'crash', 'all': 1}, {'mode': 'full', 'all': 1}, {'mode': 'damage', 'all': 1}),
         labels=('restarted', 'unchanged files', 'crashed', 'disk full', 'damaged'),
         bounds='15 changes of the configuration between two starts, with no, small and large pools of symbolic ports; a crash '
                'before any of the first 12 operations on files of the first or second of up to 3 starts, or a disk that is full '
                'after 0, 10 or 300 bytes of a file, or a file that is missing, cut after 0, 10 or 300 bytes, or lacks an entry (thorough: combined with all 15 changes)',
         stubs='as K01; files are real ones in a scratch directory')
def restart(ctx):
    import os
    import resource

    ctx.lazy_str = ctx.const_hash = True
    mode = ctx.params['mode']
    W = World(ctx)
    w = W.w
    w.app_client, w.app_engine = (os.path.join(w.sec, f'ipcontroller-{k}.json') for k in ('client', 'engine'))
    try:
        what = ctx.choose('change', sorted(CHANGES)) if mode == 'change' or ctx.params.get('all') else \
            ctx.choose('change', ['nothing', 'curve', 'depth up'])
        before, after = CHANGES[what]
        pool = {}
        n = ctx.choose('pool', [0, 5, 30])
        if n:
            pool = {'ports': [w.port(f'port{i}') for i in range(n)]}
        if mode == 'change' and n == 5 and ctx.flip('more pools'):
            pool['engine_ports'] = [w.port(f'engine{i}') for i in range(5)]
            pool['client_ports'] = [w.port(f'client{i}') for i in range(5)]
        first, scheme, depth, curve = config(w, before, pool)
        second, scheme2, depth2, curve2 = config(w, after, pool)
        runs = ctx.choose('runs', [1, 2]) if mode not in ('change', 'damage') else 1
        count = [0]
        limit = ctx.choose('crash', list(range(1, 13))) if mode == 'crash' else None
        dead = [False]
        damaged = [False]

        def event(ev, paths):
            count[0] += 1
            if damaged[0]:
                return  # not yet replaced
            intact(ctx, w, f'before {ev} {[os.path.basename(p) for p in paths]}')
            if dead[0] or count[0] == limit:
                dead[0] = True
                raise Crash

        for k in range(runs):
            last = k == runs - 1
            size = ctx.choose('bytes', [0, 10, 300]) if mode == 'full' and last else None
            if not last or mode in ('change', 'damage'):
                crash, limit = limit, None
                with FileEvents(w.dir, event), raises_nothing(ctx, 'the controller starts'):
                    w.start(config=first)
                limit = crash
                intact(ctx, w, 'after the start')
                count[0] = 0
                continue
            if size is not None:
                soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
                resource.setrlimit(resource.RLIMIT_FSIZE, (size, hard))
            try:
                with FileEvents(w.dir, event):
                    w.start(config=second, reuse=mode == 'change')
            except Crash:
                ctx.reach('crashed')
            except OSError:
                ctx.check(size is not None, 'the controller starts')
                ctx.reach('disk full')
            finally:
                if size is not None:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            intact(ctx, w, 'after the crash')
            dead[0], limit = False, None
        old = files(w)
        if mode == 'damage':
            f = ctx.choose('file', [w.app_client, w.app_engine])
            cut = ctx.choose('left', [None, 0, 10, 300, 'registration', 'key', 'mux', 'location', 'interface', 'hb_ping', 'iopub'])
            with open(f) as g:
                text = g.read()
            os.remove(f)
            if isinstance(cut, int):
                text = text[:cut]
            elif cut:
                text = '\n'.join(x for x in text.split('\n') if not x.strip().startswith(f'"{cut}"'))
            if cut is not None:
                with open(os.open(f, os.O_CREAT | os.O_WRONLY, 0o600), 'w') as g:
                    g.write(text)
            damaged[0] = True
            ctx.reach('damaged')
        with FileEvents(w.dir, event), raises_nothing(ctx, 'the controller restarts'):
            w.start(config=second, reuse=mode == 'change')
        intact(ctx, w, 'after the restart')
        verify(ctx, W, scheme2, depth2, curve2, keyed=True)
        if mode == 'change' and what in ('nothing', 'threads'):
            ctx.check(files(w) == old, 'the same configuration, but other connection files')
            ctx.reach('unchanged files')
        ctx.reach('restarted')
    finally:
        w.close()
