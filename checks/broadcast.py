"""B01/B02: the broadcast scheduler tree, built by the real controller code over an in-process network."""
from symx import And, Or, Not, harness, raises_nothing
from fixtures.controller import Stub, controller_stub, engine_addresses, environment
from fixtures.net import FakeContext, Net, NetStream
from fixtures.wire import FakeLoop, NullLog, Packer, make_session


class Eng:
    def __init__(self, tree, uuid, eid):
        import zmq

        from ipyparallel.engine.kernel import IPythonParallelKernel

        self.uuid, self.eid = uuid, eid
        self.session = make_session(tree.packer)
        self.kernel = Stub(IPythonParallelKernel, ident=uuid.decode(), engine_id=eid)
        self.sock = FakeContext(tree.net).socket(zmq.ROUTER)
        self.sock.identity = uuid
        for u in engine_addresses(tree.ctl.engine_info, eid, uuid, tree.packer):
            self.sock.connect(u)
        self.stream = NetStream(self.sock)
        self.stream.on_recv(self.request)
        self.got = []

    def request(self, frames):
        idents, raw = self.session.feed_identities(frames)
        msg = self.session.deserialize(raw)
        self.got.append((idents, msg, raw))

    def reply(self, k, outcome):
        idents, msg, _ = self.got[k]
        md = self.kernel.init_metadata(msg)
        if outcome == 'ok':
            content, bufs = {'status': 'ok'}, [b'res:' + self.uuid]
        else:
            content = {'status': 'error', 'ename': 'E' + self.uuid.decode(), 'evalue': '', 'traceback': [],
                       'engine_info': self.kernel.get_engine_info('apply')}
            bufs = []
        md = self.kernel.finish_metadata(msg, md, content)
        self.session.send(self.stream, 'apply_reply', content, parent=msg, ident=idents, buffers=bufs, metadata=md)


class Tree:
    def __init__(self, depth):
        import zmq

        self.net = Net()
        self.packer = Packer()
        self.loop = FakeLoop()
        self.patch = environment(self.net, self.packer, self.loop)
        self.patch.__enter__()
        self.ctl = controller_stub(depth)
        self.ctl.launch_broadcast_schedulers('tcp://mon:1', [])
        self.session = make_session(self.packer)
        self.sock = FakeContext(self.net).socket(zmq.DEALER)
        self.sock.connect(self.ctl.client_url('broadcast'))
        self.stream = NetStream(self.sock)
        self.stream.on_recv(self.reply)
        self.replies = []

    def close(self):
        self.patch.__exit__()

    def reply(self, frames):
        idents, raw = self.session.feed_identities(frames)
        self.replies.append(self.session.deserialize(raw))


def _targets(ctx, engines, name, orders):
    sel = [e for e in engines if ctx.flip(f'{name}_to_{e.uuid.decode()}')]
    if orders and len(sel) > 1:
        o = ctx.choose(f'{name}_order', ['fwd', 'rev', 'rot'][:orders])
        if o == 'rev':
            sel.reverse()
        elif o == 'rot':
            sel = sel[1:] + sel[:1]
    return sel


def scenario(aspect):
    def run(ctx):
        t = Tree(ctx.params['depth'])
        try:
            body(ctx, t)
        finally:
            t.close()

    def body(ctx, t):
        p = ctx.params
        ctx.lazy_str = True  # ids in log texts
        engines = []
        for i in range(p['engines']):
            eid = ctx.int(f'id{i}', 0)
            for e in engines:
                ctx.assume(Not(eid == e.eid))
            with raises_nothing(ctx, 'choosing the broadcast leaf'):
                engines.append(Eng(t, b'eng-%d' % i, eid))
        from ipyparallel.client.client import Client

        client = Stub(Client, _engines={e.uuid.decode(): e.eid for e in engines})
        sent = []
        for b in range(p['broadcasts']):
            tg = _targets(ctx, engines, f'b{b}', p.get('orders', 0))
            if not tg:
                continue
            coal = ctx.flip(f'coalesce{b}') if p.get('coalesce') is None else p['coalesce']
            md = dict(targets=[(e.uuid.decode(), e.eid) for e in tg], is_broadcast=True, is_coalescing=coal)
            msg = t.session.msg('apply_request', content={'tag': b}, metadata=md)
            sent.append((msg, tg, coal))
            t.session.send(t.stream, msg, buffers=[b'buf%d' % b])
        t.net.run()
        for e in engines:
            exp = [m for m, tg, _ in sent if e in tg]
            if aspect == 'deliver':
                ctx.check(len(e.got) == len(exp), f'{e.uuid} got {len(e.got)} of {len(exp)} broadcast requests')
                for m in exp:
                    ctx.check(sum(1 for g in e.got if g[1]['content'] == m['content']) == 1,
                              'every target gets exactly one copy of a broadcast')
                for _, g, raw in e.got:
                    ctx.check(g['header']['msg_type'] == 'apply_request', 'the request type is kept')
                    ctx.check(list(map(bytes, g['buffers'])) == [b'buf%d' % g['content']['tag']],
                              'the request buffers are kept')
            else:
                ctx.check(len(e.got) == len(exp), 'every target gets the request')
        # replies, in every order; per engine in the order of the requests
        todo = {e.uuid: list(range(len(e.got))) for e in engines}
        outcome = {}
        for step in range(sum(len(v) for v in todo.values())):
            ready = [e for e in engines if todo[e.uuid]]
            e = ctx.choose(f'reply{step}', ready)
            k = todo[e.uuid].pop(0)
            tag = e.got[k][1]['content']['tag']
            oc = ctx.choose(f'outcome{step}', ['ok', 'error']) if p.get('errors') else 'ok'
            outcome[(tag, e.uuid)] = oc
            before = len(t.replies)
            e.reply(k, oc)
            t.net.run()
            new = t.replies[before:]
            m, tg, coal = [s for s in sent if s[0]['content']['tag'] == tag][0]
            done = all((tag, x.uuid) in outcome for x in tg)
            if coal and not done:
                ctx.check(not new, 'a coalesced reply waits for every target')
                continue
            ctx.check(len(new) == 1, f'one reply per {"coalesced broadcast" if coal else "target"}, got {len(new)}')
            r = new[0]
            ctx.check(r['header']['msg_type'] == 'apply_reply', 'the reply type is kept')
            with raises_nothing(ctx, 'decoding the reply on the client'):
                use_md = client._should_use_metadata_msg_id(r)
                mid = r['metadata']['original_msg_id'] if use_md else r['parent_header']['msg_id']
                cmd = client._extract_metadata(r)
            orig = m['header']['msg_id']
            if not coal:
                ctx.reach('single')
                ctx.check(mid == f'{orig}_{e.uuid.decode()}', 'the client can tell which target a reply is from')
                ctx.check(cmd['engine_uuid'] == e.uuid.decode(), 'the reply names its engine')
                ctx.check(r['content']['status'] == oc, 'the reply carries the outcome')
                if oc == 'ok':
                    ctx.check(list(map(bytes, r['buffers'])) == [b'res:' + e.uuid], 'the reply carries the result')
                continue
            ctx.reach('coalesced')
            ctx.check(mid == orig, 'the coalesced reply answers the original request')
            bad = [x for x in tg if outcome[(tag, x.uuid)] == 'error']
            uu = cmd['engine_uuid']
            ctx.check(sorted(uu) == sorted(x.uuid.decode() for x in tg), 'the reply lists every target exactly once')
            ids = {x.uuid.decode(): x.eid for x in tg}
            ctx.check(And(*[ids[u] == i for u, i in zip(uu, cmd['engine_id'])]), 'engine ids match the uuids')
            if bad:
                ctx.reach('coalesced_error')
                ctx.check(r['content']['status'] == 'error' and
                          r['content'].get('ename') in ['E' + x.uuid.decode() for x in bad],
                          'an error on one target is an error of the coalesced reply')
            else:
                ctx.check(r['content']['status'] == 'ok', 'no target failed')
                ctx.check([bytes(x) for x in r['buffers']] == [b'res:' + u.encode() for u in uu],
                          'results are in the order of the engines listed in the metadata')
        ctx.reach('end')

    return run


BOUNDS = ('trees of depth 0..2 (thorough 3); engine ids unbounded symbolic integers; every subset of the engines '
          'as targets; every order of replies')
STUBS = 'ZeroMQ replaced by an in-process router with per-link FIFO; JSON packing by a structural copy'
D = [dict(depth=d, engines=3, broadcasts=1, coalesce=False) for d in (0, 1, 2)]
harness('B01', 'deliver', quick=D + [dict(depth=1, engines=2, broadcasts=2)],
        thorough=D + [dict(depth=3, engines=4, broadcasts=1, coalesce=False), dict(depth=2, engines=3, broadcasts=2)],
        labels=['end', 'single', 'coalesced'], bounds=BOUNDS, stubs=STUBS)(scenario('deliver'))
CO = [dict(depth=d, engines=3, broadcasts=1, coalesce=True, orders=2) for d in (0, 1, 2)]
harness('B02', 'coalesce', quick=CO, thorough=[dict(c, engines=4, orders=3) for c in CO] +
        [dict(depth=3, engines=4, broadcasts=1, coalesce=True, orders=2)],
        labels=['end', 'coalesced'], bounds=BOUNDS, stubs=STUBS)(scenario('coalesce'))
harness('B02', 'errors', quick=[dict(depth=1, engines=3, broadcasts=1, coalesce=True, errors=True)],
        thorough=[dict(depth=2, engines=4, broadcasts=1, coalesce=True, errors=True)],
        labels=['end', 'coalesced', 'coalesced_error'], bounds=BOUNDS, stubs=STUBS)(scenario('coalesce'))
harness('B02', 'concurrent', quick=[dict(depth=1, engines=2, broadcasts=2, coalesce=True)],
        thorough=[dict(depth=2, engines=3, broadcasts=2, coalesce=True)],
        labels=['end', 'coalesced'], bounds=BOUNDS, stubs=STUBS)(scenario('coalesce'))
