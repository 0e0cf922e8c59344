"""C07: widget (comm) traffic between engines and the notebook goes through the client unchanged, to its owner."""
import types

from symx.reg import harness, raises_nothing
from fixtures.client import World
from checks.client_outputs import _drain
from fixtures.wire import make_session


class Front:
    """the notebook kernel in which the client lives: records what goes to its front end"""

    def __init__(self):
        from comm.base_comm import CommManager

        self.comm_manager = CommManager()
        self.session = self
        self.iopub_socket = 'front end'
        self.told = []

    def get_parent(self, channel='shell'):
        return {'header': {'msg_id': f'cell on {channel}'}}

    def send(self, stream, msg_or_type, content=None, parent=None, ident=None, buffers=None, metadata=None, **k):
        self.told.append((stream, msg_or_type, content, metadata, [bytes(b) for b in buffers or []], parent))


class CommWorld(World):
    def to_engine(self, e, frames, chan):
        idents, parts = self.session.feed_identities(list(frames))
        m = self.session.deserialize(list(parts))
        if m['header']['msg_type'].startswith('comm_'):
            self.heard.append((e.uuid, m['header']['msg_type'], m['content'], m['metadata'], [bytes(b) for b in m['buffers']]))
            return
        super().to_engine(e, frames, chan)


@harness('C07', 'comms',
         quick=(dict(engines=2, comms=2, steps=5), dict(engines=1, comms=1, steps=4, where=('plain', 'terminal', 'no kernel'))),
         thorough=(dict(engines=2, comms=2, steps=6), dict(engines=3, comms=2, steps=6),
                   dict(engines=1, comms=1, steps=4, where=('plain', 'terminal', 'no kernel'))),
         labels=('to front', 'to engine', 'front closed', 'engine closed', 'other client', 'not in a kernel'),
         bounds='2 comms opened by 1-3 engines; every sequence of 5 (6) messages and closes from engines and front end, with '
                'and without buffers, interleaved with deliveries of messages of different engines in every order; in a notebook and elsewhere',
         stubs='in-process network; the notebook kernel (its comm manager is the real one), which records what it is sent')
def comms(ctx):
    p = ctx.params
    w = CommWorld(ctx, engines=p['engines'])
    w.heard = []
    front = Front()
    where = ctx.choose('where', p.get('where', ('notebook',)))
    magics = types.SimpleNamespace(magics={'line': {'px': None}})
    ip = types.SimpleNamespace(kernel=front if where == 'notebook' else None, magics_manager=magics)
    if where == 'terminal':
        del ip.kernel
    if where == 'plain':
        ip = None
    with w.patch():
        import ipyparallel.client.client as C
        from fixtures.wire import Patch

        with Patch((C, 'get_ipython', lambda: ip)):
            c = w.connect()
            view = c[:]
            ar = view.execute('1', block=False)
            _drain(w)
            # the request of each engine that its comm messages answer
            parents = [m for chan, _, m in w.routed if chan == 'mux']
            _talk(ctx, p, w, c, front, where, parents)


def _talk(ctx, p, w, c, front, where, parents):
    es = list(w.engines.values())
    owner, alive, said, answered = {}, {}, {}, []
    n = 0
    strange = False
    odd = ctx.flip('buffers')

    def body(k):
        bufs = [b'buffer %i' % k] if (k + odd) % 2 else []
        return {'data': {'value': k}}, {'meta': k}, bufs

    def publish(e, mt, cid, extra, parent, relayed=True):
        content, md, bufs = body(n)
        content.update(extra, comm_id=cid)
        e.io(mt, content, parent, buffers=bufs, metadata=md)
        if relayed:
            said.setdefault(cid, []).append((mt, content, md, bufs))

    # the first comm is open
    for n in range(p['steps']):
        todo = []
        if len(owner) < p['comms']:
            todo += [('open', e) for e in (es if owner else es[:1])]
        live = [k for k, v in alive.items() if v]
        shown = [t[2]['comm_id'] for t in front.told if t[1] == 'comm_open']
        if n:
            todo += [('msg', k) for k in live] + [('front', k) for k in live if k in shown]
            todo += [('front close', k) for k in live if k in shown]
            todo += [('close', k) for k in live]
            if owner and not strange:
                todo += [('stranger', None)]
        todo += [('step', None)] if w.ready() else []
        if not todo:
            break
        kind, x = todo[ctx.choose(f'do{n}', range(len(todo)))]
        if kind == 'open':
            cid = f'comm{len(owner)}'
            owner[cid] = x.uuid
            alive[cid] = True
            publish(x, 'comm_open', cid, {'target_name': 'jupyter.widget'}, parents[x.id])
        elif kind == 'msg':
            publish(w.engines[owner[x]], 'comm_msg', x, {}, parents[es.index(w.engines[owner[x]])])
        elif kind == 'close':
            ctx.reach('engine closed')
            alive[x] = False
            publish(w.engines[owner[x]], 'comm_close', x, {}, parents[es.index(w.engines[owner[x]])])
        elif kind == 'stranger':
            # an engine answers another client: none of this client's business
            ctx.reach('other client')
            strange = True
            other = make_session(w.packer)
            other.session = 'someone else'
            e = es[-1]
            publish(e, 'comm_open', 'foreign', {'target_name': 'x'}, other.msg('execute_request'), relayed=False)
        elif kind == 'step':
            w.step()
        else:
            content, md, bufs = body(n)
            content['comm_id'] = x
            msg = {'content': content, 'metadata': md, 'buffers': bufs}
            mt = 'comm_msg' if kind == 'front' else 'comm_close'
            msg['msg_type'] = mt
            msg['header'] = {'msg_type': mt, 'msg_id': f'front{n}'}
            if mt == 'comm_close':
                ctx.reach('front closed')
                alive[x] = False
            with raises_nothing(ctx, f'{mt} from the front end'):
                getattr(front.comm_manager, mt)(None, [], msg)
            answered.append((owner[x], mt, x, content, md, bufs))
    _drain(w)
    if where != 'notebook':
        ctx.reach('not in a kernel')
        ctx.check(not front.told and not w.heard, 'comm traffic without a front end')
        return
    ctx.check(all(t[2].get('comm_id') != 'foreign' for t in front.told), 'the comms of another client are shown')
    for cid, want in said.items():
        got = [t for t in front.told if t[2].get('comm_id') == cid]
        ctx.check([t[1] for t in got] == [m[0] for m in want],
                  f'{cid}: the front end was told {[t[1] for t in got]}, the engine said {[m[0] for m in want]}')
        for (stream, mt, content, md, bufs, parent), (_, wc, wmd, wb) in zip(got, want):
            ctx.reach('to front')
            ctx.check(content == wc and bufs == wb, f'{mt} arrives as {content} {bufs}, not {wc} {wb}')
            ctx.check(wmd.items() <= (md or {}).items(), f'{mt}: metadata {md}, not {wmd}')
            ctx.check(stream == 'front end' and (parent or {}).get('header', {}).get('msg_id') == 'cell on shell',
                      f'{mt} is sent to {stream} as part of {parent}')
    ctx.check(len(front.told) == sum(map(len, said.values())), 'the front end was told something twice')
    for e in es:
        got = [h for h in w.heard if h[0] == e.uuid]
        want = [a for a in answered if a[0] == e.uuid]
        ctx.check([h[1] for h in got] == [a[1] for a in want],
                  f'{e.uuid} received {[h[1] for h in got]}, its front end sent {[a[1] for a in want]}')
        for (_, mt, content, md, bufs), (_, _, cid, wc, wmd, wb) in zip(got, want):
            ctx.reach('to engine')
            ctx.check(content.get('comm_id') == cid, f'{mt} for {cid} is sent as {content}')
            if mt == 'comm_msg':
                ctx.check(content == wc and bufs == wb and wmd.items() <= md.items(),
                          f'{mt} arrives as {content} {md} {bufs}, not {wc} {wmd} {wb}')
