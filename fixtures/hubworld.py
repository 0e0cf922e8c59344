"""A World whose Hub is the real one, fed with what the schedulers and engines publish."""
from fixtures.client import Hang, Remote, World
from fixtures.hub import HubRig
from fixtures.wire import Patch

DELIM = b'<IDS|MSG>'


class HubWorld(World):
    """`lag`: the Hub hears of requests and results later than the engines and clients do"""

    def __init__(self, ctx, lag=False, **kw):
        self.rig = HubRig()
        super().__init__(ctx, hub=self.rig, **kw)
        self.lag = lag
        self.me = b'cli1'
        self.clock = 1000.0
        self.idle_sleeps = 0
        self.base = 0
        self.eager = False  # what is on its way to the client arrives before anything else happens

    def ready(self):
        r = super().ready()
        if self.eager and len(r) > 1:
            e = [x for x in r if x[0] == 'deliver' and x[1][1] != 'monitor']
            return e[:1] or r
        return r

    def patch(self, *more):
        import types

        import ipyparallel.client.asyncresult as A

        w = self

        def sleep(s):
            w.clock += s
            if w.step():
                w.idle_sleeps = 0
                return
            w.idle_sleeps += 1
            if w.idle_sleeps > 12:
                raise Hang('polls for ever')

        t = types.SimpleNamespace(perf_counter=lambda: w.clock, sleep=sleep)
        return super().patch((A, 'time', t), *self.rig.patches, *more)

    def connect(self, **kw):
        """the first client, or another one that takes over"""
        if self.base:
            self.me = b'cli2'
            self.links = {k: v for k, v in self.links.items() if k[1] == 'monitor'}
            self.order = [k for k in self.order if k[1] == 'monitor']
        else:
            for e in self.engines.values():
                self.rig.register(e.uuid, e.id)
                self.rig.heart('new_heart', e.uuid)
        for s in self.net.socks:
            if s.attached:
                for u in s.attached:
                    self.net.urls[u].remove(s)
        self.base = len(self.net.socks)
        self.seen_query = None
        self.rig.new(self.rig.q)
        self.rig.seen['query'] = len(self.rig.q.sent)
        return super().connect(**kw)

    # -- the monitor
    def monitor(self, src, topic, idents, rest):
        f = [topic] + list(idents) + list(rest)
        if not self.lag:
            self.rig.mon.recv_cb(f)
            self.sound()
            return
        key = (('mon', src), 'monitor')
        if key not in self.links:
            self.links[key] = []
            self.order.append(key)
        self.links[key].append(f)

    def sound(self):
        if self.rig.log.swallowed:
            self.ctx.fail(f'the Hub swallowed {self.rig.log.swallowed[0]}')

    def deliver(self, link):
        if link[1] == 'monitor':
            self.rig.mon.recv_cb(self.links[link].pop(0))
            self.sound()
            return
        super().deliver(link)

    def catch_up(self):
        """the Hub hears of everything that has happened"""
        for k in self.order:
            while k[1] == 'monitor' and self.links[k]:
                self.deliver(k)

    # -- traffic
    def incoming(self, chan, frames):
        parts = frames[1:]
        i = parts.index(DELIM)
        if chan == 'mux':
            self.monitor('mux', b'in', [parts[0], self.me], parts[i:])
        elif chan == 'task':
            self.monitor('task', b'intask', [self.me], parts[i:])
        if chan == 'registration':
            # the socket that connected last
            socks, self.net.socks = self.net.socks, self.net.socks[self.base:]
            try:
                super().incoming(chan, frames)
            finally:
                self.net.socks = socks + [s for s in self.net.socks if s not in socks]
            self.resubmitted()
        else:
            super().incoming(chan, frames)

    def ask_hub(self, mt, msg):
        n = len(self.rig.q.sent)
        self.rig.q.recv_cb([self.me] + self.session.serialize(msg) + [bytes(b) for b in msg['buffers']])
        self.sound()
        got = self.rig.q.sent[n:]
        self.ctx.check(len(got) == 1, f'{len(got)} replies to a {mt}')
        self.rig.seen['query'] = len(self.rig.q.sent)
        for f in got:
            self.post('hub', 'query', list(f)[1:])

    def resubmitted(self):
        n = self.rig.seen.get('resub', 0)
        for f in self.rig.resub.sent[n:]:
            i = f.index(DELIM)
            body = [b'hub'] + f[i:]
            self.monitor('task', b'intask', [b'hub'], f[i:])
            ids, parts = self.session.feed_identities(list(f))
            msg = self.session.deserialize(parts)
            self.requests[msg['header']['msg_id']] = msg
            es = [e for e in self.engines.values() if e.alive]
            self.to_engine(self.assign(self, msg, es), body, 'task')
        self.rig.seen['resub'] = len(self.rig.resub.sent)

    def to_engine(self, e, frames, chan):
        frames = list(frames)
        if frames[0] != b'hub':
            frames[0] = self.me
        if chan == 'task':
            ids, parts = self.session.feed_identities(list(frames))
            msg = self.session.deserialize(parts)
            m = self.session.msg('task_destination', {'msg_id': msg['header']['msg_id'], 'engine_id': e.uuid})
            self.monitor('task', b'tracktask', [b'sched'], self.session.serialize(m))
        super().to_engine(e, frames, chan)

    def post(self, src, dst, frames):
        if src[0] == 'e' and DELIM in frames:
            i = frames.index(DELIM)
            if dst == 'mux':
                self.monitor('mux', b'out', [frames[0], src[1].encode()], frames[i:])
            elif dst == 'task':
                self.monitor('task', b'outtask', [src[1].encode(), frames[0]], frames[i:])
            elif dst == 'iopub':
                self.monitor('iopub' + src[1], b'iopub', [b'engine.topic'], frames[i:])
            if dst in ('mux', 'task') and frames[0] != self.me:
                return  # of a client that is gone, or the Hub's own
        super().post(src, dst, frames)
