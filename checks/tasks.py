"""T0x: the Python task scheduler, driven at message level.

One real TaskScheduler (ROUTER/PUB/SUB streams recorded, clock and loop stubbed) is
driven by a symbolic schedule of: client submissions, engine results, engine
registrations / unregistrations / deaths and timers.  The judge knows only the
messages: what was submitted, what left towards which engine, what came back.
"""
from symx import And, Or, Not, Implies, Sum, harness
from fixtures.wire import (FakeLoop, FakeStream, FakeTime, NullLog, Packer, Patch, make_session)

CLIENT = b'client'


class Dep:
    def __init__(self, ids, all=True, success=True, failure=False):
        self.ids = list(ids)
        self.all = all
        self.success = success
        self.failure = failure

    def as_dict(self):
        return dict(dependencies=list(self.ids), all=self.all, success=self.success,
                    failure=self.failure)

    def met(self, completed, failed):
        if not self.ids:
            return True
        ok = [Or(And(self.success, m in completed), And(self.failure, m in failed)) for m in self.ids]
        return Or(And(self.all, *ok), And(Not(self.all), Or(*ok)))

    def impossible(self, completed, failed):
        if not self.ids:
            return False
        bad = [
            And(Or(m in completed, m in failed),
                Not(Or(And(self.success, m in completed), And(self.failure, m in failed))))
            for m in self.ids
        ]
        return Or(And(self.all, Or(*bad)), And(Not(self.all), *bad))


NODEP = Dep([])


class Task:
    def __init__(self, mid):
        self.mid = mid
        self.after = NODEP
        self.follow = NODEP
        self.targets = []
        self.retries = 0
        self.timeout = None
        self.accepted = False
        self.sent_to = []  # engines, in order
        self.running_on = None
        self.failures = 0
        self.unmet = 0
        self.deaths = 0
        self.reply = None  # final reply (ename or 'ok'/'error')
        self.timer_fired = False
        self.order = None


class World:
    """judge + environment around one real TaskScheduler"""

    def __init__(self, ctx, hwm, aspects, scheme=None):
        self.aspects = aspects
        from ipyparallel.controller import task_scheduler as ts
        from ipyparallel.controller import scheduler as sch

        self.ctx = ctx
        self.ts = ts
        self.hwm = hwm
        self.tasks = {}
        self.engines = []  # registered
        self.gone = []  # unregistered (their messages may still arrive until cleanup)
        self.completed = set()
        self.failed = set()
        self.completed_on = {}
        self.failed_on = {}
        self.dest = {}
        self.expect = None
        self.seq = 0
        self.current_result = None
        packer = Packer()
        self.session = make_session(packer)
        self.peer = make_session(packer)
        self.time = FakeTime()
        self.loop = FakeLoop(now=lambda: self.time.t)
        self.client = FakeStream('client', self.on_client)
        self.engine = FakeStream('engine', self.on_engine)
        self.mon = FakeStream('mon', self.on_mon)
        self.notifier = FakeStream('notifier')
        self.query = FakeStream('query')
        self.mon_counts = {}
        kw = dict(client_stream=self.client, engine_stream=self.engine, mon_stream=self.mon,
                  notifier_stream=self.notifier, query_stream=self.query, loop=self.loop,
                  log=NullLog(), session=self.session, hwm=hwm)
        if scheme:
            kw['scheme_name'] = scheme
        self.patch = Patch((ts, 'time', self.time))
        self.patch.__enter__()
        self.s = ts.TaskScheduler(**kw)
        self.s.start()
        self.query.sent.clear()
        self.losing = []
        self.cleaned = set()
        self.policy = None
        self.used = {}

    def close(self):
        self.patch.__exit__()

    def check(self, aspect, cond, msg):
        if aspect in self.aspects:
            self.ctx.check(cond, msg)

    # -- events into the scheduler
    def _deliver(self, cb, frames):
        """what the event loop does: exceptions are logged, not propagated"""
        try:
            cb(frames)
        except Exception:
            pass

    def _zmsg(self, frames):
        import zmq

        return [zmq.Message(f) for f in frames]

    def register(self, uid, twice=False):
        if uid not in self.engines:
            self.engines.append(uid)
            self.completed_on.setdefault(uid, set())
            self.failed_on.setdefault(uid, set())
        msg = self.peer.msg('registration_notification', {'uuid': uid.decode(), 'id': 0})
        self._deliver(self.notifier.recv_cb, self.peer.serialize(msg, b'topic'))
        self.after_event()

    def connection_reply(self, uids):
        msg = self.peer.msg('connection_reply',
                            {'status': 'ok', 'engines': {str(i): u.decode() for i, u in enumerate(uids)}})
        for u in uids:
            if u not in self.engines:
                self.engines.append(u)
                self.completed_on.setdefault(u, set())
                self.failed_on.setdefault(u, set())
        self._deliver(self.query.recv_cb, self.peer.serialize(msg))
        self.after_event()

    def unregister(self, uid):
        self.engines.remove(uid)
        self.gone.append(uid)
        before = list(self.loop.timers)
        msg = self.peer.msg('unregistration_notification', {'uuid': uid.decode(), 'id': 0})
        self._deliver(self.notifier.recv_cb, self.peer.serialize(msg, b'topic'))
        for t in self.loop.timers:
            if t not in before:
                t.engine = uid
        self.after_event()

    def fire(self, timer):
        """run one timer; tasks still on its (gone) engine are thereby declared lost"""
        uid = getattr(timer, 'engine', None)
        self.losing = [uid] if uid else []
        task = getattr(timer, 'task', None)
        if task:
            task.timer_fired = True
        try:
            timer.fire()
        except Exception:
            pass
        if uid:
            self.cleaned.add(uid)
            for t in self.tasks.values():
                if t.running_on == uid:
                    # neither failed nor re-sent: it must be waiting for another engine
                    t.running_on = None
                    t.deaths += 1
                    self.check('once', t.failures + t.deaths <= t.retries,
                               f'{t.mid} died with {uid} and has no retries left, but got no reply')
        self.losing = []
        self.after_event()

    def submit(self, task):
        self.tasks[task.mid] = task
        task.order = len(self.tasks)
        md = {}
        if task.after.ids:
            md['after'] = task.after.as_dict()
        if task.follow.ids:
            md['follow'] = task.follow.as_dict()
        if task.targets:
            md['targets'] = [t.decode() for t in task.targets]
        md['retries'] = task.retries
        md['timeout'] = task.timeout
        msg = self.peer.msg('apply_request', content={}, metadata=md)
        msg['header']['msg_id'] = msg['msg_id'] = task.mid
        task.header = msg['header']
        task.accepted = True
        self.mon_counts[('intask', task.mid)] = 0
        before = list(self.loop.timers)
        self._deliver(self.client.recv_cb, self._zmsg(self.peer.serialize(msg, CLIENT)))
        self._own_timers(task, before)
        self.after_event()

    def _own_timers(self, task, before):
        for t in self.loop.timers:
            if t not in before:
                t.task = task

    def result(self, task, outcome):
        """the engine running `task` answers: ok / error / unmet"""
        eng = task.running_on
        task.running_on = None
        md = {'status': 'ok' if outcome == 'ok' else 'error', 'engine': eng.decode(),
              'dependencies_met': outcome != 'unmet'}
        content = {'status': md['status'], 'tag': f'{task.mid}@{eng.decode()}'}
        if outcome != 'ok':
            content['ename'] = 'UnmetDependency' if outcome == 'unmet' else 'TaskError'
        msg = self.peer.msg('apply_reply', content, parent=task.header, metadata=md)
        self.expect = (task, eng, outcome)
        if outcome == 'error':
            task.failures += 1
        elif outcome == 'unmet':
            task.unmet += 1
        before = list(self.loop.timers)
        self._deliver(self.engine.recv_cb,
                      self._zmsg(self.peer.serialize(msg, [eng, CLIENT])))
        self._own_timers(task, before)
        self.expect = None
        self.after_event()

    # -- observations
    def on_engine(self, frames):
        ctx = self.ctx
        target = frames[0]
        idents, raw = self.peer.feed_identities(frames[1:])
        msg = self.peer.deserialize(raw)
        mid = msg['header']['msg_id']
        t = self.tasks[mid]
        if t.running_on is not None and t.running_on in self.losing:
            # declared lost with its engine, and retried
            t.running_on = None
            t.deaths += 1
        self.check('once', idents == [CLIENT], 'a dispatched request carries the client identity')
        self.check('once', t.running_on is None, f'{mid} sent to {target} while already running on {t.running_on}')
        self.check('once', t.reply is None, f'{mid} sent to {target} after its final reply ({t.reply})')
        self.check('once', target in self.engines, f'{mid} sent to an engine that is not registered')
        self.check('place', target not in t.sent_to, f'{mid} sent again to {target} where it already failed')
        self.check('place', not t.targets or target in t.targets, f'{mid} sent outside its targets')
        self.check('place', t.after.met(self.completed, self.failed), f'{mid} sent before its `after` dependency was met')
        self.check('place', t.follow.met(self.completed_on[target], self.failed_on[target]),
                  f'{mid} sent to {target} where its `follow` dependency is not met')
        if self.policy:
            others = [e for e in self.engines if e != target]
            free = [e for e in others if bool(self.runnable(t, e))]
            for e in free:
                if self.policy == 'leastload':
                    self.check('policy', self.load(target) <= self.load(e),
                               f'{mid} sent to {target}, which has more outstanding tasks than {e}')
                if self.policy == 'lru' or self.load(target) == self.load(e):
                    self.check('policy', self.used.get(target, 0) <= self.used.get(e, 0),
                               f'{mid} sent to {target}, which was used more recently than {e}')
        self.seq += 1
        self.used[target] = self.seq
        if not t.sent_to:
            for o in self.tasks.values():
                if o.order < t.order and not o.sent_to and o.accepted:
                    self.check('load', Not(self.runnable(o, target)),
                               f'{mid} overtakes the earlier {o.mid}, which could run on {target}')
        t.running_on = target
        t.sent_to.append(target)
        load = sum(1 for x in self.tasks.values() if x.running_on == target)
        self.check('load', Or(self.hwm == 0, load <= self.hwm), f'{target} has {load} outstanding tasks, above hwm')
        self.check('once', len(t.sent_to) <= t.retries + 1 + t.unmet,
                  f'{mid} executed more than retries+1 times')
        self.check('once', msg['content'] == {} and msg['header']['msg_type'] == 'apply_request',
                  'request content is forwarded unchanged')

    def on_client(self, frames):
        ctx = self.ctx
        idents, raw = self.peer.feed_identities(frames)
        msg = self.peer.deserialize(raw)
        mid = msg['parent_header']['msg_id']
        t = self.tasks[mid]
        self.check('once', idents[:1] == [CLIENT], 'a reply is addressed to the submitting client')
        self.check('once', t.reply is None, f'second final reply for {mid}: {msg["content"].get("ename")}')
        self.check('once', msg['header']['msg_type'] == 'apply_reply', 'reply type')
        content = msg['content']
        ename = content.get('ename')
        if content.get('tag'):
            # relayed engine result
            exp = self.expect
            self.check('once', exp is not None and exp[0] is t, f'unexpected relayed result for {mid}')
            _, eng, outcome = exp
            self.check('once', content['tag'] == f'{mid}@{eng.decode()}', 'relayed content belongs to the task')
            self.check('once', outcome != 'unmet', 'an unmet functional dependency is not a result')
            if outcome == 'error':
                self.check('once', t.failures + t.deaths > t.retries, f'{mid} failed finally with retries left')
            t.reply = outcome
            self._settle(t, eng, outcome == 'ok')
        else:
            self.check('once', content.get('status') == 'error', f'a synthesised reply is an error ({mid})')
            if ename == 'EngineError':
                eng = t.running_on
                self.check('once', eng is not None and eng in self.gone, f'EngineError for {mid}, whose engine is alive')
                t.running_on = None
                t.deaths += 1
                self.check('once', t.failures + t.deaths > t.retries, f'{mid} lost with retries left')
                self._settle(t, eng, False)
            else:
                if t.running_on is not None and t.running_on in self.losing:
                    t.running_on = None
                    t.deaths += 1
                self.check('once', t.running_on is None, f'{mid} failed as {ename} while running')
                if ename == 'ImpossibleDependency':
                    self.check('place', self.impossible(t), f'{mid} failed as impossible while it could still run')
                elif ename == 'TaskTimeout':
                    self.check('once', t.timeout is not None and t.timer_fired, f'{mid} timed out early')
                elif ename == 'InvalidDependency':
                    ids = set(t.after.ids) | set(t.follow.ids)
                    self.check('place', not ids <= (set(self.tasks) - {mid}), f'{mid}: dependencies are valid')
                else:
                    ctx.fail(f'unexpected error reply {ename} for {mid}')
                self.failed.add(mid)
            t.reply = ename
        t.reply_content = content

    def _settle(self, t, eng, ok):
        if ok:
            self.completed.add(t.mid)
            self.completed_on[eng].add(t.mid)
        else:
            self.failed.add(t.mid)
            self.failed_on[eng].add(t.mid)
        self.dest[t.mid] = eng

    def on_mon(self, frames):
        topic = frames[0]
        if topic == b'tracktask':
            i = frames.index(b'<IDS|MSG>')
            msg = self.peer.deserialize(frames[i + 1:])
            c = msg['content']
            key = ('track', c['msg_id'], c['engine_id'])
            self.mon_counts[key] = self.mon_counts.get(key, 0) + 1
        elif topic in (b'intask', b'outtask'):
            i = frames.index(b'<IDS|MSG>')
            msg = self.peer.deserialize(frames[i + 1:])
            if topic == b'intask':
                key = ('intask', msg['header']['msg_id'])
            else:
                key = ('outtask', msg['parent_header']['msg_id'])
            self.mon_counts[key] = self.mon_counts.get(key, 0) + 1

    # -- oracles
    def lost(self, t):
        """a task retried after its engine died: the judge learns of it when it is re-sent"""

    def impossible(self, t):
        """no registered or future engine could ever be allowed to run t"""
        c = [t.after.impossible(self.completed, self.failed),
             t.follow.impossible(self.completed, self.failed)]
        # a `follow` on all of several finished tasks that ran on different engines
        rel = []
        for m in t.follow.ids:
            for n in t.follow.ids:
                if m < n and m in self.dest and n in self.dest and self.dest[m] != self.dest[n]:
                    rel.append(And(
                        Or(And(t.follow.success, m in self.completed), And(t.follow.failure, m in self.failed)),
                        Or(And(t.follow.success, n in self.completed), And(t.follow.failure, n in self.failed)),
                    ))
        # ... or which never ran anywhere
        never = [m in self.failed and m not in self.dest for m in t.follow.ids]
        if rel or any(never):
            c.append(And(t.follow.all, Or(*rel, *never)))
            if all(never) and t.follow.ids:
                c.append(True)
        if t.targets:
            c.append(not [e for e in t.targets if e in self.engines and e not in t.sent_to])
        return Or(*c)

    def load(self, e):
        return sum(1 for x in self.tasks.values() if x.running_on == e)

    def runnable(self, t, e):
        load = sum(1 for x in self.tasks.values() if x.running_on == e)
        return And(
            t.reply is None, t.running_on is None, t.accepted, e in self.engines, e not in t.sent_to,
            not t.targets or e in t.targets,
            t.after.met(self.completed, self.failed),
            t.follow.met(self.completed_on.get(e, ()), self.failed_on.get(e, ())),
            Or(self.hwm == 0, load < self.hwm),
        )

    def after_event(self):
        for t in self.tasks.values():
            if self.conserve and t.reply is None and t.running_on is None:
                for e in self.engines:
                    self.check('load', Not(self.runnable(t, e)),
                                   f'{t.mid} waits although {e} is free and allowed to run it')

    conserve = True

    def finish(self):
        """finish everything outstanding successfully, then judge the end state"""
        ctx = self.ctx
        for _ in range(40):
            run = [t for t in self.tasks.values() if t.running_on is not None]
            live = [t for t in run if t.running_on in self.engines]
            if live:
                self.result(live[0], 'ok')
                continue
            break
        for t in self.tasks.values():
            if t.reply is None and t.running_on is None:
                # nothing is running: every dependency that can finish has finished
                could = [self.runnable(t, e) for e in self.engines]
                self.check('once', Not(Or(*could)), f'{t.mid} is stuck although an engine could run it')
                if self.engines:
                    deps_done = all(m in self.completed or m in self.failed
                                    for m in t.after.ids + t.follow.ids)
                    if deps_done:
                        self.check('place', Not(Or(t.after.impossible(self.completed, self.failed),
                                         t.follow.impossible(self.completed, self.failed))),
                                  f'{t.mid} is stuck although its dependencies are impossible')
        self.check_monitor()

    def check_monitor(self):
        ctx = self.ctx
        for t in self.tasks.values():
            self.check('once', self.mon_counts.get(('intask', t.mid), 0) == 1,
                      f'the Hub hears of the submission of {t.mid} exactly once')
            self.check('once', self.mon_counts.get(('outtask', t.mid), 0) == (1 if t.reply else 0),
                      f'the Hub hears of the result of {t.mid} exactly once')
            for e in set(t.sent_to):
                self.check('once', self.mon_counts.get(('track', t.mid, e.decode()), 0) == 1,
                          'the Hub hears of every dispatch')


def choose_dep(ctx, name, ids, flags=True):
    sel = [m for m in ids if ctx.flip(f'{name}_{m}')]
    if not sel:
        return NODEP
    if not flags:
        return Dep(sel)
    d = Dep(sel, all=ctx.bool(f'{name}_all'), success=ctx.bool(f'{name}_succ'),
            failure=ctx.bool(f'{name}_fail'))
    ctx.assume(Or(d.success, d.failure))
    if len(sel) == 1:
        ctx.assume(d.all == True)  # noqa: all/any coincide for one id
    return d


def run_schedule(ctx, w, todo, steps, outcomes, events=()):
    """interleave: submit the next task | a running task answers | extra events"""
    todo = list(todo)
    for step in range(steps):
        opts = []
        if todo:
            opts.append(('submit',))
        running = [t for t in w.tasks.values() if t.running_on is not None]
        for t in running:
            opts.append(('result', t))
        for ev in events:
            opts.extend(ev(w))
        if not opts:
            break
        o = ctx.choose(f'step{step}', opts)
        if o[0] == 'submit':
            w.submit(todo.pop(0))
        elif o[0] == 'result':
            oc = ctx.choose(f'outcome{step}', outcomes(o[1]))
            w.result(o[1], oc)
        else:
            o[0](*o[1:])
    for t in todo:
        w.submit(t)


E1, E2, E3 = b'eng1', b'eng2', b'eng3'
ENGINES = [E1, E2, E3]


def make_tasks(ctx, p):
    todo = []
    for i in range(p['tasks']):
        t = Task(f't{i}')
        prev = [x.mid for x in todo][: p.get('dep_on', 99)]
        if i < p.get('dep_from', 1):
            prev = []
        if i and 'after' in p.get('dep', ()):
            t.after = choose_dep(ctx, f'after{i}', prev, p.get('flags', True))
        if i and 'follow' in p.get('dep', ()):
            t.follow = choose_dep(ctx, f'follow{i}', prev, p.get('flags', True))
        if i < p.get('targeted', 0):
            t.targets = [e for e in ENGINES[: p['engines'] + p.get('late', 0)] if ctx.flip(f'target{i}_{e.decode()}')]
        if i < p.get('pinned', 0) and ctx.flip(f'pin{i}'):
            t.targets = [E1]
        if i < p.get('retrying', 0):
            t.retries = ctx.int(f'retries{i}', 0, p.get('maxretries', 3))
        if i < p.get('timeouts', 0):
            t.timeout = ctx.choose(f'timeout{i}', [None, 5])
        todo.append(t)
    return todo


def scenario(aspects):
    def run(ctx):
        p = ctx.params
        hwm = ctx.int('hwm', 0) if p.get('hwm') is None else p['hwm']
        w = World(ctx, hwm, aspects)
        try:
            for e in ENGINES[: p['engines']]:
                w.register(e)
            late = ENGINES[p['engines']: p['engines'] + p.get('late', 0)]
            todo = make_tasks(ctx, p)
            if p.get('invalid'):
                t = todo[-1]
                bad = ctx.choose('invalid', ['nosuch', t.mid])
                d = Dep([bad] + [x.mid for x in todo[:-1] if ctx.flip('also_' + x.mid)],
                        all=ctx.bool('inv_all'))
                if ctx.flip('inv_follow'):
                    t.follow = d
                else:
                    t.after = d
            outcomes = p.get('outcomes', ('ok', 'error'))
            budget = {'die': p.get('deaths', 0)}

            def ev_register(w):
                if late:
                    yield (lambda: w.register(late.pop(0)),)
                if p.get('dup') and w.engines and not w.dup_done:
                    def dup():
                        w.dup_done = True
                        w.connection_reply(list(w.engines))
                    yield (dup,)

            def ev_death(w):
                if budget['die'] and w.engines:
                    for e in list(w.engines):
                        def die(e=e):
                            budget['die'] -= 1
                            w.unregister(e)
                        yield (die,)

            def ev_timer(w):
                for tm in w.loop.live():
                    yield (lambda tm=tm: w.fire(tm),)

            w.dup_done = False
            run_schedule(ctx, w, todo, p['steps'], lambda t: outcomes,
                         (ev_register, ev_death, ev_timer))
            w.finish()
            ctx.reach('end')
            for t in w.tasks.values():
                if t.reply:
                    ctx.reach(t.reply)
                if len(t.sent_to) > 1:
                    ctx.reach('resent')
        finally:
            w.close()

    return run


def reg(prop, name, aspects, cases, labels, thorough=()):
    harness(prop, name, quick=cases, thorough=tuple(thorough) or tuple(cases),
            labels=['end'] + labels)(scenario(aspects))


GRAPH = [dict(tasks=3, engines=2, dep=('after',), steps=6),
         dict(tasks=3, engines=2, dep=('follow',), steps=6)]
GRAPH4 = dict(tasks=4, engines=1, dep=('after',), flags=False, steps=7, dep_from=2, dep_on=2)
GRAPH4Q = dict(GRAPH4, outcomes=('ok',))
RETRY = [dict(tasks=2, engines=2, retrying=2, targeted=1, outcomes=('ok', 'error', 'unmet'), steps=6)]
RETRYQ = [dict(RETRY[0], steps=5)]
LATE = [dict(tasks=2, engines=1, late=1, dup=True, dep=('after',), steps=5),
        dict(tasks=3, engines=0, late=2, dup=True, steps=6)]
DEATH = [dict(tasks=2, engines=2, deaths=2, retrying=2, steps=6, targeted=1, outcomes=('ok', 'error'))]
DEATHQ = [dict(DEATH[0], retrying=1, targeted=0, steps=6),
          dict(DEATH[0], deaths=1, retrying=0, targeted=2, dep=('after',), flags=False, steps=5)]
TIMEOUT = [dict(tasks=3, engines=1, timeouts=3, retrying=1, late=1, steps=6, hwm=1)]
TIMEOUTQ = [dict(TIMEOUT[0], steps=5)]
INVALID = [dict(tasks=3, engines=1, invalid=True, steps=5, dep=('after',), flags=False)]
INVALIDQ = [dict(INVALID[0], outcomes=('ok',))]
ORDER = [dict(tasks=4, engines=2, targeted=3, outcomes=('ok',), steps=8)]
ORDERQ = [dict(tasks=4, engines=2, targeted=2, outcomes=('ok',), steps=6)]
BOTH = [dict(tasks=3, engines=2, dep=('after', 'follow'), flags=False, dep_from=2, steps=5, outcomes=('ok',))]
BOTH_T = [dict(BOTH[0], outcomes=('ok', 'error'), steps=6)]
PINNED = [dict(tasks=4, engines=2, pinned=4, outcomes=('ok',), steps=6)]
PINNED_T = [dict(tasks=5, engines=2, pinned=5, outcomes=('ok', 'unmet'), steps=7)]

reg('T01', 'graph', {'once'}, GRAPH + [GRAPH4Q], ['ok', 'error', 'ImpossibleDependency'], GRAPH + [GRAPH4])
reg('T01', 'retry', {'once'}, RETRYQ, ['resent'], RETRY)
reg('T01', 'late', {'once'}, LATE, [])
reg('T01', 'death', {'once'}, DEATHQ, ['EngineError'], DEATH)
reg('T01', 'timeout', {'once'}, TIMEOUTQ, ['TaskTimeout'], TIMEOUT)
reg('T01', 'invalid', {'once'}, INVALIDQ, ['InvalidDependency'], INVALID)
reg('T01', 'both', {'once'}, BOTH, [], BOTH_T)
reg('T02', 'both', {'place'}, BOTH, [], BOTH_T)
reg('T03', 'both', {'load'}, BOTH, [], BOTH_T)
reg('T03', 'pinned', {'load'}, PINNED, [], PINNED_T)
reg('T02', 'graph', {'place'}, GRAPH + [GRAPH4Q], ['ImpossibleDependency'], GRAPH + [GRAPH4])
reg('T02', 'retry', {'place'}, RETRYQ, ['resent'], RETRY)
reg('T02', 'death', {'place'}, DEATHQ, [], DEATH)
reg('T02', 'invalid', {'place'}, INVALIDQ, ['InvalidDependency'], INVALID)
reg('T03', 'graph', {'load'}, GRAPH, [])
reg('T03', 'retry', {'load'}, RETRYQ, [], RETRY)
reg('T03', 'late', {'load'}, LATE, [])
reg('T03', 'death', {'load'}, DEATHQ, [], DEATH)
reg('T03', 'order', {'load'}, ORDERQ, [], ORDER)


# ---------------------------------------------------------------- T04: scheme functions
def _pickers(ctx, ts, want=None):
    """replace the random sources; with `want`, every integer draw comes as close to that engine as it can"""
    import random as R

    calls = []

    def randint(a, b):
        if a > b:
            raise ValueError('empty range for randint')
        if want is not None:
            return min(a + want, b)
        v = ctx.int('rand')
        ctx.assume(And(v >= a, v <= b))
        calls.append(v)
        return v

    def randrange(a, b=None):
        return randint(0, a - 1) if b is None else randint(a, b - 1)

    def choice(seq):
        return seq[randint(0, len(seq) - 1)]

    def random():
        v = ctx.real('rnd', 0)
        ctx.assume(v < 1)
        calls.append(v)
        return v

    new = dict(randint=randint, randrange=randrange, choice=choice, random=random)
    spots = [(R, k, v) for k, v in new.items()]
    spots += [(ts, k, v) for k, v in new.items() if hasattr(ts, k) and getattr(ts, k) is getattr(R, k)]
    return calls, Patch(*spots)


@harness('T04', 'choosers', quick=[{'n': 3}], thorough=[{'n': 6}], labels=['leastload', 'lru', 'twobin', 'plainrandom'],
         bounds='every list of 1..n loads (unbounded naturals), every random draw',
         stubs='random.randint/random: arbitrary value of their range')
def choosers(ctx):
    from ipyparallel.controller import task_scheduler as ts
    from symx import raises_nothing

    n = ctx.choose('n', list(range(1, ctx.params['n'] + 1)))
    loads = [ctx.int(f'load{i}', 0) for i in range(n)]
    scheme = ctx.choose('scheme', ['leastload', 'lru', 'twobin', 'plainrandom'])
    calls, patch = _pickers(ctx, ts)
    given = list(loads)
    with patch:
        with raises_nothing(ctx, scheme):
            idx = getattr(ts, scheme)(loads)
    ctx.check(len(loads) == n and all(a is b for a, b in zip(loads, given)), 'a chooser does not change the loads')
    ctx.check(idx is not None and And(idx >= 0, idx < n), f'{scheme} picks an index in range')
    if scheme == 'leastload':
        i = ctx.concretise(idx) if not isinstance(idx, int) or type(idx) is not int else idx
        for j in range(n):
            ctx.check(given[i] <= given[j], 'leastload picks a least-loaded engine')
            if j < i:
                ctx.check(given[j] > given[i], 'leastload prefers the least recently used among equals')
    elif scheme == 'lru':
        ctx.check(idx == 0, 'lru picks the front of the line')
    elif scheme == 'twobin' and calls:
        ctx.check(And(*[idx <= c for c in calls]), 'twobin picks the less recently used of the two')
        ctx.check(Or(*[idx == c for c in calls]), 'twobin picks one of the two')
    if scheme in ('twobin', 'plainrandom'):
        # draws that all say engine k pick engine k: no engine is out of reach
        k = ctx.choose('k', list(range(n)))
        _, patch = _pickers(ctx, ts, want=k)
        with patch:
            with raises_nothing(ctx, scheme):
                ctx.check(getattr(ts, scheme)(loads) == k, f'{scheme} can pick every engine')
    ctx.reach(scheme)


@harness('T04', 'weighted', quick=[{'n': 3, 'max': 2}], thorough=[{'n': 4, 'max': 3}], labels=['done'],
         bounds='every list of 1..n loads with values 0..max, every pair of draws in [0,1) (exact reals)',
         stubs='random.random: arbitrary real in [0,1)')
def weighted(ctx):
    from ipyparallel.controller import task_scheduler as ts
    from symx import raises_nothing

    n = ctx.choose('n', list(range(1, ctx.params['n'] + 1)))
    loads = [ctx.choose(f'load{i}', list(range(ctx.params['max'] + 1))) for i in range(n)]
    calls, patch = _pickers(ctx, ts)
    with patch:
        with raises_nothing(ctx, 'weighted'):
            idx = ts.weighted(list(loads))
    ctx.check(isinstance(idx, int) and 0 <= idx < n, 'weighted picks an index in range')
    # each draw selects an engine by inverse load; the less loaded of the two wins
    import itertools

    w = [1.0 / (1e-6 + v) for v in loads]
    sums = list(itertools.accumulate(w))
    t = sums[-1]
    eps = 1e-6 * t

    def may(draw, i):
        """draw lies in engine i's share (with a margin for rounding)"""
        lo = sums[i - 1] if i else 0.0
        return And(draw * t >= lo - eps, draw * t <= sums[i] + eps)

    if len(calls) == 2:
        a, b = calls
        ok = []
        for i in range(n):
            for j in range(n):
                best = min(loads[i], loads[j])
                if idx in (i, j) and loads[idx] == best:
                    ok.append(And(may(a, i), may(b, j)))
        ctx.check(Or(*ok), 'weighted picks the less loaded of two engines drawn by inverse load')
    ctx.reach('done')


@harness('T04', 'dispatch_policy',
         quick=[dict(tasks=4, engines=2, scheme='leastload', steps=7, late=1),
                dict(tasks=4, engines=2, scheme='lru', steps=7, late=1)], labels=['end'])
def dispatch_policy(ctx):
    """every schedule of 4 plain tasks and their results over 2-3 engines, every hwm"""
    p = ctx.params
    hwm = ctx.int('hwm', 0)
    w = World(ctx, hwm, {'policy'}, scheme=p['scheme'])
    w.conserve = False
    try:
        for e in ENGINES[: p['engines']]:
            w.register(e)
        late = ENGINES[p['engines']: p['engines'] + p['late']]

        def ev(w):
            if late:
                yield (lambda: w.register(late.pop(0)),)

        w.policy = p['scheme']
        run_schedule(ctx, w, [Task(f't{i}') for i in range(p['tasks'])], p['steps'], lambda t: ['ok'], (ev,))
        ctx.reach('end')
    finally:
        w.close()
