"""A01: the ipcluster commands start, list and stop exactly the clusters they are for."""
import asyncio
import contextlib
import io
import json
import os
import signal
import sys

from symx.reg import harness, known
from fixtures.procs import Station
from fixtures.wire import Patch
from checks.launch import listed
from checks.web import key_of


def singletons(put=None):
    """one application in each process"""
    from traitlets.config import SingletonConfigurable

    old, todo = {}, [SingletonConfigurable]
    while todo:
        cls = todo.pop()
        todo += cls.__subclasses__()
        old[cls] = cls.__dict__.get('_instance')
        if old[cls] is not None or put:
            cls._instance = (put or {}).get(cls)
    return old


class Shell:
    """commands in a terminal"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.w = Station(ctx)
        self.home = os.path.join(self.w.dir, 'ipython')
        self.profiles = {'default': os.path.join(self.home, 'profile_default'), 'x': os.path.join(self.home, 'profile_x')}
        for p in self.profiles.values():
            for d in ('security', 'log', 'pid', 'startup', 'db'):
                os.makedirs(os.path.join(p, d))
        self.depth = 0
        self.handlers = {}
        self.busy = False  # a command may be sent other signals and commands

    def file(self, where):
        return os.path.join(where[0], 'security', f'cluster-{where[1]}.json')

    def running(self):
        out = {}
        for p in self.w.live():
            out.setdefault(key_of(p), ([], []))[0 if p.is_controller else 1].append(p)
        return out

    def patch(self):
        shell = self

        def register(sig, h):
            old = shell.handlers.get(sig, signal.SIG_DFL)
            shell.handlers[sig] = h
            return old

        env = {k: v for k, v in os.environ.items() if not k.startswith('IPP_')}
        return [self.w.patch(), Patch((os, 'environ', dict(env, IPYTHONDIR=self.home)), (os, 'cpu_count', lambda *a: CPUS), (signal, 'signal', register),
                                      (asyncio, 'run', self.w.run), (sys, 'path', list(sys.path)))]

    def command(self, *argv, idle=None):
        """run one to its end: exit code and output"""
        from ipyparallel.cluster import cluster as C
        from ipyparallel.cluster.app import IPCluster

        ctx, w = self.ctx, self.w
        out, err = io.StringIO(), io.StringIO()
        handlers, self.handlers = self.handlers, {}
        atexit, C._atexit_clusters = C._atexit_clusters, set()
        loop = Loop(self, idle)
        code = 0
        single = singletons()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            app = IPCluster()
            try:
                app.initialize(list(argv))
                app.subapp.loop = loop
                app.start()
            except SystemExit as e:
                code = e.code
            # the end of the process
            ended = w.threads
            C._atexit_cleanup_clusters()
        if app.subapp is not None:
            cl = getattr(app.subapp, 'cluster', None)
            if cl is not None:
                cl.shutdown_atexit = False
        C._atexit_clusters = atexit
        singletons(single)
        self.handlers = handlers
        for f in loop.failed:
            self.lost = f
        return code, out.getvalue()

    def send(self, sig):
        h = self.handlers.get(sig)
        self.ctx.check(callable(h), f'signal {sig} ends the command at once')
        h(sig, None)


class Loop:
    """of a command"""

    def __init__(self, shell, idle):
        from tornado.ioloop import IOLoop

        self.cls = IOLoop
        self.shell, self.idle = shell, idle
        self.w = shell.w
        self.timers = []
        self.failed = []
        self.stopped = False

    @property
    def __class__(self):
        from tornado.ioloop import IOLoop

        return IOLoop

    def add_callback(self, f, *a, **k):
        self.w.loop.call_soon(self.call, f, a, k)

    add_callback_from_signal = add_callback

    def call(self, f, a, k):
        try:
            r = f(*a, **k)
            if asyncio.iscoroutine(r):
                asyncio.ensure_future(self.watch(r))
        except Exception as e:
            self.failed.append(e)

    async def watch(self, r):
        try:
            await r
        except Exception as e:
            self.failed.append(e)  # logged, and nothing more

    def add_timeout(self, t, f, *a, **k):
        self.timers.append((t.total_seconds() + self.w.now if hasattr(t, 'total_seconds') else t, f, a, k))

    def call_later(self, t, f, *a, **k):
        self.timers.append((self.w.now + t, f, a, k))

    def call_at(self, t, f, *a, **k):
        self.timers.append((t, f, a, k))

    def time(self):
        return self.w.now

    def stop(self):
        self.stopped = True

    def later(self, seconds):
        self.w.now += seconds
        due = [t for t in self.timers if t[0] <= self.w.now]
        self.timers = [t for t in self.timers if t not in due]
        for t, f, a, k in sorted(due, key=lambda t: t[0]):
            self.call_now(f, a, k)

    def call_now(self, f, a, k):
        self.w.loop.call_soon(self.call, f, a, k)

    def start(self):
        self.stopped = False
        while True:
            self.w.drain()
            if self.stopped:
                return
            if self.idle is None:
                self.shell.ctx.fail(f'the command does not end {self.failed}')
            self.idle(self)


CPUS = 2


class Run:
    def __init__(self, ctx):
        self.ctx = ctx
        self.S = Shell(ctx)
        self.w = self.S.w

    def where(self):
        return self.ctx.choose('cluster', [('default', ''), ('x', 'a')])

    def args(self, name, cid):
        out = []
        if name != 'default':
            out.append(f'--profile={name}')
        if cid:
            out.append(f'--cluster-id={cid}')
        return out

    def place(self, name, cid):
        return self.S.profiles[name], cid

    def begun(self, where, n, extra, first):
        """a controller and n engines"""
        ctx, w = self.ctx, self.w
        new = [p for p in w.procs[first:] if p.alive]
        con = [p for p in new if p.is_controller]
        eng = [p for p in new if not p.is_controller]
        ctx.check(len(con) == 1 and len(eng) == n, f'{len(con)} controllers and {len(eng)} engines, not 1 and {n}')
        for p in new:
            ctx.check(key_of(p) == where, f'a process of {key_of(p)}, not {where}')
        ctx.check(all(x in con[0].args for x in extra), f'arguments {extra} for the controller are lost: {con[0].args}')
        ctx.check(not any(x in e.args for x in extra for e in eng), 'an engine gets arguments for the controller')
        got = listed(self.S.file(where))
        ctx.check(got == sorted(p.pid for p in new), f'the cluster file lists {got}')
        return con[0], eng

    def ended(self, where):
        ctx = self.ctx
        self.w.settle()
        ctx.check(where not in self.S.running(), 'the command has ended, and parts of its cluster run')
        ctx.check(not os.path.exists(self.S.file(where)), 'the command has ended, and there is a cluster file')

    def start(self, where, name, cid, events, faults):
        ctx, w = self.ctx, self.w
        n = ctx.choose('n', [None, 1])
        daemon = ctx.flip('daemonize')
        extra = ['--one=two'] if ctx.flip('arguments') else []
        argv = ['start'] + self.args(name, cid) + ([f'--n={n}'] if n else []) + ['--daemonize'] * bool(daemon) + (['--'] + extra if extra else [])
        k = ctx.choose('no process', [0, 1, 2]) if faults else None
        if k == 2 and n == 1:
            ctx.cut('too few')
        w.spawn_faults = [w.spawns + k] if k is not None else []
        first = len(w.procs)
        others = {p: list(p.signals) for p in w.live()}
        count = [0]
        self.number = 0
        parts = []
        self.over, self.rounds = False, 0

        def idle(loop):
            count[0] += 1
            if k is not None:
                ctx.check(count[0] < 6, 'the start failed, and the command goes on')
                w.settle()
                return
            if count[0] == 1:
                ctx.check(not daemon, 'the command does not end')
                parts.append(self.begun(where, n or CPUS, extra, first))
                self.t0 = w.now
                self.quiet = False
            if self.over:
                self.rounds += 1
                ctx.check(self.rounds < 6, f'the command goes on after {self.over}')
                w.settle()
                return
            con, eng = parts[0]
            self.number += 1
            if self.number > events:
                self.S.send(signal.SIGTERM)
                self.over = 'SIGTERM'
                return
            self.event(loop, where, con, eng)

        def delay():
            w.on_sleep = None
            what = ctx.choose('meanwhile', [None, 'SIGINT', 'controller'])
            if what == 'SIGINT':
                self.S.send(signal.SIGINT)
            elif what == 'controller':
                for p in w.procs[first:]:
                    p.exit(ctx.int('code', 0, 255))
            if what:
                self.early = what

        self.early = None
        if not faults and events == 1 and not daemon:
            w.on_sleep = delay
            idle0 = idle

            def idle(loop):
                if not self.early:
                    return idle0(loop)
                count[0] += 1
                ctx.check(count[0] < 6, f'the command goes on after {self.early}')
                w.settle()
                loop.later(60)

        code, out = self.S.command(*argv, idle=idle)
        w.on_sleep = None
        w.spawn_faults = []
        if daemon and k is None:
            ctx.check(not code, f'exit code {code}')
            self.begun(where, n or CPUS, extra, first)
            ctx.reach('daemonized')
        else:
            ctx.check(k is None or code, 'the start failed, and the exit code is 0')
            self.ended(where)
            ctx.check(self.over or self.early or k is not None, 'the command ends without a reason')
            ctx.reach('failed start' if k is not None else 'ended')
        for p, s in others.items():
            ctx.check(p.alive and p.signals == s, 'another cluster is touched')
        return daemon and k is None

    def event(self, loop, where, con, eng):
        """while `ipcluster start` runs"""
        ctx, w = self.ctx, self.w
        ev = ctx.choose('event', ['SIGINT', 'SIGUSR1', 'controller', 'engines', 'time', 'stop', 'start', 'list'] + ['an engine'] * (len(eng) > 1))
        if ev == 'SIGINT':
            self.S.send(signal.SIGINT)
            self.over = ev
        elif ev == 'SIGUSR1':
            before = {p: list(p.signals) for p in w.procs}
            self.S.send(signal.SIGUSR1)
            w.drain()
            for p in w.procs:
                want = [signal.SIGUSR1] if p in eng and p.alive else []
                ctx.check(p.signals[len(before[p]):] == want, f'signals {p.signals}, not {want}')
        elif ev in ('controller', 'engines', 'an engine'):
            live = [p for p in eng if p.alive]
            for p in {'controller': [con], 'engines': live, 'an engine': live[:1]}[ev]:
                p.exit(ctx.int('code', 0, 255))
            w.settle()
            if ev == 'controller' or not [p for p in eng if p.alive] and not self.quiet:
                self.over = f'the end of {ev}'
            ctx.reach('exit')
        elif ev == 'time':
            loop.later(60)
            self.quiet = True
        elif ev == 'stop':
            code, out = self.S.command('stop', *self.args(*self.names))
            ctx.check(not code, f'ipcluster stop: exit code {code}')
            ctx.check(where not in self.S.running(), 'ipcluster stop has ended, and parts run')
            w.settle()
            self.over = 'ipcluster stop'
        elif ev == 'start':
            self.again(where)
        elif ev == 'list':
            self.list()

    def again(self, where):
        """a second start is refused"""
        ctx, w = self.ctx, self.w
        n = len(w.procs)
        state = [(p.alive, list(p.signals)) for p in w.procs]
        before = listed(self.S.file(where))
        code, out = self.S.command('start', *self.args(*self.names))
        ctx.check(code == 10, f'a second start: exit code {code}')
        ctx.check(len(w.procs) == n and state == [(p.alive, p.signals) for p in w.procs], 'a second start changes a cluster that runs')
        live = {p.pid for p in w.live() if key_of(p) == where}
        ctx.check(live <= set(listed(self.S.file(where)) or []) <= set(before), 'a second start changes the cluster file')
        ctx.reach('refused')

    def list(self):
        """what runs"""
        ctx, w = self.ctx, self.w
        w.settle()
        names = {v: k for k, v in self.S.profiles.items()}
        run = {(names[d], c): v for (d, c), v in self.S.running().items()}
        if ctx.flip('json'):
            code, out = self.S.command('list', '-o', 'json')
            rows = [(names[d['cluster']['profile_dir']], d['cluster']['cluster_id'], bool(d.get('controller')), d['engines']['sets']) for d in json.loads(out)]
            rows = [(p, c, on, sum(s['n'] for s in sets.values())) for p, c, on, sets in rows]
        else:
            code, out = self.S.command('list')
            rows = [line.split() for line in out.splitlines()[1:]]
            rows = [(r[0], r[1] if r[1] != "''" else '', r[2] == 'True', int(r[3])) for r in rows]
        ctx.check(not code, f'ipcluster list: exit code {code}')
        got = {}
        for p, c, on, n in rows:
            ctx.check((p, c) not in got, 'a cluster is listed twice')
            got[p, c] = on, n
        for where, (con, eng) in run.items():
            on, n = got.get(where, (None, None))
            ctx.check(on is not None, f'a cluster that runs is not listed')
            ctx.check(on == bool(con), f'{len(con)} controllers, and running is {on}')
            total = [p for p in w.procs if not p.is_controller and p.batch in {e.batch for e in eng}]
            ctx.check(len(eng) <= n <= len(total), f'{n} engines are listed, {len(eng)} run')
        for where, (on, n) in got.items():
            ctx.check(where in run or not on and not n, 'a cluster that has ended is listed as running')
        ctx.reach('listed')

    def stop(self):
        """of daemonized clusters"""
        ctx, w = self.ctx, self.w
        how = ctx.choose('stop', ['one', 'all', 'ids', 'none'])
        name, cid = self.names
        where = self.place(name, cid)
        others = {p: list(p.signals) for p in w.live() if key_of(p)[0] != where[0] or how != 'all' and key_of(p) != where}
        if how == 'none':
            code, out = self.S.command('stop', *self.args(name, 'no such'))
            ctx.check(code == 11, f'nothing to stop: exit code {code}')
            ctx.check(where in self.S.running(), 'another cluster is stopped')
            return False
        profile = [a for a in self.args(name, cid) if 'profile' in a]
        mates = sorted(c for d, c in self.S.running() if d == where[0] and c != cid)
        if how == 'ids':
            others = {p: s for p, s in others.items() if key_of(p)[0] != where[0]}
        argv = {'one': self.args(name, cid), 'all': profile + ['--all'], 'ids': profile + [cid] + mates}[how]
        code, out = self.S.command('stop', *argv)
        ctx.check(not code, f'ipcluster stop: exit code {code}')
        self.ended(where)
        for c in mates if how in ('all', 'ids') else []:
            self.ended((where[0], c))
        for p, s in others.items():
            ctx.check(p.alive and p.signals == s, 'another cluster is touched')
        ctx.reach('stopped')
        return True


@harness('A01', 'start', quick=({'events': 1, 'faults': 0}, {'events': 0, 'faults': 1}, {'events': 2, 'faults': 0}), thorough=({'events': 1, 'faults': 0}, {'events': 0, 'faults': 1}, {'events': 3, 'faults': 0}),
         labels=('ended', 'exit', 'refused', 'listed', 'daemonized', 'stopped', 'failed start'),
         bounds='ipcluster start with each of: 2 clusters, a number of engines or not, --daemonize, arguments after --, another cluster that runs, a stale '
                'cluster file, any process that fails to start, a signal or an end of the controller before the engines start; then 1-2 '
                '(thorough: 3) of: signals, exits of the controller, all engines or one of them (symbolic codes), 60 seconds, another start, stop '
                'or list; after --daemonize: starts, lists, exits and each form of stop',
         stubs='processes, threads and clocks as in L01; the event loop of the command (asyncio runs its callbacks; signals arrive while it '
               'is idle or in the delay before the engines start), signal handlers are called directly')
def start(ctx):
    ctx.lazy_str = ctx.const_hash = True
    R = Run(ctx)
    try:
        a, b = R.S.patch()
        with a, b:
            R.names = name, cid = R.where()
            where = R.place(name, cid)
            left = ctx.choose('before', [None, 'other', 'stale']) if ctx.params['events'] <= 1 else None
            if left:
                # a cluster that has been left running
                mine = R.names
                at = mine if left == 'stale' else ('x', 'b')
                code, out = R.S.command('start', '--n=1', '--daemonize', *R.args(*at))
                ctx.check(not code, f'exit code {code}')
                if left == 'stale':
                    R.w.threads = []
                    for p in R.w.live():
                        p.exit(1)
            if R.start(where, name, cid, ctx.params['events'], ctx.params['faults']):
                for i in range(max(1, ctx.params['events'])):
                    ev = ctx.choose('then', ['start', 'list', 'exit'])
                    if ev == 'start':
                        R.again(where)
                    elif ev == 'list':
                        R.list()
                    else:
                        p = ctx.choose('which', [p for p in R.w.live() if key_of(p) == where])
                        p.exit(ctx.int('code', 0, 255))
                    if where not in R.S.running():
                        return
                R.stop()
    finally:
        R.w.close()


@harness('A01', 'engines', quick=({'events': 1},), thorough=({'events': 3},),
         labels=('ended', 'daemonized', 'failed start'),
         bounds='ipcluster engines with or without a cluster that runs, a number or not, --daemonize, a process that fails to start, and 1 '
                '(thorough: 3) signals, exits or 60 seconds', stubs='as start')
def engines(ctx):
    """ipcluster engines"""
    ctx.lazy_str = ctx.const_hash = True
    R = Run(ctx)
    w = R.w
    try:
        a, b = R.S.patch()
        with a, b:
            R.names = name, cid = R.where()
            where = R.place(name, cid)
            before = ctx.choose('before', ['runs', None])
            if before:
                code, out = R.S.command('start', '--n=1', '--daemonize', *R.args(name, cid))
                ctx.check(not code, f'exit code {code}')
            old = {p: list(p.signals) for p in w.live()}
            file = listed(R.S.file(where))
            n = ctx.choose('n', [None, 1, 2])
            daemon = ctx.flip('daemonize')
            first = len(w.procs)
            k = ctx.choose('no process', [None, 0, 1])
            if k == 1 and n == 1:
                ctx.cut('too few')
            w.spawn_faults = [w.spawns + k] if k is not None else []
            state = dict(count=0, over=None, rounds=0, events=0)

            def others(when):
                for p, s in old.items():
                    ctx.check(p.alive and p.signals == s, f'{when}, the cluster is touched')

            def begun():
                new = w.procs[first:]
                ctx.check(len(new) == (n or CPUS), f'{len(new)} engines, not {n or CPUS}')
                for p in new:
                    ctx.check(key_of(p) == where, f'an engine of {key_of(p)}, not {where}')
                    ctx.check(not p.is_controller, 'a controller is started')
                    if before:
                        with open(os.path.join(where[0], 'security', f'ipcontroller-{cid}{"-" * bool(cid)}engine.json')) as f:
                            want = json.load(f)
                        info = p.env.get('IPP_CONNECTION_INFO')
                        ctx.check(info is None or json.loads(info) == want, 'an engine is told of another controller')
                got = listed(R.S.file(where)) or []
                ctx.check(set(got) >= {p.pid for p in new}, 'the cluster file misses engines')
                known(ctx, not before or set(got) >= set(file), 'A01', 'engines-file',
                      'ipcluster engines removes the controller and the engines of a running cluster from its cluster file')

            def idle(loop):
                if k is not None:
                    state['rounds'] += 1
                    ctx.check(state['rounds'] < 6, 'the start failed, and the command goes on')
                    w.settle()
                    return
                if not state['count']:
                    state['count'] = 1
                    ctx.check(not daemon, 'the command does not end')
                    begun()
                if state['over']:
                    state['rounds'] += 1
                    ctx.check(state['rounds'] < 6, f'the command goes on after {state["over"]}')
                    w.settle()
                    return
                live = [p for p in w.procs[first:] if p.alive]
                state['events'] += 1
                last = state['events'] > ctx.params['events']
                ev = ctx.choose('event', ['SIGTERM', 'engines'] + [] if last else ['SIGINT', 'SIGUSR1', 'time'] + ['an engine'] * (len(live) > 1))
                if ev in ('engines', 'an engine'):
                    for p in live if ev == 'engines' else live[:1]:
                        p.exit(ctx.int('code', 0, 255))
                    w.settle()
                elif ev == 'time':
                    loop.later(60)
                else:
                    sig = getattr(signal, ev)
                    before_ = {p: list(p.signals) for p in live}
                    R.S.send(sig)
                    w.drain()
                    if sig != signal.SIGTERM:
                        for p in live:
                            ctx.check(p.signals[len(before_[p]):] == [sig], f'{ev} reaches an engine as {p.signals}')
                if ev in ('engines', 'SIGTERM'):
                    state['over'] = ev

            code, out = R.S.command('engines', *R.args(name, cid), *[f'--n={n}'] * bool(n), *['--daemonize'] * bool(daemon), idle=idle)
            w.spawn_faults = []
            others('after the command')
            new = w.procs[first:]
            if k is not None:
                ctx.check(code, 'the start failed, and the exit code is 0')
                ctx.check(not [p for p in new if p.alive], 'the start failed, and engines run')
                ctx.reach('failed start')
            elif daemon:
                ctx.check(not code, f'exit code {code}')
                begun()
                ctx.reach('daemonized')
                code, out = R.S.command('stop', *R.args(name, cid))
                ctx.check(not code, f'ipcluster stop: exit code {code}')
                ctx.check(not w.live(), 'ipcluster stop has ended, and parts run')
            else:
                w.settle()
                ctx.check(not [p for p in new if p.alive], 'the command has ended, and engines run')
                ctx.check(before or not os.path.exists(R.S.file(where)), 'the command has ended, and there is a cluster file')
                ctx.reach('ended')
            if before and w.live():
                known(ctx, listed(R.S.file(where)) == file, 'A01', 'engines-file', 'after ipcluster engines, the cluster file misses what runs')
    finally:
        w.close()
