"""L01: the cluster file and the cluster's state follow the processes that run."""
import contextlib
import copy
import json
import os
import signal
import subprocess
import types

from symx.core import Not, is_sym
from symx.reg import harness, raises_nothing
from fixtures.procs import Remote, World
from fixtures.wire import Patch
from fixtures.wiring import Crash, FileEvents


def listed(path):
    """processes in the cluster file, or None"""
    try:
        with open(path) as f:
            d = json.load(f)
    except FileNotFoundError:
        return None
    out = []

    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k == 'pid' and isinstance(v, int) and v > 0:
                    out.append(v)
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)

    walk(d)
    return sorted(out)


class Group:
    """processes that were started together"""

    def __init__(self, kind, procs, launcher):
        self.kind, self.procs, self.launcher = kind, procs, launcher
        self.told = []
        self.n = len(procs)

    def live(self):
        return [p for p in self.procs if p.alive]


class Life:
    def __init__(self, ctx, kind='local', **traits):
        self.ctx = ctx
        self.kind = kind
        if kind != 'local':
            traits.update(controller_launcher_class=kind, engine_launcher_class=kind)
        self.w = Remote(ctx) if kind == 'ssh' else World(ctx)
        self.w.publish = self.publish
        self.traits = traits
        self.config = {'SSHControllerLauncher': {'hostname': 'head', 'user': 'me'},
                       'SSHEngineSetLauncher': {'engines': {'alpha': 1, 'me@beta:2200': {'n': 2}}}} if kind == 'ssh' else {}
        self.groups = {}  # 'controller' or engine set id -> Group
        self.fileproblem = None
        os.makedirs(os.path.join(self.w.dir, 'log'))
        os.makedirs(os.path.join(self.w.dir, 'security'))
        self.events = 0

    def common(self):
        from traitlets.config import Config

        return dict(config=Config(copy.deepcopy(self.config)), log=self.w.log, load_profile=False, shutdown_atexit=self.shutdown)

    def new(self):
        from ipyparallel.cluster.cluster import Cluster

        self.cl = Cluster(profile_dir=self.w.dir, cluster_id='c', delay=0, **self.common(), **self.traits)
        self.file = self.cl.cluster_file

    def reload(self):
        from ipyparallel.cluster.cluster import Cluster

        return Cluster.from_file(self.file, **self.common())

    def files(self, present=True):
        for k in ('client', 'engine'):
            p = os.path.join(self.w.dir, 'security', f'ipcontroller-c-{k}.json')
            if present:
                with open(p, 'w') as f:
                    json.dump({'side': k, 'key': f'{len(self.w.procs)}'}, f)
            elif os.path.exists(p):
                os.remove(p)

    def publish(self, p):
        for k in ('client', 'engine'):
            path = os.path.join(self.w.dir, 'security', f'ipcontroller-c-{k}.json')
            self.w.fs[p.host, path] = json.dumps({'side': k, 'key': f'{len(self.w.procs)}'})

    # events
    def start_controller(self):
        ctx, w = self.ctx, self.w
        fault = ctx.flip('no process') if self.faults else False
        w.spawn_faults = [w.spawns] if fault else []
        n = len(w.procs)
        try:
            w.run(self.cl.start_controller())
        except (OSError, subprocess.SubprocessError):
            ctx.check(fault, 'a controller is started')
            self.faults -= 1
            ctx.check(self.cl.controller is None, 'the start of a controller failed, and cannot be repeated')
            ctx.reach('failed start')
            return
        ctx.check(not fault, 'an error at the start of the controller is lost')
        procs = w.procs[n:]
        ctx.check(len(procs) == 1 and procs[0].is_controller, f'{len(procs)} processes for a controller')
        g = self.groups['controller'] = Group('controller', procs, self.cl.controller)
        self.cl.controller.on_stop(g.told.append)
        self.env(procs)
        self.listed_all('start of the controller')

    def env(self, procs):
        for p in procs:
            self.ctx.check(p.env.get('IPP_CLUSTER_ID') == 'c' and p.env.get('IPP_PROFILE_DIR') == self.w.dir,
                           'the process is not told its cluster')

    def waiting(self):
        """what may happen while the connection files are awaited"""
        ctx = self.ctx
        p = self.groups['controller'].procs[0]
        what = ctx.choose('while waiting', ['files', 'dies', 'late'] if p.alive else ['late'])
        if what == 'files':
            self.files()
        elif what == 'dies':
            p.exit(ctx.int('code', 0, 255))
            if ctx.flip('noticed'):
                for t in list(self.w.threads):
                    t.run_now()
        else:
            self.w.now += 1000

    def start_engines(self, n, name=None):
        ctx, w = self.ctx, self.w
        k = ctx.choose('no process', [None] + list(range(1 if self.kind == 'mpi' else n))) if self.faults else None
        w.spawn_faults = [w.spawns + k] if k is not None else []
        w.ignores_term = bool(k and self.hard and ctx.flip('ignores TERM'))
        self.hard -= w.ignores_term
        first = len(w.procs)
        con = self.cl.controller
        if self.kind == 'ssh' and con is None:  # they are sent to every host
            self.files()
        has = os.path.exists(os.path.join(w.dir, 'security', 'ipcontroller-c-engine.json'))
        if con is not None and not has and 'controller' in self.groups:
            w.on_sleep = self.waiting
        ids = set(self.cl.engines)
        try:
            if name is None:
                name = w.run(self.cl.start_engines(n))
            else:
                w.run(self.cl.restart_engines(name))
        except Exception as e:
            if k is not None and isinstance(e, (OSError, subprocess.SubprocessError)) and not isinstance(e, TimeoutError):
                self.faults -= 1
            else:
                ctx.check(w.on_sleep is not None and isinstance(e, (TimeoutError, RuntimeError)), f'engines are started: {e!r}')
            left = [p for p in w.procs[first:] if p.alive]
            ctx.check(set(self.cl.engines) <= ids or left, 'an engine set without engines is left')
            for p in left:
                # they may run only if the cluster knows it
                ctx.check(p.pid in (listed(self.file) or []), 'the start of engines failed, and some run, unknown')
            ctx.check(not left, 'the start of engines failed, and some run')
            for key in ids - set(self.cl.engines):
                self.groups.pop(key, None)
            ctx.reach('failed start')
            return
        finally:
            w.on_sleep = None
            w.ignores_term = False
        ctx.check(k is None, 'an error at the start of engines is lost')
        procs = w.procs[first:]
        if self.kind == 'mpi':  # one process that starts n engines
            ctx.check(len(procs) == 1 and procs[0].args[:3] == ['mpiexec', '-n', str(n)] and '--mpi' in procs[0].args,
                      f'{[p.args for p in procs]} for {n} engines')
        else:
            ctx.check(len(procs) == n, f'{len(procs)} engines for {n}')
        ctx.check(not any(p.is_controller for p in procs), 'an engine is a controller')
        es = self.cl.engines.get(name)
        ctx.check(es is not None, 'the engine set is not kept')
        g = self.groups[name] = Group('engines', procs, es)
        g.n = n
        es.on_stop(g.told.append)
        self.env(procs)
        if con is not None and con.state == 'running':
            with open(os.path.join(w.dir, 'security', 'ipcontroller-c-engine.json')) as f:
                want = json.load(f)
            for p in procs:
                ctx.check(json.loads(p.env.get('IPP_CONNECTION_INFO', 'null')) == want, 'the engine is told of another controller')
        self.listed_all('start of engines')

    def listed_all(self, when):
        got = listed(self.file)
        for p in self.w.live():
            self.ctx.check(got and p.pid in got, f'after {when}, the cluster file misses a running process')

    def stopping(self, keys, op, restart=None):
        """stop groups; others are not touched"""
        ctx, w = self.ctx, self.w
        targets = [p for k in keys for p in self.groups[k].live()]
        for p in targets:
            if self.hard:
                p.ignores_term = ctx.flip('ignores TERM')
                self.hard -= p.ignores_term
        before = {p: list(p.signals) for p in w.procs}
        with raises_nothing(ctx, 'the stop'):
            op()
        for p in w.procs:
            if p not in before:
                continue
            new = p.signals[len(before[p]):]
            if p in targets:
                want = [signal.SIGTERM, signal.SIGKILL] if p.ignores_term else [signal.SIGTERM]
                ctx.check(not p.alive, 'stopped, but it runs')
                ctx.check(new == want, f'signals to stop: {new}')
            else:
                ctx.check(new == [], f'another process gets {new}')

    def event(self):
        ctx, w, cl = self.ctx, self.w, self.cl
        sets = [k for k in self.groups if k != 'controller' and k in cl.engines]
        live = w.live()
        evs = ['reload']
        if cl.controller is None:
            evs.append('controller')
        else:
            evs.append('stop controller')
        if len(live) < 3:
            evs.append('engines')
        if sets:
            evs += ['stop engines', 'signal', 'restart']
        if live:
            evs += ['exit', 'stop']
        if w.threads:
            evs.append('settle')
        ev = ctx.choose('event', evs)
        if ev == 'controller':
            self.start_controller()
        elif ev == 'engines':
            self.start_engines(ctx.choose('n', [1, 2]))
        elif ev == 'stop controller':
            keys = [k for k in ('controller',) if k in self.groups]
            self.stopping(keys, lambda: w.run(cl.stop_controller()))
            self.groups.pop('controller', None)
            ctx.check(cl.controller is None, 'a stopped controller is kept')
        elif ev == 'stop engines':
            k = ctx.choose('set', sets + [None] * (len(sets) > 1))
            ks = sets if k is None else [k]
            self.stopping(ks, lambda: w.run(cl.stop_engines(k)))
            for k in ks:
                ctx.check(k not in cl.engines, 'a stopped engine set is kept')
                self.dead.append(self.groups.pop(k))
        elif ev == 'stop':
            self.stop()
        elif ev == 'restart':
            k = ctx.choose('set', sets)
            g = self.groups[k]
            self.stopping([k], lambda: self.start_engines(g.n, k))
            self.dead.append(g)
        elif ev == 'exit':
            p = ctx.choose('which', live)
            out = b''
            if self.odd and ctx.flip('odd output'):
                self.odd -= 1
                out = b'fine\n\xff\xfe\n'
            p.exit(ctx.int('code', 0, 255), out)
            ctx.reach('exit')
        elif ev == 'settle':
            self.settle()
        elif ev == 'signal':
            k = ctx.choose('set', sets + [None] * (len(sets) > 1))
            ks = sets if k is None else [k]
            before = {p: list(p.signals) for p in w.procs}
            alive = all(self.groups[x].live() for x in ks)
            with raises_nothing(ctx, 'a signal for engines') if alive else contextlib.suppress(Exception):
                w.run(cl.signal_engines(signal.SIGINT, k))
            for p in w.procs:
                new = p.signals[len(before[p]):]
                want = [signal.SIGINT] if p.alive and any(p in self.groups[x].procs for x in ks) else []
                ctx.check(new == want or not alive and k is None and new == [], f'signals {new}, not {want}')
        elif ev == 'reload':
            self.handover()

    def handover(self):
        """the process that started the cluster ends, and another one takes over"""
        ctx, w = self.ctx, self.w
        if not os.path.exists(self.file):
            ctx.check(not w.live(), 'processes run, and there is no cluster file')
            ctx.cut('nothing to load')
        w.threads = []
        with raises_nothing(ctx, 'loading the cluster file'):
            self.cl = self.reload()
        self.reloaded = True
        old, self.groups = self.groups, {}
        for k, g in old.items():
            if not g.live():
                continue
            # ssh does not look at each engine while loading
            n = Group(g.kind, g.procs if self.kind == 'ssh' else g.live(), None)
            if k == 'controller':
                ctx.check(self.cl.controller is not None, 'the controller is lost')
                n.launcher = self.cl.controller
            else:
                ctx.check(k in self.cl.engines, 'an engine set is lost')
                n.launcher = self.cl.engines[k]
                if self.kind != 'local':
                    n.n = g.n
            n.launcher.on_stop(n.told.append)
            self.groups[k] = n
        if self.kind == 'ssh':  # this takes another look
            w.settle()
        for k, es in self.cl.engines.items():
            ctx.check(k in self.groups or self.kind == 'ssh' and es.state == 'after', 'an engine set that has stopped is loaded')
        c = self.cl.controller
        ctx.check(c is None or 'controller' in self.groups or self.kind == 'ssh' and c.state == 'after',
                  'a controller that has stopped is loaded')
        self.settled()
        ctx.reach('loaded')

    def settle(self):
        self.w.settle()
        self.settled()

    def settled(self):
        """every exit has been noticed"""
        ctx, w = self.ctx, self.w
        ctx.check(not w.errors, f'error in a callback: {w.errors[:1]}')
        live = sorted(p.pid for p in w.live())
        got = listed(self.file)
        if live:
            part = [p.pid for g in self.groups.values() if g.live() for p in g.procs]
            ctx.check(got and set(live) <= set(got), f'the cluster file lists {got}, running are {live}')
            # single engines stay until their set ends, or somebody else loads the file
            ctx.check(set(got) <= set(part), f'the cluster file lists {got}, parts that run have {part}')
        else:
            ctx.check(got is None, 'nothing runs, but there is a cluster file')
        for g in list(self.groups.values()) + self.dead:
            dead = not g.live()
            ctx.check(len(g.told) == dead, f'{g.kind}: told of the end {len(g.told)} times')
            ctx.check(g.launcher.running == (not dead), f'{g.kind}: running is {g.launcher.running}')
            if dead and g.told and self.kind != 'ssh':
                codes = [p.code for p in g.procs]
                code = g.told[0]['exit_code']
                bad = [c for c in codes if bool(c != 0)]
                if len(codes) == 1:
                    ctx.check(code == codes[0], 'the exit code')
                else:
                    ctx.check(bool(code != 0) == bool(bad), f'exit codes {codes} give {code}')

    def stop(self):
        ctx, w = self.ctx, self.w
        keys = [k for k in self.groups if k == 'controller' or k in self.cl.engines]
        self.stopping(keys, lambda: w.run(self.cl.stop_cluster()))
        ctx.check(not w.live(), 'the cluster is stopped, and processes run')
        ctx.check(listed(self.file) is None, 'the cluster is stopped, and there is a cluster file')
        ctx.check(self.cl.controller is None and not self.cl.engines, 'the cluster is stopped, and keeps some parts')
        self.dead += [g for k, g in self.groups.items()]
        self.groups = {}

    cl = None
    shutdown = False
    dead = ()
    reloaded = False
    faults = 0
    hard = odd = 1


@harness('L01', 'life', quick=({'events': 3, 'faults': 1}, {'events': 3, 'faults': 0, 'kind': 'mpi'}, {'events': 2, 'faults': 1, 'kind': 'ssh'},
                             {'events': 3, 'faults': 0, 'kind': 'ssh'}), thorough=({'events': 4, 'faults': 1}, {'events': 4, 'faults': 1, 'kind': 'mpi'}, {'events': 3, 'faults': 1, 'kind': 'ssh'}),
         labels=('exit', 'loaded', 'failed start'),
         bounds='histories of 3 (thorough: 4) of: start, stop, restart or signal the controller or a set of 1-2 engines, stop all, a process '
                'exits, exits are noticed, another process loads the file and takes over; then a stop of what is left; one start of a '
                'process fails, one process ignores TERM, one writes bytes that are not text; symbolic exit codes; connection files '
                'that arrive, come late, or never, because the controller dies',
         stubs='Popen, psutil.Process, threads (which run when they are waited for, or at a step of the history), clocks, entry to '
               'the tornado loop (an asyncio loop runs its callbacks); files are real ones in a scratch directory')
def life(ctx):
    ctx.lazy_str = ctx.const_hash = True
    kind = ctx.params.get('kind', 'local')
    # sets of engines keep their own number of engines
    L = Life(ctx, kind, **({} if kind == 'ssh' else {'n': 3}))
    w = L.w
    L.dead = []
    L.faults = ctx.params['faults']
    try:
        with w.patch():
            L.new()
            for i in range(ctx.params['events']):
                L.event()
            L.settle()
            L.stop()
            L.settle()
    finally:
        w.close()


@harness('L01', 'edge', quick=({'mode': 'write'}, {'mode': 'clean'}, {'mode': 'exit'}, {'mode': 'with'}),
         labels=('session', 'crashed', 'disk full', 'cleaned', 'refused', 'end of the program', 'manager'),
         bounds='2-3 operations of a controller and engines with a crash before any operation on the cluster file, or a disk that is '
                'full after 0, 1 or 200 bytes; clean-ups, managers and ends of the program after any start of a controller and 0-2 '
                'engines of which any have exited, noticed or not; sessions (with Cluster(), plain or async) of 1-2 engines and more, '
                'of which one may exit, with and without an error in the body',
         stubs='as life')
def edge(ctx):
    """files while they are written, cleaned up, and at the end of the program"""
    import logging
    import resource

    from ipyparallel.cluster import cluster as C

    ctx.lazy_str = ctx.const_hash = True
    mode = ctx.params['mode']
    L = Life(ctx)
    w = L.w
    L.dead = []
    registered = []
    empty = os.path.join(w.dir, 'no profile')
    try:
        with w.patch(), Patch((C, 'atexit', types.SimpleNamespace(register=lambda f, *a, **k: registered.append(f) or f))):
            if mode == 'exit':
                L.shutdown = True
            L.new()
            if mode == 'write':
                write(ctx, L)
                return
            if mode == 'with':
                session(ctx, L)
                return
            if ctx.flip('controller'):
                L.start_controller()
                L.files()
            if ctx.flip('engines'):
                L.start_engines(ctx.choose('n', [1, 2]))
            if ctx.flip('settle'):
                L.settle()
            for p in w.live():
                if ctx.flip('exits'):
                    p.exit(ctx.int('code', 0, 255))
            if ctx.flip('settle'):
                L.settle()
            if mode == 'exit':
                L.cl.shutdown_atexit = bool(ctx.flip('shutdown'))
                keep = not L.cl.shutdown_atexit
                live = w.live()
                with raises_nothing(ctx, 'the end of the program'):
                    for fn in reversed(registered):
                        fn()
                L.cl.shutdown_atexit = False
                ctx.check(w.live() == (live if keep else []), f'{len(w.live())} of {len(live)} processes run after the program')
                if not keep:
                    ctx.check(listed(L.file) is None, 'the program has stopped its cluster, and there is a cluster file')
                ctx.reach('end of the program')
                return
            live = w.live()
            w.threads = []
            os.makedirs(os.path.join(w.dir, 'log', 'sub'))
            L.files()
            stale = os.path.join(w.dir, 'security', 'cluster-old.json')
            with open(stale, 'w') as f:
                f.write('{"cluster"')
            with Patch((C, '_default_profile_dir', lambda **k: empty)):
                if ctx.flip('manager'):
                    m = C.ClusterManager(log=w.log)
                    with raises_nothing(ctx, 'the manager loads clusters'):
                        cs = m.load_clusters(profile_dir=w.dir)
                    mine = [c for c in cs.values() if c.cluster_id == 'c']
                    ctx.check(not live or len(mine) == 1, 'the manager misses a cluster that runs')
                    ctx.check(len(cs) == len(mine), 'the manager loads a file that is not complete')
                    for c in cs.values():
                        c.shutdown_atexit = False
                    if mine:
                        for c in mine:
                            w.run(c.stop_cluster())
                        ctx.check(not w.live(), 'the manager cannot stop a cluster')
                    ctx.reach('manager')
                    return
                force = ctx.flip('force')
                log = w.log if ctx.flip('log') else None
                try:
                    C.clean_cluster_files(ctx.choose('form', [[w.dir], w.dir]), log=log, force=force)
                except ValueError:
                    ctx.check(live and not force, 'refuses to clean up, though nothing runs')
                    ctx.check(listed(L.file), 'refuses to clean up, and removes the cluster file')
                    for p in live:
                        ctx.check(p.pid in listed(L.file), 'refuses to clean up, and forgets a process')
                    for f in ('client', 'engine'):
                        ctx.check(os.path.exists(os.path.join(w.dir, 'security', f'ipcontroller-c-{f}.json')),
                                  'refuses to clean up, and removes connection files')
                    ctx.reach('refused')
                    return
                except Exception as e:
                    ctx.fail(f'clean up: {type(e).__name__}: {e}')
            ctx.check(not live or force, 'cleans up while the cluster runs')
            left = [f for d in ('security', 'log') for f in os.listdir(os.path.join(w.dir, d)) if f != 'sub']
            ctx.check(not left, f'not cleaned up: {left}')
            ctx.check(w.live() == live, 'cleaning up stops processes')
            ctx.reach('cleaned')
    finally:
        if L.cl is not None:
            L.cl.shutdown_atexit = False
        w.close()


def session(ctx, L):
    """with Cluster() as client"""
    import concurrent.futures

    import ipyparallel as ipp

    w = L.w
    n = ctx.choose('n', [1, 2])
    more = ctx.flip('more engines')
    L.cl.n = n
    if ctx.flip('controller first'):
        L.start_controller()
    L.files()
    made = []

    class Client:
        def __init__(self, info, **kw):
            made.append(self)
            self.info, self.kw, self.closed, self.waited = info, kw, 0, []

        def wait_for_engines(self, n=None, *, block=True, timeout=-1, **k):
            self.waited.append(n)
            f = concurrent.futures.Future()
            f.set_result(None)
            return f

        def close(self, *a, **k):
            self.closed += 1

    def body():
        ctx.check(len(made) == 1 and made[0].waited == [n], f'{n} engines, waits for {[c.waited for c in made]}')
        ctx.check(made[0].info['side'] == 'client', 'the client connects as an engine')
        ctx.check(sorted(p.is_controller for p in w.live()) == [False] * n + [True], f'{len(w.live())} processes for {n} engines')
        if ctx.flip('exits'):
            ctx.choose('which', w.live()).exit(ctx.int('code', 0, 255))
            if ctx.flip('settle'):
                w.settle()
        if more:
            with Patch((ipp, 'Client', Client)):
                w.run(L.cl.start_engines(1))
        if ctx.flip('raises'):
            raise KeyError('body')

    with Patch((ipp, 'Client', Client)):
        try:
            if ctx.flip('async'):
                c = w.run(L.cl.__aenter__())
                err = None
                try:
                    body()
                except KeyError as e:
                    err = e
                w.run(L.cl.__aexit__(type(err) if err else None, err, None))
            else:
                with L.cl as c:
                    body()
        except KeyError:
            pass
        except (OSError, RuntimeError, TimeoutError) as e:
            ctx.check(not w.live() or isinstance(e, KeyError), f'a session ends with {e!r}, and processes run')
    ctx.check(not w.live(), f'{len(w.live())} processes run after the session')
    w.settle()
    ctx.check(listed(L.file) is None, 'the session has ended, and there is a cluster file')
    ctx.check(made and all(c.closed for c in made), 'the client of the session stays open')
    ctx.reach('session')


def write(ctx, L):
    """somebody may look, and the writer may die, before any operation on the file"""
    import resource

    w = L.w
    steps = ctx.choose('steps', ['ce', 'e', 'cee', 'c stop e'])
    limit = ctx.choose('crash', [None, 1, 2, 3, 4, 5, 6, 7, 8])
    size = ctx.choose('bytes', [0, 1, 200]) if limit is None else None
    count = [0]
    complete = [None]

    def event(ev, paths):
        if not any('cluster-' in os.path.basename(p) for p in paths):
            return
        count[0] += 1
        look(f'before {ev}')
        if limit is not None and count[0] >= limit:
            raise Crash

    def look(when):
        try:
            got = listed(L.file)
        except ValueError:
            ctx.fail(f'the cluster file is incomplete {when}')
        complete[0] = got

    L.files()
    names = []
    ops = {'c': lambda: w.run(L.cl.start_controller()), 'e': lambda: names.append(w.run(L.cl.start_engines(1))),
           's': lambda: w.run(L.cl.stop_controller())}
    todo = [ops[x] for x in {'c stop e': 'cse'}.get(steps, steps)]
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    try:
        with FileEvents(w.dir, event):
            for n, op in enumerate(todo):
                if size is not None and n == len(todo) - 1:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (size, hard))
                op()
                for e in w.errors:  # of callbacks
                    raise e
                ctx.check(limit is None or count[0] < limit, 'the crash is survived')
                look('after an operation')
    except Crash:
        ctx.reach('crashed')
    except OSError:
        ctx.check(size is not None, 'an error without a reason')
        ctx.reach('disk full')
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    look('after the crash')
    if complete[0] is None:
        return
    with raises_nothing(ctx, 'loading the cluster file'):
        cl = L.reload()
    known = [p for p in w.live() if p.pid in complete[0]]
    w.run(cl.stop_cluster())
    ctx.check(not [p for p in known if p.alive], 'what the file lists cannot be stopped')
    ctx.check(listed(L.file) is None, 'all has stopped, and there is a cluster file')
