"""W01: the cluster web service shows and controls the clusters that run."""
import asyncio
import json
import os
import re
from urllib.parse import quote, unquote

from symx.reg import harness, raises_nothing
from fixtures.procs import Station
from fixtures.wire import Patch


def key_of(p):
    return p.env.get('IPP_PROFILE_DIR'), p.env.get('IPP_CLUSTER_ID')


class Web:
    """the service as the server routes to it"""

    def __init__(self, ctx, w):
        from traitlets.config import Config, Configurable, LoggingConfigurable
        from ipyparallel.nbextension import handlers as H

        web = self
        self.ctx, self.w, self.user = ctx, w, 'me'
        self.routes = []

        class App:
            settings = {'base_url': '/base/'}

            def add_handlers(self, host, routes):
                web.routes += routes

        class Server(LoggingConfigurable):
            web_app = App()

        server = Server(log=w.log, config=Config({'Cluster': {'delay': 0}}))
        self.settings = server.web_app.settings
        H.load_jupyter_server_extension(server)

    async def ask(self, method, path, body=None):
        """status and what is written"""
        from tornado.web import HTTPError

        for pattern, cls in self.routes:
            m = re.match(pattern + '$', path)
            if m:
                break
        else:
            self.ctx.fail(f'no handler for {path}')
        h = self.handler(cls, method, path, body)
        kw = {k: unquote(v) for k, v in m.groupdict().items()}
        args = [] if kw else [unquote(g) for g in m.groups()]
        try:
            r = getattr(h, method.lower())(*args, **kw)
            if r is not None:
                await r
        except HTTPError as e:
            return e.status_code, None
        except Exception as e:
            if os.environ.get('SYMX_TRACE'):
                import traceback

                traceback.print_exc()
            self.last_error = e
            return 500, None
        out = ''.join(h.out)
        return h.status, json.loads(out) if out else None

    def handler(self, cls, method, path, body):
        web = self

        class Request:
            uri = path
            headers = {}

        Request.method = method

        def redirect(self, *a, **k):
            self.status = 302

        def finish(self, chunk=None):
            if chunk is not None:
                self.write(chunk)

        sub = type(cls.__name__, (cls,), dict(
            __init__=lambda self: None, write=lambda self, s: self.out.append(s if isinstance(s, str) else json.dumps(s)), finish=finish,
            set_status=lambda self, s, *a: setattr(self, 'status', s), set_header=lambda self, *a: None, redirect=redirect,
            get_json_body=lambda self: json.loads(json.dumps(body)) if body is not None else None, get_login_url=lambda self: '/login',
            log=web.w.log, settings=web.settings, current_user=web.user, request=Request()))
        h = sub()
        h.out, h.status = [], 200
        return h


class Desk:
    def __init__(self, ctx):
        self.ctx = ctx
        self.w = Station(ctx)
        self.home = os.path.join(self.w.dir, 'ipython')
        self.profiles = {'default': os.path.join(self.home, 'profile_default'), 'x': os.path.join(self.home, 'profile_x'),
                         'out': os.path.join(self.w.dir, 'out side')}
        for p in self.profiles.values():
            for d in ('security', 'log'):
                os.makedirs(os.path.join(p, d))
        self.created = {}  # key -> number of engines: created here and not started or deleted
        self.terminals = {}  # (profile directory, cluster id) -> Cluster
        self.faults = ctx.params.get('faults', 0)

    def patch(self):
        return [self.w.patch(), Patch((os, 'environ', dict(os.environ, IPYTHONDIR=self.home)))]

    def key(self, where):
        d, cid = where
        name = {v: k for k, v in self.profiles.items() if k != 'out'}.get(d, d)
        return f'{name}:{cid}'

    def running(self):
        """(profile directory, cluster id) -> (controllers, engines)"""
        out = {}
        for p in self.w.live():
            out.setdefault(key_of(p), ([], []))[0 if p.is_controller else 1].append(p)
        return out

    def ask(self, method, key=None, body=None):
        path = '/base/ipyparallel/clusters' + ('/' + quote(key, safe='') if key is not None else '')
        return self.web.ask(method, path, body)

    def do(self, method, key=None, body=None):
        return self.w.run(self.ask(method, key, body))

    # what is shown
    def look(self, settled=True):
        ctx = self.ctx
        status, models = self.do('GET')
        ctx.check(status == 200, f'the list of clusters: status {status} {getattr(self.web, "last_error", "")!r}')
        by = {}
        for m in models:
            ctx.check(m['id'] not in by, 'a cluster is listed twice')
            by[m['id']] = m
            where = m['cluster']['profile_dir'], m['cluster']['cluster_id']
            ctx.check(m['id'] == self.key(where), f'{m["id"]} is the key of {where}')
            ctx.check(m['cluster_file'] == os.path.join(where[0], 'security', f'cluster-{where[1]}.json'), 'the cluster file')
        self.shown = by
        if not settled:
            return
        run = self.running()
        for where, (con, eng) in run.items():
            m = by.get(self.key(where))
            ctx.check(m is not None, 'a cluster that runs is not listed')
            ctx.check(bool(m.get('controller')) == bool(con), f'{len(con)} controllers run, shown is {m.get("controller")}')
            self.engines(m, eng)
        for key, m in by.items():
            where = m['cluster']['profile_dir'], m['cluster']['cluster_id']
            if where not in run:
                ctx.check(not m.get('controller') and m['engines']['n'] == 0, 'a cluster is shown as running, and has ended')
        for key, n in self.created.items():
            ctx.check(key in by, 'a new cluster is not listed')
            ctx.check(by[key]['cluster']['n'] == n, 'a new cluster has changed')
        on = [bool(m.get('controller')) for m in models]
        ctx.check(on == sorted(on, reverse=True), 'clusters that run come first')
        for name in ('default', 'x'):
            where = self.profiles[name]
            if not [w for w in run if w[0] == where]:
                ctx.check(any(m['cluster']['profile_dir'] == where for m in models), 'a profile has no cluster to start')

    def engines(self, m, eng):
        """single engines stay until their set ends"""
        ctx = self.ctx
        pids = sorted(p.pid for p in eng)
        shown = []

        def walk(x):
            if isinstance(x, dict):
                for k, v in x.items():
                    if k == 'pid' and isinstance(v, int) and v > 0:
                        shown.append(v)
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)

        walk(m['engines']['sets'])
        ctx.check(set(pids) <= set(shown), f'engines {pids} run, shown are {shown}')
        n = m['engines']['n']
        started = [p for p in self.w.procs if not p.is_controller and p.batch in {e.batch for e in eng}]
        ctx.check(len(eng) <= n <= len(started), f'{n} engines are shown, {len(eng)} run')

    # events
    def event(self, last):
        ctx, w = self.ctx, self.w
        self.last = last
        live = w.live()
        evs = ['create', 'get', 'stranger', 'terminal']
        if self.shown:
            evs += ['start', 'delete'] + ['race'] * last
        if live:
            evs += ['exit', 'stop']
        ev = ctx.choose('event', evs)
        getattr(self, 'ev_' + ev)()
        if last:
            return
        if ctx.flip('settle'):
            w.settle()
            self.look()
        elif ev == 'terminal' or ctx.flip('look'):
            self.look(settled=False)

    def ev_create(self):
        ctx = self.ctx
        form = ctx.choose('cluster', [{}, {'profile': 'x', 'n': 3}, {'profile': 'x', 'cluster_id': 'a'}, {'profile': None, 'cluster_id': '', 'n': None},
                                      {'profile': 'out', 'cluster_id': 'a', 'n': 2}, {'profile': 'out', 'n': 1}])
        body = dict(form)
        if body.get('profile') == 'out':
            body['profile'] = self.profiles['out']
        before = dict(self.web.settings['cluster_manager'].clusters)
        n = len(self.w.procs)
        status, m = self.do('POST', None, body)
        ctx.check(len(self.w.procs) == n, 'creating a cluster starts it')
        where = self.profiles[form.get('profile') or 'default']
        if status != 200:
            cid = form.get('cluster_id')
            ctx.check(cid and self.key((where, cid)) in before, f'a cluster cannot be created: {self.web.last_error!r}')
            ctx.check(dict(self.web.settings['cluster_manager'].clusters) == before, 'a refused cluster changes others')
            ctx.reach('exists')
            return
        ctx.check(m['cluster']['profile_dir'] == where, f'a cluster of {where} is in {m["cluster"]["profile_dir"]}')
        cid = m['cluster']['cluster_id']
        if form.get('cluster_id'):
            ctx.check(cid == form['cluster_id'], f'cluster id {cid}')
        ctx.check(m['id'] == self.key((where, cid)), 'the key')
        ctx.check(m['id'] not in before, 'a cluster replaces another one')
        ctx.check(m['cluster']['n'] == form.get('n'), 'number of engines')
        self.created[m['id']] = form.get('n')
        self.shown[m['id']] = m

    def some(self):
        """a key that is known, or is not"""
        return self.ctx.choose('key', sorted(self.shown) + ['no:such'])

    def where(self, key):
        m = self.shown[key]['cluster']
        return m['profile_dir'], m['cluster_id']

    def ev_get(self):
        ctx = self.ctx
        key = self.some()
        status, m = self.do('GET', key)
        if key not in self.shown:
            ctx.check(status == 404, f'no such cluster: {status}')
            return
        ctx.check(status == 200 and m['id'] == key, f'a cluster is shown: {status}')
        ctx.check((m['cluster']['profile_dir'], m['cluster']['cluster_id']) == self.where(key), 'another cluster is shown')

    def ev_start(self):
        ctx, w = self.ctx, self.w
        key = self.some()
        n = ctx.choose('n', [None, 1, '1'])
        where = self.where(key) if key in self.shown else None
        before = self.running().get(where, ([], []))
        others = [p for p in w.live() if key_of(p) != where]
        first = len(w.procs)
        k = ctx.choose('no process', [None, 0, 1, 2]) if self.faults else None
        w.spawn_faults = [w.spawns + k] if k is not None else []
        status, m = self.do('POST', key, None if n is None else {'n': n})
        w.spawn_faults = []
        new = w.procs[first:]
        if where is None or n == '1':
            ctx.check(status == (404 if where is None else 400), f'start of {"an unknown cluster" if where is None else "1 engines"}: {status}')
            ctx.check(not new, 'a process is started')
            return
        self.created.pop(key, None)
        ctx.check(not [p for p in others if not p.alive], 'a start ends other clusters')
        ctx.check(all(key_of(p) == where for p in new), f'started {[key_of(p) for p in new]}, not {where}')
        con, eng = self.running().get(where, ([], []))
        if status != 200:
            ctx.check(k is not None or self.lost(key), f'a cluster is not started: {self.web.last_error!r}')
            ctx.check(eng == before[1], 'a start failed, and some engines are left')
            if k is not None:
                self.faults -= 1
            ctx.check(len(con) <= 1, f'{len(con)} controllers')
            if k == 0 and not before[0]:
                # nothing has been started
                w.settle()
                status, m = self.do('POST', key, None if n is None else {'n': n})
                ctx.check(status == 200, f'after a failure, a cluster cannot be started: {self.web.last_error!r}')
                con, eng = self.running().get(where, ([], []))
                ctx.check(len(con) == 1, f'{len(con)} controllers')
                ctx.reach('started again')
            return
        ctx.check(len(con) == 1, f'{len(con)} controllers after the start')
        ctx.check(m['id'] == key and m.get('controller'), 'the start shows a cluster without a controller')
        want = n or self.shown[key]['cluster']['n'] or CPUS
        ctx.check(len(eng) - len([p for p in before[1] if p.alive]) == want, f'{len(eng)} engines after the start of {want}')
        self.engines(m, eng)
        ctx.reach('started')

    def lost(self, key):
        """its controller has ended, and this is not seen yet"""
        where = self.where(key)
        return bool(self.shown[key].get('controller')) and not self.running().get(where, ([], []))[0]

    def ev_delete(self):
        ctx, w = self.ctx, self.w
        key = self.some()
        where = self.where(key) if key in self.shown else None
        others = [p for p in w.live() if key_of(p) != where]
        signals = {p: list(p.signals) for p in others}
        if self.last and where in self.running() and ctx.flip('list'):
            status, m = w.run(self.meanwhile(key))
            again = None
        else:
            status, m = self.do('DELETE', key)
            again = self.do('GET', key)[0]
        if where is None:
            ctx.check(status == 404, f'no such cluster: {status}')
            return
        self.gone(key, where, others, signals)
        ctx.check(status == 204, f'a cluster is deleted: {status} {getattr(self.web, "last_error", "")!r}')
        ctx.check(again in (404, None), 'a deleted cluster is known')
        ctx.reach('deleted')
        del self.shown[key]

    def gone(self, key, where, others, signals):
        ctx = self.ctx
        self.created.pop(key, None)
        con, eng = self.running().get(where, ([], []))
        ctx.check(not con and not eng, f'a cluster is deleted, and {len(con)} controllers and {len(eng)} engines run')
        for p in others:
            ctx.check(p.alive and p.signals == signals[p], f'the end of another cluster: {p.signals}')
        ctx.check(not os.path.exists(os.path.join(where[0], 'security', f'cluster-{where[1]}.json')), 'a deleted cluster has a cluster file')

    async def until(self, task, most):
        """some steps further"""
        for i in range(most):
            if task.done() or self.ctx.flip('now'):
                return
            await _sleep(0)

    async def meanwhile(self, key):
        """the list is asked for while a cluster is deleted"""
        ctx = self.ctx
        t = asyncio.ensure_future(self.ask('DELETE', key))
        await self.until(t, 6)
        for x in list(self.w.threads):
            x.run_now()
        status, models = await self.ask('GET')
        ctx.check(status == 200, f'the list while a cluster is deleted: {getattr(self.web, "last_error", "")!r}')
        ctx.reach('listed meanwhile')
        return await t

    def ev_race(self):
        """two requests at once"""
        ctx, w = self.ctx, self.w
        key = ctx.choose('key', sorted(self.shown))
        where = self.where(key)
        a, b = ctx.choose('requests', [('start', 'start'), ('start', 'delete'), ('delete', 'delete'), ('start', 'list')])
        ask = {'start': lambda: self.ask('POST', key, {'n': 1}), 'delete': lambda: self.ask('DELETE', key), 'list': lambda: self.ask('GET')}
        others = [p for p in w.live() if key_of(p) != where]
        signals = {p: list(p.signals) for p in others}
        before = self.running().get(where, ([], []))

        async def both():
            t = asyncio.ensure_future(ask[a]())
            await self.until(t, 6)
            s = asyncio.ensure_future(ask[b]())
            return await t, await s

        (s, m), (s2, m2) = w.run(both())
        con, eng = self.running().get(where, ([], []))
        ctx.check(len(con) <= 1, f'{len(con)} controllers of one cluster')
        for p in others:
            ctx.check(p.alive and p.signals == signals[p], f'the end of another cluster: {p.signals}')
        if a == 'start':
            self.created.pop(key, None)
        if b == 'list':
            ctx.check(s == 200 and s2 == 200 or self.lost(key), f'a start and a list: {s}, {s2} {getattr(self.web, "last_error", "")!r}')
        if a == 'start' and b != 'delete' and not self.lost(key):
            ctx.check(len(con) == 1, 'it is not started')
            ctx.check(len(eng) == len(before[1]) + (s == 200) + (b == 'start' and s2 == 200), f'{len(eng)} engines after {s}, {s2}')
        if (a, b) == ('delete', 'delete'):
            self.gone(key, where, others, signals)
            ctx.check(204 in (s, s2), f'deleted twice: {s}, {s2}')
            self.shown.pop(key)
        if b == 'delete':
            self.created.pop(key, None)
        ctx.reach('race')
        w.settle()
        self.look()

    def ev_stranger(self):
        """without a login"""
        ctx, w = self.ctx, self.w
        self.web.user = None
        before = dict(self.web.settings['cluster_manager'].clusters)
        n, signals = len(w.procs), [list(p.signals) for p in w.procs]
        for method, key in (('GET', False), ('POST', False), ('GET', True), ('POST', True), ('DELETE', True)):
            for k in sorted(self.shown)[:1] if key else [None]:
                status, m = self.do(method, k, {'n': 1} if method == 'POST' else None)
                ctx.check(status in (302, 401, 403) and m is None, f'{method} without a login: {status}')
        self.web.user = 'me'
        ctx.check(dict(self.web.settings['cluster_manager'].clusters) == before, 'clusters change without a login')
        ctx.check(len(w.procs) == n and [p.signals for p in w.procs] == signals, 'processes change without a login')
        ctx.reach('stranger')

    def ev_terminal(self):
        """ipcluster in a terminal starts a cluster, or goes on to start one"""
        from ipyparallel.cluster.cluster import Cluster

        ctx, w = self.ctx, self.w
        where = ctx.choose('cluster', [(self.profiles['default'], ''), (self.profiles['x'], 'a'), (self.profiles['x'], '')])
        con, eng = self.running().get(where, ([], []))
        cl = self.terminals.get(where)
        if con:
            if not cl or cl.controller is None or not cl.controller.running or eng:
                ctx.cut('it runs')
        elif eng:
            ctx.cut('it runs')
        else:
            w.settle()
            from traitlets.config import Config

            cl = self.terminals[where] = Cluster(profile_dir=where[0], cluster_id=where[1], delay=0, log=w.log, shutdown_atexit=False, config=Config())
            w.run(cl.start_controller())
            self.created.pop(self.key(where), None)
            if ctx.flip('goes on later'):
                ctx.reach('two steps')
                return
        w.run(cl.start_engines(2))
        ctx.reach('terminal')

    def ev_exit(self):
        ctx, w = self.ctx, self.w
        where = ctx.choose('cluster', sorted(self.running()))
        con, eng = self.running()[where]
        which = ctx.choose('exits', ['all'] + ['controller'] * bool(con) + ['engines', 'an engine'] * bool(eng))
        for p in {'all': con + eng, 'controller': con, 'engines': eng, 'an engine': eng[:1]}[which]:
            p.exit(ctx.int('code', 0, 255))
        ctx.reach('exit')

    def ev_stop(self):
        """ipcluster stop in a terminal"""
        from ipyparallel.cluster.cluster import Cluster
        from traitlets.config import Config

        ctx, w = self.ctx, self.w
        where = ctx.choose('cluster', sorted(self.running()))
        with raises_nothing(ctx, 'another process stops the cluster'):
            cl = Cluster.from_file(os.path.join(where[0], 'security', f'cluster-{where[1]}.json'), log=w.log, config=Config())
            w.run(cl.stop_cluster())
        ctx.check(where not in self.running(), 'another process has stopped the cluster, and parts run')
        ctx.reach('stopped elsewhere')


CPUS = 2
_sleep = asyncio.sleep


@harness('W01', 'desk', quick=({'events': 2}, {'events': 1, 'faults': 1}), thorough=({'events': 3}, {'events': 2, 'faults': 1}),
         labels=('started', 'deleted', 'exit', 'terminal', 'stranger', 'stopped elsewhere', 'race', 'exists', 'listed meanwhile'),
         bounds='histories of 2 (thorough: 3) of: create, start, show or delete a cluster (or one that does not exist), a list or another request '
                'at any step of the last one, requests without a login, a terminal starts (in one step or two) or stops a cluster, processes exit, '
                'with symbolic codes, exits are noticed or not; three profiles, one outside of the IPython directory; a process that fails to '
                'start. What terminals do is listed before the next request.',
         stubs='routing and authentication of the server, processes as in L01; connection files are written when a controller starts')
def desk(ctx):
    ctx.lazy_str = ctx.const_hash = True
    D = Desk(ctx)
    w = D.w
    try:
        a, b = D.patch()
        with a, b, Patch((os, 'cpu_count', lambda *a: CPUS)):
            D.web = Web(ctx, w)
            D.look()
            for i in range(ctx.params['events']):
                D.event(i == ctx.params['events'] - 1)
            w.settle()
            D.look()
            # all can be stopped
            for key in sorted(D.shown):
                status, m = D.do('DELETE', key)
                ctx.check(status == 204, f'a cluster is deleted: {status} {getattr(D.web, "last_error", "")!r}')
            ctx.check(not w.live(), 'all clusters are deleted, and some run')
            w.settle()
            D.created = {}
            D.look()
    finally:
        if hasattr(D, 'web'):
            for cl in D.web.settings['cluster_manager'].clusters.values():
                cl.shutdown_atexit = False
        w.close()
