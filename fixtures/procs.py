"""The real Cluster and launchers over recorded processes: Popen, psutil, threads and clocks are stand-ins.
No process is started and no signal is sent."""
import asyncio
import collections
import contextlib
import importlib.metadata
import json
import os
import shutil
import signal
import tempfile
import types

from fixtures.wire import NullLog, Patch
from fixtures.wiring import Names


_known = []


def distributions(**k):
    """of installed packages, which are read once"""
    if not _known:
        for d in _distributions():
            _known.append(types.SimpleNamespace(_normalized_name=getattr(d, '_normalized_name', d.name), entry_points=d.entry_points, metadata=d.metadata, name=d.name))
    return iter(_known)


_distributions = importlib.metadata.distributions


class Blocked(BaseException):
    """a thread waits for a process that has not exited"""


class Proc:
    def __init__(self, world, args, env, stdout):
        self.world = world
        self.pid = 1000 + len(world.procs)
        self.args, self.env = list(args), dict(env)
        self.alive = True
        self.code = None
        self.signals = []
        self.ignores_term = world.ignores_term
        self.stuck = False
        self.log = os.dup(stdout) if stdout is not None else None
        self.noticed = False
        world.procs.append(self)

    @property
    def is_controller(self):
        return any('controller' in str(a) for a in self.args)

    def exit(self, code, output=b''):
        if self.log is not None:
            if output:
                os.write(self.log, output)
            os.close(self.log)
            self.log = None
        self.alive = False
        self.code = code

    def deliver(self, sig):
        self.signals.append(int(sig))
        if sig == signal.SIGKILL and not self.stuck or sig == signal.SIGTERM and not self.ignores_term and not self.stuck:
            self.exit(-int(sig), self.world.output)


class Handle:
    """psutil.Process and Popen"""

    def __init__(self, proc):
        self._p = proc
        self.pid = proc.pid

    @property
    def returncode(self):
        return self._p.code

    def is_running(self):
        return self._p.alive

    def wait(self, timeout=None):
        import psutil

        w = self._p.world
        if self._p.alive:
            if w.waiting or timeout is None:
                raise Blocked
            w.now += timeout
            raise psutil.TimeoutExpired(timeout, self.pid)
        return self._p.code

    def poll(self):
        return None if self._p.alive else self._p.code

    def send_signal(self, sig):
        import psutil

        if not self._p.alive:
            raise psutil.NoSuchProcess(self.pid)
        self._p.deliver(sig)

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def kill(self):
        self.send_signal(signal.SIGKILL)


class World:
    """processes, threads, files and an event loop"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.procs = []
        self.threads = []
        self.dir = tempfile.mkdtemp(prefix='procs')
        self.output = b''
        self.spawn_faults = []  # indices of spawns that fail
        self.spawns = 0
        self.now = 100.0
        self.on_sleep = None
        self.waiting = False  # in a thread
        self.naps = 0
        self.ignores_term = False  # new processes
        self.errors = []
        self.loop = asyncio.SelectorEventLoop()
        self.loop.set_exception_handler(self._error)
        self.log = NullLog()

    def _error(self, loop, context):
        self.errors.append(context.get('exception') or context.get('message'))

    def close(self):
        for p in self.procs:
            if p.log is not None:
                os.close(p.log)
                p.log = None
        tasks = asyncio.all_tasks(self.loop)
        for t in tasks:
            t.cancel()
        if tasks:
            with contextlib.suppress(BaseException):
                self.loop.run_until_complete(asyncio.gather(*tasks, return_exceptions=True))
        self.loop.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def live(self):
        return [p for p in self.procs if p.alive]

    # stand-ins
    def popen(self, args, stdout=None, env=None, **k):
        n, self.spawns = self.spawns, self.spawns + 1
        if n in self.spawn_faults:
            raise OSError(11, 'cannot start a process')
        return Handle(Proc(self, args, env, stdout))

    def process(self, pid):
        import psutil

        if pid < 0:
            raise ValueError(f'pid must be a positive integer (got {pid})')
        for p in self.procs:
            if p.pid == pid and p.alive:
                return Handle(p)
        raise psutil.NoSuchProcess(pid)

    def process_now(self, pid):
        """right after the start; a zombie is still there"""
        for p in self.procs:
            if p.pid == pid:
                return Handle(p)

    def thread(self):
        world = self

        class FakeThread:
            def __init__(self, target=None, args=(), kwargs=None, **k):
                self.target, self.args, self.kwargs = target, args, kwargs or {}
                self.done = False
                self.started = False

            def start(self):
                self.started = True
                world.threads.append(self)

            def run_now(self):
                """as far as it goes: it waits for a process, or ends"""
                if self.started and not self.done:
                    world.waiting, before, world.naps = True, world.waiting, 0
                    try:
                        self.target(*self.args, **self.kwargs)
                    except Blocked:
                        return
                    except OSError:
                        pass  # printed, and it ends
                    finally:
                        world.waiting = before
                    self.done = True

            def join(self, timeout=None):
                self.run_now()
                if not self.done and timeout is None:
                    world.ctx.fail('waits for ever')

            def is_alive(self):
                return self.started and not self.done

        return FakeThread

    def io_loop(self):
        from tornado.ioloop import IOLoop

        world = self

        class L:
            @property
            def __class__(self):
                return IOLoop

            def add_callback(self, f, *a, **k):
                world.loop.call_soon(f, *a, **k)

            def call_later(self, t, f, *a, **k):
                world.loop.call_soon(f, *a, **k)

            def time(self):
                return world.now

        return L()

    async def sleep(self, t, *a):
        self.now += t
        if self.on_sleep:
            self.on_sleep()
        await _sleep(0)

    def patch(self):
        import time

        import psutil
        from ipyparallel.cluster import cluster as C
        from ipyparallel.cluster import launcher as L

        def clock_sleep(t):
            self.now += t
            if self.waiting:
                self.naps += 1
                if self.naps > 3:
                    raise Blocked

        clock = Names(time, sleep=clock_sleep, monotonic=lambda: self.now, time=lambda: 1e9 + self.now)
        aio = Names(asyncio, sleep=self.sleep)
        loop = self.io_loop()
        return Patch((L, 'Popen', self.popen), (L, 'psutil', Names(psutil, Process=self.process)), (L, 'Thread', self.thread()),
                     (L, 'time', clock), (C, 'time', clock), (L, 'asyncio', aio), (C, 'asyncio', aio),
                     (L, 'ioloop', Names(L.ioloop, IOLoop=Names(L.ioloop.IOLoop, current=lambda *a, **k: loop))), (C, '_atexit_clusters', set()),
                     (C, 'atexit', Names(None, register=lambda *a: None)), (L, 'check_output', self.forbidden),
                     (importlib.metadata, 'distributions', distributions))

    def forbidden(self, *a, **k):
        self.ctx.fail(f'starts {a}')

    # driving
    def run(self, coro):
        """until it returns"""
        return self.loop.run_until_complete(coro)

    def drain(self):
        """callbacks of the event loop"""
        async def nothing():
            for _ in range(6):
                await _sleep(0)

        self.loop.run_until_complete(nothing())

    def settle(self):
        """every thread goes as far as it goes, and the loop runs its callbacks"""
        for t in list(self.threads):
            t.run_now()
        self.threads = [t for t in self.threads if not t.done]
        self.drain()


_sleep = asyncio.sleep


class Station(World):
    """controllers write their connection files at once"""

    def popen(self, args, stdout=None, env=None, **k):
        h = super().popen(args, stdout=stdout, env=env, **k)
        p = h._p
        p.batch = asyncio.current_task()  # one for each request
        if p.is_controller:
            d = os.path.join(p.env['IPP_PROFILE_DIR'], 'security')
            os.makedirs(d, exist_ok=True)
            for side in ('client', 'engine'):
                with open(os.path.join(d, f'ipcontroller-{p.env["IPP_CLUSTER_ID"]}{"-" * bool(p.env["IPP_CLUSTER_ID"])}{side}.json'), 'w') as f:
                    json.dump({'side': side, 'key': f'{p.pid}'}, f)
        return h


class Remote(World):
    """also runs what is sent to other hosts by ssh and scp: the real receiver, where it can reach nothing real"""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.fs = {}  # (host, path) -> text
        self.here = None  # host whose code is running
        self.location = None
        self.environ = {}
        self.printed = []
        self.preset = {'HOME': '/home'}  # environment on every host
        self.connections = []  # (location, options) of each ssh and scp
        self.publish = None  # controllers write their connection files at once
        self.copy_faults = []  # numbers of copies that fail
        self.copies = 0
        self.removed = []

    def locate(self, location):
        return location.rsplit('@', 1)[-1]

    def options(self, cmd):
        opts, i = [], 1
        while i < len(cmd) and cmd[i].startswith('-'):
            opts.append((cmd[i], cmd[i + 1]))
            i += 2
        return opts, cmd[i:]

    def check_output(self, cmd, input=None, text=False, universal_newlines=False, **k):
        cmd = list(cmd)
        self.now += 0.01
        if cmd[0] == 'scp':
            opts, rest = self.options(cmd)
            if len(rest) != 2:
                self.ctx.fail(f'scp {rest}')
            out = self.copy(rest[0], rest[1], opts, cmd)
        elif cmd[0] == 'ssh':
            opts, rest = self.options(cmd)
            location, rest = rest[0], rest[1:]
            self.connections.append((location, dict(opts).get('-p'), opts))
            out = self.remote(location, rest, input, cmd)
        else:
            self.ctx.fail(f'starts {cmd}')
        return out if text or universal_newlines else out.encode()

    def split(self, where):
        loc, sep, path = where.partition(':')
        return (self.locate(loc), path, loc) if sep else (None, where, None)

    def copy(self, src, dst, opts, cmd):
        from subprocess import CalledProcessError

        h, p, loc = self.split(src)
        g, q, loc2 = self.split(dst)
        self.connections.append((loc or loc2, dict(opts).get('-P'), opts))
        n, self.copies = self.copies, self.copies + 1
        if (h is None) == (g is None):
            self.ctx.fail(f'copies {src} to {dst}')
        if n in self.copy_faults:
            raise CalledProcessError(1, cmd)
        try:
            if h is None:
                with open(p) as f:
                    self.fs[g, q] = f.read()
            else:
                text = self.fs[h, p]
                with open(q, 'w') as f:
                    f.write(text)
        except (KeyError, OSError):
            raise CalledProcessError(1, cmd)
        return ''

    def remote(self, location, args, code, cmd):
        from subprocess import CalledProcessError

        if len(args) == 1 and args[0].startswith('echo'):
            return 'OS-WIN-CMD=%OS%;OS-WIN-PW=:OS;OS-LINUX=linux-gnu;SHELL=/bin/bash\n'
        if args[1:] == ['--version'] or args[1:4] == ['-m', 'IPython', 'profile']:
            return ''
        if len(args) != 1 or not code:
            self.ctx.fail(f'{location} runs {args}')
        before = self.here, self.environ, self.printed, self.location
        self.here, self.environ, self.printed = self.locate(location), dict(self.preset), []
        self.location = location
        try:
            exec(code, self.scope('__main__'))
        except Exception as e:
            self.remote_error = e
            raise CalledProcessError(1, cmd)
        finally:
            out = ''.join(self.printed)
            self.here, self.environ, self.printed, self.location = before
        return out

    def scope(self, name):
        """names for code on another host"""
        import builtins
        import types

        world = self

        class Only:
            """a module with these names alone"""

            def __init__(self, _name, **kw):
                self.__dict__.update(kw, _name=_name)

            def __getattr__(self, x):
                if x.startswith('__'):
                    raise AttributeError(x)
                world.ctx.fail(f'uses {self._name}.{x} on another host')

        fs = self.fs
        path = Only('os.path', exists=self.exists, isfile=lambda p: (self.here, p) in fs, isdir=lambda p: self.exists(p) and (self.here, p) not in fs,
                    join=os.path.join, basename=os.path.basename, dirname=os.path.dirname, expanduser=lambda p: p)

        def makedirs(p, *a, **k):
            fs[self.here, p.rstrip('/') + '/'] = None

        def remove(p):
            if (self.here, p) not in fs:
                raise FileNotFoundError(p)
            del fs[self.here, p]

        def rmtree(p, *a, **k):
            gone = [f for f in fs if f[0] == self.here and f[1].startswith(p.rstrip('/') + '/')]
            if not gone:
                raise FileNotFoundError(p)
            for f in gone:
                del fs[f]

        mods = {
            'os': Only('os', kill=self.remote_kill, environ=self.environ, getenv=self.environ.get, path=path, makedirs=makedirs, mkdir=makedirs, remove=remove,
                       unlink=remove, name='posix', sep='/', devnull='/dev/null'),
            'os.path': path,
            'subprocess': Only('subprocess', Popen=self.remote_popen, DEVNULL=-3, STDOUT=-2, PIPE=-1),
            'shutil': Only('shutil', rmtree=rmtree),
        }
        real = builtins.__import__

        def imp(name, glob=None, loc=None, fromlist=(), level=0):
            if name in mods:
                return mods[name] if fromlist or '.' not in name else mods[name.split('.')[0]]
            if name == 'ipyparallel.cluster.shellcmd_receive':
                return world.receiver(mods)
            if name in ('ipyparallel.cluster.launcher', 'base64', 'json', 'logging', 'sys', 'abc', 'contextlib', 'pathlib', 'random', 'signal', 'time',
                        'functools', 'typing', 'collections', 'errno', '__future__'):
                return real(name, glob, loc, fromlist, level)
            world.ctx.fail(f'imports {name} on another host')

        b = dict(vars(builtins), __import__=imp, open=self.remote_open, print=self.print)
        return {'__name__': name, '__builtins__': b}

    _code = None

    def receiver(self, mods):
        import types
        from ipyparallel.cluster import shellcmd_receive as R

        if Remote._code is None or Remote._code[0] != R.__file__:
            with open(R.__file__) as f:
                Remote._code = R.__file__, compile(f.read(), R.__file__, 'exec')
        scope = self.scope(R.__name__)
        exec(Remote._code[1], scope)
        return Names(None, **{k: v for k, v in scope.items() if k != '__builtins__'})

    def exists(self, p):
        return any(h == self.here and (q == p or q.startswith(p.rstrip('/') + '/')) for h, q in self.fs)

    def remote_popen(self, args, stdout=None, stderr=None, stdin=None, env=None, **k):
        n, self.spawns = self.spawns, self.spawns + 1
        if n in self.spawn_faults:
            raise OSError(11, 'cannot start a process')
        self.ctx.check(stdout is not None and stderr is not None and stdin is not None, 'a process on another host keeps the connection open')
        p = Proc(self, args, self.environ if env is None else env, None)
        p.host, p.location, p.outfile = self.here, self.location, stdout
        p.files = {q: text for (h, q), text in self.fs.items() if h == self.here}
        if p.is_controller and self.publish:
            self.publish(p)
        return Handle(p)

    def process(self, pid):
        import psutil

        if pid < 0:
            raise ValueError(f'pid must be a positive integer (got {pid})')
        for p in self.procs:
            if p.pid == pid and p.alive and getattr(p, 'host', None) == self.here:
                return Handle(p)
        raise psutil.NoSuchProcess(pid)

    def remote_kill(self, pid, sig=0):
        for p in self.procs:
            if p.pid == pid and p.alive and p.host == self.here:
                if sig:
                    p.deliver(sig)
                return
        raise ProcessLookupError(pid)

    def remote_open(self, path, mode='r', *a, **k):
        import io

        if 'w' in mode:
            self.fs[self.here, path] = ''
            out = io.StringIO()
            out.path = path
            return out
        if 'a' in mode:
            self.ctx.fail(f'appends to {path} on another host')
        return io.StringIO(self.fs[self.here, path])

    def print(self, *a, **k):
        self.printed.append(' '.join(str(x) for x in a) + '\n')

    def patch(self):
        import concurrent.futures

        from ipyparallel.cluster import launcher as L
        from ipyparallel.cluster import shellcmd as S

        world = self

        class Inline:
            def __init__(self, *a, **k):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def submit(self, f, *a, **k):
                fut = concurrent.futures.Future()
                t = world.now
                try:
                    end, v = fut.set_result, f(*a, **k)
                except Exception as e:
                    end, v = fut.set_exception, e

                def later(n):
                    if n and world.now > t + 0.1:  # others go on while this waits
                        world.loop.call_soon(later, n - 1)
                    else:
                        end(v)

                later(8)
                return fut

        base = super().patch()
        return Patch(*base.triples, (L, 'check_output', self.check_output), (S, 'check_output', self.check_output),
                     (S, 'Popen', self.forbidden), (L, 'print', self.print), (L, 'ThreadPoolExecutor', Inline))


class Batch(World):
    """batch systems: interprets scripts that are submitted"""

    def __init__(self, ctx, system):
        super().__init__(ctx)
        self.system = system
        self.jobs = {}  # id -> Job
        self.fault = None
        self.commands = []

    def check_output(self, cmd, input=None, stdin=None, env=None, **k):
        from subprocess import CalledProcessError

        cmd = list(cmd)
        self.commands.append(cmd)
        name = cmd[0]
        if name in ('qsub', 'sbatch', 'condor_submit', 'bsub'):
            self.ctx.check(len(cmd) == (1 if name == 'bsub' else 2), f'submits {cmd}')
            if name == 'bsub':
                text = input if input is not None else stdin.read()
                text = text.decode() if isinstance(text, bytes) else text
            else:
                with open(cmd[1]) as f:
                    text = f.read()
            out = self.submit(text, os.environ if env is None else env, cmd)
        elif name in ('qdel', 'scancel', 'bkill', 'condor_rm', 'qsig'):
            if len(cmd) == 4 and cmd[1] == '-s' and name != 'qdel':
                sig, ids = int(cmd[2]), cmd[3:]
            else:
                sig, ids = signal.SIGKILL, cmd[1:]
                self.ctx.check(name != 'qsig', f'runs {cmd}')
            for i in ids:
                if i not in self.jobs or not self.jobs[i].alive:
                    raise CalledProcessError(1, cmd)
                self.jobs[i].deliver(sig)
            out = ''
        else:
            self.ctx.fail(f'runs {cmd}')
        return out.encode()

    def popen(self, args, shell=False, env=None, **k):
        import re

        m = re.match(r'^\s*(\S+)\s*<\s*("?)([^"]*)\2\s*$', args) if shell and isinstance(args, str) else None
        if not m:
            self.ctx.fail(f'starts {args}')
        with open(m.group(3)) as f:
            text = f.read()
        try:
            out = self.check_output([m.group(1)], input=text, env=env)
        except Exception:
            out = b''

        class P:
            returncode = 0

            def communicate(self, *a, **k):
                return out, None

            def wait(self, *a, **k):
                return 0

        return P()

    def submit(self, text, env, cmd):
        from subprocess import CalledProcessError

        if self.fault == 'fails':
            raise CalledProcessError(1, cmd)
        if self.fault == 'no id':
            return 'what?\n'
        job = Job(self, text, dict(env), str(41 + len(self.procs)))
        self.procs.append(job)
        self.jobs[job.id] = job
        return {'pbs': '{}.server\n', 'sge': 'Your job-array {}.1-9:1 ("x") has been submitted\n', 'slurm': 'Submitted batch job {}\n',
                'lsf': 'Job <{}> is submitted to queue <normal>.\n',
                'htcondor': 'Submitting job(s)..\n2 job(s) submitted to cluster {}.\n'}[self.system].format(job.id)

    def patch(self):
        from ipyparallel.cluster import launcher as L

        return Patch(*super().patch().triples, (L, 'check_output', self.check_output))


class Job:
    log = None

    def __init__(self, world, text, env, id):
        import re
        import shlex

        self.world, self.text, self.id = world, text, id
        self.pid = int(id)
        self.alive = True
        self.signals = []
        self.code = None
        ctx = world.ctx
        system = world.system
        lines = [x.strip() for x in text.splitlines()]
        if system == 'htcondor':
            d = {}
            self.n = None
            for x in lines:
                if x.startswith('queue'):
                    self.n = int(x[5:] or 1)
                elif '=' in x and not x.startswith('#'):
                    k, v = x.split('=', 1)
                    d[k.strip().lower()] = v.strip()
            a = d['arguments']
            self.args = [d['executable']] + shlex.split(a[1:-1] if a[:1] == '"' else a)
            self.env = env if d.get('getenv', '').lower() == 'true' else {}
            self.output, self.queue, self.options = None, None, d
            return
        mark = {'pbs': '#PBS', 'sge': '#$', 'slurm': '#SBATCH', 'lsf': '#BSUB'}[system]
        rest = [x for x in lines if x and not x.startswith('#')]
        ctx.check(len(rest) == 1, f'the script runs {rest}')
        # directives end at the first command
        words = []
        for x in lines:
            if x == rest[0]:
                break
            if x.startswith(mark):
                words.append(shlex.split(x[len(mark):].replace('=', ' ', 1) if system == 'slurm' else x[len(mark):]))
        opts = {}
        for w in words:
            while w:
                k, v = w.pop(0), None
                if w and not w[0].startswith('-'):
                    v = w.pop(0)
                opts.setdefault(k, []).append(v)
        self.options = opts
        last = lambda *ks: [v for k in ks for v in opts.get(k, ())][-1:] or [None]
        self.args = shlex.split(rest[0])
        srun = self.args[0] == 'srun'
        if srun:
            self.args.pop(0)
        if system in ('pbs', 'sge'):
            t = last('-t')[0]
            self.n = 1 if t is None else int(re.fullmatch(r'1-(\d+)', t).group(1))
            self.env = env if '-V' in opts else {}
            self.output, self.queue = last('-o')[0], last('-q')[0]
        elif system == 'slurm':
            self.n = int(last('--ntasks', '-n')[0] or 1) if srun else 1
            self.env = env if last('--export')[0] in (None, 'ALL') else {}
            self.output, self.queue = last('--output', '-o')[0], last('--partition', '-p')[0]
        else:
            arrays = [re.search(r'\[1-(\d+)\]', v or '') for v in opts.get('-J', ())]
            self.n = max([int(m.group(1)) for m in arrays if m] or [1])
            self.env = env
            self.output, self.queue = last('-o', '-oo')[0], last('-q')[0]

    @property
    def is_controller(self):
        return any('controller' in str(a) for a in self.args)

    def deliver(self, sig):
        self.signals.append(int(sig))
        if sig in (signal.SIGKILL, signal.SIGTERM):
            self.alive = False
