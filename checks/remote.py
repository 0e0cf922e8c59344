"""L02: engines and controllers that are started with ssh or a batch system are those that are configured."""
import copy
import json
import os
import signal
import subprocess

from symx.reg import harness, raises_nothing
from fixtures.procs import Batch, Remote
from checks.launch import Life, listed

ODD = 'it\'s "x" $HOME `b` \\ \n%é;&'
PY = ['python3', '-m', 'ipyparallel.engine']


@harness('L02', 'hosts', quick=({'n': [1, 3], 'third': False, 'few': True}, {'n': [4], 'third': True, 'few': True}),
         thorough=({'n': [1, 2, 3, 4, 6], 'third': True, 'few': False},), labels=('two rounds', 'taken over', 'files sent'),
         bounds='2-3 hosts with 0-2 engines each, given as a number, with arguments, or with several settings; users and ports per host; two '
                'sets of engines; own remote profile; another process takes over and stops them',
         stubs='as L01 life; ssh and scp run the real receiver code with stand-ins for processes and files of each host')
def hosts(ctx):
    ctx.lazy_str = ctx.const_hash = True
    L = Life(ctx, 'ssh')
    w = L.w
    L.dead, L.faults = [], 0
    own = ctx.flip('own profile')
    remote_dir = 'elsewhere/profile' if own else w.dir
    few = ctx.params['few']
    base = [('-o', 'A=b')] if (own if few else ctx.flip('ssh args')) else []
    counts, form = [], ctx.choose('form', ['number', 'args', 'dict', 'list'])
    engines, want = {}, []

    def host(key, loc, port, n, form):
        args, cmd = ['--all', ODD], PY
        if form == 'number':
            engines[key] = n
        elif form in ('args', 'list'):
            args = ['--here', 'a b']
            engines[key] = (n, args) if form == 'args' else [n, args]
        else:
            cmd = ['/venv/python', '-m', 'ipyparallel.engine']
            engines[key] = {'n': n, 'engine_cmd': cmd}
        want.append((key, loc, port, n, cmd + args))

    host('alpha', 'alpha', None, ctx.choose('alpha', [0, 2] if few else [0, 1, 2]), form)
    host('you@beta:2200', 'you@beta', '2200', ctx.choose('beta', [1, 2] if few else [0, 1, 2]), 'dict' if ctx.flip('dict') else 'number')
    if ctx.params['third']:
        host('gamma:22', 'gamma', '22', ctx.choose('gamma', [1, 2]), 'number')
        host('delta', 'delta', None, 1, 'number')
    ports = {loc: port for _, loc, port, _, _ in want}
    ports['me@head'] = None
    env = {'ODD': ODD, 'OLD': ''}
    w.preset = {'HOME': '/home', 'OLD': 'set on the host', 'KEPT': 'x'}
    L.config = {'SSHControllerLauncher': {'hostname': 'head', 'user': 'me'},
                'SSHEngineSetLauncher': {'engines': engines, 'engine_args': ['--all', ODD], 'environment': env, 'delay': 0.1}}
    if base:
        L.config['SSHLauncher'] = {'ssh_args': ['-o', 'A=b'], 'scp_args': ['-o', 'A=b']}
    if own:
        L.config.setdefault('SSHLauncher', {})['remote_profile_dir'] = remote_dir

    def publish(p):
        for k in ('client', 'engine'):
            w.fs[p.host, f'{remote_dir}/security/ipcontroller-c-{k}.json'] = json.dumps({'side': k, 'key': 'of this controller'})

    w.publish = publish

    def reached(since):
        for loc, port, opts in w.connections[since:]:
            ctx.check(loc in ports, f'connects to {loc}')
            ctx.check(port == ports[loc], f'connects to {loc} at port {port}')
            for o in base:
                ctx.check(o in opts, f'connects to {loc} without {o}')

    try:
        with w.patch():
            L.new()
            remote_controller = ctx.flip('controller')
            if remote_controller:
                security = os.path.join(w.dir, 'security')
                os.rmdir(security)
                w.run(L.cl.start_controller())
                ctx.check(os.stat(security).st_mode & 0o700 == 0o700, 'connection files are fetched into a directory that cannot be used')
                p = w.procs[0]
                ctx.check(p.location == 'me@head' and p.is_controller, 'the controller is somewhere else')
                ctx.check(p.env.get('IPP_PROFILE_DIR') == remote_dir and p.env.get('IPP_CLUSTER_ID') == 'c', 'the controller does not know its cluster')
            else:
                L.files()
            local = {}
            for k in ('client', 'engine'):
                name = f'ipcontroller-c-{k}.json'
                path = os.path.join(w.dir, 'security', name)
                ctx.check(os.path.exists(path), 'connection files are not fetched')
                with open(path) as f:
                    local[name] = f.read()
                if remote_controller:
                    ctx.check(json.loads(local[name]) == {'side': k, 'key': 'of this controller'}, 'another file is fetched')
            sets = []
            for rnd, n in enumerate((ctx.choose('n', ctx.params['n']), 4)):
                first, since = len(w.procs), len(w.connections)
                es = w.run(L.cl.start_engines(n))
                sets.append((es, w.procs[first:]))
                reached(since)
                exp, room = [], n
                for key, loc, port, m, args in want:
                    k = min(m, room)
                    room -= k
                    exp += [(loc, args)] * k
                got = [(p.location, p.args) for p in w.procs[first:]]
                ctx.check(got == exp, f'set {rnd}: {got}, configured are {exp}')
                if room == 0 and n > 1:
                    ctx.reach('files sent')
                outs = [p.outfile for p in w.procs]
                for p in w.procs[first:]:
                    ctx.check(p.env.get('ODD') == ODD and 'OLD' not in p.env and p.env.get('KEPT') == 'x', f'environment {p.env}')
                    ctx.check(p.env.get('IPP_PROFILE_DIR') == remote_dir and p.env.get('IPP_CLUSTER_ID') == 'c', 'the engine does not know its cluster')
                    if remote_controller:
                        ctx.check(json.loads(p.env['IPP_CONNECTION_INFO'])['key'] == 'of this controller', 'connection info')
                    for name, text in local.items():
                        ctx.check(p.files.get(f'{remote_dir}/security/{name}') == text, 'an engine starts before its connection files are there')
                    ctx.check(len([q for q in w.procs if q.host == p.host and getattr(q.outfile, 'path', None) == p.outfile.path]) == 1,
                              'two processes write to one file')
                ctx.check(L.cl.engines[es].n == len(exp), 'number of engines')
            ctx.reach('two rounds')
            if ctx.flip('taken over'):
                w.threads = []
                with raises_nothing(ctx, 'loading the cluster file'):
                    L.cl = L.reload()
                ctx.reach('taken over')
            for es, procs in sets:
                if not procs:
                    continue
                others = [p for p in w.live() if p not in procs]
                since = len(w.connections)
                w.run(L.cl.stop_engines(es))
                reached(since)
                for p in procs:
                    ctx.check(not p.alive and p.signals == [signal.SIGTERM], f'stopped, but alive is {p.alive}, signals {p.signals}')
                ctx.check([p for p in w.live() if p not in procs] == others, 'others are stopped')
            w.run(L.cl.stop_cluster())
            ctx.check(not w.live(), 'the cluster is stopped, and processes run')
    finally:
        w.close()


@harness('L02', 'proxy', quick=({},), labels=('started', 'restarted'),
         bounds='1-3 engines started by an ipcluster on another host; restart; another process takes over', stubs='as hosts')
def proxy(ctx):
    ctx.lazy_str = ctx.const_hash = True
    L = Life(ctx, 'ssh')
    w = L.w
    L.traits['engine_launcher_class'] = 'sshproxy'
    L.config = {'SSHProxyEngineSetLauncher': {'hostname': 'far', 'user': 'me', 'remote_profile_dir': 'p', 'ipcluster_args': ['--odd', ODD]}}

    def started(n, first):
        got = [(p.location, p.args) for p in w.procs[first:]]
        args = ['python3', '-m', 'ipyparallel.cluster', 'engines']
        ctx.check(len(got) == 1 and got[0][0] == 'me@far' and got[0][1][:4] == args, f'{got}')
        rest = got[0][1][4:]
        opts = dict(zip(rest[::2], rest[1::2]))
        ctx.check(opts == {'-n': str(n), '--profile-dir': 'p', '--cluster-id': 'c', '--odd': ODD}, f'options {opts}')
        with open(os.path.join(w.dir, 'security', 'ipcontroller-c-engine.json')) as f:
            ctx.check(w.procs[-1].files.get('p/security/ipcontroller-c-engine.json') == f.read(), 'connection files are not there')

    try:
        with w.patch():
            L.new()
            L.files()
            n = ctx.choose('n', [1, 2, 3])
            es = w.run(L.cl.start_engines(n))
            started(n, 0)
            ctx.reach('started')
            if ctx.flip('taken over'):
                w.threads = []
                L.cl = L.reload()
            if ctx.flip('restart'):
                w.run(L.cl.restart_engines(es))
                started(n, 1)
                ctx.check(len(w.live()) == 1, 'restarted, but the old one runs')
                ctx.reach('restarted')
            w.run(L.cl.stop_cluster())
            ctx.check(not w.live(), 'stopped, but it runs')
    finally:
        w.close()


@harness('L02', 'send', quick=({},), labels=('started', 'files', 'killed'),
         bounds='each command of the ssh helper with odd strings for command, arguments, environment and paths; with the receiver on '
                'the host or sent along; any signal, and none; a process of the same number on another host', stubs='as hosts')
def send(ctx):
    from ipyparallel.cluster import shellcmd as S

    w = Remote(ctx)
    w.preset = {'HOME': '/home', 'OLD': 'x'}
    try:
        with w.patch():
            inline = bool(ctx.flip('send receiver'))
            a, b = [S.ShellCommandSend(['ssh', '-o', 'A=b'], [h], 'python3', send_receiver_code=inline, log=w.log) for h in ('alpha', 'beta')]
            what = ctx.choose('what', ['start', 'module', 'code', 'files', 'kill'])
            if what in ('start', 'module', 'code'):
                env = ctx.choose('env', [None, {}, {'ODD': ODD, 'OLD': ''}, {'OLD': None, 'N': 5}])
                out = ctx.choose('output', [None, 'dir/é o'])
                with raises_nothing(ctx, what):
                    if what == 'start':
                        cmd = ctx.choose('cmd', [['prog', ODD, '', '--x={y}'], 'prog with space'])
                        pid = a.cmd_start(cmd, env=env, output_file=out)
                        want = cmd if isinstance(cmd, list) else [cmd]
                    elif what == 'module':
                        pid = a.cmd_start_python_module(['mod', ODD], env=env, output_file=out)
                        want = ['python3', '-m', 'mod', ODD]
                    else:
                        pid = a.cmd_start_python_code(f'x.append({ODD!r})', env=env, output_file=out)
                        want = None
                ctx.check(len(w.procs) == 1 and w.procs[0].host == 'alpha', 'not one process')
                p = w.procs[0]
                ctx.check(pid == p.pid, 'another process id')
                if want is None:
                    x = []
                    ctx.check(p.args[:2] == ['python3', '-c'], f'runs {p.args}')
                    exec(p.args[2], {'x': x})
                    ctx.check(x == [ODD], f'code: {x}')
                else:
                    ctx.check(p.args == want, f'runs {p.args}')
                exp = {'HOME': '/home', 'OLD': 'x'}
                for k, v in (env or {}).items():
                    if v in (None, ''):
                        exp.pop(k, None)
                    else:
                        exp[k] = str(v)
                ctx.check(p.env == exp, f'environment {p.env}')
                ctx.check(getattr(p.outfile, 'path', None) == out, 'output goes somewhere else')
                ctx.reach('started')
            elif what == 'files':
                path = ctx.choose('path', ['d/e', "it's {a}", ODD])
                w.fs['beta', path] = 'other'
                for op in range(2):
                    o = ctx.choose('op', ['mkdir', 'remove', 'rmdir', 'put', 'exists'])
                    had = {q for h, q in w.fs if h == 'alpha'}
                    if o == 'put':
                        w.fs['alpha', path + ctx.choose('in', ['', '/file', 'more'])] = 't'
                        continue
                    err = None
                    try:
                        r = getattr(a, 'cmd_' + o)(path)
                    except subprocess.CalledProcessError:
                        err = True
                    now = {q for h, q in w.fs if h == 'alpha'}
                    inside = {q for q in had if q.startswith(path + '/')}
                    if o == 'exists':
                        ctx.check(r is (path in had or bool(inside)), f'exists: {r}')
                        exp = had
                    elif o == 'mkdir':
                        exp = had | {path + '/'}
                    elif o == 'remove':
                        exp = had - {path}
                        ctx.check(bool(err) == (path not in had), 'an error of another host is lost')
                    else:
                        exp = had - inside
                        ctx.check(bool(err) == (not inside), 'an error of another host is lost')
                    ctx.check(now == exp, f'{o}: {had} becomes {now}')
                ctx.check(w.fs['beta', path] == 'other', 'another host')
                ctx.reach('files')
            else:
                pid = a.cmd_start(['x'])
                p = w.procs[0]
                b.cmd_start(['x'])
                q = w.procs[1]
                q.pid = p.pid
                ctx.check(a.cmd_running(pid) is True and a.cmd_running(pid + 5) is False, 'running')
                if ctx.flip('gone'):
                    p.exit(0)
                    ctx.check(a.cmd_running(pid) is False, 'gone, but running')
                    ctx.check(b.cmd_running(pid) is True, 'another host')
                    try:
                        a.cmd_kill(pid, signal.SIGTERM)
                        ctx.fail('a signal for nobody is not an error')
                    except subprocess.CalledProcessError:
                        pass
                    ctx.check(q.signals == [], 'another host')
                    return
                sig = ctx.choose('signal', [None, signal.SIGTERM, signal.SIGINT, 9, 0])
                with raises_nothing(ctx, 'a signal'):
                    a.cmd_kill(pid) if sig is None else a.cmd_kill(pid, sig)
                want = [signal.SIGTERM] if sig is None else [int(sig)] if sig else []
                ctx.check(p.signals == want and q.signals == [], f'signals {p.signals}, {q.signals}')
                ctx.check(a.cmd_running(pid) is (sig in (signal.SIGINT, 0)), 'running after a signal')
                ctx.reach('killed')
    finally:
        w.close()


SLURM = {'account': 'acc', 'qos': 'high', 'timelimit': '1:00:00'}
NAMES = {'pbs': 'PBS', 'sge': 'SGE', 'slurm': 'Slurm', 'lsf': 'LSF', 'htcondor': 'HTCondor'}


@harness('L02', 'batch', quick=tuple({'system': s} for s in NAMES), labels=('submitted', 'taken over', 'not submitted', 'stopped'),
         bounds='each batch system: a controller and two sets of 1-3 engines, with odd arguments, a queue, own templates; a submission '
                'that fails; signals; another process takes over; stops of one job and of all',
         stubs='as L01 life; commands of the batch system interpret the script that is submitted')
def batch(ctx):
    ctx.lazy_str = ctx.const_hash = True
    system = ctx.params['system']
    L = Life(ctx, 'local')
    L.traits = {'controller_launcher_class': system, 'engine_launcher_class': system}
    w = L.w
    w.close()
    w = L.w = Batch(ctx, system)
    for d in ('log', 'security'):
        os.makedirs(os.path.join(w.dir, d))
    L.dead, L.faults = [], 0
    args = ['--a', 'b'] if system == 'htcondor' else ['--a', 'it\'s "x" $HOME `b` \\ é;&']
    queue = 'fast' if system != 'htcondor' and ctx.flip('queue') else None
    template = ctx.choose('template', [None, 'given', 'file']) if system in ('pbs', 'slurm') else None
    E, C = NAMES[system] + 'EngineSetLauncher', NAMES[system] + 'ControllerLauncher'
    conf = L.config = {E: {'engine_args': args, 'environment': {'ODD': ODD}}, C: {}}
    if queue:
        conf[E]['queue'] = queue
        if system == 'slurm':
            conf[E].update(SLURM)
    if template:
        mark = {'pbs': '#PBS -V\n#PBS -t 1-{n}\n#PBS -q {queue}\n#PBS -l {mine}:{n*2}', 'slurm': '#SBATCH --ntasks={n}\n#SBATCH --partition={queue}\n#SBATCH --x={mine}:{n*2}'}
        text = '#!/bin/sh\n' + mark[system] + '\n' + ('srun ' if system == 'slurm' else '') + '{program_and_args}\n'
        conf[E]['namespace'] = {'mine': 'mine'}
        if not queue:
            conf[E]['queue'] = 'own'
        if template == 'given':
            conf[E]['batch_template'] = text
        else:
            conf[E]['batch_template_file'] = os.path.join(w.dir, 'template')
            with open(os.path.join(w.dir, 'template'), 'w') as f:
                f.write(text)
    before = os.getcwd()

    def submitted(job, n, controller, launcher):
        ctx.check(job.alive and job.is_controller == controller, 'another job')
        ctx.check(job.n == n, f'{job.n} processes for {n}')
        if system == 'htcondor':
            want = ['ipcontroller'] + launcher.controller_args if controller else ['ipengine'] + args
        else:
            want = launcher.controller_cmd + launcher.controller_args if controller else launcher.engine_cmd + args
        ctx.check(job.args == want, f'runs {job.args}')
        env = job.env
        ctx.check(env.get('IPP_CLUSTER_ID') == 'c' and env.get('IPP_PROFILE_DIR') == w.dir, 'the job does not know its cluster')
        ctx.check(controller or env.get('ODD') == ODD, 'environment of the job')
        if not controller:
            ctx.check(job.queue == conf[E].get('queue'), f'queue {job.queue}')
            if L.cl.controller is not None:
                ctx.check(json.loads(env.get('IPP_CONNECTION_INFO', '{}')).get('side') == 'engine', 'connection info')
            if queue and system == 'slurm' and not template:
                for k, v in SLURM.items():
                    ctx.check(job.options.get('--' + {'timelimit': 'time'}.get(k, k)) == [v], f'{k} of the job')
        if template and not controller:
            ctx.check(f'mine:{2 * n}' in job.text, 'the template')
        elif system != 'htcondor':
            ctx.check(job.output == launcher.output_file, f'output goes to {job.output}')
        ctx.reach('submitted')

    def start(n, controller=False):
        k = len(w.procs)
        if controller:
            w.run(L.cl.start_controller())
            l = L.cl.controller
        else:
            es = w.run(L.cl.start_engines(n))
            l = L.cl.engines[es]
        ctx.check(len(w.procs) == k + 1, f'{len(w.procs) - k} jobs')
        submitted(w.procs[-1], n, controller, l)
        return w.procs[-1], None if controller else es

    try:
        os.chdir(w.dir)
        with w.patch():
            L.new()
            jobs = {}
            if ctx.flip('controller'):
                jobs['c'] = start(1, True)[0]
            L.files()
            n = ctx.choose('n', [1, 3])
            ids = []
            if ctx.flip('fault'):
                w.fault = 'fails' if n == 1 else 'no id'
                k = len(w.commands)
                try:
                    w.run(L.cl.start_engines(n))
                    ctx.fail('a submission failed, and nobody knows')
                except Exception:
                    pass
                ctx.check(not L.cl.engines, 'a job that was not submitted is kept')
                ctx.check(len(w.commands) == k + 1, f'runs {w.commands[k:]}')
                w.fault = None
                ctx.reach('not submitted')
            for m in (n, 2):
                job, es = start(m)
                ids.append(es)
                jobs[es] = job
            if ctx.flip('taken over'):
                with raises_nothing(ctx, 'loading the cluster file'):
                    L.cl = L.reload()
                ctx.check(set(L.cl.engines) == set(ids) and (L.cl.controller is not None) == ('c' in jobs), 'jobs are lost')
                ctx.reach('taken over')
            one = ctx.choose('one', ids)
            then = ctx.choose('then', [None, 'restart'] + ['signal'] * (system != 'htcondor'))
            if then == 'signal':
                w.run(L.cl.signal_engines(signal.SIGINT, one))
                for k, j in jobs.items():
                    ctx.check(j.signals == ([signal.SIGINT] if k == one else []), 'the signal')
            if then == 'restart':
                k = len(w.procs)
                with raises_nothing(ctx, 'the restart'):
                    w.run(L.cl.restart_engines(one))
                ctx.check(not jobs[one].alive and len(w.procs) == k + 1, 'the restart')
                submitted(w.procs[-1], jobs[one].n, False, L.cl.engines[one])
                jobs[one] = w.procs[-1]
            told = []
            L.cl.engines[one].on_stop(told.append)
            w.run(L.cl.stop_engines(one))
            for k, j in jobs.items():
                ctx.check(j.alive == (k != one), 'the stop of one job')
            ctx.check(len(told) == 1, 'nobody is told')
            w.run(L.cl.stop_cluster())
            ctx.check(not w.live() and listed(L.file) is None, 'stopped, and jobs run')
            ctx.check(not os.path.exists(L.file), 'stopped, and there is a cluster file')
            ctx.reach('stopped')
    finally:
        os.chdir(before)
        w.close()
