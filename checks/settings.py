"""L03: what is configured is what is started, and where several places say something, the nearest counts."""
import copy
import json
import os

from symx.core import is_sym
from symx.reg import harness, raises_nothing
from fixtures.procs import Station
from fixtures.wire import Patch

VALUES = {}  # what the configuration files say


class Json:
    """json with symbolic numbers"""

    def __init__(self):
        self.values = []

    def default(self, x):
        if is_sym(x):
            self.values.append(x)
            return {'symbolic': len(self.values) - 1}
        raise TypeError(f'not json: {x!r}')

    def hook(self, d):
        return self.values[d['symbolic']] if set(d) == {'symbolic'} else d

    def dumps(self, d, **k):
        return json.dumps(d, default=self.default, **k)

    def dump(self, d, f, **k):
        f.write(self.dumps(d, **k))

    def loads(self, s):
        return json.loads(s, object_hook=self.hook)

    def load(self, f):
        return self.loads(f.read())


class Places:
    """the places where something can be configured; `said` is what each of them says"""

    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p
        self.w = Station(ctx)
        self.home = self.w.dir
        self.profiles = {}
        for name in ('default', 'x', 'y'):
            d = self.profiles[name] = os.path.join(self.home, f'profile_{name}')
            os.makedirs(os.path.join(d, 'security'))
            os.makedirs(os.path.join(d, 'log'))
        self.said = {'file': {}, 'config': {}, 'kwargs': {}}
        self.other = {}
        VALUES.clear()

    def say(self, place, cls, name, value):
        """`cls.name = value` there"""
        self.said[place][cls, name] = value

    def files(self):
        """configuration files; those of the other profile say something else about everything"""
        other = {k: (99 if is_sym(v) or isinstance(v, (int, float)) else ['--wrong'] if isinstance(v, list) else
                     {'WRONG': '1'} if isinstance(v, dict) else 'wrong') for d in self.said.values() for k, v in d.items()}
        for name, d in self.profiles.items():
            if name == 'y':
                continue  # says nothing
            mine = name == self.profile
            for kind in ('ipcluster', 'ipcontroller'):
                what = self.said['file'] if mine and kind == 'ipcluster' else other
                if not what:
                    continue
                with open(os.path.join(d, f'{kind}_config.py'), 'w') as f:
                    f.write('from checks.settings import VALUES\n')
                    for n, (k, v) in enumerate(what.items()):
                        VALUES[name, kind, n] = v
                        f.write(f'c.{k[0]}.{k[1]} = VALUES[{name!r}, {kind!r}, {n}]\n')

    def config(self):
        from traitlets.config import Config

        c = Config()
        for (cls, name), v in self.said['config'].items():
            setattr(c[cls], name, v)
        return c

    def new(self, how):
        """a cluster, with its direct configuration as a `config`, or the one of its `parent`"""
        from traitlets.config import LoggingConfigurable
        from ipyparallel.cluster.cluster import Cluster

        kw = {k[1]: v for k, v in self.said['kwargs'].items()}
        kw.update(log=self.w.log, cluster_id='c', shutdown_atexit=False)
        where = self.where
        if where == 'dir':
            kw['profile_dir'] = self.profiles[self.profile]
        elif where == 'name':
            kw['profile'] = self.profile
        if self.load is not None:
            kw['load_profile'] = self.load
        if how == 'config':
            kw['config'] = self.config()
        elif how == 'parent':
            kw['parent'] = LoggingConfigurable(config=self.config(), log=self.w.log)
        elif how == 'app':
            kw['parent'] = self.app()
        elif how == 'other':
            kw['parent'] = self.app('y')
        self.cl = Cluster(**kw)
        return self.cl

    def app(self, other=None):
        """what `ipcluster start` is, after it has read the command line and the files"""
        from ipyparallel.cluster.app import IPClusterStart

        app = IPClusterStart(log=self.w.log)
        app.load_config_environ = lambda: None
        argv = [f'--profile={other}'] if other else [f'--profile-dir={self.profiles[self.profile]}'] if self.where == 'dir' else [] if self.where == 'default' else [f'--profile={self.profile}']
        app.parse_command_line(argv)
        app.cli_config = copy.deepcopy(app.cli_config)
        c = self.config()
        app.cli_config.merge(c)
        app.update_config(c)
        app.init_profile_dir()
        app.init_config_files()
        app.load_config_file()
        app.update_config(app.cli_config)
        return app

    def value(self, cls, name, default=None, files=True):
        """what counts"""
        for place in ('kwargs', 'config') + ('file',) * files:
            if (cls, name) in self.said[place]:
                return self.said[place][cls, name]
        return default


def which(args):
    return 'mpi' if args[0] == 'mpiexec' else 'local'


def after(ctx, args, what):
    """values of a flag, in order"""
    return [a.split('=', 1)[1] for a in args if a.startswith(what + '=')]


TOPICS = {
    'n': [('Cluster', 'n')],
    'address': [('Cluster', 'controller_ip'), ('Cluster', 'controller_location')],
    'controller_args': [('Cluster', 'controller_args'), ('LocalControllerLauncher', 'controller_args')],
    'engine_args': [('LocalEngineSetLauncher', 'engine_args'), ('EngineLauncher', 'engine_args')],
    'classes': [('Cluster', 'controller_launcher_class'), ('Cluster', 'engine_launcher_class')],
    'environment': [('LocalEngineSetLauncher', 'environment'), ('LocalControllerLauncher', 'environment')],
    'env': [('Cluster', 'send_engines_connection_env')],
    'delay': [('Cluster', 'delay')],
    'cmd': [('LocalEngineSetLauncher', 'engine_cmd'), ('LocalControllerLauncher', 'controller_cmd')],
}


@harness('L03', 'settings',
         quick=tuple(dict(topic=t, how=h, n=2) for t in TOPICS for h in ('config', 'parent', 'app', 'none')) + tuple(dict(topic=t, how='other', n=2) for t in ('n', 'address')),
         thorough=tuple(dict(topic=t, with_=u, how=h, n=3) for t in TOPICS for u in TOPICS if t <= u for h in ('config', 'parent', 'app', 'none', 'other')),
         labels=('near', 'from file', 'default', 'no profile', 'call'),
         bounds='each setting of a topic said or not said in each of: the file of the profile, the configuration (of the caller, '
                'of a parent, of the ipcluster application for this or another profile), the arguments of the cluster, the arguments of the call; the profile '
                'by directory, by name or by default; load_profile on, off or not given; numbers symbolic; another profile says otherwise',
         stubs='processes (Popen), event loop, clock, cpu_count; configuration files are real files that the real loader runs')
def settings(ctx):
    """what starts is what the nearest place says"""
    ctx.const_hash = True
    topic, how, n, with_ = (ctx.params.get(k) for k in ('topic', 'how', 'n', 'with_'))
    P = Places(ctx, n)
    w = P.w
    topics = {topic, with_ or topic}
    ctx.lazy_str = not topics & {'n', 'classes'}
    P.profile = 'x'
    P.where = ctx.choose('profile', ['dir', 'name', 'default'] if how != 'other' else ['dir', 'name'])
    if P.where == 'default':
        P.profile = 'default'
    P.load = ctx.choose('load', [None, True, False]) if how not in ('app', 'other') and P.where == 'dir' else None
    try:
        for t in sorted(topics):
            for cls, name in TOPICS[t]:
                for place in ('file', 'config', 'kwargs'):
                    if place == 'kwargs' and cls != 'Cluster' or place == 'config' and how == 'none':
                        continue
                    if with_ and cls != 'Cluster' and place == 'config' and t != topic:
                        continue
                    if ctx.flip(f'{place} says {cls}.{name}'):
                        P.say(place, cls, name, what(ctx, place, cls, name, n))
        P.files()
        with P.w.patch(), patch(P):
            run(ctx, P, how, topics, n)
    finally:
        w.close()
        VALUES.clear()


def patch(P):
    from ipyparallel.cluster import cluster as C
    from ipyparallel import util
    from fixtures.procs import Names

    P.cpus = P.ctx.int('cpus', 1, 3)

    import IPython.paths

    j = Json()

    home = lambda *a: P.home
    import time

    return Patch((C, 'time', Names(time, time=lambda: 1e9)), (C, 'cpu_count', lambda: P.cpus), (C, 'json', Names(json, dump=j.dump, dumps=j.dumps, load=j.load, loads=j.loads)),
                 (util, 'get_ipython_dir', home), (IPython.paths, 'get_ipython_dir', home), (os, 'environ', dict(os.environ, IPYTHONDIR=P.home)))


def what(ctx, place, cls, name, n):
    mark = f'{place}-{cls[:7]}-{name}'
    if name == 'n':
        return ctx.int(f'n {place}', 1, n)
    if name == 'delay':
        return ctx.real(f'delay {place}', 0, 1000)
    if name in ('controller_ip', 'controller_location'):
        return mark
    if name in ('controller_args', 'engine_args'):
        return [f'--mark={mark}']
    if name == 'controller_launcher_class':
        return {'file': 'mpi', 'config': 'local', 'kwargs': 'MPI'}[place]
    if name == 'engine_launcher_class':
        return {'file': 'mpi', 'config': 'Local', 'kwargs': 'mpi'}[place]
    if name == 'environment':
        return {'MARK': mark}
    if name == 'send_engines_connection_env':
        return {'file': False, 'config': True, 'kwargs': False}[place]
    if name in ('engine_cmd', 'controller_cmd'):
        return ['python-of', mark]


def run(ctx, P, how, topics, n):
    w = P.w
    with raises_nothing(ctx, 'Cluster()'):
        cl = P.new(how)
    files = P.load is not False
    if not files:
        ctx.reach('no profile')
    call = {}
    if 'n' in topics and ctx.flip('call says n'):
        call['n'] = ctx.int('n call', 1, n)
        ctx.reach('call')
    extra = {}
    if 'engine_args' in topics and ctx.flip('call says engine_args'):
        extra['engine_args'] = ['--mark=call']
    steps = ctx.choose('steps', ['one by one'] if extra else ['both', 'one by one'] if 'n' in topics or len(topics) > 1 else ['both'])
    t0 = w.now
    if steps == 'both':
        w.run(cl.start_cluster(**call))
        delay = P.value('Cluster', 'delay', 1.0, files)
        ctx.check(w.now - t0 >= delay, f'the engines are started too early, at {w.now - t0!r}, not {delay!r}')
        ctx.check(w.now - t0 <= delay + 1, f'the engines are started too late, after {w.now - t0!r}, not {delay!r}')
    else:
        w.run(cl.start_controller())
        w.run(cl.start_engines(**call, **extra))
    c = [p for p in w.procs if p.is_controller]
    e = [p for p in w.procs if p not in c]
    ctx.check(len(c) == 1, f'{len(c)} controllers')
    c = c[0]
    for k, v in P.said['file'].items():
        ctx.reach('from file' if files and P.value(*k, files=files) is v else 'near')
    if not any(P.said.values()):
        ctx.reach('default')
    # classes
    want = {}
    for part in ('controller', 'engine'):
        want[part] = str(P.value('Cluster', f'{part}_launcher_class', 'local', files)).lower()
    got = {'controller': which(c.args), 'engine': which(e[0].args) if e else 'local'}
    ctx.check(got == want, f'launchers are {got}, and {want} is configured')
    # numbers
    number = call.get('n', P.value('Cluster', 'n', P.cpus, files))
    if want['engine'] == 'local':
        ctx.check(len(e) == number, f'{len(e)} engines, and {number!r} are configured')
    else:
        ctx.check(len(e) == 1 and e[0].args[:3] == ['mpiexec', '-n', str(int(number))], f'{e and e[0].args[:3]} for {number!r} engines')
    # the controller's arguments
    local = want['controller'] == 'local'
    own = P.value('LocalControllerLauncher', 'controller_args', [], files) if local else []
    for flag, name in (('--ip', 'controller_ip'), ('--location', 'controller_location')):
        v = P.value('Cluster', name, '', files)
        got = after(ctx, c.args, flag)
        ctx.check(got == [v] * bool(v), f'{flag} of the controller is {got}, and {v!r} is configured')
    marks = [f'--mark={x}' for x in after(ctx, c.args, '--mark')]
    expected = own + P.value('Cluster', 'controller_args', [], files)
    ctx.check(marks == expected, f'arguments of the controller are {marks}, and {expected} are configured')
    # those of the engines
    expected = []
    if want['engine'] == 'local':
        expected = P.value('EngineLauncher', 'engine_args', [], files)
        expected = P.value('LocalEngineSetLauncher', 'engine_args', expected, files)
    expected = extra.get('engine_args', expected)
    for p in e:
        marks = [f'--mark={x}' for x in after(ctx, p.args, '--mark')]
        ctx.check(marks == expected, f'arguments of an engine are {marks}, and {expected} are configured')
    # commands and environment
    for part, procs, cls in (('controller', [c], 'LocalControllerLauncher'), ('engine', e, 'LocalEngineSetLauncher')):
        env = P.value(cls, 'environment', {}, files) if want[part] == 'local' else {}
        cmd = P.value(cls, f'{part}_cmd', None, files)
        for p in procs:
            ctx.check(p.env.get('MARK') == env.get('MARK') and 'WRONG' not in p.env, f'environment of the {part} has {p.env.get("MARK")}, and {env} is configured')
            ctx.check(p.env.get('IPP_CLUSTER_ID') == 'c' and p.env.get('IPP_PROFILE_DIR') == P.profiles[P.profile], f'the {part} belongs to another cluster')
            if cmd and want[part] == 'local':
                ctx.check(p.args[:2] == cmd, f'the command of the {part} is {p.args[:2]}, and {cmd} is configured')
            elif want[part] == 'local':
                ctx.check(p.args[1:3] == ['-m', f'ipyparallel.{part}'], f'the command of the {part} is {p.args[:3]}')
    send = P.value('Cluster', 'send_engines_connection_env', True, files)
    for p in e:
        ctx.check(('IPP_CONNECTION_INFO' in p.env) == send, f'connection info of an engine {"missing" if send else "sent"}')
    reload(ctx, P, how, files, w, cl, number)


def reload(ctx, P, how, files, w, cl, number):
    """the cluster is loaded elsewhere, and starts more engines"""
    from ipyparallel.cluster.cluster import Cluster
    from traitlets.config import Config

    with raises_nothing(ctx, 'from_file'):
        other = Cluster.from_file(cl.cluster_file, log=w.log, config=Config(), load_profile=False)
    for name in ('n', 'delay', 'controller_ip', 'controller_location', 'controller_args', 'profile_dir', 'cluster_id',
                 'controller_launcher_class', 'engine_launcher_class'):
        ctx.check(getattr(other, name) == getattr(cl, name), f'{name} of the loaded cluster is {getattr(other, name)!r}, not {getattr(cl, name)!r}')
