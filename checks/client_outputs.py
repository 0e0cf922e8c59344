"""C06: what engines print, display and raise is shown to the user completely, once, and under the right engine."""
import re

from symx.reg import harness, raises_nothing
from fixtures.client import Hang, World
from fixtures.wire import Patch

# what a request publishes: (stdout pieces, stderr pieces, displays, has a result)
PROGRAMS = {
    'quiet': [],
    'line': [('out', 'L%s\n')],
    'partial': [('out', 'p%s'), ('err', 'q%s'), ('out', 'r%s')],
    'plots': [('dis', 'D%s'), ('dis', 'E%s')],
    'value': [('out', 'v%s\n'), ('res', 'R%s')],
    'mixed': [('err', 'x%s\n'), ('dis', 'F%s'), ('res', 'S%s')],
}
PREFIX = re.compile(r'^(\n?)(\[(stdout|stderr):(\S+?)\] \n)?(.*)$', re.S)


class Screen:
    """records whatever reaches the user, in order"""

    def __init__(self, world, kernel):
        self.world = world
        self.log = []
        self.kernel = object() if kernel else None
        self.colors = 'nocolor'
        self.user_ns = {}
        self.display_pub = self
        self.configurables = []
        self.ran = []

    def publish(self, data, metadata=None, **k):
        self.log.append(('pub', data['text/plain'], metadata['engine']))

    def print(self, *a, **k):
        self.log.append(('print', k.get('file') or 'out', ' '.join(map(str, a)) + k.get('end', '\n')))

    def display(self, *objs, **k):
        for o in objs:
            self.log.append(('display', o))

    def raw(self, s, **k):
        self.log.append(('raw', s))

    def stream(self, data, transient, update):
        self.log.append(('stream', data['text/plain'], transient['display_id'], update))

    def run_cell(self, cell):
        self.ran.append(cell)

    def run_ast_nodes(self, *a):
        pass

    def patches(self):
        import ipyparallel.client.asyncresult as A
        import ipyparallel.client.client as C
        import ipyparallel.client.magics as M

        def ip():
            return self

        class Bar:
            n = 0

            def __init__(self, *a, **k):
                pass

            def update(self, *a):
                pass

            def close(self):
                pass

        class Sys:
            stdout, stderr = 'out', 'err'

        return ((A, 'sys', Sys), (A, 'get_ipython', ip), (A, 'display', self.display), (A, 'display_pretty', self.raw),
                (A, 'publish_display_data', self.stream), (A, 'print', self.print), (A, 'progress', Bar),
                (M, 'print', lambda *a, **k: None))


class Shown:
    """the log, taken apart: what was shown of each engine"""

    def __init__(self, ctx, w, screen, single=None):
        self.text = {}
        self.order = []
        self.plots = {}
        self.values = []
        self.errors = []
        last = None
        out_of = None
        streams, shown = {}, {}
        for e in screen.log:
            if e[0] == 'print':
                which, s = e[1], e[2]
                if 'tb-' in s or 'Error:' in s:
                    self.errors.append(s)
                    continue
                nl, head, name, eid, body = PREFIX.match(s).groups()
                if head:
                    last = (name, eid)
                elif single is not None:
                    # a single result needs no labels
                    last = ('std' + which, single)
                ctx.check(last is not None, f'output without a label: {s!r}')
                ctx.check(last[0] == 'std' + which, f'{s!r} is labelled {last}, on the other stream')
                self.text[last] = self.text.get(last, '') + body
                self.order.append(('text', last[0], last[1]))
            elif e[0] == 'raw':
                out_of = e[1]
            elif e[0] == 'pub':
                ctx.check(single is not None or out_of == f'[output:{e[2]}]', f'output of engine {e[2]} under {out_of}')
                self.plots.setdefault(str(e[2]), []).append(e[1])
                self.order.append(('plot', e[1], str(e[2])))
            elif e[0] == 'display':
                self.values.append(e[1])
                self.order.append(('value', str(e[1].metadata['engine_id'])))
            elif e[0] == 'stream':
                m = re.match(r'^\[(stdout|stderr):(\S+?)\] (.*)$', e[1], re.S)
                key = (m.group(1), m.group(2))
                ctx.check(e[3] == (e[2] in streams), 'the update of a display that does not exist, or a display twice')
                ctx.check(streams.get(e[2], key) == key, 'the display of an engine was overwritten with that of another')
                streams[e[2]] = key
                ctx.check(m.group(3).startswith(shown.get(e[2], '')), 'lost output')
                shown[e[2]] = m.group(3)
                self.text[key] = ''.join(t for d, t in shown.items() if streams[d] == key)
        self.text = {k: v for k, v in self.text.items() if v}


def _emit(w, e, msg, job):
    for kind, s in PROGRAMS[job.prog]:
        s = s % job.k
        if job.fails and kind == 'res':
            continue
        if kind in ('out', 'err'):
            e.io('stream', {'name': 'std' + kind, 'text': s}, msg)
        elif kind == 'dis':
            e.io('display_data', {'data': {'text/plain': s}, 'metadata': {}}, msg)
        else:
            e.io('execute_result', {'data': {'text/plain': s}, 'metadata': {}, 'execution_count': 1}, msg)


class Job:
    def __init__(self, k, prog, fails):
        self.k, self.prog, self.fails = k, prog, fails
        self.eid = None

    def text(self, kind):
        return ''.join(s % self.k for x, s in PROGRAMS[self.prog] if x == kind)

    def all(self, kind):
        return [s % self.k for x, s in PROGRAMS[self.prog] if x == kind]


def _compare(ctx, sh, jobs, what, results_only=False, plots=True, missing=()):
    text, plots_, values = {}, {}, []
    for j in jobs:
        if not results_only:
            for kind in ('out', 'err'):
                t = j.text(kind)
                if t:
                    key = ('std' + kind, str(j.eid))
                    text[key] = text.get(key, '') + t
            if plots and j.all('dis'):
                plots_.setdefault(str(j.eid), []).extend(j.all('dis'))
        if plots and not j.fails:
            values += j.all('res')
    ctx.check(sh.text == text, f'{what}: text shown {sh.text}, printed {text}')
    ctx.check({k: sorted(v) for k, v in sh.plots.items()} == {k: sorted(v) for k, v in plots_.items()},
              f'{what}: displayed {sh.plots}, engines displayed {plots_}')
    got = [v.metadata['execute_result']['data']['text/plain'] for v in sh.values]
    ctx.check(sorted(got) == sorted(values), f'{what}: results {got} of {values}')


def _setup(ctx, p, engines=2, **kw):
    w = World(ctx, engines=engines, lazy=True, **kw)
    w.patient = True
    w.por = True
    screen = Screen(w, p.get('kernel'))
    return w, screen


def _go(ctx, w, screen, fn):
    with w.patch(*screen.patches()):
        w.c = w.connect()
        try:
            fn(w.c)
        except Hang as e:
            ctx.fail(f'waits for ever: {e}')
        finally:
            w.c._closed = True


def _jobs(ctx, p, n):
    jobs = []
    for k in range(n):
        progs = p['progs'][k] if not isinstance(p['progs'][0], str) else p['progs']
        jobs.append(Job(k, ctx.choose(f'prog{k}', progs), bool(p.get('fails')) and ctx.flip(f'fails{k}')))
    return jobs


def _program(w, jobs, which):
    """requests publish what their job says; `which(msg, engine)` finds it"""

    def output(e, msg):
        j = which(msg, e)
        j.eid = e.id
        _emit(w, e, msg, j)

    w.output = output


P2 = ('quiet', 'line', 'partial', 'plots', 'value', 'mixed')


def quiet_task(k):
    return k


def failing_task(k):
    raise ValueError(f'bad{k}')


@harness('C06', 'display',
         quick=(dict(how='exec', progs=P2, groupby=('type', 'engine', 'order')),
                dict(how='tasks', progs=('quiet', 'line', 'plots', 'partial'), groupby=('type', 'engine', 'order'), fails=1)),
         thorough=(dict(how='exec', n=3, progs=P2, groupby=('type', 'engine', 'order'), fails=1),
                   dict(how='tasks', n=3, progs=P2[:3], groupby=('type', 'engine', 'order'), fails=1)),
         labels=('type', 'engine', 'order', 'failed'),
         bounds='2-3 requests with every combination of programs (text with and without line ends, displays, results), each '
                'failing or not, on distinct engines or sharing them; every grouping; with and without the results only',
         stubs='in-process network and IPython display functions that record')
def display(ctx):
    p = ctx.params
    n = p.get('n', 2)
    w, screen = _setup(ctx, p, engines=n)
    jobs = _jobs(ctx, p, n)
    if p['how'] != 'exec':
        w.prompt = True
        w.assign = lambda w, m, es: es[ctx.choose(f'on{len(w.sent)}', range(len(es)))]
    w.por = False

    def go(c):
        from ipyparallel.client.asyncresult import AsyncResult

        by_msg = {}
        if p['how'] == 'exec':
            _program(w, jobs, lambda m, e: jobs[e.id])
            ar = c[:].execute(_code(jobs), block=False)
        else:
            _program(w, jobs, lambda m, e: by_msg[m['header']['msg_id']])
            ars = []
            lv = c.load_balanced_view()
            for j in jobs:
                a = lv.apply_async(failing_task if j.fails else quiet_task, j.k)
                by_msg[a.msg_ids[0]] = j
                ars.append(a)
            ar = AsyncResult.join(*ars)
        _drain(w)
        for j in jobs:
            if j.fails:
                ctx.reach('failed')
        groupby = ctx.choose('groupby', p['groupby'])
        only = ctx.flip('results only')
        ctx.reach(groupby)
        del screen.log[:]
        with raises_nothing(ctx, f'display_outputs({groupby})'):
            ar.display_outputs(groupby, result_only=only)
        sh = Shown(ctx, w, screen)
        _compare(ctx, sh, jobs, f'display_outputs({groupby})', results_only=only)
        if not only:
            _grouped(ctx, sh, jobs, groupby)

    _go(ctx, w, screen, go)


def _code(jobs):
    bad = {j.k: 1 for j in jobs if j.fails}
    return f'if get_ipython().engine.id in {bad}: raise ValueError("bad%i" % get_ipython().engine.id)'


def _drain(w, n=None):
    while n is None or n > 0:
        n = n and n - 1
        r = w.ready()
        if not r:
            return
        k, x = r[0]
        if k == 'io':
            w.loop.callbacks.pop(0)()
            w.net.run()
        elif k == 'deliver':
            w.deliver(x)
        elif k == 'run':
            x.run_one()


def _grouped(ctx, sh, jobs, groupby):
    rank = {'stdout': 0, 'stderr': 1}
    kinds = []
    for o in sh.order:
        if o[0] == 'text':
            kinds.append((rank[o[1]], o[2]))
        elif o[0] == 'plot':
            kinds.append((2, o[2], o[1]))
        else:
            kinds.append((3, o[1]))
    if groupby == 'engine':
        seen = [k[1] for k in kinds]
        want = [str(j.eid) for j in jobs]
        runs = [x for i, x in enumerate(seen) if i == 0 or seen[i - 1] != x]
        it = iter(want)
        ctx.check(all(x in it for x in runs), f'grouped by engine: engines in the order {seen}')
        return
    ctx.check([k[0] for k in kinds] == sorted(k[0] for k in kinds), f'not grouped by type: {kinds}')
    plots = [k[2] for k in kinds if k[0] == 2]
    if groupby == 'type':
        want = [s for j in jobs for s in j.all('dis')]
    else:
        want = [j.all('dis')[i] for i in range(2) for j in jobs if len(j.all('dis')) > i]
    ctx.check(plots == want, f'displays are shown in the order {plots}, expected {want}')


@harness('C06', 'stream',
         quick=(dict(how='exec', progs=(('line', 'partial'), ('mixed',))), dict(how='exec', progs=(('line',), ('value',)), fails=1),
                dict(how='exec', progs=(('line',), ('partial', 'line')), kernel=1),
                dict(how='tasks', progs=(('line',), ('plots',))), dict(how='tasks', progs=(('line',), ('line',)), kernel=1),
                dict(how='task', progs=('line', 'mixed', 'partial'), n=1)),
         thorough=(dict(how='exec', progs=('quiet', 'line', 'partial', 'value'), fails=1),
                   dict(how='exec', progs=('line', 'plots', 'value'), fails=1, kernel=1),
                   dict(how='tasks', progs=('quiet', 'line', 'plots', 'partial'), fails=1), dict(how='map', progs=('line', 'partial'), fails=1)),
         labels=('before', 'during', 'failed'),
         bounds='1-2 requests; streaming starts after any of the output has arrived; every order of arrival of messages of '
                'different engines',
         stubs='in-process network and IPython display functions that record')
def stream(ctx):
    p = ctx.params
    n = p.get('n', 2)
    w, screen = _setup(ctx, p, engines=n)
    w.assign = lambda w, m, es: es[ctx.choose(f'on{len(w.sent)}', range(len(es)))]
    jobs = _jobs(ctx, p, n)

    def go(c):
        from ipyparallel.client.asyncresult import AsyncResult

        by_msg = {}
        if p['how'] == 'exec':
            _program(w, jobs, lambda m, e: jobs[e.id])
            ar = c[:].execute(_code(jobs), block=False)
        else:
            _program(w, jobs, lambda m, e: by_msg[m['header']['msg_id']])
            lv = c.load_balanced_view()
            ars = []
            for j in jobs:
                a = lv.apply_async(failing_task if j.fails else quiet_task, j.k)
                by_msg[a.msg_ids[0]] = j
                ars.append(a)
            ar = AsyncResult.join(*ars)
        while w.ready() and ctx.flip(f'before{w.steps}'):
            w.step()
        w.barrier()
        if any(v['stdout'] or v['stderr'] or v['outputs'] for v in ar._metadata):
            ctx.reach('before')
        with raises_nothing(ctx, 'stream_output'):
            with ar.stream_output():
                if w.ready():
                    ctx.reach('during')
                ar.wait()
                ar.wait_for_output()
        sh = Shown(ctx, w, screen)
        _compare(ctx, sh, jobs, 'streamed')
        if p['how'] == 'exec':
            bad = sorted(f'bad{j.k}' for j in jobs if j.fails)
            got = sorted(re.findall(r'tb-e\d-(bad\d)', ' '.join(sh.errors)))
            ctx.check(got == bad, f'streamed errors {got} of {bad}')
            if bad:
                ctx.reach('failed')
        # again, all of it
        screen.log.clear()
        with raises_nothing(ctx, 'stream_output again'):
            with ar.stream_output():
                pass
        _compare(ctx, Shown(ctx, w, screen), jobs, 'streamed again')
        ctx.check(not any(f.iopub_callbacks for f in ar._children), 'streaming goes on after its end')

    _go(ctx, w, screen, go)


@harness('C06', 'px',
         quick=(dict(progs=('line', 'value'), fails=1), dict(progs=('line',), fails=1, dies=1),
                dict(progs=(('mixed',), ('partial',)), options=1)),
         thorough=(dict(progs=('quiet', 'line', 'value'), fails=1), dict(progs=('line', 'value'), fails=1, dies=1),
                   dict(progs=('mixed', 'partial', 'line'), fails=1, options=1)),
         labels=('shown', 'streamed', 'error', 'abbreviated', 'died', 'saved', 'not blocking', 'pxresult'),
         bounds='%%px over 2 engines; blocking or not, streaming or not, progress on or off, targets, saved results; each engine '
                'fails or not, or dies; every order of arrival of messages of different engines',
         stubs='in-process network and IPython display functions that record')
def px(ctx):
    p = ctx.params
    w, screen = _setup(ctx, p)
    jobs = _jobs(ctx, p, 2)
    w.prompt = bool(p.get('options'))
    _program(w, jobs, lambda m, e: jobs[e.id])

    def go(c):
        from ipyparallel import error
        from ipyparallel.client.magics import ParallelMagics

        v = c[:]
        vblock = v.block = bool(p.get('options')) and ctx.flip('view.block')
        targets = v.targets
        m = ParallelMagics(screen, v)
        m.progress_after_seconds = 2 if p.get('options') else ctx.choose('progress', (2, 0, -1))
        opts = []
        block = True
        stream_ = ctx.flip('stream')
        names = [0, 1]
        save = single = None
        opts.append('--stream' if stream_ else '--no-stream')
        if p.get('options'):
            how = ctx.choose('block', ('', '-b', '-a'))
            block = {'': vblock, '-b': True, '-a': False}[how]
            opts.append(how)
            names = ctx.choose('targets', ([0, 1], [1], [0]))
            if len(names) == 1:
                opts.append(ctx.choose('spelt', ('--targets %s', '-t [%s]', '-t %s:')) % names[0])
                if opts[-1] == '-t 0:':
                    names = [0, 1]
                elif opts[-1].startswith('--targets'):
                    single = str(names[0])
            if ctx.flip('save'):
                save = 'saved'
                opts.append('-o saved')
            g = ctx.choose('group', ('type', 'engine'))
            opts.append('-e' if g == 'engine' else '--group-outputs=type')
        else:
            opts.append('-b')
        asked = [jobs[i] for i in names]
        dies = None
        if p.get('dies') and ctx.flip('dies'):
            dies = w.engines['e0']

            def killer(real=w.step):
                if dies.alive and len(dies.queue) and ctx.flip(f'now{w.steps}'):
                    w.kill(dies)
                    ctx.reach('died')
                    return True
                return real()

            w.step = killer
        raised = None
        try:
            ret = m.cell_px(' '.join(opts), _code(jobs))
        except Exception as e:
            raised = e
        ctx.check(v.targets == targets and v.block == vblock, 'the view of the magics was changed')
        ar = m.last_result
        if save:
            ctx.check(screen.user_ns.get('saved') is ar, 'the result was not saved')
            ctx.reach('saved')
        dead = dies is not None and not dies.alive and jobs[0] in asked and jobs[0].eid is None
        bad = [j for j in asked if j.fails and not (dead and j is jobs[0])]
        if not block:
            ctx.check(raised is None and ret is ar, 'a call that does not block returns its result')
            ctx.check(not screen.log, 'a call that does not block shows output')
            ctx.reach('not blocking')
            if bad or dead or not ctx.flip('pxresult'):
                return
            with raises_nothing(ctx, '%pxresult'):
                m.result('')
            _drain(w)
            ctx.check(ar.done(), '%pxresult does not wait for the result')
            sh = Shown(ctx, w, screen, single)
            _compare(ctx, sh, asked, '%pxresult')
            ctx.reach('pxresult')
            return
        _drain(w)
        ctx.check(ar.done(), 'a blocking call returned before its result')
        if bad or dead:
            ctx.check(isinstance(raised, error.RemoteError), f'raised {raised!r}, though {len(bad)} engines failed')
            ctx.reach('error')
        else:
            ctx.check(raised is None, f'raised {raised!r}')
        sh = Shown(ctx, w, screen, single)
        alive = [j for j in asked if j.eid is not None]
        _compare(ctx, sh, alive, 'streamed' if stream_ else 'shown')
        ctx.reach('streamed' if stream_ else 'shown')
        told = ' '.join(sh.errors)
        if isinstance(raised, error.AlreadyDisplayedError):
            ctx.reach('abbreviated')
        elif raised is not None:
            told += ' '.join(raised.render_traceback()) + str(raised)
        for j in bad:
            ctx.check(f'bad{j.k}' in told, f'the error of engine {j.k} is never shown')
        if dead:
            ctx.check('EngineError' in told or 'died' in told, 'the death of an engine is never shown')

    _go(ctx, w, screen, go)


class Interp(Screen):
    """runs cells the way IPython does: through run_cell and run_ast_nodes, whichever they are now"""

    def run_cell(self, cell):
        self.cell = cell
        r = self.run_ast_nodes([cell], '<cell>')
        if hasattr(r, 'send'):
            try:
                r.send(None)
            except StopIteration as e:
                return e.value
            raise RuntimeError('run_ast_nodes waits for something')
        return r

    async def run_ast_nodes(self, nodes, name, *a, **k):
        cell = nodes[0]
        if cell.strip().startswith('%'):
            cmd, _, line = cell.strip()[1:].partition(' ')
            fn = self.magics[cmd]
            return fn(line)
        self.ran.append(cell)

    def showtraceback(self, *a, **k):
        import sys
        self.tracebacks.append(sys.exc_info()[1])


CONFIG = {
    'targets': ('--targets 1', '-t :1', '-t [1]'),
    'block': ('-b', '-a'),
    'stream': ('--stream', '--no-stream'),
}


@harness('C06', 'cells',
         quick=(dict(how='local'), dict(how='auto'), dict(how='interrupt'), dict(how='config')),
         labels=('local', 'autopx on', 'autopx off', 'interrupted', 'configured', 'raised'),
         bounds='the magics of a view with or without a suffix over 2 engines: %%px --local (engines fail or not), %autopx with two '
                'cells between switching it on and off, an interrupt at any moment of a wait with a signal named in any '
                'way, %pxconfig with any one or two options; any order of arrival of messages of different engines',
         stubs='in-process network, a shell that runs cells through run_cell and run_ast_nodes as IPython does')
def cells(ctx):
    p = ctx.params
    how = p['how']
    w, _ = _setup(ctx, p)
    screen = Interp(w, None)
    screen.tracebacks = []
    fails = how in ('local', 'auto') and ctx.flip('fails')
    jobs = [Job(0, 'line', fails), Job(1, 'value', False)]
    w.prompt = True
    _program(w, jobs, lambda m, e: jobs[e.id])
    signals = []

    def remote():
        return [(m['content']['code'], uuid) for mid, uuid in w.ran for m in [w.requests[mid.split('_')[0] if mid not in w.requests else mid]]]

    def go(c):
        from ipyparallel import error
        from ipyparallel.client.magics import ParallelMagics

        v = c[:]
        v.block = True
        m = ParallelMagics(screen, v, ctx.choose('suffix', ('', '_x')))
        px = 'px' + m.suffix
        screen.magics = {n: getattr(m, f) if isinstance(f, str) else f for n, f in m.magics['line'].items()}
        cell_px = m.magics['cell'][px]
        cell_px = getattr(m, cell_px) if isinstance(cell_px, str) else cell_px
        code = _code(jobs)
        raised = None
        if how == 'local':
            v.block = ctx.flip('view.block')
            opt = ctx.choose('block', ('', '-b', '-a'))
            block = {'': v.block, '-b': True, '-a': False}[opt]
            ret = None
            try:
                ret = cell_px(f'--local {opt}', code)
            except Exception as e:
                raised = e
            _drain(w)
            ctx.check(screen.ran == [code], f'with --local the cell ran here {len(screen.ran)} times')
            ctx.check(sorted(u for _, u in remote()) == ['e0', 'e1'], f'the cell ran on {remote()}')
            ctx.reach('local')
            if not block:
                ctx.check(ret is m.last_result and raised is None and not screen.log, 'a call that does not block waits or shows output')
                return
            ctx.check(isinstance(raised, error.RemoteError) if fails else raised is None, f'raised {raised!r}')
            if raised is not None:
                ctx.reach('raised')
            _compare(ctx, Shown(ctx, w, screen), jobs, '%%px --local')
        elif how == 'auto':
            run = screen.run_cell
            screen.run_cell(f'%auto{px}')
            ctx.reach('autopx on')
            done = []
            for i in range(2):
                screen.run_cell(code + f'\n# {i}')
                done.append(code + f'\n# {i}')
                _drain(w)
                ctx.check(not screen.ran, f'with %autopx on, {screen.ran} ran here')
                ctx.check([x for x, u in remote() if u == 'e0'] == done and len(remote()) == 2 * len(done),
                          f'with %autopx on, {len(remote())} requests ran for {len(done)} cells')
                ctx.check(len(screen.tracebacks) == (i + 1) * fails, f'{len(screen.tracebacks)} errors shown')
            _compare(ctx, Shown(ctx, w, screen), jobs * 2, '%autopx')
            screen.run_cell(f'%auto{px}')
            _drain(w)
            ctx.check(len(remote()) == 4, f'switching %autopx off ran {remote()[-1:]} on the engines')
            screen.run_cell('here = 1')
            _drain(w)
            ctx.check(screen.ran == ['here = 1'] and len(remote()) == 4, f'after %autopx was switched off, {screen.ran} ran here')
            ctx.reach('autopx off')
        elif how == 'config':
            kinds = ctx.choose('kinds', (('targets',), ('block',), ('stream',), ('targets', 'block'), ('block', 'stream')))
            opts = {k: ctx.choose(k, CONFIG[k]) for k in kinds}
            screen.run_cell(f'%pxconfig{m.suffix} ' + ' '.join(opts.values()))
            names = {'--targets 1': [1], '-t :1': [0], '-t [1]': [1]}.get(opts.get('targets'), [0, 1])
            own = ctx.choose('own', ('', '-a', '--no-stream', '-t 0'))
            if own == '-t 0':
                names = [0]
            block = opts.get('block') != '-a' and own != '-a'
            streamed = []
            real = type(v.execute('', block=False)).stream_output
            _drain(w)
            n = len(w.ran)
            from ipyparallel.client.asyncresult import AsyncResult
            with Patch((AsyncResult, 'stream_output', lambda ar: (streamed.append(1), real(ar))[1])):
                ret = cell_px(own, code)
            _drain(w)
            ctx.check(sorted(u for _, u in w.ran[n:]) == [f'e{i}' for i in names],
                      f'%pxconfig {opts}, %%px {own!r}: ran on {w.ran[n:]}, not on {names}')
            ctx.check((ret is None) == block, f'%pxconfig {opts}, %%px {own!r}: {"blocks not" if block else "blocks"}')
            if block:
                want = opts.get('stream') != '--no-stream' and own != '--no-stream'
                ctx.check(bool(streamed) == want, f'%pxconfig {opts}, %%px {own!r}: streamed={bool(streamed)}')
            ctx.reach('configured')
        else:
            for e in w.engines.values():
                def control(frames, e=e):
                    ids, parts = e.session.feed_identities(list(frames))
                    msg = e.session.deserialize(parts)
                    signals.append((e.id, msg['header']['msg_type'], msg['content'].get('sig')))
                    e.session.send(e.out('control'), 'signal_reply', {'status': 'ok'}, parent=msg, ident=ids)

                e.control = control
            opt = ctx.choose('signal', ('', '--signal-on-interrupt 15', '--signal-on-interrupt SIGTERM'))
            want = {'': 'SIGINT'}.get(opt, 15 if '15' in opt else 'SIGTERM')
            if opt and ctx.flip('configured'):
                screen.run_cell(f'%pxconfig{m.suffix} {opt}')
                opt = ''
            names = ctx.choose('names', ((), (1,), (0, 1)))
            m.progress_after_seconds = ctx.choose('progress', (2, 0, -1))
            stream_ = ctx.choose('stream', ('--stream', '--no-stream'))
            real = w.step
            at = []

            def step():
                if not at and ctx.flip(f'interrupt{w.steps}'):
                    at.append(m.last_result is not None and not m.last_result.done())
                    raise KeyboardInterrupt
                if at:
                    # (the rest in one order only)
                    n = len(w.ready())
                    _drain(w, 1)
                    return n > 0
                return real()

            w.step = step
            try:
                cell_px(f'{opt} {stream_} ' + (f'-t {list(names)}'.replace(' ', '') if names else ''), code)
            except BaseException as e:
                if not isinstance(e, (Exception, KeyboardInterrupt)):
                    raise
                raised = e
            _drain(w)
            asked = sorted(names) or [0, 1]
            if at:
                ctx.check(raised is None or isinstance(raised, KeyboardInterrupt), f'interrupted: raised {raised!r}')
                ctx.reach('interrupted')
                if at[0] or raised is None:
                    ctx.check(sorted(signals) == [(i, 'signal_request', want) for i in asked],
                              f'interrupted while running on {asked}: the engines got {signals}, not {want!r}')
            else:
                ctx.check(not signals and raised is None, f'signals {signals}, raised {raised!r} without an interrupt')

    _go(ctx, w, screen, go)


# ---------------------------------------------------------------- progress bars
def _rendered(text):
    """what is left on a notebook's screen of a text with carriage returns"""
    lines = text.split('\n')
    out = []
    for i, l in enumerate(lines):
        if i < len(lines) - 1 and l.endswith('\r'):
            l = l[:-1]  # the line end of other systems
        tail = '\r' if l.endswith('\r') else ''
        out.append(l[:len(l) - len(tail)].rsplit('\r', 1)[-1])
    return out


@harness('C06', 'overwritten',
         quick=(dict(sizes=(1, 2, 1)), dict(sizes=(2, 2))), thorough=(dict(sizes=(2, 2, 2)), dict(sizes=(1, 1, 1, 2))),
         labels=('overwritten', 'kept', 'lines'),
         bounds='2-4 messages of 1-2 pieces each, the pieces being texts, carriage returns and line ends in any order, on '
                'one or both streams', stubs='in-process network')
def overwritten(ctx):
    p = ctx.params
    w = World(ctx, engines=1)
    w.prompt = True
    chunks = []
    for k, n in enumerate(p['sizes']):
        chunks.append(''.join(ctx.choose(f'piece{k}.{i}', ('ab', 'c', '\r', '\n')) for i in range(n)))
    other = ctx.flip('another stream between')
    if '\r\r' in ''.join(chunks):
        ctx.cut('one carriage return after the other')

    def output(e, msg):
        for c in chunks:
            e.io('stream', {'name': 'stdout', 'text': c}, msg)
            if other:
                e.io('stream', {'name': 'stderr', 'text': 'x'}, msg)

    w.output = output
    with w.patch():
        c = w.connect()
        try:
            ar = c[0].apply_async(quiet_task, 1)
            _drain(w)
            text = ''.join(chunks)
            got = ar.stdout
            ctx.check(_rendered(got) == _rendered(text), f'text {text!r} is shown as {got!r}')
            ctx.check(ar.stderr == ('x' * len(chunks) if other else ''), 'text of another stream')
            if '\r' not in text:
                ctx.check(got == text, f'text {text!r} is shown as {got!r}')
                ctx.reach('kept')
            elif len(got) < len(text):
                ctx.reach('overwritten')
            if '\r\n' in text:
                ctx.check('\n' in got, 'a line end is lost')
                ctx.reach('lines')
        except Hang as e:
            ctx.fail(f'waits for ever: {e}')
        finally:
            c._closed = True
