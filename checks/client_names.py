"""C09: names on the engines: push, pull, execute, clear, remote imports, functional dependencies."""
import builtins
import contextlib
import io
import os
import sys
import tempfile
import types

from symx.reg import harness, raises_nothing
from fixtures.client import Hang, World


def _run(ctx, w, fn):
    with w.patch():
        w.c = w.connect()
        try:
            fn()
            w.drain()
            ctx.check(not w.c.outstanding, 'requests outstanding at rest')
        except Hang as e:
            ctx.fail(f'waits for ever: {e}')


def _views(c, ne):
    """name -> (make view, targets in order, single)"""
    v = {'all': (lambda: c[:], list(range(ne)), False), 'one': (lambda: c[ne - 1], [ne - 1], True),
         'list': (lambda: c[list(range(ne))[::-1]], list(range(ne))[::-1], False), 'first': (lambda: c[[0]], [0], False)}
    v['broadcast'] = (lambda: c.broadcast_view(), list(range(ne)), False)
    v['coalescing'] = (lambda: c.broadcast_view(is_coalescing=True), list(range(ne)), False)
    return v


def _names_of(e):
    from ipyparallel import error

    if isinstance(e, error.CompositeError):
        return [(x[0], x[3].get('engine_id') if x[3] else None) for x in e.elist]
    return [(e.ename, (e.engine_info or {}).get('engine_id'))]


def _lack(e, lacking, v):
    """NameErrors of exactly the engines that lack a name (a coalesced reply may carry the first error only)"""
    got = sorted(_names_of(e), key=str)
    if getattr(v, 'is_coalescing', False):
        return got and set(got) <= {('NameError', t) for t in lacking}
    return got == [('NameError', t) for t in sorted(lacking)]


def _touch(x):
    return ('got', x)


def _pair(x, y=None):
    return ('pair', x, y)


@harness('C09', 'names', labels=('pushed', 'pulled', 'missing', 'cleared', 'reference', 'executed', 'ran', 'bad name', 'part'),
         quick=({'engines': 2, 'ops': 2, 'views': ('all', 'one', 'list')}, {'engines': 2, 'ops': 2, 'views': ('broadcast', 'coalescing', 'first')},
                {'engines': 2, 'ops': 3, 'views': ('all', 'one', 'coalescing'), 'few': 1}),
         thorough=({'engines': 2, 'ops': 4, 'views': ('list', 'one'), 'few': 1}, {'engines': 2, 'ops': 3, 'views': ('all', 'one', 'list')}, {'engines': 3, 'ops': 2, 'views': ('all', 'list', 'broadcast')},
                   {'engines': 2, 'ops': 3, 'views': ('broadcast', 'coalescing', 'first')}),
         bounds='all sequences of 3 (4) operations on the names of 2 (3) engines through every kind of view; symbolic values',
         stubs='sockets; engines run the real apply and control handlers in their own namespaces')
def names(ctx):
    import ipyparallel as ipp
    from ipyparallel import error

    ctx.lazy_str = ctx.const_hash = True
    p = ctx.params
    ne = p['engines']
    w = World(ctx, engines=ne)
    w.prompt = True
    w.policy = ctx.choose('deliver', [0, -1])
    model = {e: {} for e in range(ne)}
    late = []

    def value(v, ar, block, single, targets, want, what):
        """want: engine -> value, or None if the name is missing there"""
        def read():
            try:
                got = ar() if block else ar().get()
            except (error.RemoteError,) as e:
                lacking = [t for t in targets if want[t] is None]
                ctx.check(lacking and _lack(e, lacking, v), f'{what}: {_names_of(e)}, expected NameErrors on {lacking}')
                ctx.reach('missing')
                return
            vals = [got] if single else got
            ctx.check(all(want[t] is not None for t in targets), f'{what}: no error for an unknown name')
            ctx.check(isinstance(vals, list) and len(vals) == len(targets), f'{what}: {vals!r}')
            for t, x in zip(targets, vals):
                ctx.check(type(x) is type(want[t]) or not isinstance(want[t], (tuple, list)), f'{what}: {x!r}')
                ctx.check(list(x) == list(want[t]) if isinstance(want[t], (tuple, list)) else x == want[t],
                          f'{what}: the value of another name or engine')
        if block:
            read()
        else:
            sent = ar()
            ar = lambda: sent
            late.append(read)

    def go():
        c = w.c
        vs = _views(c, ne)
        for k in range(p['ops']):
            make, targets, single = vs[ctx.choose(f'view{k}', p['views'])]
            v = make()
            ops = ['push', 'pull', 'execute']
            if k:
                ops += ['reference', 'clear']
            op = ctx.choose(f'op{k}', ops)
            how = (k + w.policy) % 2 if k else ctx.choose(f'how{k}', [0, 1])
            block = bool(how)
            what = f'{op} {k}'
            if op == 'push':
                x, y = ctx.int(f'x{k}'), ctx.int(f'y{k}')
                form = ctx.choose(f'form{k}', ['two'] if p.get('few') else ['push', 'two', 'item', 'update', 'bad', 'part'] if not k else ['two', 'item'])
                ts = targets
                with raises_nothing(ctx, what):
                    if form == 'push':
                        r = v.push({'a': x}, block=block)
                    elif form == 'two':
                        r = v.push(dict(b=y, a=x), block=block)
                    elif form == 'item':
                        v.block = block
                        v['a'] = x
                        r = None
                    elif form == 'update':
                        v.block = block
                        r = v.update({'b': y, 'a': x})
                    elif form == 'part':
                        if single:
                            ctx.cut('one engine')
                        ts = [targets[-1]]
                        r = v.push({'a': x}, targets=ts, block=block)
                        ctx.reach('part')
                if form == 'bad':
                    for f, err in ((lambda: v.push([('a', 1)]), TypeError), (lambda: v.pull(3), TypeError),
                                   (lambda: v.pull(['a', 3]), TypeError)):
                        try:
                            f()
                        except err:
                            ctx.reach('bad name')
                        else:
                            ctx.fail('a name that is no text was accepted')
                    continue
                for t in ts:
                    model[t]['a'] = x
                    if form in ('two', 'update'):
                        model[t]['b'] = y
                if r is not None and not block:
                    late.append(r.get)
                ctx.reach('pushed')
            elif op == 'pull':
                form = ctx.choose(f'form{k}', ['pull'] if p.get('few') else ['pull', 'names', 'item', 'get'][:3 if k else 4])
                n = 'b' if p.get('few') or k and form == 'item' else 'a' if k else ctx.choose(f'name{k}', ['a', 'b'])
                if form == 'names':
                    both = {t: [m['b'], m['a']] if 'a' in m and 'b' in m else None for t, m in model.items()}
                    value(v, lambda: v.pull(['b', 'a'], block=block), block, single, targets, both, what)
                else:
                    one = {t: m.get(n) for t, m in model.items()}
                    if form == 'pull':
                        value(v, lambda: v.pull(n, block=block), block, single, targets, one, what)
                    elif form == 'item':
                        v.block = block
                        value(v, lambda: v[n], True, single, targets, one, what)
                    else:
                        v.block = block
                        value(v, lambda: v.get(n), True, single, targets, one, what)
                ctx.reach('pulled')
            elif op == 'reference':
                one = {t: ('got', m['a']) if 'a' in m else None for t, m in model.items()}
                if not p.get('few') and ctx.flip(f'kw{k}'):
                    two = {t: ('pair', m['a'], m['b']) if 'a' in m and 'b' in m else None for t, m in model.items()}
                    f = v.apply_sync if block else v.apply_async
                    value(v, lambda: f(_pair, ipp.Reference('a'), y=ipp.Reference('b')), block, single, targets, two, what)
                else:
                    f = v.apply_sync if block else v.apply_async
                    value(v, lambda: f(_touch, ipp.Reference('a')), block, single, targets, one, what)
                ctx.reach('reference')
            elif op == 'execute':
                code = 'b = a' if p.get('few') or k or ctx.flip(f'copy{k}') else 'a = 7\n'
                lack = [t for t in targets if 'a' not in model[t] and code == 'b = a']
                ran = not k and not p.get('few') and ctx.flip('file')
                if ran:
                    f, path = tempfile.mkstemp(dir='/dev/shm')
                    os.write(f, code.encode())
                    os.close(f)
                    ctx.reach('ran')

                def ex(path=path if ran else None):
                    try:
                        return v.run(path, block=block) if ran else v.execute(code, block=block)
                    finally:
                        if ran:
                            os.unlink(path)

                def done(get, lack=lack, what=what, v=v):
                    try:
                        get()
                    except error.RemoteError as e:
                        ctx.check(lack and _lack(e, lack, v), f'{what}: {_names_of(e)}, expected NameErrors on {lack}')
                    else:
                        ctx.check(not lack, f'{what}: no error on {lack}')
                if block:
                    done(lambda: ex().get())
                else:
                    with raises_nothing(ctx, what):
                        late.append(lambda r=ex(), done=done: done(r.get))
                for t in targets:
                    if code != 'b = a':
                        model[t]['a'] = 7
                    elif t not in lack:
                        model[t]['b'] = model[t]['a']
                ctx.reach('executed')
            else:
                if late:
                    ctx.cut('the order of requests in progress and a clear is open')
                ts = targets
                w.drain()
                with raises_nothing(ctx, what):
                    if how:
                        v.clear(block=True)
                    else:
                        c.clear(targets=ts if not single else ts[0], block=True)
                for t in ts:
                    model[t].clear()
                ctx.reach('cleared')
        for f in late:
            with raises_nothing(ctx, 'an earlier request'):
                f()
        w.drain()
        for e in range(ne):
            ns = w.engines[f'e{e}'].shell.user_ns
            for n in ('a', 'b'):
                ctx.check((n in ns) == (n in model[e]), f'{n} {"is" if n in ns else "is not"} on engine {e}')
                if n in ns:
                    ctx.check(ns[n] == model[e][n], f'{n} on engine {e}')
            left = [k for k in ns if k not in ('a', 'b', '__name__', '__builtins__', 'get_ipython', '_pair', '_touch') and not k.startswith('__')]
            ctx.check(not left, f'names left on engine {e}: {left}')

    _run(ctx, w, go)


STMTS = {'module': ('import vp_m', {'vp_m': 'vp_m'}), 'sub': ('import vp_p.q', {'vp_p': 'vp_p'}),
         'from': ('from vp_m import x', {'x': ('vp_m', 'x')}), 'two': ('from vp_m import y, x', {'x': ('vp_m', 'x'), 'y': ('vp_m', 'y')}),
         'submodule': ('from vp_p import q', {'q': 'vp_p.q'}), 'lack': ('import vp_lack', {'vp_lack': 'vp_lack'}),
         'fromlack': ('from vp_lack import z', {'z': ('vp_lack', 'z')}),
         'helper': ('helper()', {}), 'caught': ('try:\n        import vp_nosuch\n    except ImportError:\n        pass', {})}


class Finder:
    """modules of the scratch world; some engines lack vp_lack"""

    def __init__(self, w, lack, made):
        self.w, self.lack, self.made = w, lack, made

    def find_spec(self, name, path=None, target=None):
        from importlib.machinery import ModuleSpec

        if name not in self.made:
            return None
        if name == 'vp_lack' and self.w.shell is not None and self.w.shell.engine.id in self.lack:
            return None
        return ModuleSpec(name, self, is_package=name == 'vp_p')

    def create_module(self, spec):
        return self.made[spec.name]

    def exec_module(self, m):
        pass


@harness('C09', 'imports', labels=('imported', 'lacking', 'after a helper', 'after an error', 'failed here', 'printed'),
         quick=({'n': 2},), thorough=({'n': 3},),
         bounds='blocks of 2 (3) statements of 9 kinds under sync_imports or importer for 2 engines, some of which lack a '
                'module; the block may end with an error', stubs='sockets; importlib finder for scratch modules')
def imports(ctx):
    from ipyparallel import error

    ctx.lazy_str = ctx.const_hash = True
    w = World(ctx, engines=2)
    w.prompt = True
    kinds = [ctx.choose(f'stmt{k}', list(STMTS)) for k in range(ctx.params['n'])]
    end = ctx.choose('end', ['', 'import vp_nosuch', 'raise ValueError("mine")'])
    lack = ctx.choose('lack', [[], [1], [0, 1]]) if set(kinds) & {'lack', 'fromlack'} else []
    entry = ctx.choose('how', ['v.sync_imports(quiet=True)', 'v.sync_imports()', 'v.importer']) if not end else 'v.sync_imports(quiet=True)'
    made = {n: types.ModuleType(n) for n in ('vp_m', 'vp_p', 'vp_p.q', 'vp_lack', 'vp_inner')}
    made['vp_m'].x, made['vp_m'].y, made['vp_lack'].z = ctx.int('x'), ctx.int('y'), ctx.int('z')
    made['vp_p.q'].v = 5
    finder = Finder(w, lack, made)

    def forget(*a):
        for n in made:
            if n == 'vp_lack':
                sys.modules.pop(n, None)

    w.output = lambda e, m: forget()
    real = builtins.__import__

    def go():
        v = w.c[:]
        ns = {'v': v, '__name__': '__main__', '__builtins__': builtins}
        exec('def helper():\n    import vp_inner', ns)
        code = f'with {entry}:\n    ' + '\n    '.join(STMTS[k][0] for k in kinds) + (f'\n    {end}' if end else '')
        out = io.StringIO()
        got = None
        sys.meta_path.insert(0, finder)
        try:
            with contextlib.redirect_stdout(out):
                try:
                    exec(compile(code, '<block>', 'exec'), ns)
                except (error.RemoteError, ImportError, ValueError) as e:
                    got = e
            ctx.check(builtins.__import__ is real, f'{code}: import stays replaced')
            w.drain()
        finally:
            builtins.__import__ = real
            sys.meta_path.remove(finder)
            for n in made:
                sys.modules.pop(n, None)
        text = out.getvalue()
        lacking = sorted(lack) if set(kinds) & {'lack', 'fromlack'} else []
        if end:
            ctx.check(isinstance(got, (ImportError if 'import' in end else ValueError)) and not isinstance(got, error.RemoteError),
                      f'{code}: the error of the block became {got!r}')
            ctx.reach('failed here')
        elif lacking:
            ctx.check(isinstance(got, error.RemoteError), f'{code}: no error, though engines {lacking} lack a module')
            ctx.check(_names_of(got) == [('ModuleNotFoundError', e) for e in lacking], f'{code}: {_names_of(got)}')
            ctx.reach('lacking')
        else:
            ctx.check(got is None, f'{code}: raised {got!r}')
        for e in range(2):
            uns = w.engines[f'e{e}'].shell.user_ns
            for k in kinds:
                for name, src in STMTS[k][1].items():
                    if k in ('lack', 'fromlack') and e in lack:
                        ctx.check(name not in uns, f'{code}: {name} on engine {e}')
                        continue
                    ctx.check(name in uns, f'{code}: {name} is not defined on engine {e}')
                    ctx.check(name in ns, f'{code}: {name} is not defined here')
                    want = made[src] if isinstance(src, str) else getattr(made[src[0]], src[1])
                    ctx.check(uns[name] is want, f'{code}: {name} on engine {e} is {uns[name]!r}')
                    ctx.reach('imported')
            for n in ('vp_inner', 'remote_import', 'user_ns', 'mod', 'key'):
                ctx.check(n not in uns, f'{code}: {n} is defined on engine {e}')
        if 'quiet' in entry:
            ctx.check(not text, f'{code}: printed {text!r}')
        else:
            for k in kinds:
                if k not in ('helper', 'caught'):
                    ctx.check('importing' in text and STMTS[k][0].split()[1] in text, f'{code}: printed {text!r}')
                    ctx.reach('printed')
        for a, l in (('helper', 'after a helper'), ('caught', 'after an error')):
            if a in kinds[:-1] and kinds[-1] not in ('helper', 'caught'):
                ctx.reach(l)

    _run(ctx, w, go)


@harness('C09', 'depends', labels=('met', 'unmet', 'required', 'lacking', 'error'), quick=({},),
         bounds='functions that depend on a condition over a symbolic value of each of 2 engines, that require functions, values '
                'or modules (that some engines lack), or both; called through a direct or load-balanced view',
         stubs='sockets; importlib finder for scratch modules')
def depends(ctx):
    import ipyparallel as ipp
    from ipyparallel import error

    ctx.lazy_str = ctx.const_hash = True
    w = World(ctx, engines=2, assign=lambda w, m, es: ctx.choose('assign', es))
    w.prompt = True
    w.policy = 0
    kind = ctx.choose('kind', ['depend', 'unmet', 'raises', 'module', 'submodule', 'function', 'value', 'module object', 'bad', 'both'])
    lack = ctx.choose('lack', [[], [1], [0, 1]]) if kind in ('module', 'both', 'module object') else []
    limit = ctx.int('limit')
    vals = [ctx.int(f'v{e}') for e in range(2)]
    arg = ctx.int('arg')
    made = {n: types.ModuleType(n) for n in ('vp_lack', 'vp_p', 'vp_p.q')}
    finder = Finder(w, lack, made)
    w.output = lambda e, m: sys.modules.pop('vp_lack', None)
    lb = ctx.flip('balanced')
    src = {'__name__': '__main__', '__builtins__': builtins, 'ipp': ipp}
    exec('def enough(limit, extra=0):\n    return bool(here >= limit + extra)\n'
         'def never():\n    raise ipp.error.UnmetDependency("no")\n'
         'def broken():\n    raise KeyError("broken")\n'
         'def plain(x):\n    calls.append(x)\n    return here, x\n'
         'def uses(x):\n    calls.append(x)\n    return twice(x)\n'
         'def twice(x):\n    return 2 * x\n'
         'def named(x):\n    calls.append(x)\n    return x + offset\n'
         'def mod(x):\n    calls.append(x)\n    return vp_lack.__name__, x\n'
         'def sub(x):\n    calls.append(x)\n    return vp_p.q.__name__, x\n', src)

    def go():
        for e in range(2):
            w.engines[f'e{e}'].shell.user_ns.update(here=vals[e], calls=[], ipp=ipp)
        met = {e: True for e in range(2)}
        bad = 'UnmetDependency'
        if kind == 'depend':
            extra = ctx.int('extra')
            f = ipp.depend(src['enough'], limit, extra=extra)(src['plain'])
            met = {e: vals[e] >= limit + extra for e in range(2)}
            want = {e: (vals[e], arg) for e in range(2)}
        elif kind == 'unmet':
            f, met = ipp.depend(src['never'])(src['plain']), {0: False, 1: False}
            want = {}
        elif kind == 'raises':
            f, met, bad = ipp.depend(src['broken'])(src['plain']), {0: False, 1: False}, 'KeyError'
            want = {}
        elif kind in ('module', 'module object'):
            f = ipp.require('vp_lack' if kind == 'module' else made['vp_lack'])(src['mod'])
            met = {e: e not in lack for e in range(2)}
            want = {e: ('vp_lack', arg) for e in range(2)}
        elif kind == 'submodule':
            f = ipp.require('vp_p.q')(src['sub'])
            want = {e: ('vp_p.q', arg) for e in range(2)}
        elif kind == 'function':
            f = ipp.require(src['twice'])(src['uses'])
            want = {e: 2 * arg for e in range(2)}
        elif kind == 'value':
            off = ctx.int('off')
            f = ipp.require(offset=off)(src['named'])
            want = {e: arg + off for e in range(2)}
        elif kind == 'both':
            f = ipp.require('vp_lack', twice=src['twice'])(src['uses'])
            met = {e: e not in lack for e in range(2)}
            want = {e: 2 * arg for e in range(2)}
        else:
            try:
                ipp.require(3)
            except TypeError:
                ctx.reach('error')
            else:
                ctx.fail('require(3) was accepted')
            return
        ctx.check(f.__name__ in ('plain', 'mod', 'sub', 'uses', 'named'), f'the function is called {f.__name__}')
        if kind not in ('depend', 'unmet', 'raises'):
            ctx.reach('required')
        v = w.c.load_balanced_view() if lb else w.c[:]
        sys.meta_path.insert(0, finder)
        try:
            try:
                got = v.apply_async(f, arg).get()
            except error.RemoteError as e:
                got = e
        finally:
            sys.meta_path.remove(finder)
            for n in made:
                sys.modules.pop(n, None)
        ran = {e: w.engines[f'e{e}'].shell.user_ns['calls'] for e in range(2)}
        where = [e for e in range(2)] if not lb else [int(u[1:]) for _, u in w.ran]
        for e in where:
            ok = bool(met[e])
            ctx.check(len(ran[e]) == (1 if ok else 0), f'{kind}: the function ran {len(ran[e])} times on engine {e}')
            ctx.reach('met' if ok else 'unmet')
            if kind in ('module', 'both', 'module object') and not ok:
                ctx.reach('lacking')
        failed = [e for e in where if not bool(met[e])]
        if failed:
            ctx.check(isinstance(got, error.RemoteError), f'{kind}: no error, but the result {got!r}')
            ctx.check(_names_of(got) == [(bad, e) for e in failed], f'{kind}: {_names_of(got)}, expected {bad} on {failed}')
        else:
            ctx.check(not isinstance(got, Exception), f'{kind}: {got!r}')
            res = [got] if lb else got
            ctx.check(len(res) == len(where), f'{kind}: {got!r}')
            for e, r in zip(where, res):
                ctx.check(tuple(r) == tuple(want[e]) if isinstance(want[e], tuple) else r == want[e], f'{kind}: {r!r} on engine {e}')

    _run(ctx, w, go)
