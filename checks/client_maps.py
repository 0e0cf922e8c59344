"""C03: maps, scatter/gather and parallel functions compute what the builtin map computes."""
from symx.core import And
from symx.reg import harness, raises_nothing
from fixtures.client import Hang, World


def one(x):
    return 2 * x + 1


def two(x, y):
    return 3 * x - y


def _fails_on(key):
    def f(x, *ys):
        if x[1] == key:
            raise ValueError(f'bad {key}')
        return [x[1], two(x[0], ys[0][0]) if ys else one(x[0])]

    return f


def _want(n, m, vals):
    """[(i, f(x)), ...] for sequences of n (and m) elements"""
    xs, ys = vals
    return list(enumerate([one(x) for x in xs[:n]] if m is None else [two(x, y) for x, y in zip(xs[:n], ys[:m])]))


def _as(typ, seq):
    if typ == 'iter':
        return iter(list(seq))
    if typ == 'gen':
        return (x for x in list(seq))
    return {'list': list, 'tuple': tuple}[typ](seq)


def _eq(ctx, got, want, what):
    """`want`: (index, value) of an element or the text of its error"""
    got = list(got)
    ctx.check(len(got) == len(want), f'{what}: {len(got)} elements instead of {len(want)}')
    for a, b in zip(got, want):
        if isinstance(b, str):
            ctx.check(isinstance(a, Exception) and getattr(a, 'evalue', None) == b, f'{what}: an element is no error')
        else:
            ctx.check(not isinstance(a, Exception), f'{what}: an element is an error: {a}')
            ctx.check(isinstance(a, list) and len(a) == 2 and a[0] == b[0], f'{what}: element {a!r} is out of place')
            ctx.check(a[1] == b[1], f'{what}: value of element {b[0]}')


def _err(ctx, e, keys, what):
    """e reports some of the failures, and nothing else"""
    from ipyparallel import error

    ctx.check(isinstance(e, error.RemoteError), f'{what}: raised {type(e).__name__}: {e}')
    es = [x[1] for x in e.elist] if isinstance(e, error.CompositeError) else [e.evalue]
    ctx.check(es and all(x in [f'bad {k}' for k in keys] for x in es), f'{what}: {es}')


def _world(ctx, p):
    w = World(ctx, engines=p.get('engines', 2), assign=_alternate)
    w.prompt = True
    w.turn = 0
    return w


def _alternate(w, msg, es):
    w.turn += 1
    return es[w.turn % len(es)]


def _run(ctx, w, fn):
    with w.patch():
        w.c = w.connect()
        try:
            fn()
            w.drain()
            ctx.check(not w.c.outstanding, 'requests outstanding at rest')
        except Hang as e:
            ctx.fail(f'waits for ever: {e}')
        finally:
            w.c._closed = True


@harness('C03', 'maps',
         quick=tuple(dict(view=v, n=n, typ=t, block=b) for v, n, t, b in (
             ('direct', 3, 'list', 0), ('direct', 3, 'gen', 1), ('direct', 1, 'tuple', 0), ('lb', 3, 'list', 0),
             ('lb', 2, 'iter', 1), ('broadcast', 3, 'list', 0), ('broadcast', 2, 'tuple', 1)))
         + (dict(view='direct', n=3, m=2, typ='list', block=0), dict(view='lb', n=2, m=3, typ='gen', block=0),
            dict(view='broadcast', n=2, m=2, typ='iter', block=0), dict(view='lb', n=3, typ='list', block=0, chunk=2),
            dict(view='direct', n=0, typ='list', block=0), dict(view='lb', n=0, typ='gen', block=0),
            dict(view='direct', n=0, typ='list', block=1)),
         thorough=tuple(dict(view=v, n=n, m=m, typ=t, block=b, engines=3 if v == 'direct' else 2)
                        for v in ('direct', 'lb') for n, m in ((4, None), (3, 2), (2, 4), (2, 0)) for t in ('list', 'gen')
                        for b in (0, 1))
         + tuple(dict(view='broadcast', n=n, typ=t, block=b) for n in (1, 3, 4) for t in ('list', 'iter') for b in (0, 1))
         + tuple(dict(view='lb', n=n, typ='list', block=0, chunk=k) for n in (3, 4, 5) for k in (2, 3)),
         labels=('value', 'error', 'exceptions', 'empty'),
         bounds='up to 4 symbolic elements (two sequences of possibly different lengths) over 2-3 engines, chunks of 1-3, '
                'lists/tuples/generators, a failing element anywhere, every order of replies',
         stubs='in-process network; engines run the real apply handler; tasks alternate between engines')
def maps(ctx):
    p = ctx.params
    w = _world(ctx, p)
    n, m = p['n'], p.get('m')
    xs = [ctx.int(f'x{i}') for i in range(n)]
    ys = [ctx.int(f'y{i}') for i in range(m or 0)]
    total = n if m is None else min(n, m)
    key = ctx.choose('fails', [None] + list(range(total)))
    ret = ctx.flip('return_exceptions')
    want = _want(n, m, (xs, ys))
    seqs = [_as(p['typ'], [(x, i) for i, x in enumerate(xs)])]
    if m is not None:
        seqs.append(_as(p['typ'], [(y, i) for i, y in enumerate(ys)]))

    def go():
        kw = dict(return_exceptions=ret)
        if p['view'] == 'direct':
            v = w.c[:]
        elif p['view'] == 'broadcast':
            v = w.c.broadcast_view()
        else:
            v = w.c.load_balanced_view()
            kw['chunksize'] = p.get('chunk', 1)
            kw['ordered'] = ctx.flip('ordered')
        v.block = bool(p['block'])
        try:
            r = v.map(_fails_on(key), *seqs, **kw)
            if p['block']:
                ctx.check(isinstance(r, list), f'blocking map returned {type(r).__name__}')
                how = 'block'
            else:
                how = ctx.choose('how', ('get', 'iterate'))
                unordered = how == 'iterate' and not kw.get('ordered', True)
                if how == 'iterate':
                    it = iter(r)
                    r = []
                    while True:
                        try:
                            r.append(next(it))
                        except StopIteration:
                            break
                else:
                    r = r.get()
                if unordered:
                    r = _sorted(r, _chunks(total, p, n, m), key)
        except Exception as e:
            ctx.check(key is not None and not ret, f'map raised {type(e).__name__}: {e}')
            _err(ctx, e, [key], 'map')
            ctx.reach('error')
            return
        ctx.check(key is None or ret, 'map: an error was lost')
        if key is None:
            _eq(ctx, r, want, f'map ({how})')
            ctx.reach('value' if want else 'empty')
            return
        # the chunk with the failure is replaced by its error
        chunks = _chunks(total, p, n, m)
        exp = []
        for c in chunks:
            if key in c:
                exp.append(f'bad {key}')
            else:
                exp += [want[i] for i in c]
        _eq(ctx, r, exp, 'map (return_exceptions)')
        ctx.reach('exceptions')

    _run(ctx, w, go)


def _chunks(total, p, n, m):
    longest = n if m is None else max(n, m)
    idx = list(range(longest))
    if p['view'] == 'lb':
        k = p.get('chunk', 1)
        nparts = -(-longest // k)
    else:
        nparts = p.get('engines', 2)
    # contiguous, as even as possible, longer ones first
    size, rest = divmod(longest, nparts or 1)
    out = []
    for i in range(nparts):
        k = size + (i < rest)
        out.append([j for j in idx[:k] if j < total])
        idx = idx[k:]
    return [c for c in out]


def _sorted(got, chunks, key):
    """the elements of unordered chunks, back in order"""
    def where(g):
        return g[0] if not isinstance(g, Exception) else [c for c in chunks if key in c][0][0]

    return sorted(got, key=where)


@harness('C03', 'imap',
         quick=(dict(n=3, ordered=1, out='auto'), dict(n=3, ordered=0, out='auto'), dict(n=2, ordered=1, out=0),
                dict(n=3, ordered=1, out=1), dict(n=2, ordered=1, out='auto', iterfail=1),
                dict(n=3, ordered=1, out='auto', cancel=1), dict(n=0, ordered=0, out='auto')),
         thorough=(dict(n=4, ordered=1, out='auto'), dict(n=3, ordered=0, out=0), dict(n=4, ordered=1, out=1),
                   dict(n=4, ordered=0, out=2), dict(n=3, ordered=1, out='auto', iterfail=1),
                   dict(n=2, ordered=0, out=0, iterfail=1), dict(n=4, ordered=1, out='auto', cancel=1),
                   dict(n=3, ordered=0, out=1, cancel=1), dict(n=3, ordered=1, out=3), dict(n=0, ordered=1, out=0)),
         labels=('value', 'error', 'exceptions', 'iterator error', 'stopped', 'shutdown'),
         bounds='up to 4 symbolic elements over 2 engines, any limit of outstanding tasks, ordered or not, a failing '
                'element or a failing iterator anywhere, cancellation or leaving the loop at any point, every '
                'interleaving of the consumer thread and the replies',
         stubs='the consumer thread runs whole steps in between deliveries; finite waits end when nothing else can happen')
def imap(ctx):
    p = ctx.params
    w = _world(ctx, p)
    w.patient = True
    n = p['n']
    xs = [ctx.int(f'x{i}') for i in range(n)]
    stop = n
    if p.get('iterfail'):
        stop = ctx.choose('iterator fails at', range(n + 1))
    key = ctx.choose('fails', [None] + list(range(stop)))
    ret = ctx.flip('return_exceptions')
    out = p['out']
    limit = {'auto': 2}.get(out, out)
    use = ctx.choose('via', ('view', 'executor'))
    leave = ctx.choose('leave', ('cancel', 'break', None)) if p.get('cancel') else None
    at = ctx.choose('leave after', range(n)) if leave else None
    seen = dict(taken=0, got=0, most=0)

    def source():
        for i in range(n):
            if i == stop:
                raise OSError('bad input')
            seen['taken'] += 1
            if limit:
                busy = len(w.c.outstanding)
                ctx.check(busy < limit, f'imap: {busy + 1} tasks outstanding instead of {limit}')
            yield (xs[i], i)
        if stop == n and p.get('iterfail'):
            raise OSError('bad input')

    def go():
        v = w.c.load_balanced_view()
        v.block = ctx.flip('view.block')
        kw = dict(ordered=bool(p['ordered']), return_exceptions=ret, max_outstanding=out)
        ex = v.executor
        got = []
        failed = None
        try:
            it = (v.imap if use == 'view' else ex.map)(_fails_on(key), source(), **kw)
            for r in it:
                got.append(r)
                if leave and len(got) == at + 1:
                    if leave == 'break':
                        break
                    it.cancel()
        except Exception as e:
            failed = e
        it = None
        if key is not None and not ret and not leave:
            if isinstance(failed, OSError):
                # input and element failed: either is reported first, if unordered
                ctx.check(not p['ordered'], 'imap: the error of the iterator overtook an earlier one')
            else:
                ctx.check(failed is not None, 'imap: an error was lost')
                _err(ctx, failed, [key], 'imap')
                if p['ordered']:
                    _eq(ctx, got, [[i, one(xs[i])] for i in range(key)], 'imap: elements before the error')
                ctx.reach('error')
        elif failed is not None and p.get('iterfail'):
            ctx.check(isinstance(failed, OSError), f'imap raised {type(failed).__name__}: {failed}')
            ctx.reach('iterator error')
        elif failed is not None:
            ctx.check(key is not None and not ret, f'imap raised {type(failed).__name__}: {failed}')
            _err(ctx, failed, [key], 'imap')
        else:
            ctx.check(not p.get('iterfail'), 'imap: the error of the iterator was lost')
        if failed is None:
            want = [[i, one(x)] if i != key else f'bad {key}' for i, x in enumerate(xs[:stop])]
            if not p['ordered']:
                ks = [g[0] if not isinstance(g, Exception) else key for g in got]
                ctx.check(len(set(ks)) == len(ks), 'imap: an element came twice')
                got.sort(key=lambda g: key if isinstance(g, Exception) else g[0])
                want = [want[k] for k in sorted(ks)] if leave else want
            if leave:
                if p['ordered']:
                    want = want[:len(got)]
                ctx.check(len(got) >= min(at + 1, n), 'imap: elements are missing after cancel')
                ctx.reach('stopped')
            _eq(ctx, got, want, 'imap')
            ctx.reach('exceptions' if key is not None else 'value')
        if ctx.flip('shutdown'):
            ex.shutdown()
            ctx.check(not w.c.outstanding, 'executor.shutdown returned while tasks are outstanding')
            ctx.reach('shutdown')

    _run(ctx, w, go)


class Boom:
    """cannot be loaded on the engines"""

    def __reduce__(self):
        return dict.__getitem__, ({}, 'boom')


@harness('C03', 'scatter',
         quick=(dict(n=3, dist='b'), dict(n=3, dist='r'), dict(n=1, dist='b'), dict(n=1, dist='r'), dict(n=0, dist='b'),
                dict(n=2, dist='b', flatten=1), dict(n=4, dist='b', view='broadcast'),
                dict(n=2, dist='b', boom=1), dict(n=2, dist='r', flatten=1, boom=1)),
         thorough=tuple(dict(n=n, dist=d, engines=3) for n in range(6) for d in 'br')
         + tuple(dict(n=3, dist=d, engines=3, flatten=1) for d in 'br')
         + tuple(dict(n=n, dist='r', view='broadcast') for n in (1, 3, 5)),
         labels=('gathered', 'missing', 'error raised'),
         bounds='up to 5 symbolic elements over 2-3 engines, both distributions, any subset and order of targets, '
                'every reply order',
         stubs='engines run the real push/pull functions in their own namespaces')
def scatter(ctx):
    from ipyparallel import error

    p = ctx.params
    w = _world(ctx, p)
    n, ne = p['n'], p.get('engines', 2)
    xs = [ctx.int(f'x{i}') for i in range(n)]
    if p.get('boom'):
        xs[ctx.choose('boom', range(n))] = Boom()
    seq = ctx.choose('type', (list, tuple))(xs)
    which = ctx.choose('targets', [None, [ne - 1], list(range(ne))[::-1]]) if not p.get('flatten') else None
    block = ctx.flip('block'), ctx.flip('block2')

    def go():
        v = w.c.broadcast_view() if p.get('view') == 'broadcast' else w.c[:]
        ts = which or list(range(ne))
        kw = dict(targets=which) if which else {}
        try:
            r = v.scatter('a', seq, dist=p['dist'], flatten=bool(p.get('flatten')), block=bool(block[0]), **kw)
            if not block[0]:
                r.get()
        except error.RemoteError as e:
            ctx.check(p.get('boom') and (e.ename == 'KeyError' or isinstance(e, error.CompositeError)), f'scatter raised {e}')
            ctx.reach('error raised')
            return
        ctx.check(not p.get('boom'), 'scatter of an object that cannot be loaded raised no error')
        # every element is on exactly one engine, balanced
        parts = [w.engines[f'e{t}'].shell.user_ns['a'] for t in ts]
        for e in w.engines.values():
            ctx.check(e.id in ts or 'a' not in e.shell.user_ns, 'scatter: a part on an engine that is no target')
        if p.get('flatten') and n == ne:
            got = list(parts)
        else:
            sizes = [len(x) if isinstance(x, (list, tuple)) else 1 for x in parts]
            ctx.check(sum(sizes) == n and max(sizes) - min(sizes) <= 1, f'scatter: parts of {sizes}')
            got = None
        if p.get('flatten'):
            if got is not None:
                for g, x in zip(got, xs):
                    ctx.check(g == x, 'scatter(flatten): element on another engine')
            flat = v.gather('a', dist=p['dist'], block=bool(block[1]), **kw)
            flat = flat if block[1] else flat.get()
            if got is None:
                return
        else:
            flat = v.gather('a', dist=p['dist'], block=bool(block[1]), **kw)
            flat = flat if block[1] else flat.get()
        ctx.check(len(flat) == n, f'gather: {len(flat)} elements of {n}')
        for g, x in zip(flat, xs):
            ctx.check(g == x, 'gather: elements in another order or changed')
        ctx.reach('gathered')
        if which:
            # the other engines don't have it
            try:
                v.gather('nothing', dist=p['dist'], block=True, **kw)
                ctx.fail('gather of an undefined name succeeded')
            except Exception as e:
                names = [x[0] for x in e.elist] if hasattr(e, 'elist') else [getattr(e, 'ename', type(e).__name__)]
                ctx.check(set(names) == {'NameError'}, f'gather of an undefined name: {e}')
            ctx.reach('missing')

    _run(ctx, w, go)


def _total(part, *more):
    """of a chunk, for a direct call of a parallel function: elements changed in place in a list"""
    return [one(x) for x in part] if not more else [two(x, y) for x, y in zip(part, more[0])]


@harness('C03', 'functions',
         quick=(dict(view='direct', n=3, dist='b'), dict(view='direct', n=3, dist='r'), dict(view='lb', n=2, dist='b'),
                dict(view='direct', n=1, dist='r', two=1), dict(view='single', n=2, dist='b')),
         thorough=tuple(dict(view=v, n=n, dist=d, engines=3) for v in ('direct', 'single') for n in (1, 2, 4, 5)
                        for d in 'br')
         + tuple(dict(view='lb', n=3, dist=d, chunk=k) for d in 'br' for k in (1, 2, 3))
         + tuple(dict(view='direct', n=n, dist='r', two=1) for n in (3, 4)),
         labels=('call', 'map', 'remote', 'mismatch'),
         bounds='up to 5 symbolic elements over 2-3 engines, both distributions, blocking or not by decorator or view, '
                'every reply order')
def functions(ctx):
    p = ctx.params
    w = _world(ctx, p)
    n = p['n']
    xs = [ctx.int(f'x{i}') for i in range(n)]
    ys = [ctx.int(f'y{i}') for i in range(n)]
    what = ctx.choose('what', ('call', 'map', 'remote', 'mismatch'))
    vblock, block = ctx.flip('view.block'), ctx.choose('block', (None, True, False))
    blocks = vblock if block is None else block

    def go():
        from ipyparallel.client.remotefunction import ParallelFunction

        c = w.c
        v = {'direct': lambda: c[:], 'single': lambda: c[1], 'lb': c.load_balanced_view}[p['view']]()
        v.block = bool(vblock)
        if p['view'] == 'lb' or p.get('chunk'):
            pf = ParallelFunction(v, _total if what != 'map' else one if not p.get('two') else two, dist=p['dist'],
                                  block=block, chunksize=p.get('chunk'))
        else:
            # the decorator fixes block when it is applied
            pf = v.parallel(dist=p['dist'], block=block)(
                _total if what != 'map' else one if not p.get('two') else two)
        args = [xs, ys] if p.get('two') else [xs]
        want = [two(x, y) for x, y in zip(xs, ys)] if p.get('two') else [one(x) for x in xs]
        if what == 'mismatch':
            try:
                pf(xs, ys + [0])
                ctx.fail('a direct call with sequences of different lengths succeeded')
            except ValueError:
                ctx.reach('mismatch')
            return
        if what == 'remote':
            f = v.remote(block=block)(one)
            r = f(7) if n == 0 else f(xs[0])
            r = r if blocks else r.get()
            k = len(w.engines) if p['view'] == 'direct' else None
            r = [r] if k is None else r
            ctx.check(len(r) == (k or 1), f'remote function: {len(r)} results')
            for x in r:
                ctx.check(x == one(xs[0]), 'remote function: wrong result')
            ctx.reach('remote')
            return
        r = pf(*args) if what == 'call' else pf.map(*args)
        ctx.check(isinstance(r, list) == bool(blocks), f'parallel function: block={blocks} gives {type(r).__name__}')
        r = r if blocks else r.get()
        ctx.check(len(r) == n, f'parallel function: {len(r)} elements of {n}')
        for a, b in zip(r, want):
            ctx.check(a == b, 'parallel function: elements in another order or changed')
        ctx.reach(what)

    _run(ctx, w, go)


@harness('C03', 'executor',
         quick=(dict(view='lb'), dict(view='direct'), dict(view='broadcast')),
         thorough=tuple(dict(view=v, engines=3) for v in ('lb', 'direct', 'broadcast')),
         labels=('submitted', 'left with an error'),
         bounds='a submit and a map of 2 symbolic elements, either failing, results used or not, every reply order')
def executor(ctx):
    p = ctx.params
    w = _world(ctx, p)
    w.patient = True
    x, y, z = ctx.int('x'), ctx.int('y'), ctx.int('z')
    fails = ctx.choose('fails', (None, 0, 1))
    use = ctx.flip('use')

    def go():
        c = w.c
        v = {'direct': lambda: c[:], 'broadcast': c.broadcast_view, 'lb': c.load_balanced_view}[p['view']]()
        f = None
        got = []
        try:
            with v.executor as ex:
                f = ex.submit(one, z)
                m = ex.map(_fails_on(fails), [(x, 0), (y, 1)])
                if use:
                    got = list(m)
        except Exception as e:
            ctx.check(use and fails is not None, f'the executor raised {type(e).__name__}: {e}')
            _err(ctx, e, [fails], 'executor')
            ctx.reach('left with an error')
        else:
            ctx.check(not use or fails is None, 'the error of an element was lost')
            if use:
                _eq(ctx, got, [[0, one(x)], [1, one(y)]], 'executor.map')
        ctx.check(not c.outstanding, 'shutdown of the executor returned before its tasks were done')
        ctx.check(f.done(), 'shutdown returned before a submitted task was done')
        r = f.get()
        for g in r if isinstance(r, list) else [r]:
            ctx.check(g == one(z), 'submit: wrong result')
        ctx.reach('submitted')

    _run(ctx, w, go)
