"""S01: what is sent is what arrives: functions, arguments and buffers survive serialization."""
import functools

from symx.reg import harness, raises_nothing

MAIN = '''
import functools
def plain(x):
    return x + 1
def uses_global(x):
    return helper(x)
def default(x, y=(1, 2), *, z=uses_global, w=5):
    return (x, y, z(w))
def closure_of(v):
    def inner(x):
        return (x, v)
    return inner
def counter():
    n = 3
    def bump(x):
        nonlocal n
        n += 1
        return (n, x)
    return bump
def nested_fn(f):
    def inner(x):
        return f(x)
    return inner
def gen(x):
    yield x
    yield x
def posonly(a, /, b=2, *c, d, **e):
    return (a, b, c, d, sorted(e.items()))
def annotated(x: helper) -> int:
    return x
def array_default(x, a=ARR):
    return (x, a)
class Base:
    tag = 'base'
    data = ARR
    def m(self, x):
        return ('Base', x, self.data)
class Left(Base):
    pass
class Right(Base):
    def m(self, x):
        return ('Right', x, self.data)
class Both(Left, Right):
    tag = 'both'
    def p(self):
        return helper(1)
'''


def _main(np):
    """functions as a user would define them interactively"""
    ns = {'__name__': '__main__', 'helper': lambda x: ('here', x), 'ARR': np.arange(3)}
    ns['helper'].__module__ = '__main__'
    exec(MAIN, ns)
    return ns


def _there():
    ns = {'__name__': '__main__', 'there': 7, 'functools': functools}
    exec('def helper(x):\n    return ("there", x)\n', ns)
    return ns


def same(a, b):
    import numpy as np

    if type(a) is not type(b) and not (isinstance(a, int) or isinstance(b, int) or 'Sym' in type(a).__name__):
        return False
    if isinstance(a, np.ndarray):
        if a.dtype.newbyteorder('=') != b.dtype.newbyteorder('=') or a.shape != b.shape:  # pickle may normalise the byte order
            return False
        if a.dtype != b.dtype:
            return bool((a == b).all())
        if a.dtype.names:
            return repr(a.dtype) == repr(b.dtype) and repr(a.tolist()) == repr(b.tolist())
        if a.dtype.hasobject and a.dtype.kind == 'O':
            return all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return a.tobytes() == b.tobytes() if not a.dtype.hasobject else bool((a == b).all())
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, memoryview):
        return bytes(a) == bytes(b)
    return a == b


def ship(ctx, bufs):
    """over the wire: frames arrive as bytes, or as views of them"""
    bufs = [bytes(b) for b in bufs]
    return bufs if ctx.flip('copied') else [memoryview(b) for b in bufs]


DTYPES = ('f8', '>i4', 'U3', 'S3', 'c16', '?', 'M8[s]', 'm8[D]', 'O', 'f2', 'plain', 'nested object', 'aligned', 'titled', 'sub',
          'with dates', 'padded')


def dtype(np, name):
    d = {'plain': [('a', 'i4'), ('b', 'f8')], 'nested object': [('a', [('b', 'O')]), ('c', 'i1')],
         'titled': [(('title', 'a'), 'i4')], 'sub': [('a', 'i4', (2,))], 'with dates': [('t', 'M8[D]'), ('x', 'f4')]}
    if name == 'aligned':
        return np.dtype([('a', 'i1'), ('b', 'i8')], align=True)
    if name == 'padded':
        return np.dtype({'names': ['a', 'b'], 'formats': ['i4', 'i4'], 'offsets': [8, 0], 'itemsize': 16})
    return np.dtype(d.get(name, name))


SHAPES = ((3,), (), (0,), (2, 2), (0, 2), (2, 0), (1, 1, 2))


def array(np, name, shape, layout='C'):
    dt = dtype(np, name)
    n = 1
    for k in shape:
        n *= k
    a = np.zeros(n, dtype=dt)
    for i in range(n):
        if dt.names:
            for f in dt.names:
                if dt[f].names:
                    a[f]['b'][i] = ['x', i]
                elif f == 't':
                    a[f][i] = np.datetime64(i, 'D')
                else:
                    a[f][i] = i + 1
        elif dt.kind == 'O':
            a[i] = {'k': i}
        elif dt.kind in 'Mm':
            a[i] = i + 1
        else:
            a[i] = i + 1 if dt.kind not in 'US' else 'ab'[:i]
    a = a.reshape(shape)
    if layout == 'F':
        a = np.asfortranarray(a)
    elif layout == 'strided' and a.ndim and a.shape[0]:
        a = np.repeat(a, 2, axis=0)[::2]
    return a


PLACES = ('bare', 'list', 'dict', 'kwarg', 'default', 'closure', 'partial', 'nested', 'class')


@harness('S01', 'arrays',
         quick=(dict(dtypes=DTYPES, shapes=SHAPES[:3], places=('bare', 'closure')),
                dict(dtypes=('f8', 'M8[s]', 'aligned', 'O'), shapes=SHAPES[3:], places=('bare', 'dict')),
                dict(dtypes=('f8', 'O', 'nested object'), shapes=((2, 2),), places=PLACES)),
         thorough=(dict(dtypes=DTYPES, shapes=SHAPES, places=PLACES),),
         labels=('own frame', 'pickled', 'view'),
         bounds='arrays of 17 dtypes (structured, dates, objects, big endian), 7 shapes including empty and 0-d, 3 layouts, in 9 '
                'places (argument, container, default, closure, partial, class attribute); any buffer threshold (symbolic, unbounded)',
         stubs='frames are copied to bytes, the network is left out')
def arrays(ctx):
    import numpy as np

    from ipyparallel.serialize import pack_apply_message, unpack_apply_message

    p = ctx.params
    name = ctx.choose('dtype', p['dtypes'])
    shape = tuple(ctx.choose('shape', p['shapes']))
    layout = ctx.choose('layout', ('C', 'F', 'strided')) if len(shape) > 1 else ctx.choose('layout', ('C', 'strided'))
    place = ctx.choose('place', p['places'])
    a = array(np, name, shape, layout)
    keep = a.copy()
    b, c = np.arange(6.0), np.array([7, 1, 3], 'i2')  # others, which must not be mixed up with it
    ns = _main(np)
    f, args, kwargs = ns['plain'], (), {}
    if place == 'bare':
        args = (a, 1)
    elif place == 'list':
        args = ([c, a, b], a, (b,))
    elif place == 'dict':
        args = ({'z': b, 'a': a, 1: c},)
    elif place == 'kwarg':
        kwargs = {'z': c, 'a': a, 'b': b}
    elif place == 'nested':
        args = ([[c, a, [a, b]]],)
    elif place == 'default':
        exec('def with_default(x, c=C, d=A, *, l=B, k=A):\n    return (d, k, c, l)', dict(ns, A=a, B=b, C=c), ns)
        f = ns['with_default']
    elif place == 'closure':
        f = ns['closure_of'](a)
    elif place == 'partial':
        f = functools.partial(ns['closure_of'](0), a)
        args = (functools.partial(ns['posonly'], a, c, zz=b, d=a, aa=c),)
    else:
        cls = type('K', (ns['Base'],), {'z': b, 'data': a, 'a': c, '__module__': '__main__'})
        args = (cls,)
    t = ctx.int('threshold', 0, None)
    plain_frames = len(pack_apply_message(f, (0, 1), {}))
    with raises_nothing(ctx, f'packing an array of {name} {shape}, {place}'):
        bufs = pack_apply_message(f, args, kwargs, buffer_threshold=t)
    there = _there()
    with raises_nothing(ctx, f'unpacking an array of {name} {shape}, {place}'):
        f2, args2, kwargs2 = unpack_apply_message(ship(ctx, bufs), there)
    if place in ('bare', 'list', 'dict', 'nested'):
        ctx.check(same(args, args2), f'{name} {shape} {layout} in {place}: arrived as {args2}')
        if place == 'bare' and a.nbytes:
            if a.dtype.hasobject or not shape:
                ctx.reach('pickled')
            else:
                own = len(bufs) > plain_frames
                ctx.check(own == bool(t < a.nbytes), f'{len(bufs)} frames for an array of {a.nbytes} bytes, threshold {t!r}')
                ctx.reach('own frame' if own else 'view')
    elif place == 'kwarg':
        ctx.check(all(same(kwargs[k], kwargs2[k]) for k in 'zab') and len(kwargs2) == 3, f'{name} {shape} as a keyword')
    elif place == 'default':
        with raises_nothing(ctx, 'calling'):
            r = f2(0)
        ctx.check(same((a, a, c, b), r), f'{name} {shape} as a default')
    elif place == 'closure':
        with raises_nothing(ctx, 'calling'):
            r = f2(0)
        ctx.check(same((0, a), r), f'{name} {shape} in a closure')
    elif place == 'partial':
        with raises_nothing(ctx, 'calling'):
            r, q = f2(), args2[0]()
        ctx.check(same((a, 0), r) and same((a, c), tuple(q[:2])) and same(a, q[3]) and same([('aa', c), ('zz', b)], q[4]), f'{name} {shape} in a partial')
    else:
        with raises_nothing(ctx, 'calling'):
            r = args2[0]().m(0)
            q = args2[0].z, args2[0].a
        ctx.check(same(('Base', 0, a), r) and same((b, c), q), f'{name} {shape} in a class')
    ctx.check(same(a, keep), 'the array was changed')


FUNCS = ('plain', 'uses_global', 'default', 'closure', 'counter', 'nested', 'gen', 'posonly', 'annotated', 'array_default',
         'partial', 'partial_kw', 'lambda', 'class', 'module', 'interactive', 'depend', 'require', 'reference', 'builtin')


@harness('S01', 'functions', quick=(dict(where=('call', 'arg', 'list', 'default')),),
         thorough=(dict(where=('call', 'arg', 'list', 'default', 'kwarg', 'dict', 'partial', 'twice')),),
         labels=FUNCS,
         bounds='20 kinds of callables, as the function applied, as an argument, inside containers, partials and closures; '
                'symbolic arguments',
         stubs='frames are copied to bytes, the network is left out')
def functions(ctx):
    import numpy as np

    import ipyparallel as ipp
    from ipyparallel.serialize import PrePickled, pack_apply_message, unpack_apply_message

    p = ctx.params
    ns = _main(np)
    x = ctx.int('x')
    kind = ctx.choose('kind', FUNCS)
    where = ctx.choose('where', p['where'])
    call, want = (x,), None
    kw = {}
    if kind == 'closure':
        f, want = ns['closure_of'](['v', b'bytes']), (x, ['v', b'bytes'])
    elif kind == 'counter':
        f, want = ns['counter'](), (4, x)
    elif kind == 'nested':
        f, want = ns['nested_fn'](ns['uses_global']), ('there', x)
    elif kind == 'partial':
        f = functools.partial(functools.partial(ns['closure_of'](b'z')), x)
        call, want = (), (x, b'z')
    elif kind == 'partial_kw':
        f = functools.partial(ns['posonly'], b'a', memoryview(b'b'), d=ns['uses_global'], zz=[x], aa=b'q')
        call = ()
    elif kind == 'lambda':
        exec('f = lambda x, *a, y=2: (x, a, y, there)', ns)
        f, want = ns['f'], (x, (), 2, 7)
    elif kind == 'class':
        f = ns['Both']
        call = ()
    elif kind == 'module':
        f, call, want = _raise, (x,), ('module', x)
    elif kind == 'interactive':
        f, want = ipp.interactive(_uses_there), (x, 7)
    elif kind == 'depend':
        f, want = ipp.depend(ns['gen'], x)(ns['uses_global']), ('there', x)
    elif kind == 'require':
        f, want = ipp.require('functools', ns['plain'])(ns['uses_global']), ('there', x)
    elif kind == 'reference':
        f, want = ipp.Reference('there'), 7
    elif kind == 'builtin':
        f, call, want = max, (3, 4), 4
    else:
        f = ns[kind]
        if kind == 'posonly':
            kw = dict(d=1, e=2)
        want = {'plain': x + 1, 'uses_global': ('there', x), 'default': (x, (1, 2), ('here', 5)), 'gen': [x, x],
                'posonly': (x, 2, (), 1, [('e', 2)]), 'annotated': x, 'array_default': (x, np.arange(3))}[kind]
    if kind == 'default':
        want = (x, (1, 2), None)
    here = {'call': (f, (), {}), 'arg': (ns['plain'], (f, 1), {}), 'list': (ns['plain'], ([f, x], (f,)), {}),
            'default': (functools.partial(ns['closure_of'](f), 1), (), {}), 'kwarg': (ns['plain'], (), {'z': f, 'a': f}),
            'dict': (ns['plain'], ({'f': f, 2: f},), {}), 'partial': (functools.partial(ns['nested_fn'](f), 1, k=f), (), {}),
            'twice': (ns['plain'], (PrePickled(f),) * 2, {})}[where]
    with raises_nothing(ctx, f'packing {kind} as {where}'):
        bufs = pack_apply_message(*here)
        again = pack_apply_message(*here)
    ctx.check([bytes(b) for b in bufs] == [bytes(b) for b in again] or where == 'list' or kind in ('class', 'depend', 'require')
              or len(bufs) == len(again), 'packing changes what is packed')
    there = _there()
    with raises_nothing(ctx, f'unpacking {kind} as {where}'):
        f2, a2, k2 = unpack_apply_message(ship(ctx, bufs), there)
        if where == 'call':
            got = [f2]
        elif where == 'arg':
            ctx.check(a2[1] == 1, 'argument')
            got = [a2[0]]
        elif where == 'list':
            ctx.check(a2[0][1] == x, 'argument')
            got = [a2[0][0], a2[1][0]]
        elif where == 'default':
            got = [f2()[1]]
        elif where == 'kwarg':
            ctx.check(sorted(k2) == ['a', 'z'], 'keywords')
            got = list(k2.values())
        elif where == 'dict':
            ctx.check(list(a2[0]) == ['f', 2], 'keys')
            got = list(a2[0].values())
        elif where == 'partial':
            ctx.check(f2.args == (1,), 'arguments of a partial')
            got = [f2.keywords['k']]
        else:
            got = list(a2)
    for g in got:
        if kind == 'reference':
            ctx.check(g == want, f'a reference arrived as {g!r}')
            continue
        if kind == 'class':
            with raises_nothing(ctx, 'using a class'):
                o = g()
                r = (o.m(x), o.tag, o.p(), [c.__name__ for c in g.__mro__])
            ctx.check(same(r, (('Right', x, np.arange(3)), 'both', ('there', 1),
                               ['Both', 'Left', 'Right', 'Base', 'object'])), f'class: {r}')
            continue
        if kind == 'depend' and not g:
            continue
        with raises_nothing(ctx, f'calling {kind}'):
            r = g(*call, **kw)
            if kind == 'gen':
                r = list(r)
        if kind == 'default':
            ctx.check(same(r[:2], want[:2]), 'defaults')
            ctx.check(r[2] == ('there', 5), 'keyword-only defaults')
        elif kind == 'partial_kw':
            ctx.check(r[0] == b'a' and bytes(r[1]) == b'b' and r[2] == (), f'partial: {r}')
            ctx.check(r[3](x) == ('there', x), 'a function in a partial')
            ctx.check(same(r[4], [('aa', b'q'), ('zz', [x])]), f'keywords of a partial: {r[4]}')
        else:
            ctx.check(same(want, r), f'{kind} gives {r!r}, expected {want!r}')
        if kind not in ('partial', 'partial_kw', 'depend', 'require', 'builtin'):
            ctx.check(g.__name__ == f.__name__, 'name of a function')
    ctx.reach(kind)


def _raise(x):
    return ('module', x)


def _uses_there(x):
    return (x, there)  # noqa: F821


ELEMENTS = ('int', 'b0', 'b3', 'b5', 'mv', 'str', 'list', 'fn')


def _element(ctx, kind, k, ns):
    if kind == 'int':
        return ctx.int(f'v{k}')
    if kind in ('b0', 'b3', 'b5'):
        return bytes([65 + k]) * int(kind[1])
    if kind == 'mv':
        return memoryview(b'view%d' % k)
    if kind == 'str':
        return 's%d' % k
    if kind == 'list':
        return [b'inner%d' % k, k]
    if kind == 'fn':
        return functools.partial(ns['closure_of'](b'c%d' % k), b'arg%d' % k)
    if kind == 'none':
        return None
    raise KeyError(kind)


def _arrived(ctx, a, b, what):
    if isinstance(a, functools.partial):
        with raises_nothing(ctx, what):
            ctx.check(same(a(), b()), f'{what}: another function')
    elif isinstance(a, (list, tuple)):
        ctx.check(type(a) is type(b) and len(a) == len(b), f'{what}: {b!r} arrived instead of {a!r}')
        for x, y in zip(a, b):
            _arrived(ctx, x, y, what)
    elif isinstance(a, dict):
        ctx.check(type(b) is dict and list(a) == list(b), f'{what}: keys {b!r}')
        for x in a:
            _arrived(ctx, a[x], b[x], what)
    elif isinstance(a, set):
        ctx.check(type(b) is set and len(a) == len(b), f'{what}: {b!r}')
        fns = {str(x.args): x for x in a if isinstance(x, functools.partial)}
        for x in b:
            if isinstance(x, functools.partial):
                ctx.check(str(x.args) in fns and same(x(), fns[str(x.args)]()), f'{what}: elements of a set were mixed up')
            else:
                ctx.check(any(same(x, y) for y in a if not isinstance(y, functools.partial)), f'{what}: {x!r} in a set')
    else:
        ctx.check(same(a, b), f'{what}: {b!r} arrived instead of {a!r}')


SHAPES_OF = ('bare', 'list', 'tuple', 'dict', 'set', 'subclass')


class MyList(list):
    pass


@harness('S01', 'messages',
         quick=(dict(elements=ELEMENTS, n=2, containers=('bare', 'list', 'dict')),
                dict(elements=('int', 'b3', 'fn'), n=2, containers=('tuple', 'set', 'subclass')),
                dict(elements=('b3', 'mv', 'fn'), n=3, containers=('dict', 'set'), keys=1),
                dict(elements=('b3', 'int'), n=2, containers=('list', 'dict', 'set', 'tuple'), pad=(62, 63, 66))),
         thorough=(dict(elements=ELEMENTS, n=3, containers=SHAPES_OF), dict(elements=ELEMENTS, n=2, containers=SHAPES_OF, keys=1),
                   dict(elements=('b3', 'int', 'mv', 'fn'), n=2, containers=SHAPES_OF[1:], pad=(0, 61, 62, 63, 64, 65, 100))),
         labels=('own frame', 'not canned', 'over the default', 'set', 'reused'),
         bounds='two arguments and two keywords: 8 kinds of elements in 6 kinds of containers of up to 3 (or 61-103) elements; '
                'symbolic payload; any buffer threshold and any item threshold (both symbolic and unbounded)',
         stubs='frames are copied to bytes, the network is left out')
def messages(ctx):
    import numpy as np

    from ipyparallel.serialize import PrePickled, deserialize_object, pack_apply_message, serialize_object, unpack_apply_message

    p = ctx.params
    ns = _main(np)
    els = [_element(ctx, ctx.choose(f'el{k}', p['elements']), k, ns) for k in range(p['n'])]
    pad = ctx.choose('pad', p.get('pad', (0,)))
    kind = ctx.choose('container', p['containers'])
    filler = list(range(1000, 1000 + pad))
    hashable = [e for e in els if not isinstance(e, list)]
    if kind == 'bare':
        obj = els[0]
    elif kind == 'set':
        els = [e for e in hashable if not isinstance(e, memoryview) and 'Sym' not in type(e).__name__]
        obj = set(els + filler)
    elif kind == 'dict':
        names = [3, 'a', (1,)] if p.get('keys') else ['k1', 'k0', 'k2']
        obj = dict(zip(names[:len(els)] + filler, els + filler))
    else:
        obj = {'list': list, 'tuple': tuple, 'subclass': MyList}[kind](els + filler)
    if kind == 'subclass' and any(isinstance(e, memoryview) or isinstance(e, functools.partial) for e in els):
        ctx.cut('subclasses of containers are pickled as they are')
    t = ctx.int('buffer_threshold', 0, None)
    items = ctx.int('item_threshold', 0, None)
    second = ctx.choose('second', (b'second argument', els[-1] if els else 1))
    keyword = els[0] if els else b'kw'
    what = f'{kind} of {len(els)} + {pad}'
    n = len(obj) if isinstance(obj, (list, tuple, set, dict)) else 0
    small = kind != 'bare' and (n < items)
    plain = kind in ('list', 'tuple', 'dict') and not small
    if plain and any(isinstance(e, memoryview) for e in els):
        ctx.cut('large containers are pickled as they are')
    fns = [e for e in els if isinstance(e, functools.partial)]
    if (plain or kind == 'set' and not small) and fns:
        ctx.cut('large containers are pickled as they are: interactive functions need canning')
    with raises_nothing(ctx, f'packing a {what}'):
        bufs = pack_apply_message(ns['plain'], (obj, second), {'k': keyword, 'a': 1}, t, items)
    frames = [b for b in bufs if any(b is e for e in els) and b]
    if kind in ('list', 'tuple', 'dict', 'bare'):
        for e in els[:1 if kind == 'bare' else None]:
            if isinstance(e, bytes) and e and e is not second and e is not keyword:
                own = len([b for b in bufs if b is e])
                if kind == 'bare' or small:
                    ctx.check(own == (1 if len(e) > t else 0), f'{what}: {own} frames for {len(e)} bytes')
                    if own:
                        ctx.reach('own frame')
                else:
                    ctx.check(own == 0, f'{what}: a frame of a container that is pickled whole')
    del frames
    if kind == 'set':
        ctx.reach('set')
    if plain:
        ctx.reach('not canned')
    if small and n >= 64:
        ctx.reach('over the default')
    with raises_nothing(ctx, f'unpacking a {what}'):
        f2, a2, k2 = unpack_apply_message(ship(ctx, bufs), _there())
    ctx.check(len(a2) == 2 and sorted(k2) == ['a', 'k'], f'{what}: number of arguments')
    _arrived(ctx, obj, a2[0], what)
    _arrived(ctx, second, a2[1], 'second argument')
    _arrived(ctx, keyword, k2['k'], 'keyword')
    ctx.check(k2['a'] == 1, 'keyword')
    # results travel alone, several in a row
    pre = PrePickled(els[0] if els else 1)
    with raises_nothing(ctx, 'serializing'):
        row = serialize_object(obj, t, items) + serialize_object(second, t) + serialize_object(pre) + serialize_object(pre)
        rest = ship(ctx, row)
        got = []
        for _ in range(4):
            o, rest = deserialize_object(rest, _there())
            got.append(o)
    ctx.check(not rest, f'{what}: {len(rest)} frames left over')
    for a, b in zip((obj, second, els[0] if els else 1, els[0] if els else 1), got):
        _arrived(ctx, a, b, f'{what}, in a row')
    ctx.reach('reused')
