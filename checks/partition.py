"""P01: partition / join of sequences (client/map.py)."""
from symx import And, Or, Eq, Implies, harness, raises_nothing, is_sym, Not, expect_raises


class Seq:
    """A sequence of (symbolic) length n that only answers slices."""

    def __init__(self):
        self.slices = []

    def __getitem__(self, s):
        if not isinstance(s, slice):
            raise TypeError('only slices')
        self.slices.append(s)
        return s


def _bounds(s, n, default_stop):
    low = 0 if s.start is None else s.start
    high = n if s.stop is None else s.stop
    return low, high, (1 if s.step is None else s.step)


@harness('P01', 'contiguous_any_length', quick=[{'q': q} for q in (1, 2, 3, 4, 5, 7, 8, 16)],
         thorough=[{'q': q} for q in range(1, 17)], labels=['done'],
         bounds='every sequence length n >= 0 (unbounded), q as listed, every p in [0,q)')
def contiguous(ctx):
    from ipyparallel.client import map as M

    q = ctx.params['q']
    n = ctx.int('n', 0)
    parts = []
    for p in range(q):
        seq = Seq()
        with raises_nothing(ctx, 'getPartition'):
            r = M.dists['b']().getPartition(seq, p, q, n)
        ctx.check(isinstance(r, slice), 'a sliceable sequence is partitioned by slicing')
        parts.append(_bounds(r, n, n))
    prev = 0
    for low, high, step in parts:
        ctx.check(step == 1, 'contiguous step')
        ctx.check(And(low >= 0, high >= 0), 'slice bounds are not negative (would count from the end)')
        # a slice selects [min(low,n), min(high,n))
        sel = Or(low >= n, low >= high)
        size = high - low
        ctx.check(Or(And(low == prev, high >= low, high <= n), And(sel, prev == n)),
                  'partitions tile the sequence in order: none lost, none duplicated')
        if not And(sel, prev == n):
            prev = high
    ctx.check(prev == n, 'the partitions cover the whole sequence')
    # balance
    for a in parts:
        for b in parts:
            ctx.check(And(a[1] - a[0] - (b[1] - b[0]) <= 1), 'partition sizes differ by at most one')
    ctx.reach('done')


@harness('P01', 'roundrobin_any_length', quick=[{'q': q} for q in (1, 2, 3, 5, 8)],
         thorough=[{'q': q} for q in range(1, 33)], labels=['done'],
         bounds='every n >= 0 and every index i in [0,n) (unbounded), q as listed')
def roundrobin(ctx):
    from ipyparallel.client import map as M

    q = ctx.params['q']
    n = ctx.int('n', 0)
    i = ctx.int('i', 0)
    ctx.assume(i < n)
    owners = []
    for p in range(q):
        seq = Seq()
        with raises_nothing(ctx, 'getPartition'):
            r = M.dists['r']().getPartition(seq, p, q, n)
        low, high, step = _bounds(r, n, n)
        ctx.check(And(low >= 0, high >= 0, step > 0), 'slice bounds not negative')
        owners.append(And(i >= low, i < high, (i - low) % step == 0))
    from symx import Sum

    ctx.check(Sum(owners) == 1, 'every element is in exactly one round-robin partition')
    ctx.reach('done')


def _small(ctx, maxn, maxq):
    n = ctx.concretise(ctx.int('n', 0, maxn))
    q = ctx.concretise(ctx.int('q', 1, maxq))
    return n, q


@harness('P01', 'join_inverts_partition', quick=[{'n': 8, 'q': 5}], thorough=[{'n': 20, 'q': 12}],
         labels=['done'],
         bounds='n <= 8, q <= 5 (thorough 20/12); element values symbolic; both dists; list, tuple, '
                'numpy arrays of 4 dtypes and 1 or 2 dimensions, non-sliceable iterables (b only)')
def join(ctx):
    from ipyparallel.client import map as M

    n, q = _small(ctx, ctx.params['n'], ctx.params['q'])
    dist = ctx.choose('dist', ['b', 'r'])
    vals = [ctx.int(f'v{i}') for i in range(n)]
    kinds = ['list', 'tuple', 'array', 'matrix'] + (['iter', 'len'] if dist == 'b' else [])
    kind = ctx.choose('kind', kinds)
    m = M.dists[dist]()
    array = kind in ('array', 'matrix')
    if array:
        import numpy

        vals = list(range(100, 100 + n))
        src = numpy.array(vals, dtype=ctx.choose('dtype', ['int16', 'float64', 'complex64', 'bool']))
        if kind == 'matrix':
            src = numpy.array([src, src + 1]).T.copy()
        vals = src.tolist()
    elif kind == 'list':
        src = list(vals)
    elif kind == 'tuple':
        src = tuple(vals)
    with raises_nothing(ctx, 'getPartition'):
        if kind == 'iter':
            # an iterable that cannot be sliced: a fresh iterator per partition
            class It:
                def __iter__(self):
                    return iter(vals)

            parts = [m.getPartition(It(), p, q, n) for p in range(q)]
        elif kind == 'len':
            src = list(vals)
            parts = [m.getPartition(src, p, q) for p in range(q)]
        else:
            parts = [m.getPartition(src, p, q, n) for p in range(q)]
    if not array:
        flat = [id(x) for part in parts for x in part]
        ctx.check(sorted(flat) == sorted(id(v) for v in vals) if ctx.symbolic else len(flat) == n,
                  'no element lost or duplicated')
    with raises_nothing(ctx, 'joinPartitions'):
        j = m.joinPartitions(parts)
    if array:
        ctx.check(j.dtype == src.dtype and j.shape == src.shape, 'array dtype/shape kept')
        ctx.check(j.tolist() == vals, 'joined array equals the original')
    else:
        ctx.check(len(j) == n, 'joined length')
        ctx.check(And(*[Eq(a, b) for a, b in zip(j, vals)]),
                  'joining the partitions restores the sequence in order')
    ctx.reach('done')


@harness('P01', 'invalid_partition_index', quick=[{}], labels=['done'],
         bounds='every p, q, n over unbounded integers with p<0 or p>=q, q >= 1')
def invalid(ctx):
    from ipyparallel.client import map as M

    ctx.lazy_str = True  # the error text is not part of the claim
    p = ctx.int('p')
    q = ctx.int('q', 1)
    n = ctx.int('n', 0)
    ctx.assume(Or(p < 0, p >= q))
    with expect_raises(ctx, 'getPartition outside [0,q)', ValueError):
        M.Map().getPartition(Seq(), p, q, n)
    ctx.reach('done')
