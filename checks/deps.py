"""T05: Dependency algebra (controller/dependency.py) over symbolic sets."""
from symx import And, Or, Not, Iff, Implies, harness, raises_nothing, expect_raises

_cache = {}


def _module(ctx):
    if not ctx.symbolic:
        from ipyparallel.controller import dependency

        return dependency
    if 'm' not in _cache:
        from symx.sets import SymSet, load_shadowed, sym_len

        _cache['m'] = load_shadowed('ipyparallel.controller.dependency',
                                    {'set': SymSet, 'len': sym_len}, 'ipyparallel.controller._sym_dependency')
    return _cache['m']


def _symset(ctx, name, ids, cls=None):
    bits = {i: ctx.bool(f'{name}_{i}') for i in ids}
    if ctx.symbolic:
        from symx.sets import SymSet

        s = SymSet()
        s.bits = {i: b.z for i, b in bits.items()}
    else:
        s = {i for i, b in bits.items() if b}
    return s, bits


def _dep(ctx, m, ids):
    al, su, fa = ctx.bool('all'), ctx.bool('success'), ctx.bool('failure')
    ctx.assume(Or(su, fa))
    s, bits = _symset(ctx, 'dep', ids)
    if ctx.symbolic:
        d = m.Dependency([], all=al, success=su, failure=fa)
        d.bits = dict(s.bits)
    else:
        d = m.Dependency(sorted(s), all=al, success=su, failure=fa)
    return d, bits, al, su, fa


def _any(bits):
    return Or(*bits.values())


@harness('T05', 'check_unreachable', quick=[{'n': 4}], thorough=[{'n': 8}], labels=['done'],
         bounds='every dependency set, every disjoint pair (completed, failed) over n ids, every flag '
                'combination, and every later state (superset)')
def check_unreachable(ctx):
    m = _module(ctx)
    ids = [f'm{i}' for i in range(ctx.params['n'])]
    d, D, al, su, fa = _dep(ctx, m, ids)
    comp, C = _symset(ctx, 'c', ids)
    fail, F = _symset(ctx, 'f', ids)
    comp2, C2 = _symset(ctx, 'c2_', ids)
    fail2, F2 = _symset(ctx, 'f2_', ids)
    for i in ids:
        ctx.assume(Not(And(C[i], F[i])))
        ctx.assume(Not(And(C2[i], F2[i])))
        # the second state is a later one
        ctx.assume(And(Implies(C[i], C2[i]), Implies(F[i], F2[i])))
    with raises_nothing(ctx, 'Dependency.check/unreachable'):
        met = d.check(comp, fail)
        imp = d.unreachable(comp, fail)
        met2 = d.check(comp2, fail2)
        imp2 = d.unreachable(comp2, fail2)

    def ok(i, C, F):
        return Or(And(su, C[i]), And(fa, F[i]))

    def bad(i, C, F):
        return And(Or(C[i], F[i]), Not(ok(i, C, F)))

    def spec(C, F):
        some = _any(D)
        all_ok = And(*[Implies(D[i], ok(i, C, F)) for i in ids])
        any_ok = Or(*[And(D[i], ok(i, C, F)) for i in ids])
        all_bad = And(*[Implies(D[i], bad(i, C, F)) for i in ids])
        any_bad = Or(*[And(D[i], bad(i, C, F)) for i in ids])
        met = Or(Not(some), And(al, all_ok), And(Not(al), any_ok))
        imp = And(some, Or(And(al, any_bad), And(Not(al), all_bad)))
        return met, imp

    smet, simp = spec(C, F)
    ctx.check(Iff(met, smet), 'check() is true exactly when the dependency is met')
    ctx.check(Iff(imp, simp), 'unreachable() is true exactly when the dependency can no longer be met')
    ctx.check(Not(And(met, imp)), 'a dependency is never both met and unreachable')
    ctx.check(Implies(met, met2), 'a met dependency stays met')
    ctx.check(Implies(imp, imp2), 'an unreachable dependency stays unreachable')
    alldone = And(*[Implies(D[i], Or(C2[i], F2[i])) for i in ids])
    ctx.check(Implies(alldone, Or(met2, imp2)), 'with every id finished the dependency is decided')
    # the dependency itself is an input only
    for i in ids:
        now = d.has(i) if ctx.symbolic else (i in d)
        ctx.check(Iff(now, D[i]), 'checking does not change the dependency')
        now = comp.has(i) if ctx.symbolic else (i in comp)
        ctx.check(Iff(now, C[i]), 'checking does not change the completed set')
    ctx.reach('done')


@harness('T05', 'dict_roundtrip', quick=[{'n': 3}], thorough=[{'n': 5}], labels=['done'],
         bounds='every subset of n ids, every flag combination; list, dict, str and set sources')
def dict_roundtrip(ctx):
    from ipyparallel.controller import dependency as m

    ids = [f'm{i}' for i in range(ctx.params['n'])]
    al, su, fa = ctx.bool('all'), ctx.bool('success'), ctx.bool('failure')
    ctx.assume(Or(su, fa))
    sel = [i for i in ids if ctx.flip('in_' + i)]
    with raises_nothing(ctx, 'Dependency'):
        src = ctx.choose('src', ['list', 'set', 'tuple'] + (['str'] if len(sel) == 1 else []))
        v = {'list': sel, 'set': set(sel), 'tuple': tuple(sel), 'str': sel and sel[0]}[src]
        d = m.Dependency(v, all=al, success=su, failure=fa)
        dd = d.as_dict()
        ctx.check(sorted(dd['dependencies']) == sel, 'as_dict lists the ids')
        import json

        e = m.Dependency(dd)
    ctx.check(set(e) == set(sel), 'as_dict round trip keeps the ids')
    ctx.check(And(Iff(e.all, al), Iff(e.success, su), Iff(e.failure, fa)),
              'as_dict round trip keeps the flags')
    with expect_raises(ctx, 'a dependency on neither success nor failure', ValueError):
        m.Dependency(sel, success=False, failure=False)
    ctx.reach('done')
