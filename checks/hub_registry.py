"""H02: the Hub's registry of engines."""
from symx.core import Not, Or
from symx.reg import harness
from fixtures.hub import Crash, HubRig, StateFile


def _same(a, b):
    return a == b


class Model:
    def __init__(self):
        self.reg = []  # (id, uuid)
        self.pend = []  # [id, uuid, timer]
        self.given = []  # ids ever granted

    def ids(self):
        return [i for i, _ in self.reg] + [p[0] for p in self.pend]


def _registry(ctx, rig, mod, what):
    r = rig.query('connection_request', {}, ident=b'cli')
    ctx.check(len(r) == 1 and r[0][0] == [b'cli'] and r[0][1]['header']['msg_type'] == 'connection_reply',
              f'{what}: exactly one connection_reply')
    got = r[0][1]['content']['engines']
    want = {str(i): u for i, u in mod.reg}
    ctx.check(got == want, f'{what}: connection_reply lists {got}, registered engines are {want}')
    # a query without targets concerns exactly the registered engines
    r = rig.query('queue_request', {'targets': None}, ident=b'cli')
    ctx.check(len(r) == 1 and r[0][1]['header']['msg_type'] == 'queue_reply', f'{what}: exactly one queue_reply')
    got = set(r[0][1]['content']) - {'status', 'unassigned'}
    ctx.check(got == set(want), f'{what}: queue_status without targets lists {sorted(got)}, registered are {sorted(want)}')


def _notes(ctx, rig, expected, what):
    got = [(m['header']['msg_type'], m['content']['id'], m['content']['uuid']) for _, m in rig.new(rig.note)]
    ctx.check(len(got) == len(expected), f'{what}: notifications {got}, expected {expected}')
    for g, e in zip(got, expected):
        ctx.check(g[0] == e[0] and g[2] == e[2], f'{what}: notification {g}, expected {e}')
        ctx.check(g[1] == e[1], f'{what}: notification carries a wrong id')
    ctx.check(not rig.log.swallowed, f'{what}: swallowed {rig.log.swallowed[:1]}')


def _step(ctx, rig, mod, ev, n, last):
    kind, u = ev
    what = f'step {n} {kind} {u or ""}'
    exp = []
    if kind == 'reg':
        req = None
        if not last and (any(u == x for _, x in mod.reg) or any(u == p[1] for p in mod.pend)):
            ctx.cut('no-op')
        if ctx.flip(f'hasreq{n}') if n in ctx.params.get('reqs', (n,)) else False:
            req = ctx.int(f'req{n}', 0)
        before = rig.loop.live()
        r = rig.register(u, req)
        ctx.check(len(r) == 1 and r[0][0] == [u.encode()] and r[0][1]['header']['msg_type'] == 'registration_reply',
                  f'{what}: exactly one registration_reply')
        c = r[0][1]['content']
        known = any(u == x for _, x in mod.reg) or any(u == p[1] for p in mod.pend)
        ctx.check((c['status'] == 'ok') == (not known), f'{what}: status {c["status"]}, uuid known: {known}')
        if not known:
            eid = c['id']
            for i in mod.ids():
                ctx.check(eid != i, f'{what}: id already in use')
            if req is not None:
                free = not any(bool(req == i) for i in mod.ids())
                ctx.reach('request granted' if free else 'request refused')
                if free:
                    ctx.check(eid == req, f'{what}: a free requested id was not granted')
            else:
                free = False
            if not free:
                for i in mod.given:
                    ctx.check(eid != i, f'{what}: an old id is reused unasked')
            ctx.check(c['connection_info'] == {'e': 1}, f'{what}: connection info')
            mod.given.append(eid)
            t = [t for t in rig.loop.live() if t not in before]
            ctx.check(len(t) == 1, f'{what}: no stall timer was started')
            t[0].known = True
            mod.pend.append([eid, u, t[0]])
        else:
            ctx.reach('duplicate')
    elif kind == 'heart':
        p = [p for p in mod.pend if p[1] == u]
        if not p and not last:
            ctx.cut('no-op')
        rig.heart('new_heart', u)
        if p:
            mod.pend.remove(p[0])
            mod.reg.append((p[0][0], u))
            exp.append(('registration_notification', p[0][0], u))
            ctx.reach('registered')
    elif kind == 'stop':
        p = [p for p in mod.reg if p[1] == u]
        if not p and not last:
            ctx.cut('no-op')
        rig.heart('stopped_heart', u)
        if p:
            mod.reg.remove(p[0])
            exp.append(('unregistration_notification', p[0][0], u))
            ctx.reach('heart stopped')
    elif kind in ('unreg', 'leave'):
        hit, foreign = None, False
        if kind == 'leave':
            # an engine that knows its uuid: whatever id it thinks it has concerns no other engine
            for i, x in mod.reg:
                if x == u:
                    hit = (i, x)
            for p in mod.pend:
                if p[1] == u:
                    hit = p
            others = [i for i in mod.ids() if hit is None or i is not hit[0]]
            eid = ctx.choose(f'leave{n}', [None] + others)
            foreign = eid is not None
            content = {'id': eid, 'uuid': u}
        else:
            eid = ctx.int(f'unreg{n}', 0)
            for i, x in mod.reg:
                if bool(eid == i):
                    hit = (i, x)
            for p in mod.pend:
                if bool(eid == p[0]):
                    hit = p
            content = {'id': eid}
        if hit is None and not foreign and not last:
            ctx.cut('no-op')
        rig.query('unregistration_request', content, ident=b'x')
        if type(hit) is tuple:
            mod.reg.remove(hit)
            exp.append(('unregistration_notification', hit[0], hit[1]))
            ctx.reach('unregistered')
        elif hit is not None:
            mod.pend.remove(hit)
            ctx.reach('cancelled')
        if foreign:
            ctx.reach('foreign id')
    elif kind == 'stall':
        live = [t for t in rig.loop.live() if hasattr(t, 'known')]
        if not live:
            ctx.cut('no timer')
        t = ctx.choose(f'timer{n}', live)
        late = ctx.flip(f'flushed heart{n}')
        p = [p for p in mod.pend if p[2] is t]
        if late and not p:
            ctx.cut('no timer')
        if late:
            # the first heartbeat is still waiting on the monitor socket
            u = p[0][1]
            m = rig.sess.msg('new_heart', {'hearts': [u]})
            rig.mon.pending.append([b'heartmonitor', b'heartmonitor', b''] + rig.sess.serialize(m))
        t.fire()
        if p:
            mod.pend.remove(p[0])
            if late:
                mod.reg.append((p[0][0], p[0][1]))
                exp.append(('registration_notification', p[0][0], p[0][1]))
                ctx.reach('late heart')
            else:
                ctx.reach('stalled')
    elif kind == 'strand':
        live = [t for t in rig.loop.live() if not hasattr(t, 'known')]
        if not live or not last:
            ctx.cut('no timer')
        live[0].fire()
    _notes(ctx, rig, exp, what)


@harness('H02', 'registry', quick=({'uuids': 2, 'events': 3}, {'uuids': 2, 'events': 4, 'reqs': (3, 4)}),
         thorough=({'uuids': 2, 'events': 4}, {'uuids': 3, 'events': 4}, {'uuids': 2, 'events': 5, 'reqs': (4, 5)}),
         labels=('registered', 'unregistered', 'cancelled', 'stalled', 'late heart', 'duplicate', 'heart stopped', 'foreign id',
                 'request granted', 'request refused'),
         bounds='histories of 4 (thorough 5) events after a first registration, 2 (3) engines; requested and '
                'unregistered ids and the initial id counter are unbounded symbolic integers',
         stubs='sockets, timers (fired in every order), clock')
def registry(ctx):
    ctx.lazy_str = ctx.const_hash = True
    rig = HubRig()
    mod = Model()
    rig.hub._trait_values['_idcounter'] = ctx.int('counter', 0)
    us = ['u%d' % i for i in range(ctx.params['uuids'])]
    N = ctx.params['events']
    with rig.patch():
        _step(ctx, rig, mod, ('reg', us[0]), 0, False)
        for n in range(1, N + 1):
            known = 1
            for u in us[1:]:
                if any(u == x for _, x in mod.reg) or any(u == p[1] for p in mod.pend) or getattr(mod, u, False):
                    known += 1
            opts = [(k, u) for k in ('reg', 'heart', 'stop') + ('leave',) * (n >= N - 1) for u in us[:known + 1]]
            opts += [('unreg', None), ('stall', None), ('strand', None)]
            ev = ctx.choose(f'ev{n}', opts)
            if ev[0] == 'reg':
                setattr(mod, ev[1], True)
            _step(ctx, rig, mod, ev, n, n == N)
        _registry(ctx, rig, mod, 'at the end')


@harness('H02', 'restart', quick=({'engines': 2},), thorough=({'engines': 3},),
         labels=('restored', 'reuse'),
         bounds='2 (thorough 3) engines with arbitrary ids, some of which left, then a restart of the controller from '
                'the saved state and one more registration', stubs='engine state file in memory')
def restart(ctx):
    files = StateFile()
    H = None
    rig = HubRig(engine_state_file='state.json')
    mod = Model()
    n = ctx.params['engines']
    with rig.patch((rig.H, 'open', files.open), (rig.H, 'os', files.os)):
        for k in range(n):
            req = ctx.choose(f'req{k}', [None, 0, 1, 2, 5])
            r = rig.register(f'u{k}', req)
            eid = r[0][1]['content']['id']
            mod.given.append(eid)
            if ctx.flip(f'finish{k}'):
                rig.heart('new_heart', f'u{k}')
                mod.reg.append((eid, f'u{k}'))
                if ctx.flip(f'leave{k}'):
                    rig.query('unregistration_request', {'id': eid}, ident=b'x')
                    mod.reg.pop()
                    mod.left = True
            else:
                mod.pending = True
        before = list(mod.given)
        ctx.check(not rig.log.swallowed, f'swallowed {rig.log.swallowed[:1]}')
        rig2 = HubRig(engine_state_file='state.json')
    with rig2.patch((rig2.H, 'open', files.open), (rig2.H, 'os', files.os)):
        try:
            rig2.hub._load_engine_state()
        except Exception as e:
            ctx.fail(f'loading the saved state: {type(e).__name__}: {e}')
        mod2 = Model()
        mod2.reg = list(mod.reg)
        ctx.check(not rig2.new(rig2.note), 'restoring notifies nobody')
        _registry(ctx, rig2, mod2, 'restored')
        if mod.reg:
            ctx.reach('restored')
        # restored engines are monitored again: a stopped heart unregisters them
        for eid, u in mod.reg:
            if ctx.flip(f'dies{eid}'):
                rig2.heart('stopped_heart', u)
                mod2.reg.remove((eid, u))
                _notes(ctx, rig2, [('unregistration_notification', eid, u)], 'after restoring')
        r = rig2.register('new')
        eid = r[0][1]['content'].get('id')
        if not getattr(mod, 'pending', False):
            ctx.check(eid not in before, f'id {eid} was in use before the restart')
            if getattr(mod, 'left', False):
                ctx.reach('reuse')
        else:
            ctx.check(eid not in [i for i, _ in mod.reg], f'id {eid} is in use')
        _registry(ctx, rig2, mod2, 'at the end')


@harness('H02', 'crash', quick=({'engines': 2},), thorough=({'engines': 3},),
         labels=('crashed', 'torn'),
         bounds='2 (thorough 3) engines with arbitrary ids that register, and may leave again, and a crash of the '
                'controller before any single file operation while it saves its state, when any part of what was '
                'written to the open file may have reached it; then a restart',
         stubs='engine state file in memory')
def crash(ctx):
    files = StateFile()
    rig = HubRig(engine_state_file='state.json')
    old, reg = [], []
    n = ctx.params['engines']
    crashed = False

    def step(what):
        nonlocal crashed
        kind, name, data = what
        if not ctx.flip(f'crash before {kind} {rig.steps}'):
            rig.steps += 1
            return
        if kind == 'write':
            files.files[name] = data[:ctx.choose('reached the file', [0, len(data) // 2, len(data)])]
            ctx.reach('torn')
        crashed = True
        files.crash = None
        raise Crash

    rig.steps = 0
    with rig.patch((rig.H, 'open', files.open), (rig.H, 'os', files.os)):
        files.crash = step
        try:
            for k in range(n):
                req = ctx.choose(f'req{k}', [None, 5])
                eid = rig.register(f'u{k}', req)[0][1]['content']['id']
                old, reg = reg, reg + [(eid, f'u{k}')]
                rig.heart('new_heart', f'u{k}')
                old = reg
                if ctx.flip(f'leave{k}'):
                    old, reg = reg, reg[:-1]
                    rig.query('unregistration_request', {'id': eid, 'uuid': f'u{k}'}, ident=b'x')
                    old = reg
        except Crash:
            ctx.reach('crashed')
        files.crash = None
        ctx.check(crashed or not rig.log.swallowed, f'swallowed {rig.log.swallowed[:1]}')
        rig2 = HubRig(engine_state_file='state.json')
    with rig2.patch((rig2.H, 'open', files.open), (rig2.H, 'os', files.os)):
        try:
            rig2.hub._load_engine_state()
        except Exception as e:
            ctx.fail(f'restarting after a crash: {type(e).__name__}: {e}')
        r = rig2.query('connection_request', {}, ident=b'cli')
        got = r[0][1]['content']['engines']
        wants = [{str(i): u for i, u in x} for x in (old, reg)]
        ctx.check(got in wants, f'restarted after a crash with engines {got}, before it had been {wants}')
