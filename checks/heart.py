"""H01: the heart monitor's verdicts."""
from symx.core import And, Implies, Not, Or
from symx.reg import harness, raises_nothing
from fixtures.wire import FakeLoop, FakeStream, FakeTime, NullLog, Packer, Patch, make_session


def monitor(misses):
    from ipyparallel.controller import heartmonitor as hm

    t = FakeTime()
    sess = make_session(Packer())
    ping, pong, mon = FakeStream('ping'), FakeStream('pong'), FakeStream('mon')
    m = hm.HeartMonitor(ping_stream=ping, pong_stream=pong, monitor_stream=mon, session=sess, loop=FakeLoop(),
                        log=NullLog())
    m._trait_values['max_heartmonitor_misses'] = misses
    pong.on_recv(m.handle_pong)
    return m, t, sess, ping, pong, mon


KINDS = ('none', 'now', 'flush', 'late', 'stale', 'both')


@harness('H01', 'beats', labels=('new', 'stopped', 'probation', 'revived'),
         quick=({'hearts': 1, 'beats': 6}, {'hearts': 2, 'beats': 3}),
         thorough=({'hearts': 1, 'beats': 8}, {'hearts': 2, 'beats': 4}, {'hearts': 3, 'beats': 3}),
         bounds='1 heart x 6 beats (thorough 8), 2 x 3 (4), 3 x 3 thorough; before each beat each heart sends '
                'nothing, an answer to the latest ping (received before, or while, the beat starts), to the previous '
                'one, to an older one, or to both; the allowed number of misses is an unbounded natural number',
         stubs='sockets, clock and periodic callback (beat() is called directly)')
def beats(ctx):
    from ipyparallel.controller import heartmonitor as hmod

    misses = ctx.int('max_misses', 0)
    m, t, sess, ping, pong, mon = monitor(misses)
    hearts = [b'h%d' % i for i in range(ctx.params['hearts'])]
    alive = {h: False for h in hearts}
    count = {h: 0 for h in hearts}
    ever = set()
    with Patch((hmod, 'time', t)):
        m.tic = t.time()
        with raises_nothing(ctx, 'first beat'):
            m.beat()
        seen = 0
        for b in range(ctx.params['beats']):
            answered = {}
            for h in hearts:
                kinds = KINDS if b >= 2 else KINDS[:4] if b == 1 else KINDS[:3]
                k = ctx.choose(f'b{b}{h.decode()}', kinds)
                sent = [p[0] for p in ping.sent]
                with raises_nothing(ctx, 'handle_pong'):
                    if k == 'now':
                        m.handle_pong([h, sent[-1]])
                    elif k == 'flush':
                        pong.pending.append([h, sent[-1]])
                    elif k == 'late':
                        m.handle_pong([h, sent[-2]])
                    elif k == 'stale':
                        m.handle_pong([h, sent[-3]])
                    elif k == 'both':
                        m.handle_pong([h, sent[-2]])
                        pong.pending.append([h, sent[-1]])
                answered[h] = k not in ('none', 'stale')
            with raises_nothing(ctx, 'beat'):
                m.beat()
            ctx.check(len(ping.sent) == b + 2 and len({p[0] for p in ping.sent}) == b + 2,
                      'every beat sends one new ping')
            new, stopped = [], []
            for f in mon.sent[seen:]:
                ids, parts = sess.feed_identities(f)
                msg = sess.deserialize(parts)
                ctx.check(ids == [b'heartmonitor', b''], 'monitor topic')
                mt = msg['header']['msg_type']
                ctx.check(mt in ('new_heart', 'stopped_heart'), f'unexpected {mt}')
                (new if mt == 'new_heart' else stopped).extend(msg['content']['hearts'])
            seen = len(mon.sent)
            ctx.check(len(set(new)) == len(new) and len(set(stopped)) == len(stopped), 'heart announced twice')
            for h in hearts:
                n = h.decode()
                if answered[h]:
                    ctx.check(n not in stopped, f'{n} answered but was declared dead')
                    ctx.check((n in new) == (not alive[h]), f'{n}: wrong announcement of a new heart')
                    if not alive[h]:
                        ctx.reach('revived' if h in ever else 'new')
                    elif count[h]:
                        ctx.reach('probation')
                    alive[h] = True
                    ever.add(h)
                    count[h] = 0
                else:
                    ctx.check(n not in new, f'{n} did not answer this beat but was announced')
                    if alive[h]:
                        count[h] += 1
                        over = count[h] > misses
                        ctx.check(over if n in stopped else Not(over),
                                  f'{n}: {count[h]} consecutive misses, ' + ('stopped' if n in stopped else 'not stopped'))
                        if n in stopped:
                            ctx.reach('stopped')
                            alive[h] = False
                            count[h] = 0
                    else:
                        ctx.check(n not in stopped, f'{n} was not monitored but was declared dead')
