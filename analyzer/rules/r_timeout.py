"""C31: timeouts reach the wait they are given for, unchanged."""
from scen import *
from rules import r_io, r_wait, r_ws
from rules.r_io import run_spec, Spec
from rules.r_signal import ms, same_ms, limited, ANY
from rules import r_signal

R31 = 'timeout-honoured'


def again(sp, **kw):
    d = {k: v for k, v in sp.__dict__.items() if k != 'self'}
    d.update(kw)
    return Spec(**d)


def c31(ck):
    ck.only = [R31]
    ck.poke = False
    ck.values = ('any', 0, 1, 100, 86400000, -1)
    ck.shallow = 3 if not ck.thorough else 1
    for specs in (r_io.c17_specs, r_io.c15_specs, r_wait.c18_specs, r_wait.c19_specs, r_wait.c20_specs, r_wait.c22_specs, r_wait.c25_specs, r_ws.c23_specs):
        for sp in specs(ck):
            run_spec(ck, sp)
            # the functions mirroring a Qt wait function default to 30 s
            if sp.fn.endswith('_int') and not sp.fn.endswith(('_wrr_int', '_wbw_int', '_next_int')):
                run_spec(ck, again(sp, fn=sp.fn[:-4] + '_def', tkind='ms', values=('default',), default=30000))
    ck.only = None
    for name, sig, nargs, priv, timed in r_signal.WAITS:
        signal(ck, name, sig, nargs, priv, timed)
    for name, sig, nargs, priv, timed in LISTENERS:
        listener(ck, name, sig, nargs, priv, timed)
    for name in ('ws_bf', 'ws_bm', 'ws_tf', 'ws_tm'):
        for d in ('', '_def'):
            sig = {'ws_bf': 'binaryFrameReceived', 'ws_bm': 'binaryMessageReceived', 'ws_tf': 'textFrameReceived', 'ws_tm': 'textMessageReceived'}[name]
            listener(ck, name + d, sig, 2 if 'Frame' in sig else 1, False, not d, state=('int', 3), isValid=TRUE)


LISTENERS = [('lsn0', 'started', 0, True, True), ('lsn1', 'bytesWritten', 1, False, True), ('lsn2', 'finished', 2, False, True), ('lsn_private1', 'objectNameChanged', 1, True, True),
             ('lsn_forever', 'bytesWritten', 1, False, False)]
VALUES = ('any', 0, 1, 100, 86400000, -1)


def look(S, t, what):
    """Exactly one running timer with the interval t, or none."""
    I, w = S.I, S.w
    ts = w.active_timers()
    if not limited(I, t):
        if ts:
            raise Bad(R31, '%s starts a timer although there is no timeout' % what)
        return
    if len(ts) != 1:
        raise Bad(R31, '%s runs %d timers for its timeout' % (what, len(ts)))
    if not same_ms(w.timers[ts[0]]['interval'], t):
        raise Bad(R31, '%s uses a timeout of %s instead of the given one' % (what, fmt(w.timers[ts[0]]['interval'])))


def item(n, k):
    return [('param', 'arg%d_%d' % (k, i)) for i in range(n)]


def signal(ck, name, sig, nargs, priv, timed):
    f = harness(name)

    def scenario(S):
        I, w = S.I, S.w
        S.callees['h::observe'] = lambda r, a: ('void',)
        o = w.new('object')
        t = I.choose('timeout', VALUES) if timed else None
        a = [('ptr', o)] + ([('ptr', w.new('other'))] if len(f.params) > 1 + bool(timed) else [])
        c = I.start_coro(f, None, a + ([ms(t)] if timed else []))
        look(S, t, 'the wait')
        twice = name == 'sig_twice'
        how = I.choose('ends by', ['signal'] + (['timeout'] if w.active_timers() else []))
        if how == 'signal':
            w.emit(o, sig, item(nargs, 0), private=priv)
        else:
            w.fire_timer(w.active_timers()[0])
        w.drain()
        if not c.done:
            look(S, t, 'the second wait')
        elif w.active_timers():
            raise Bad(R31, 'the timeout keeps running after the wait')
    check(ck, name, scenario, [R31], blame='QCoro::detail::QCoroSignalBase::QCoroSignalBase')


def listener(ck, name, sig, nargs, priv, timed, **q):
    f = harness(name)

    def scenario(S):
        I, w = S.I, S.w
        S.cur_modes, S.cur_outcomes = ('sync',), ('value',)
        n = [0]

        def ob(r, a):
            n[0] += 1
            return ('void',)
        S.callees['h::observe'] = ob
        o = w.new('object', **q)
        t = I.choose('timeout', VALUES) if timed else None
        I.call_fn(f, None, [('ptr', o)] + ([ms(t)] if timed else []) + [('obj', ('heap', 'busy', I.uid()))])
        for k in range(3):
            look(S, t, 'waiting for item %d' % (k + 1))
            if I.choose(('next', k), ['signal'] + (['timeout'] if w.active_timers() else [])) == 'timeout':
                w.fire_timer(w.active_timers()[0])
                w.drain()
                if n[0] != k + 1:
                    raise Bad(R31, 'the generator does not end at the timeout')
                return
            w.emit(o, sig, item(nargs, k), private=priv)
            w.drain()
            if n[0] != k + 1:
                raise Bad(R31, 'the generator does not yield the item')
    check(ck, name, scenario, [R31], blame='QCoro::detail::QCoroWebSocket::' + name if name.startswith('ws') else 'QCoro::detail::QCoroSignalBase::handleTimeout')


RULES = {'C31': c31}
