"""C23, C24: WebSockets."""
from scen import *
from rules.r_then import payload
from rules.r_io import Ev_, run_spec, Spec, res, show, same
from rules.r_wait import Starter, ref, plain, must_start
from rules.r_signal import ms, args_of, fmts

R23 = 'the-wait-reports-its-own-operation'
R24 = 'every-item-is-yielded-once-in-order'
R24b = 'nothing-stays-connected-after-the-generator'


def early(m, v):
    m.early.append(v)


def o_connecting(m):
    m.st['state'] = 2
    m.emit('stateChanged', ('int', 2))


def o_connected(m):
    m.st['state'] = 3
    m.emit('stateChanged', ('int', 3))
    m.emit('connected')


def o_failed(m):
    m.emit('errorOccurred', ('int', 0))
    m.emit('error', ('int', 0))


def o_refused(m):
    o_failed(m)
    m.st['state'] = 0
    m.emit('stateChanged', ('int', 0))
    m.emit('disconnected')


def o_lost(m):
    m.st['state'] = 0
    m.emit('stateChanged', ('int', 0))
    m.emit('disconnected')


def o_closing(m):
    m.st['state'] = 6
    m.emit('stateChanged', ('int', 6))
    m.emit('aboutToClose')


def pong(m):
    m.pongs += 1
    m.emit('pong', ('param', 'elapsed%d' % m.pongs), ('param', 'payload'))


class WS(Starter):
    name = 'websocket'
    queries = {'state': lambda m, a: m.st['state'], 'isValid': lambda m, a: m.st['state'] == 3}
    starter = ('open', 'ping')
    early = None
    pongs = 0

    def pinged(self, k):
        return pinged(k)

    @property
    def outcomes(self):
        if self.calls[-1][0] == 'open':
            return {'connecting': o_connecting, 'connected at once': lambda m: (early(m, (True,)), o_connecting(m), o_connected(m)),
                    'failed at once': lambda m: (early(m, (False,)), o_failed(m))}
        return {'sent': lambda m: None, 'answered at once': lambda m: (early(m, (pinged(1),)), pong(m)), 'lost at once': lambda m: (early(m, (None,)), o_lost(m))}

    def __init__(self, S, **st):
        self.early = []
        super().__init__(S, **st)


def pinged(k):
    def f(m, got):
        return isinstance(got, tuple) and got == ('D', 1000000, ('param', 'elapsed%d' % k))
    return f


def only_if(rule, k, want):
    g = must_start(rule, k, want)

    def f(m, c, obs=None):
        if m.st0 != 3 if k == 'open' else m.st0 == 3:
            g(m, c)
        elif m.calls:
            raise Bad(rule, 'the operation is started although its outcome is known already')
    return f


class WSOpen(WS):
    def __init__(self, S, **st):
        super().__init__(S, **st)
        self.st0 = self.st['state']


def c23_specs(ck):
    t, f = (True,), (False,)
    opens = [Ev_('connecting', lambda st: st['state'] in (0, 1), o_connecting), Ev_('connected', lambda st: st['state'] in (1, 2), o_connected, lambda st: t),
             Ev_('refused', lambda st: st['state'] in (1, 2), o_refused, lambda st: f), Ev_('failed', lambda st: st['state'] in (0, 2), o_failed, lambda st: f),
             Ev_('lost', lambda st: st['state'] in (3, 6), o_lost, None, lambda st: f)]
    for fn_, arg in (('ws_open', 'url'), ('ws_openr', 'request')):
        for d in ('', '_def'):
            want = only_if(R23, 'open', [('param', arg)])
            yield Spec(fn_ + d, WSOpen, [dict(state=s) for s in (0, 2, 3, 6)], opens, lambda st: t if st['state'] == 3 else None, False, R23, extra=lambda m, arg=arg: [ref(m.I, arg)],
                       tkind='ms', values=('default',) if d else (100, -1), default=None, after=want, result=want, depth=4 if not d else 3, blame='QCoro::detail::QCoroWebSocket::open')
    pings = [Ev_('pong', lambda st: st['state'] == 3, pong, lambda st: 'pong'), Ev_('lost', lambda st: st['state'] in (3, 6), o_lost, lambda st: (None,)),
             Ev_('closing', lambda st: st['state'] == 3, o_closing, lambda st: (None,))]
    for d in ('', '_def'):
        want = only_if(R23, 'ping', [('param', 'payload')])
        yield Spec('ws_ping' + d, WSOpen, [dict(state=s) for s in (0, 2, 3, 6)], pings, lambda st: (None,) if st['state'] != 3 else None, None, R23, extra=lambda m: [ref(m.I, 'payload')],
                   tkind='ms', values=('default',) if d else (100, -1), default=None, after=want, result=want, depth=4 if not d else 3, blame='QCoro::detail::QCoroWebSocket::ping')


def c23(ck):
    for sp in c23_specs(ck):
        run_spec(ck, sp)


# ------------------------------------------------------------------ C24
GENS = [('ws_bf', 'binaryFrameReceived', 2), ('ws_bm', 'binaryMessageReceived', 1), ('ws_tf', 'textFrameReceived', 2), ('ws_tm', 'textMessageReceived', 1)]


def c24(ck):
    depth = (7 if ck.thorough else 5) - ck.shallow
    for name, sig, n in GENS:
        for d, timeouts in (('', (100, -1)), ('_def', ('default',))):
            for t in timeouts:
                items(ck, name + d, sig, n, t, depth if t == 100 else depth - 1)


def items(ck, name, sig, nargs, timeout, depth):
    def scenario(S):
        I, w = S.I, S.w
        S.cur_modes, S.cur_outcomes = ('sync', 'async'), ('value',)
        m = WSOpen(S, state=3)
        seen, flags = [], dict(ended=None)
        sent = []

        def ob(r, a):
            if not a:
                flags['ended'] = True
            else:
                v = payload(I, a[0])
                seen.append(args_of(I, v) if nargs > 1 else (v,))
            return ('void',)
        S.callees['h::observe'] = ob
        I.call_fn(harness(name), None, [('ptr', m.o)] + ([ms(timeout)] if timeout != 'default' else []) + [('obj', ('heap', 'busy', I.uid()))])
        c = [x for x in I.fibers.values() if 'lconsume' in x.fn.qn][0]
        st = S.src.setdefault(c.promise, {})
        killed = destroyed = timed = left = False
        others = 0

        def busy():
            return st.get('mode') == 'async'

        def idle():
            return not c.done and not busy() and not destroyed and not flags['ended']

        def look():
            if flags['ended'] and not timed and not left:
                raise Bad(R24, 'the generator ends although the socket is connected and no timeout elapsed')
            if flags['ended'] and not timed and seen != sent:
                raise Bad(R24, 'the generator ends with items left to yield')
            if seen != sent[:len(seen)]:
                raise Bad(R24, 'the generator yields %s although %s was received' % (fmts(seen), fmts(sent)))
        look()
        for step in range(depth):
            ops = ['stop']
            if not killed and not left and len(sent) < 3:
                ops.append('item')
            if not killed and not left and others < 1:
                ops.append('other item')
            if not killed and not left:
                ops += ['lost', 'closing']
            if w.deliverable():
                ops.append('deliver')
            ops += [('timer', t) for t in w.active_timers()]
            if not killed and step + 2 > depth:
                ops.append('kill')
            if busy() and not c.done and not destroyed:
                ops.append('wake')
            if not destroyed and not c.done and step + 3 > depth:
                ops.append('destroy')
            if len(ops) == 1:
                break
            op = I.choose(('event', step), ops)
            if op == 'stop':
                break
            was, wasbusy, waswait = c.resumes, busy(), idle()
            if op == 'item':
                a = tuple(('param', 'item%d_%d' % (len(sent), k)) for k in range(nargs))
                sent.append(a)
                m.emit(sig, *a)
            elif op == 'other item':
                others += 1
                for s, k in (('binaryFrameReceived', 2), ('binaryMessageReceived', 1), ('textFrameReceived', 2), ('textMessageReceived', 1), ('pong', 2)):
                    if s != sig:
                        m.emit(s, *[('param', 'foreign %s %d' % (s, i)) for i in range(k)])
            elif op == 'lost':
                left = True
                o_lost(m)
            elif op == 'closing':
                left = True
                o_closing(m)
            elif op == 'deliver':
                w.deliver(w.deliverable()[0])
            elif op == 'kill':
                killed = True
                w.kill(m.o)
            elif op == 'wake':
                st.pop('mode')
                I.run_handle(c)
            elif op == 'destroy':
                destroyed = True
                c.destroy()
                if w.live_conns(m.o):
                    raise Bad(R24b, 'a connection to the socket survives the generator')
                if w.active_timers():
                    raise Bad(R24b, 'a timer survives the generator')
            else:
                if waswait:
                    timed = True
                w.fire_timer(op[1])
                if waswait and not flags['ended'] and seen == sent:
                    for _ in range(3):
                        w.drain()
                    if not flags['ended'] and seen == sent:
                        raise Bad(R24, 'the generator does not end although its timeout elapsed')
            if op not in ('wake', 'destroy') and wasbusy and c.resumes != was:
                raise Bad(R24, 'a consumer that is not waiting for an item is resumed')
            look()
        if destroyed:
            n = c.resumes
            w.drain()
            if c.resumes > n:
                raise Bad(R24, 'a destroyed consumer is resumed')
            return
        for _ in range(12):
            w.drain()
            if c.done or flags['ended']:
                break
            if busy():
                S.cur_modes = ('sync',)
                st.pop('mode')
                I.run_handle(c)
            else:
                break
        look()
        if not timed and seen != sent:
            raise Bad(R24, 'the generator yields %s although %s was received' % (fmts(seen), fmts(sent)))
        if left and not flags['ended']:
            raise Bad(R24, 'the generator does not end although the socket is not connected any more')
        if (timeout == 'default' or timeout < 0) and w.timers:
            raise Bad(R24, 'a timer is used although there is no timeout')
    label = '%s timeout %s' % (name, timeout)
    check(ck, label, scenario, [R24, R24b], blame='QCoro::detail::QCoroWebSocket::' + {'ws_bf': 'binaryFrames', 'ws_bm': 'binaryMessages', 'ws_tf': 'textFrames', 'ws_tm': 'textMessages'}[name[:5]])


RULES = {'C23': c23, 'C24': c24}
