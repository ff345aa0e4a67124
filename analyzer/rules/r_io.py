"""C15-C20, C22, C25: waits of devices, sockets, processes, threads, servers and replies, as automata run next to the sources."""
from scen import *
from rules.r_then import payload
from rules.r_signal import ms, same_ms, number, limited

R15 = 'reads-return-what-the-device-has-or-nothing'
R16 = 'write-hands-over-once-and-waits-for-the-flush'
R17 = 'device-waits-end-with-the-right-answer'
R18 = 'connection-waits-reflect-the-state'
R19 = 'process-waits-reflect-the-state'
R20 = 'thread-waits-reflect-the-state'
R22 = 'servers-hand-out-pending-connections'
R25 = 'replies-are-awaited-until-finished'
R34 = 'nothing-stays-connected-after-the-wait'

NUL = ('nothing',)


def res(I, v):
    """An observed result in plain terms."""
    v = payload(I, v)
    if v is None:
        return ('?',)
    if v[0] in ('opt1',):
        return res(I, v[1])
    if v[0] == 'opt0':
        return None
    if v[0] == 'bool':
        return v[1]
    if v == NULL:
        return NUL
    c = const_of(v)
    if c is not None:
        return c
    if v[0] == 'ptr' and v[1] in I.dead and False:
        return NUL
    return v


def show(r):
    if isinstance(r, tuple):
        return 'nothing' if r == NUL else fmt(r)
    return {True: 'true', False: 'false', None: 'an empty result'}.get(r, str(r)) if not isinstance(r, int) or isinstance(r, bool) else str(r)


class Model:
    """One object under test: its state, its queries and what may happen to it."""

    queries = {}
    name = 'object'

    def __init__(self, S, **st):
        self.S, self.I, self.w = S, S.I, S.w
        self.st = dict(st)
        self.calls = []
        q = {}
        for k in self.queries:
            q[k] = (lambda k: lambda a: self.query(k, a))(k)
        self.o = S.w.new(self.name, **q)

    def query(self, k, a):
        v = self.queries[k](self, a)
        return B(v) if isinstance(v, bool) else ('int', v) if isinstance(v, int) else v

    def emit(self, sig, *args, **kw):
        self.w.emit(self.o, sig, list(args), **kw)

    def record(self, k, a):
        self.calls.append((k, tuple(a)))
        return ('void',)


class Ev_:
    """Something that may happen: applies() changes the model, then emits; ends: the value it ends a wait with."""

    def __init__(self, name, pre, act, ends=None, may=None):
        self.name, self.pre, self.act, self.ends, self.may = name, pre, act, ends, may

    def __repr__(self):
        return self.name


class Spec:
    """A wait function: fn(object, extra..., timeout)."""

    def __init__(self, fn, model, inits, events, sync, timeout_value, rule, extra=(), tkind='ms', values=(100, -1), result=None,
                 first=None, kill=True, blame=None, depth=4, strict_first=True, after=None, late=False, deferred=False, default=None):
        self.__dict__.update(locals())


def run_spec(ck, sp, label=None, rules=None, leftovers=False):
    """rules: report only under these rules (default: the spec's own)."""
    own = sp.rule
    depth = sp.depth + (2 if ck.thorough else 0) - ck.shallow

    def scenario(S):
        I, w = S.I, S.w
        init = I.choose('initially', list(sp.inits))
        m = sp.model(S, **init)
        obs = []

        def ob(r, a):
            obs.append([res(I, x) for x in a])
            return ('void',)
        S.callees['h::observe'] = ob
        t = None
        if sp.tkind is not None:
            t = I.choose('timeout', list(ck.values if ck.values and sp.values[0] != 'default' else sp.values))
        if sp.first:
            sp.first(m)
        extra = sp.extra(m) if callable(sp.extra) else list(sp.extra)
        args = ([('ptr', m.o)] if not sp.fn.endswith('_ref') else [m.o]) + list(extra) + ([] if t == 'default' else [ms(t)] if sp.tkind == 'ms' else [number(t)] if sp.tkind == 'int' else [])
        if t == 'default':
            t = sp.default
        want_sync = sp.sync(m.st) if not sp.late else None
        c = I.start_coro(harness(sp.fn), None, args)
        ends = list(getattr(m, 'early', None) or [])         # values of the events that end the wait, in order
        if sp.late:
            want_sync = sp.sync(m.st)
        if sp.after:
            sp.after(m, c)
        mays = []          # values of the events that may end it
        timed = None       # number of ending events when the timeout elapsed
        seen = dict(done_before=None)

        def judge(final=False):
            if c.threw is not None:
                raise Bad(own, 'an exception leaves the wait')
            if len(obs) > 1:
                raise Bad(own, 'the coroutine continues more than once')
            if not c.done:
                return
            if not obs:
                raise Bad(own, 'the coroutine ends without a result')
            got = obs[0][0] if obs[0] else None
            if want_sync is not None:
                allowed = [want_sync[0]]
            elif not ends and not mays and timed is None:
                raise Bad(own, 'the wait ends with %s although nothing ended it' % show(got))
            else:
                allowed = ends[:1] if sp.strict_first else list(ends)
                if timed is not None:
                    allowed = allowed[:timed] if timed == 0 else list(allowed)
                    allowed.append((sp.timeout_value,))
                allowed = [a[0] for a in allowed + mays]
            for a in allowed:
                if callable(a):
                    if a(m, got):
                        return
                elif same(a, got):
                    return
            raise Bad(own, 'the result is %s instead of %s' % (show(got), ' or '.join('what the call itself gives' if callable(a) else show(a) for a in allowed)))

        if want_sync is not None and not c.done:
            raise Bad(own, 'the wait suspends although its outcome is known already')
        judge()
        timers0 = w.active_timers()
        if not c.done:
            if limited(I, t):
                if len(timers0) != 1 or not same_ms(w.timers[timers0[0]]['interval'], t):
                    raise Bad('timeout-honoured', 'no timer is started for the timeout, or one with another interval')
            elif timers0:
                raise Bad('timeout-honoured', 'a timer is started although there is no timeout')
        killed = False
        for step in range(depth):
            ops = ['stop']
            if not killed:
                ops += [e for e in sp.events if e.pre(m.st)]
            if w.deliverable():
                ops.append('deliver')
            ops += [('timer', x) for x in w.active_timers()]
            if sp.kill and not killed:
                ops.append('kill')
            if len(ops) == 1:
                break
            op = I.choose(('event', step), ops)
            if op == 'stop':
                break
            if op == 'deliver':
                w.deliver(w.deliverable()[0])
            elif op == 'kill':
                killed = True
                m.killed = True
                w.kill(m.o)
            elif isinstance(op, tuple):
                if timed is None:
                    timed = len(ends)
                w.fire_timer(op[1])
            else:
                was = dict(m.st)
                e = op.ends(was) if op.ends and not c.done else None
                if e == 'pong':
                    e = (m.pinged(m.pongs + 1),)
                if e is not None:
                    ends.append(e)
                e = op.may(was) if op.may and not c.done and not ends and timed is None else None
                if e is not None:
                    mays.append(e)
                before = c.done
                op.act(m)
                if sp.deferred and c.done and not before:
                    raise Bad(own, 'the coroutine is resumed inside the notification instead of through the event loop')
            judge()
        for t_ in range(6):
            w.drain()
            if not w.deliverable():
                break
        judge(True)
        if want_sync is None and not c.done and (ends or timed is not None):
            raise Bad(own, 'the wait does not end although %s' % ('its timeout elapsed' if timed is not None and not ends else 'something ended it'))
        if c.done and not killed and w.live_conns(m.o):
            raise Bad(R34, 'a connection is left behind after the wait ended')
        if c.done and w.active_timers():
            raise Bad(R34, 'the timeout keeps running after the wait ended')
        if sp.result:
            sp.result(m, c, obs)
    check(ck, label or sp.fn, scenario, rules or [own], blame=sp.blame)


def same(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b       # the declared result types convert
    return type(a) == type(b) and a == b


def yes(st):
    return True


# ------------------------------------------------------------------ devices
class Device(Model):
    """state: open, readable, writable, avail (bytes), pend (bytes to write), state (connection), finished (replies)"""
    name = 'device'
    conn = None      # connected state, or None when it has none
    queries = {
        'isOpen': lambda m, a: m.st['open'],
        'isReadable': lambda m, a: m.st['open'] and m.st['readable'],
        'isWritable': lambda m, a: m.st['open'] and m.st['writable'],
        'bytesAvailable': lambda m, a: m.st['avail'],
        'bytesToWrite': lambda m, a: m.st['pend'],
        'state': lambda m, a: m.st['state'],
        'isFinished': lambda m, a: m.st['finished'],
        'readAll': lambda m, a: m.take('readAll', a),
        'read': lambda m, a: m.take('read', a),
        'readLine': lambda m, a: m.take('readLine', a),
        'write': lambda m, a: m.wr(a),
        'openMode': lambda m, a: ('param', 'openMode'),
        'atEnd': lambda m, a: m.st['avail'] == 0,
        'canReadLine': lambda m, a: m.st['avail'] > 0,
    }

    def __init__(self, S, **st):
        d = dict(open=True, readable=True, writable=True, avail=0, pend=0, state=3, finished=False)
        d.update(st)
        super().__init__(S, **d)

    def take(self, k, a):
        tok = ('bytes', k, tuple(a), len(self.calls), self.st['open'])
        self.calls.append((k, tuple(a)))
        self.st['avail'] = 0
        return tok

    def wr(self, a):
        self.calls.append(('write', tuple(a)))
        r = self.wresult
        if r > 0:
            self.st['pend'] += 0 if self.unbuffered else r
        return ('int', r)


def data(m):
    m.st['avail'] += 5
    m.emit('readyRead')


def close(m):
    m.emit('aboutToClose')
    m.st.update(open=False, avail=0, pend=0, state=0)


def disconnected(m):
    m.st['state'] = 0
    m.emit('stateChanged', ('int', 0))
    m.emit('disconnected')


def closing(m):
    m.st['state'] = 6
    m.emit('stateChanged', ('int', 6))


def finished(m):
    m.st['finished'] = True
    m.emit('finished')


def failed(m):
    m.emit('errorOccurred', ('int', 99))
    m.st['failed'] = True


def written(k):
    def act(m):
        n = min(k, m.st['pend'])
        m.st['pend'] -= n
        m.emit('bytesWritten', ('int', n))
    return act


# kind: prefix of the harness functions, connection-oriented, reply
KINDS = {'file': (False, False), 'tcp': (True, False), 'lsock': (True, False), 'proc': (False, False), 'reply': (False, True)}
CLS = {'file': 'QCoroIODevice', 'tcp': 'QCoroAbstractSocket', 'udp': 'QCoroAbstractSocket', 'lsock': 'QCoroLocalSocket', 'proc': 'QCoroIODevice', 'reply': 'QCoroNetworkReply'}


def dev_events(kind, wait):
    sock, reply = KINDS[kind]
    lost = {'read': (False,), 'write': (0,)}[wait]
    ev = []
    up = (lambda st: st['open'] and st['state'] == 3) if sock else (lambda st: st['open'] and not st['finished'])
    if wait == 'read':
        ev.append(Ev_('data', lambda st: up(st) and st['avail'] < 10, data, lambda st: (True,)))
        ev.append(Ev_('written 2', lambda st: up(st) and st['pend'] > 2, written(2)))
    else:
        ev.append(Ev_('data', lambda st: up(st) and st['avail'] < 5, data))
        for k in (2, 5):
            ev.append(Ev_('written %d' % k, lambda st: up(st) and st['pend'] > 0, written(k), lambda st, k=k: (min(k, st['pend']),)))
    ev.append(Ev_('close', lambda st: st['open'], close, lambda st: lost))
    if sock:
        ev.append(Ev_('closing', lambda st: st['state'] == 3, closing, lambda st: lost))
        ev.append(Ev_('disconnected', lambda st: st['state'] in (3, 6), disconnected, lambda st: lost))
    if reply:
        ev.append(Ev_('error', lambda st: not st['finished'] and not st.get('failed'), failed, lambda st: lost))
        ev.append(Ev_('finished', lambda st: not st['finished'], finished, lambda st: (True,) if wait == 'read' else lost))
    return ev


def inits(kind, wait):
    sock, reply = KINDS[kind]
    a = [dict(), dict(open=False), dict(avail=5), dict(pend=5), dict(avail=5, pend=5)]
    a.append(dict(readable=False, writable=False))
    if wait == 'write':
        a.append(dict(pend=5, avail=5, writable=False))
    else:
        a.append(dict(avail=5, readable=False))
    if sock:
        a += [dict(state=s, avail=v, pend=v) for s in (0, 2, 6) for v in (0, 5)]
    if reply:
        a += [dict(finished=True), dict(finished=True, avail=5), dict(finished=True, pend=5), dict(failed=True), dict(failed=True, pend=5)]
    return a


def sync_read(kind):
    sock, reply = KINDS[kind]

    def f(st):
        if not (st['open'] and st['readable']):
            return (False,)
        if st['avail'] > 0:
            return (True,)
        if sock and st['state'] != 3:
            return (False,)
        if reply and st['finished']:
            return (True,)
        return None
    return f


def sync_write(kind):
    sock, reply = KINDS[kind]

    def f(st):
        if not (st['open'] and st['writable']):
            return (None,)
        if st['pend'] == 0:
            return (0,)
        if sock and st['state'] != 3:
            return (None,)
        if reply and st['finished']:
            return (0,)
        return None
    return f


def c17_specs(ck):
    for kind in KINDS:
        for tk in ('ms', 'int'):
            sfx = '' if tk == 'ms' else '_int'
            vals = (100, -1) if tk == 'ms' else (100,)
            sf = kind != 'reply'
            yield Spec(kind + '_wrr' + sfx, Device, inits(kind, 'read'), dev_events(kind, 'read'), sync_read(kind), False, R17, tkind=tk, values=vals,
                       strict_first=sf, blame='QCoro::detail::%s::waitForReadyReadImpl' % CLS[kind], depth=4 if tk == 'ms' else 3)
            yield Spec(kind + '_wbw' + sfx, Device, inits(kind, 'write'), dev_events(kind, 'write'), sync_write(kind), None, R17, tkind=tk, values=vals,
                       strict_first=sf, blame='QCoro::detail::%s::waitForBytesWrittenImpl' % CLS[kind], depth=4 if tk == 'ms' else 3)


def c17(ck):
    for sp in c17_specs(ck):
        run_spec(ck, sp)


# ------------------------------------------------------------------ C15
def c15_specs(ck):
    for kind in KINDS:
        for what, extra in (('read', [('param', 'maxSize')]), ('readLine', [('param', 'maxSize')]), ('readAll', [])):
            for d in ('', '_def'):
                ex = [] if (what, d) == ('readLine', '_def') else extra
                want = tuple(ex) if (what, d) != ('readLine', '_def') else (('int', 0),)
                yield read_spec(kind, what, d, ex, want)
        if kind != 'reply':
            yield await_spec(kind, '_await')
    yield await_spec('file', '_await_ref')


EMPTY = lambda m, got: not m.calls and isinstance(got, tuple) and got[0] == 'new' and got[1] == 'QByteArray' and len(got) == 2


def read_spec(kind, what, d, extra, want):
    sr = sync_read(kind)

    def took(m, got):
        if getattr(m, 'killed', False) and EMPTY(m, got):
            return True
        return m.calls == [(what, want)] and isinstance(got, tuple) and got[:3] == ('bytes', what, want)

    def val(r):
        if r is None:
            return None
        return (took if r[0] is True else EMPTY,)
    ev = [Ev_(e.name, e.pre, e.act, (lambda st, e=e: val(e.ends(st))) if e.ends else None) for e in dev_events(kind, 'read')]
    return Spec(kind + '_' + what + d, Device, inits(kind, 'read'), ev, lambda st: val(sr(st)), EMPTY, R15, extra=extra, tkind='ms' if not d else None,
                strict_first=kind != 'reply', blame='QCoro::detail::QCoroIODevice::' + what, depth=4 if not d else 3)


def await_spec(kind, sfx):
    def took(m, got):
        if getattr(m, 'killed', False):
            return True
        return m.calls == [('readAll', ())] and isinstance(got, tuple) and got[:3] == ('bytes', 'readAll', ())

    def sync(st):
        if not (st['open'] and st['readable']) or st['avail'] > 0:
            return (took,)
        return None
    ev = [Ev_('data', lambda st: st['open'] and st['avail'] < 10, data, lambda st: (took,)), Ev_('close', lambda st: st['open'], close, lambda st: (took,))]
    return Spec(kind + sfx, Device, inits(kind, 'read'), ev, sync, None, R15, tkind=None, blame='QCoro::detail::QCoroIODevice::ReadOperation::await_suspend')


def c15(ck):
    for sp in c15_specs(ck):
        run_spec(ck, sp)
    null_device(ck)


def null_device(ck):
    def scenario(S):
        I, w = S.I, S.w
        obs = []
        S.callees['h::observe'] = lambda r, a: (obs.append([res(I, x) for x in a]), ('void',))[1]
        c = I.start_coro(harness('file_await'), None, [NULL])
        if not c.done or len(obs) != 1:
            raise Bad(R15, 'awaiting a null device does not end at once')
    check(ck, 'awaiting a null device', scenario, [R15], blame='QCoro::detail::QCoroIODevice::ReadOperation::await_resume')


# ------------------------------------------------------------------ C16
def c16(ck):
    for kind in KINDS:
        write_check(ck, kind)


def write_check(ck, kind):
    sock, reply = KINDS[kind]
    depth = 6 if ck.thorough else 5

    def scenario(S):
        I, w = S.I, S.w
        m = Device(S, **I.choose('initially', [dict()] + ([dict(state=0), dict(state=2)] if sock else []) + ([dict(finished=True)] if reply else [])))
        m.wresult = I.choose('write() gives', [5, 3, 0, -1])
        m.unbuffered = I.choose('unbuffered', [False, True]) if m.wresult > 0 else True
        obs = []
        S.callees['h::observe'] = lambda r, a: (obs.append([res(I, x) for x in a]), ('void',))[1]
        buf = ('heap', 'buffer', I.uid())
        I.mem[buf] = ('param', 'data')
        c = I.start_coro(harness(kind + '_write'), None, [('ptr', m.o), buf])
        total = max(m.wresult, 0)
        sure = allw = 0
        stopped = False

        def look():
            if c.threw is not None:
                raise Bad(R16, 'an exception leaves write()')
            if [x[0] for x in m.calls] != ['write']:
                raise Bad(R16, 'the buffer is handed to the device %s' % ('never' if not m.calls else 'more than once'))
            b = m.calls[0][1][0]
            if len(m.calls[0][1]) != 1 or payload(I, b if b[0] != 'ref' else b[1]) != ('param', 'data') and b != buf:
                raise Bad(R16, 'the device gets %s instead of the buffer' % fmt(b))
            if len(obs) > 1:
                raise Bad(R16, 'the coroutine continues more than once')
            if not c.done:
                return
            if not obs:
                raise Bad(R16, 'the coroutine ends without a result')
            got = obs[0][0]
            if m.wresult > 0 and m.unbuffered:
                if got != total:
                    raise Bad(R16, 'write() to an unbuffered device gives %s instead of the amount written' % show(got))
                return
            if not isinstance(got, int) or isinstance(got, bool) or not (sure <= got <= max(allw, sure)):
                raise Bad(R16, 'write() gives %s instead of the %s bytes confirmed' % (show(got), allw))
            if got < total and not stopped and not m.st.get('failed') and m.st['pend'] > 0:
                raise Bad(R16, 'write() ends before all was written although the device still can write')
        if sock and m.st['state'] != 3 or reply and m.st['finished']:
            stopped = True
        look()
        if m.unbuffered and not c.done:
            raise Bad(R16, 'write() waits although nothing is left to flush')
        if stopped:
            if not c.done:
                raise Bad(R16, 'write() waits for a device that cannot write')
        for step in range(depth):
            ops = ['stop']
            up = m.st['open'] and (not sock or m.st['state'] == 3) and not m.st['finished']
            if up and m.st['pend'] > 0:
                ops += ['2', '5']
            if w.deliverable():
                ops.append('deliver')
            if not stopped:
                ops += ['close'] + (['disc', 'closing'] if sock else []) + ((['error'] if not m.st.get('failed') else []) + ['finished'] if reply else [])
            if len(ops) == 1:
                break
            op = I.choose(('event', step), ops)
            if op == 'stop':
                break
            if op == 'deliver':
                w.deliver(w.deliverable()[0])
            elif op in '25':
                n = min(int(op), m.st['pend'])
                allw += n
                if w.live_conns(m.o, 'bytesWritten') and not stopped:
                    sure += n
                written(int(op))(m)
            else:
                # an error is followed by finished(), which the next wait sees by itself
                stopped = op != 'error'
                {'close': close, 'disc': disconnected, 'closing': closing, 'error': failed, 'finished': finished}[op](m)
            look()
        w.drain()
        look()
        if not c.done and (stopped or m.st['pend'] == 0):
            raise Bad(R16, 'write() never ends although %s' % ('the device cannot write any more' if stopped else 'everything was written'))
        if w.active_timers():
            raise Bad(R16, 'write() uses a timeout')
    check(ck, kind + '_write', scenario, [R16], blame='QCoro::detail::QCoroIODevice::write')


RULES = {'C15': c15, 'C16': c16, 'C17': c17}
