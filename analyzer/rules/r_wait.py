"""C18, C19, C20, C22, C25: waits that end when an object reaches a state, run next to the sources."""
from scen import *
from rules.r_then import payload
from rules.r_io import (Model, Ev_, Spec, run_spec, res, show, same, NUL, R18, R19, R20, R22, R25)
from rules.r_signal import ms, same_ms


def ref(I, name):
    """A reference argument with a recognisable value."""
    l = ('heap', name, I.uid())
    I.mem[l] = ('param', name)
    return l


def plain(I, v):
    """What an argument of a recorded call stands for."""
    if v[0] == 'ref':
        v = v[1]
    if is_loc(v) and v in I.mem:
        v = I.mem[v]
    v = payload(I, v)
    while isinstance(v, tuple) and v[0] in ('conv', 'new') and 'QFlags' in v[1] and len(v) == 3:
        v = v[2]
        if isinstance(v, tuple) and len(v) == 1:
            v = v[0]
    c = const_of(v) if isinstance(v, tuple) else None
    return v if c is None else c


class Starter(Model):
    """A model whose start operation may have an immediate outcome."""
    starter = ()
    outcomes = {}

    def __init__(self, S, **st):
        self.queries = dict(self.queries)
        for k in self.starter:
            self.queries[k] = (lambda k: lambda m, a: m.start(k, a))(k)
        self.given = {}
        for k in self.setters:
            self.queries[k] = (lambda k: lambda m, a: (self.given.__setitem__(k, plain(self.I, a[0])), ('void',))[1])(k)
        super().__init__(S, **st)

    setters = ()     # functions that set leading parameters of the start operation beforehand

    def start(self, k, a):
        given = tuple(plain(self.I, x) for x in a)
        if len(self.given) == len(self.setters) and len(given) == 1:
            given = tuple(self.given[x] for x in self.setters) + given
        self.calls.append((k, given))
        o = self.I.choose('starting', sorted(self.outcomes))
        self.outcomes[o](self)
        return ('void',)


def must_start(rule, k, want):
    def f(m, c, obs=None):
        if [x[0] for x in m.calls] != [k]:
            raise Bad(rule, '%s() is called %s' % (k, 'more than once' if m.calls else 'never') if all(x[0] == k for x in m.calls) else 'another start function is called')
        got = m.calls[0][1]
        if len(got) != len(want) or any(not same(a, b) for a, b in zip(got, want)):
            raise Bad(rule, '%s() is called with other parameters than the given ones' % k)
    return f


# ------------------------------------------------------------------ sockets
def sock_connected(m):
    m.st['state'] = 3
    m.emit('stateChanged', ('int', 3))
    m.emit('connected')


def sock_refused(m):
    m.st['state'] = 0
    m.emit('errorOccurred', ('int', 0))
    m.emit('stateChanged', ('int', 0))


def sock_connecting(m):
    m.st['state'] = 2
    m.emit('stateChanged', ('int', 2))


def sock_lookup(m):
    m.st['state'] = 1
    m.emit('stateChanged', ('int', 1))


def sock_closing(m):
    m.st['state'] = 6
    m.emit('stateChanged', ('int', 6))


def sock_disconnected(m):
    m.st['state'] = 0
    m.emit('stateChanged', ('int', 0))
    m.emit('disconnected')


class Sock(Starter):
    name = 'socket'
    queries = {'state': lambda m, a: m.st['state'], 'isOpen': lambda m, a: m.st['state'] in (3, 6), 'isValid': lambda m, a: m.st['state'] in (3, 6)}
    starter = ('connectToHost', 'connectToServer')
    outcomes = {'connecting': sock_connecting, 'connected': sock_connected}


class LSock(Sock):
    setters = ('setServerName',)
    outcomes = dict(Sock.outcomes, failed=sock_refused)


def sock_events(local, what):
    conn = what == 'conn'
    t, f = (True,), (False,)
    ev = [Ev_('connecting', lambda st: st['state'] == 0, sock_connecting),
          Ev_('connected', lambda st: st['state'] in (1, 2), sock_connected, (lambda st: t) if conn else None),
          Ev_('refused', lambda st: st['state'] in (1, 2), sock_refused, (lambda st: f) if conn and local else None, lambda st: f)]
    if not conn:
        ev.append(Ev_('closing', lambda st: st['state'] == 3, sock_closing))
        ev.append(Ev_('disconnected', lambda st: st['state'] in (3, 6), sock_disconnected, lambda st: t))
    else:
        ev.append(Ev_('disconnected', lambda st: st['state'] in (3, 6), sock_disconnected, (lambda st: f) if local else None, lambda st: f))
    if not local:
        ev.append(Ev_('lookup', lambda st: st['state'] == 0, sock_lookup))
    return ev


def c18_specs(ck):
    for kind, local in (('tcp', False), ('udp', False), ('lsock', True)):
        cls = 'QCoro::detail::QCoroLocalSocket' if local else 'QCoro::detail::QCoroAbstractSocket'
        M = LSock if local else Sock
        states = [dict(state=s) for s in ((0, 2, 3, 6) if local else (0, 1, 2, 3, 6))]
        for tk in ('ms', 'int'):
            sfx = '' if tk == 'ms' else '_int'
            kw = dict(tkind=tk, values=(100, -1) if tk == 'ms' else (100,), depth=4 if kind != 'udp' else 3)
            yield Spec(kind + '_conn' + sfx, M, states, sock_events(local, 'conn'), lambda st: (True,) if st['state'] == 3 else None, False, R18,
                       blame=cls + '::waitForConnected', **kw)
            yield Spec(kind + '_disc' + sfx, M, states, sock_events(local, 'disc'), lambda st: (False,) if st['state'] == 0 else None, False, R18,
                       blame=cls + '::waitForDisconnected', **kw)
    P = lambda *a: [('param', x) for x in a]
    for fn_, start, local, extra, want in (
            ('tcp_cth', 'connectToHost', False, lambda m: [ref(m.I, 'hostName'), ('param', 'port'), ('param', 'mode'), ('param', 'protocol')], P('hostName', 'port', 'mode', 'protocol')),
            ('tcp_ctha', 'connectToHost', False, lambda m: [ref(m.I, 'address'), ('param', 'port'), ('param', 'mode')], P('address', 'port', 'mode')),
            ('tcp_cth_def', 'connectToHost', False, lambda m: [ref(m.I, 'hostName'), ('param', 'port')], P('hostName', 'port') + [3, 2]),
            ('tcp_ctha_def', 'connectToHost', False, lambda m: [ref(m.I, 'address'), ('param', 'port')], P('address', 'port') + [3]),
            ('lsock_cts', 'connectToServer', True, lambda m: [ref(m.I, 'name'), ('param', 'mode')], P('name', 'mode')),
            ('lsock_ctsn', 'connectToServer', True, lambda m: [('param', 'mode')], P('mode')),
            ('lsock_cts_def', 'connectToServer', True, lambda m: [ref(m.I, 'name')], P('name') + [3]),
            ('lsock_ctsn_def', 'connectToServer', True, lambda m: [], [3])):
        d = fn_.endswith('_def')

        def sync(st, local=local):
            return (True,) if st['state'] == 3 else (False,) if local and st['state'] == 0 else None
        yield Spec(fn_, LSock if local else Sock, [dict(state=0)], sock_events(local, 'conn'), sync, False, R18, extra=extra, late=True,
                   tkind='ms', values=('default',) if d else (100, -1), default=30000, after=must_start(R18, start, want), result=must_start(R18, start, want), depth=3,
                   blame='QCoro::detail::%s::%s' % ('QCoroLocalSocket' if local else 'QCoroAbstractSocket', start))


def c18(ck):
    for sp in c18_specs(ck):
        run_spec(ck, sp)


# ------------------------------------------------------------------ processes
def p_starting(m):
    m.st['state'] = 1
    m.emit('stateChanged', ('int', 1))


def p_started(m):
    m.st['state'] = 2
    m.emit('stateChanged', ('int', 2))
    m.emit('started')


def p_failed(m):
    m.st['state'] = 0
    m.emit('stateChanged', ('int', 0))
    m.emit('errorOccurred', ('int', 0))


def p_finished(m):
    m.st['state'] = 0
    m.emit('stateChanged', ('int', 0))
    m.emit('finished', ('param', 'exitCode'), ('param', 'exitStatus'))


class Proc(Starter):
    name = 'process'
    queries = {'state': lambda m, a: m.st['state']}
    starter = ('start',)
    setters = ('setProgram', 'setArguments')
    outcomes = {'starting': p_starting, 'started': lambda m: (p_starting(m), p_started(m)), 'failed': lambda m: (p_starting(m), p_failed(m))}


def c19_specs(ck):
    t, f = (True,), (False,)
    inits = [dict(state=s) for s in (0, 1, 2)]
    started = [Ev_('started', lambda st: st['state'] == 1, p_started, lambda st: t), Ev_('failed', lambda st: st['state'] == 1, p_failed, None, lambda st: f),
               Ev_('finished', lambda st: st['state'] == 2, p_finished)]
    fin = [Ev_('started', lambda st: st['state'] == 1, p_started), Ev_('failed', lambda st: st['state'] == 1, p_failed, None, lambda st: f),
           Ev_('finished', lambda st: st['state'] == 2, p_finished, lambda st: t), Ev_('starting', lambda st: st['state'] == 0, p_starting)]
    sync = lambda st: t if st['state'] == 2 else f if st['state'] == 0 else None
    for tk in ('ms', 'int'):
        sfx = '' if tk == 'ms' else '_int'
        kw = dict(tkind=tk, values=(100, -1) if tk == 'ms' else (100,))
        yield Spec('proc_started' + sfx, Proc, inits, started, sync, False, R19, blame='QCoro::detail::QCoroProcess::waitForStarted', **kw)
        yield Spec('proc_fin' + sfx, Proc, inits, fin, lambda st: f if st['state'] == 0 else None, False, R19, blame='QCoro::detail::QCoroProcess::waitForFinished', **kw)
    P = lambda *a: [('param', x) for x in a]
    for fn_, extra, want in (('proc_start', lambda m: [('param', 'mode')], P('mode')),
                             ('proc_startp', lambda m: [ref(m.I, 'program'), ref(m.I, 'arguments'), ('param', 'mode')], P('program', 'arguments', 'mode')),
                             ('proc_start_def', lambda m: [], [3]),
                             ('proc_startp_def', lambda m: [ref(m.I, 'program'), ref(m.I, 'arguments')], P('program', 'arguments') + [3])):
        d = fn_.endswith('_def')
        yield Spec(fn_, Proc, [dict(state=0)], started, sync, False, R19, extra=extra, late=True, tkind='ms', values=('default',) if d else (100, -1), default=30000,
                   after=must_start(R19, 'start', want), result=must_start(R19, 'start', want), blame='QCoro::detail::QCoroProcess::start', depth=3)


def c19(ck):
    for sp in c19_specs(ck):
        run_spec(ck, sp)


# ------------------------------------------------------------------ threads
def t_started(m):
    m.st.update(running=True, finished=False)
    m.w.emit(m.o, 'started', [], private=True, thread=m.o)


def t_finished(m):
    m.w.emit(m.o, 'finished', [], private=True, thread=m.o)
    m.st.update(running=False, finished=True)


class Thr(Model):
    name = 'thread'
    queries = {'isRunning': lambda m, a: m.st['running'], 'isFinished': lambda m, a: m.st['finished']}


def c20_specs(ck):
    t, f = (True,), (False,)
    inits = [dict(running=False, finished=False), dict(running=True, finished=False), dict(running=False, finished=True)]

    def ev(what):
        return [Ev_('started', lambda st: not st['running'], t_started, (lambda st: t) if what == 'started' else None),
                Ev_('finished', lambda st: st['running'], t_finished, (lambda st: t) if what == 'fin' else None)]
    for d in ('', '_def'):
        kw = dict(tkind='ms', values=('default',) if d else (100, -1), default=None, deferred=True)
        yield Spec('thr_started' + d, Thr, inits, ev('started'), lambda st: t if st['running'] else f if st['finished'] else None, False, R20,
                   blame='QCoro::detail::QCoroThread::waitForStarted', **kw)
        yield Spec('thr_fin' + d, Thr, inits, ev('fin'), lambda st: t if st['finished'] else f if not st['running'] else None, False, R20,
                   blame='QCoro::detail::QCoroThread::waitForFinished', **kw)


def c20(ck):
    for sp in c20_specs(ck):
        run_spec(ck, sp)


def c21(ck):
    for f, n in (('thr_move', 1), ('thr_move2', 2)):
        move_check(ck, f, n)


def move_check(ck, f, n):
    def scenario(S):
        I, w = S.I, S.w
        ts = [Thr(S, **I.choose('thread %d' % k, [dict(running=False, finished=False), dict(running=True, finished=False), dict(running=False, finished=True)] + ([dict(main=True)] if k == 0 else []))) for k in range(n)]
        locs = [w.MAIN if 'main' in t.st else t.o for t in ts]
        keys = ['main' if 'main' in t.st else t.o for t in ts]
        seen = []

        def ob(r, a):
            k = len(seen)
            seen.append(w.cur)
            if k >= n:
                raise Bad(R21, 'the coroutine is resumed more than once')
            if w.cur != keys[k]:
                raise Bad(R21, 'the coroutine goes on on a thread other than the target thread')
            if w.emitting:
                raise Bad(R21, 'the coroutine is resumed inside a notification instead of by the event loop of the target thread')
            return ('void',)
        S.callees['h::observe'] = ob
        for t in ts:
            if 'main' in t.st:
                t.st.update(running=True, finished=False)
        w.q[w.MAIN] = {'isRunning': TRUE, 'isFinished': FALSE}
        c = I.start_coro(harness(f), None, [('ptr', l) for l in locs])
        if seen or c.done:
            raise Bad(R21, 'the coroutine is not suspended by moveToThread()')
        for step in range(5 if ck.thorough else 4):
            ops = ['stop'] + [('start', k) for k, t in enumerate(ts) if not t.st['running']] + [('deliver', i) for i, p in enumerate(w.deliverable()[:3])] + [('timer', t) for t in w.active_timers()]
            op = I.choose(('event', step), ops)
            if op == 'stop':
                break
            if op[0] == 'timer':
                w.fire_timer(op[1])
            elif op[0] == 'start':
                t_started(ts[op[1]])
            else:
                w.deliver(w.deliverable()[op[1]])
        for _ in range(6):
            w.drain()
        up = 0
        while up < n and ts[up].st['running']:
            up += 1
        if len(seen) < up:
            raise Bad(R21, 'the coroutine is never resumed although the target thread runs')
        if len(seen) > up:
            raise Bad(R21, 'the coroutine goes on although the target thread does not run')
        if c.threw is not None:
            raise Bad(R21, 'an exception leaves the coroutine')
        if up == n and not c.done:
            raise Bad(R21, 'the coroutine does not go on to its end')
    check(ck, f, scenario, [R21], blame='QCoro::ThreadContext::await_suspend')


R21 = 'the-coroutine-continues-on-the-target-thread'


# ------------------------------------------------------------------ servers
class Server(Model):
    name = 'server'
    queries = {'isListening': lambda m, a: m.st['listening'], 'hasPendingConnections': lambda m, a: bool(m.st['pending']),
               'nextPendingConnection': lambda m, a: m.take()}

    def __init__(self, S, **st):
        d = dict(listening=True, pending=0)
        d.update(st)
        super().__init__(S, **d)
        self.next = self.serial = 0
        self.taken = []
        n, self.st['pending'] = self.st['pending'], []
        for i in range(n):
            self.arrive()

    def arrive(self):
        self.serial += 1
        self.st['pending'] = self.st['pending'] + [('ptr', ('heap', 'connection', self.serial))]

    def take(self):
        self.calls.append(('nextPendingConnection', ()))
        p = self.st['pending']
        if not p:
            self.taken.append(NUL)
            return NULL
        self.st['pending'] = p[1:]
        self.taken.append(p[0])
        return p[0]


def s_arrive(m):
    m.arrive()
    m.emit('pendingConnectionAvailable')
    m.emit('newConnection')


def s_burst(m):
    m.arrive()
    m.arrive()
    m.emit('newConnection')
    m.emit('newConnection')


def s_close(m):
    m.st['listening'] = False
    m.emit('closed')


def s_steal(m):
    m.st['pending'] = m.st['pending'][1:]


def c22_specs(ck):
    took = lambda m, got: m.taken == [got] or getattr(m, 'killed', False) and not m.taken and got == NUL
    none = lambda m, got: got == NUL and not m.taken
    inits = [dict(), dict(listening=False), dict(pending=1), dict(pending=2), dict(listening=False, pending=1)]

    def sync(st):
        return (none,) if not st['listening'] else (took,) if st['pending'] else None
    for kind, cls in (('srv_next', 'QCoroTcpServer::waitForNewConnection'), ('wss_next', 'QCoroWebSocketServer::nextPendingConnection')):
        ws = kind == 'wss_next'
        ev = [Ev_('connection', lambda st: st['listening'], s_arrive, lambda st: (took,)), Ev_('two connections', lambda st: st['listening'], s_burst, lambda st: (took,)),
              Ev_('close', lambda st: st['listening'], s_close, (lambda st: (none,)) if ws else None, lambda st: (none,)),
              Ev_('taken by someone else', lambda st: bool(st['pending']), s_steal)]
        for sfx in ('', '_def') + (() if ws else ('_int',)):
            tk = 'int' if sfx == '_int' else 'ms'
            yield Spec(kind + sfx, Server, inits, ev, sync, none, R22, tkind=tk, values=('default',) if sfx == '_def' else (100, -1) if not sfx else (100,), default=None if ws else 30000,
                       blame='QCoro::detail::' + cls, depth=4 if not sfx else 3, result=kept)


def kept(m, c, obs):
    if len(m.taken) > 1 or m.taken and not c.done:
        raise Bad(R22, 'more connections are taken from the server than delivered')


def c22(ck):
    for sp in c22_specs(ck):
        run_spec(ck, sp)


# ------------------------------------------------------------------ replies
def r_finished(m):
    m.st['finished'] = True
    m.emit('finished')


class Reply(Model):
    name = 'reply'
    queries = {'isFinished': lambda m, a: m.st['finished'], 'isRunning': lambda m, a: not m.st['finished'], 'error': lambda m, a: 99 if m.st.get('failed') else 0}


def r_failed(m):
    m.st['failed'] = True
    m.emit('errorOccurred', ('int', 99))


def c25_specs(ck):
    inits = [dict(finished=False), dict(finished=True), dict(finished=True, failed=True), dict(finished=False, failed=True)]

    def ev(v):
        return [Ev_('finished', lambda st: not st['finished'], r_finished, lambda st: v), Ev_('error', lambda st: not st['finished'] and not st.get('failed'), r_failed),
                Ev_('data', lambda st: not st['finished'], lambda m: m.emit('readyRead'))]
    itself = lambda m, got: got == ('ptr', m.o) or getattr(m, 'killed', False) and got == NUL
    t = (True,)
    for d in ('', '_def'):
        yield Spec('reply_fin' + d, Reply, inits, ev(t), lambda st: t if st['finished'] else None, False, R25, tkind='ms', values=('default',) if d else (100, -1), default=None,
                   deferred=True, blame='QCoro::detail::QCoroNetworkReply::waitForFinished')
    for f in ('reply_await',):
        yield Spec(f, Reply, inits, ev((itself,)), lambda st: (itself,) if st['finished'] else None, None, R25, tkind=None, deferred=True,
                   blame='QCoro::detail::QCoroNetworkReply::WaitForFinishedOperation::await_suspend')


def c25(ck):
    for sp in c25_specs(ck):
        run_spec(ck, sp)
    null_reply(ck)


def null_reply(ck):
    def scenario(S):
        I, w = S.I, S.w
        obs = []
        S.callees['h::observe'] = lambda r, a: (obs.append([res(I, x) for x in a]), ('void',))[1]
        c = I.start_coro(harness('reply_await'), None, [NULL])
        if not c.done or obs != [[NUL]]:
            raise Bad(R25, 'awaiting a null reply does not end at once')
    check(ck, 'awaiting a null reply', scenario, [R25], blame='QCoro::detail::QCoroNetworkReply::WaitForFinishedOperation::await_suspend')


RULES = {'C18': c18, 'C19': c19, 'C20': c20, 'C21': c21, 'C22': c22, 'C25': c25}
