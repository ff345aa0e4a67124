"""C12-C14: awaiting signals, timeouts of signal waits, the signal listener."""
from scen import *
from rules.r_then import payload

R12 = 'resumed-once-by-the-first-emission-through-the-event-loop'
R12b = 'nothing-stays-connected'
R13 = 'the-wait-ends-at-its-timeout-only'
R14 = 'every-emission-delivered-once-in-order'

PRIV = ('private',)


ANY = ('param', 'timeout')      # an arbitrary number of milliseconds


def ms(n):
    return ('D', 1000000, number(n))


def number(n):
    return ANY if n == 'any' else ('int', n)


def limited(I, n):
    """Does the timeout n mean that the wait is limited?"""
    if n is None or n == 'default':
        return False
    return not I.cmp('<', number(n), ('int', 0))


def result_of(I, v):
    """('value', args) or ('none',) from an optional / plain result."""
    v = payload(I, v)
    if v is None:
        return ('?',)
    if v[0] == 'opt0':
        return ('none',)
    if v[0] == 'opt1':
        v = payload(I, v[1])
    return ('value', args_of(I, v))


def args_of(I, v):
    if v[0] == 'vinit' and str(v[1]).startswith('std::tuple<'):
        return ()
    if v[0] == 'new' and str(v[1]).startswith('std::tuple<'):
        return tuple(payload(I, x) for x in v[2:])
    if v[0] == 'tuple':
        return tuple(payload(I, x) for x in v[1:])
    return (v,)


def same_ms(v, n):
    """Is v the duration of n milliseconds (as a duration or as a number)?"""
    if n == 'any':
        return v == ANY or v[0] == 'D' and v[1] == 1000000 and same_ms(v[2], n)
    if v[0] == 'D':
        c = const_of(v[2])
        return c is not None and c * v[1] == n * 1000000
    return const_of(v) == n


# harness function, signal, number of public arguments, private tag, takes a timeout
WAITS = [
    ('sig_private0', 'timeout', 0, True, False),
    ('sig_plain0', 'destroyed', 1, False, False),
    ('sig_dev1_forever', 'bytesWritten', 1, False, False),
    ('sig_two_forever', 'finished', 2, False, False),
    ('sig_dev0', 'started', 0, True, True),
    ('sig_dev1', 'bytesWritten', 1, False, True),
    ('sig_two', 'finished', 2, False, True),
    ('sig_private1', 'objectNameChanged', 1, True, True),
    ('sig_private3', 'rowsInserted', 3, True, True),
    ('sig_look1', 'lookalike1', 1, False, True),
    ('sig_look2', 'lookalike2', 2, False, True),
    ('sig_look2_forever', 'lookalike2', 2, False, False),
    ('sig_look3', 'lookalike3', 2, True, True),
    ('sig_empties', 'empties', 2, False, True),
    ('rawsig_dev0', 'started', 0, True, True),
    ('rawsig_dev1', 'bytesWritten', 1, False, True),
    ('rawsig_moved', 'bytesWritten', 1, False, True),
    ('rawsig_assigned', 'bytesWritten', 1, False, True),
]


class Wait:
    """The specification of one signal wait, run next to the abstract execution."""

    def __init__(self, S, harness_fn, sig, nargs, priv, timeout, other_thread):
        self.S, self.sig, self.nargs, self.priv, self.timeout = S, sig, nargs, priv, timeout
        I, w = S.I, S.w
        self.obs = []
        self.o = w.new('emitter')
        self.loose = [self.o]
        if other_thread:
            w.thr[self.o] = 'other'

        def ob(r, a):
            f = I.coro_frame()
            self.obs.append((f, [result_of(I, x) for x in a], w.emitting and not self.timer_now, w.cur, self.now()))
            return ('void',)
        self.timer_now = False
        S.callees['h::observe'] = ob
        args = [('ptr', self.o)]
        if harness_fn == 'rawsig_assigned':
            self.p = w.new('other emitter')
            self.loose.append(self.p)
            args.append(('ptr', self.p))
        if timeout is not None:
            args.append(ms(timeout))
        self.n = 0
        self.emitted = []
        self.events = []
        self.coros = []
        self.fn = harness(harness_fn)
        self.args = args

    def start(self):
        c = self.S.I.start_coro(self.fn, None, self.args)
        self.coros.append(dict(c=c, since=self.now(), over=None))
        return c

    def now(self):
        return len(self.emitted)

    def emit(self):
        w = self.S.w
        a = [('param', 'arg%d_%d' % (len(self.emitted), k)) for k in range(self.nargs)]
        self.emitted.append(tuple(a))
        w.emit(self.o, self.sig, a, private=self.priv, thread=w.thread(self.o))

    def timer(self, t):
        self.timer_now = True
        try:
            self.S.w.fire_timer(t)
        finally:
            self.timer_now = False


def c12(ck):
    depth = (6 if ck.thorough else 5) - ck.shallow
    for name, sig, nargs, priv, tm in WAITS:
        for other in (False, True):
            if other and name not in ('sig_dev0', 'sig_dev1', 'sig_private1', 'rawsig_dev1', 'sig_dev1_forever') and not ck.thorough:
                continue
            for timeout in ([100, -1] if tm else [None]):
                waits(ck, name, sig, nargs, priv, timeout, other, depth, R12)
    two_waiters(ck)
    again(ck)


def waits(ck, name, sig, nargs, priv, timeout, other, depth, rule):
    raw = name.startswith('rawsig')

    def scenario(S):
        I, w = S.I, S.w
        W = Wait(S, name, sig, nargs, priv, timeout, other)
        c = W.start()
        timers0 = w.active_timers()
        if timeout is not None and timeout >= 0:
            if c.done:
                raise Bad(R13, 'the wait ends before its timeout')
            if len(timers0) != 1 or not same_ms(w.timers[timers0[0]]['interval'], timeout):
                raise Bad(R13, 'no timer is started for the timeout, or one with another interval')
        elif timers0:
            raise Bad(R13, 'a timer is started although there is no timeout')
        fired = first = None
        posted_at_timeout = False
        killed = destroyed = False
        for step in range(depth):
            ops = ['stop']
            if not killed and len(W.emitted) < 2:
                ops.append('emit')
            if w.deliverable():
                ops.append('deliver')
            ops += [('timer', t) for t in w.active_timers()]
            if not killed:
                ops.append('kill')
            if raw and not destroyed and not c.done:
                ops.append('destroy')
            if len(ops) == 1:
                break
            op = I.choose(('event', step), ops)
            if op == 'stop':
                break
            was = c.resumes
            if op == 'emit':
                W.emit()
                if c.resumes != was:
                    raise Bad(R12, 'the coroutine is resumed inside the emission')
            elif op == 'deliver':
                w.deliver(w.deliverable()[0])
            elif op == 'kill':
                killed = True
                if sig == 'destroyed':
                    W.emitted.append((('ptr', W.o),))
                w.kill(W.o)
                if c.resumes != was:
                    raise Bad(R12, 'the coroutine is resumed inside the emission')
            elif op == 'destroy':
                destroyed = True
                c.destroy()
                if W.S.w.live_conns(W.o):
                    raise Bad(R12b, 'a connection to the signal survives the abandoned wait')
                if w.active_timers():
                    raise Bad(R12b, 'a timer survives the abandoned wait')
            else:
                fired = fired if fired is not None else (len(W.emitted), c.done)
                W.timer(op[1])
                if not c.done and not destroyed:
                    raise Bad(R13, 'the wait does not end although its timeout elapsed')
            if c.resumes > 2 or (destroyed and c.resumes > was and op != 'destroy'):
                raise Bad(R12, 'the coroutine is resumed again after the wait ended')
        # quiesce
        if not destroyed:
            w.drain()
            if c.resumes > 2:
                raise Bad(R12, 'the coroutine is resumed again after the wait ended')
        expect_none = fired is not None and not fired[1]
        if destroyed:
            if len(W.obs):
                if not c.done:
                    raise Bad(R12, 'a destroyed coroutine continues')
            return
        if W.emitted and not c.done:
            raise Bad(R12, 'the coroutine is not resumed although the signal was emitted')
        if not W.emitted and fired is None and c.done:
            raise Bad(rule if rule == R13 else R12, 'the wait ends although neither the signal was emitted nor the timeout elapsed')
        if len(W.obs) > 1:
            raise Bad(R12, 'the coroutine continues twice after one wait')
        if c.done and c.threw is not None:
            raise Bad(R12, 'awaiting the signal throws')
        for f, vals, inside, thread, at in W.obs:
            if inside:
                raise Bad(R12, 'the coroutine is resumed inside the emission')
            if thread != 'main':
                raise Bad(R12, 'the coroutine is resumed on another thread than the one it awaited on')
            got = vals[0]
            if expect_none and fired[0] == 0:
                if got != ('none',):
                    raise Bad(R13, 'a wait whose timeout elapsed first gives a value')
            elif expect_none:
                if got not in (('none',), ('value', W.emitted[0])):
                    raise Bad(R12, 'the coroutine receives %s instead of the arguments of the first emission' % fmtres(got))
            elif got != ('value', W.emitted[0]):
                raise Bad(R12, 'the coroutine receives %s instead of the arguments of the first emission' % fmtres(got))
        if c.done:
            if any(w.live_conns(x) for x in W.loose if w.alive(x)):
                raise Bad(R12b, 'a connection to the signal is left behind after the wait ended')
            if w.active_timers():
                raise Bad(R12b, 'the timeout keeps running after the wait ended')
    label = '%s%s%s' % (name, '' if timeout is None else ' timeout %d' % timeout, ', emitter on another thread' if other else '')
    check(ck, label, scenario, [rule] + ([R12b] if rule == R12 else []), blame='QCoro::detail::QCoroSignal::setupConnection')


def fmtres(r):
    if r[0] == 'value':
        return '(' + ', '.join(fmt(x) for x in r[1]) + ')'
    return 'no value'


def two_waiters(ck):
    def scenario(S):
        I, w = S.I, S.w
        W = Wait(S, 'sig_dev1', 'bytesWritten', 1, False, 100, I.choose('emitter on another thread', [False, True]))
        cs = [W.start()]
        early = I.choose('the second starts', ['at once', 'after an emission'])
        if early != 'at once':
            W.emit()
        cs.append(W.start())
        since = W.now()
        W.emit()
        if I.choose('order', ['emit', 'deliver']) == 'emit':
            W.emit()
        w.drain()
        for i, c in enumerate(cs):
            want = W.emitted[0 if i == 0 else since]
            got = [o for o in W.obs if o[0] is c]
            if not c.done or c.resumes != 2 or len(got) != 1:
                raise Bad(R12, 'a coroutine awaiting a signal together with another one is not resumed exactly once')
            if got[0][1][0] != ('value', want):
                raise Bad(R12, 'the coroutine receives %s instead of the arguments of the first emission' % fmtres(got[0][1][0]))
        if w.live_conns(W.o):
            raise Bad(R12b, 'a connection to the signal is left behind after the wait ended')
    check(ck, 'two coroutines awaiting one signal', scenario, [R12, R12b], blame='QCoro::detail::QCoroSignal::setupConnection')


def again(ck):
    def scenario(S):
        I, w = S.I, S.w
        W = Wait(S, 'sig_twice', 'bytesWritten', 1, False, I.choose('timeout', [-1, 100]), False)
        c = W.start()
        started = [0]
        for step in range(5):
            ops = ['stop']
            if len(W.emitted) < 3:
                ops.append('emit')
            if w.deliverable():
                ops.append('deliver')
            op = I.choose(('event', step), ops)
            if op == 'stop':
                break
            if op == 'emit':
                W.emit()
            else:
                w.deliver(w.deliverable()[0])
            if len(W.obs) == 1 and len(started) == 1:
                started.append(W.now())
        w.drain()
        if len(W.obs) == 1 and len(started) == 1:
            started.append(W.now())
        want = []
        if W.emitted:
            want.append(W.emitted[0])
            if len(W.emitted) > started[1]:
                want.append(W.emitted[started[1]])
        got = [o[1][0] for o in W.obs]
        if got != [('value', x) for x in want]:
            raise Bad(R12, 'awaiting the signal twice gives %s instead of the first emission after each wait started' % ', '.join(fmtres(g) for g in got))
    check(ck, 'awaiting a signal twice', scenario, [R12], blame='QCoro::detail::QCoroSignal::setupConnection')


# ------------------------------------------------------------------ C13
def c13(ck):
    depth = 6 if ck.thorough else 5
    for name, sig, nargs, priv, tm in WAITS:
        if not tm:
            continue
        for timeout in (0, 1, 100, -1):
            if timeout in (0, 1) and name not in ('sig_dev1', 'sig_dev0', 'rawsig_dev1'):
                continue
            waits(ck, name, sig, nargs, priv, timeout, False, depth, R13)
    for name, sig, nargs, priv, tm in (('lsn1', 'bytesWritten', 1, False, True),):
        for timeout in (0, 100, -1):
            listener(ck, name, sig, nargs, priv, timeout, False, depth, R13)


# ------------------------------------------------------------------ C14
LISTENERS = [('lsn0', 'started', 0, True, True), ('lsn1', 'bytesWritten', 1, False, True), ('lsn2', 'finished', 2, False, True),
             ('lsn_private1', 'objectNameChanged', 1, True, True), ('lsn_forever', 'bytesWritten', 1, False, False)]


def c14(ck):
    depth = (8 if ck.thorough else 6) - ck.shallow
    for name, sig, nargs, priv, tm in LISTENERS:
        for timeout in ([100, -1] if tm else [None]):
            for other in ((False, True) if name == 'lsn1' or ck.thorough else (False,)):
                listener(ck, name, sig, nargs, priv, timeout, other, depth if name == 'lsn1' else depth - 1, R14)
    burst(ck, 5000 if ck.thorough else 1100)


def burst(ck, n):
    """More emissions than any plausible bound of a queue, while the consumer waits, is busy, or after which the emitter goes away."""
    def scenario(S):
        I, w = S.I, S.w
        w.MAXPOST = 4 * n + 100
        I.MAXITER = 2 * n + 100
        S.cur_modes, S.cur_outcomes = ('sync', 'async'), ('value',)
        o = w.new('emitter')
        seen, flags = [], dict(ended=None)

        def ob(r, a):
            if not a:
                flags['ended'] = True
            else:
                seen.append(args_of(I, payload(I, a[0])))
            S.cur_modes = ('sync',)
            return ('void',)
        S.callees['h::observe'] = ob
        I.call_fn(harness('lsn1'), None, [('ptr', o), ms(100), ('obj', ('heap', 'busy', I.uid()))])
        c = [x for x in I.fibers.values() if 'lconsume' in x.fn.qn][0]
        st = S.src.setdefault(c.promise, {})
        how = I.choose(('burst',), ['then deliver', 'then the emitter goes away'])
        emitted = []

        def emit(k):
            for _ in range(k):
                a = (('param', 'arg%d' % len(emitted)),)
                emitted.append(a)
                w.emit(o, 'bytesWritten', list(a), thread=w.thread(o))
        emit(1)
        w.drain()
        busy = st.get('mode') == 'async' and not st.get('woken')
        emit(n)
        w.drain()
        if how != 'then deliver':
            w.kill(o)
            w.drain()
        if busy:
            if len(seen) > 1:
                raise Bad(R14, 'a consumer that is not waiting on the listener is resumed')
            st.pop('mode')
            I.run_handle(c)
            w.drain()
        if seen != emitted:
            k = next((i for i in range(len(emitted)) if i >= len(seen) or seen[i] != emitted[i]), len(emitted))
            raise Bad(R14, 'of %d emissions in a row, the consumer receives %d; the first one missing or out of order is number %d' % (n + 1, len(seen), k + 1))
    check(ck, 'bursts of %d emissions' % n, scenario, [R14], blame='QCoro::detail::QCoroSignalQueue::setupConnection')


def listener(ck, name, sig, nargs, priv, timeout, other, depth, rule):
    def scenario(S):
        I, w = S.I, S.w
        S.cur_modes, S.cur_outcomes = ('sync', 'async'), ('value',)
        o = w.new('emitter')
        if other:
            w.thr[o] = 'other'
        seen, flags = [], dict(timer=False, ended=None)
        emitted = []

        def ob(r, a):
            if not a:
                flags['ended'] = True
            else:
                seen.append(args_of(I, payload(I, a[0])))
            if w.emitting and not flags['timer']:
                raise Bad(R14, 'the consumer is resumed inside the emission')
            if w.cur != 'main':
                raise Bad(R14, 'the consumer is resumed on another thread')
            return ('void',)
        S.callees['h::observe'] = ob
        n0 = len(I.fibers)
        I.call_fn(harness(name), None, [('ptr', o)] + ([ms(timeout)] if timeout is not None else []) + [('obj', ('heap', 'busy', I.uid()))])
        fib = [x for x in I.fibers.values()]
        c = [x for x in fib if 'lconsume' in x.fn.qn][0]
        st = S.src.setdefault(c.promise, {})
        killed = destroyed = timed = False

        def busy():
            return st.get('mode') == 'async' and not st.get('woken')

        def idle():
            return not c.done and not busy() and not destroyed
        for step in range(depth):
            ops = ['stop']
            if not killed and len(emitted) < 3:
                ops.append('emit')
            if w.deliverable():
                ops.append('deliver')
            ops += [('timer', t) for t in w.active_timers()]
            if not killed:
                ops.append('kill')
            if busy() and not c.done and not destroyed:
                ops.append('wake')
            if not destroyed and not c.done and step + 3 > depth:
                ops.append('destroy')
            if len(ops) == 1:
                break
            op = I.choose(('event', step), ops)
            if op == 'stop':
                break
            was, wasbusy, waswait = c.resumes, busy(), idle()
            if op == 'emit':
                a = tuple(('param', 'arg%d_%d' % (len(emitted), k)) for k in range(nargs))
                emitted.append(a)
                w.emit(o, sig, list(a), private=priv, thread=w.thread(o))
            elif op == 'deliver':
                w.deliver(w.deliverable()[0])
            elif op == 'kill':
                killed = True
                w.kill(o)
            elif op == 'wake':
                st.pop('mode')
                I.run_handle(c)
            elif op == 'destroy':
                destroyed = True
                c.destroy()
                if w.live_conns(o):
                    raise Bad(R12b, 'a connection to the signal survives the listener')
                if w.active_timers():
                    raise Bad(R12b, 'a timer survives the listener')
            else:
                flags['timer'] = True
                w.fire_timer(op[1])
                flags['timer'] = False
                if waswait:
                    timed = True
                    if not flags['ended']:
                        raise Bad(R13, 'the listener does not end although its timeout elapsed')
            if op not in ('wake', 'destroy') and wasbusy and c.resumes != was:
                raise Bad(R14, 'a consumer that is not waiting on the listener is resumed')
            if flags['ended'] and not timed and not (killed and seen == emitted):
                raise Bad(R13 if rule == R13 else R14, 'the listener ends although neither its timeout elapsed nor its emitter is gone with nothing left to deliver')
            if seen != emitted[:len(seen)]:
                raise Bad(R14, 'the consumer receives %s although %s was emitted' % (fmts(seen), fmts(emitted)))
        if destroyed:
            w.drain()
            if c.resumes > was and op != 'destroy':
                raise Bad(R14, 'a destroyed consumer is resumed')
            return
        # let everything that is on its way arrive, with a consumer that is never busy again
        for _ in range(12):
            w.drain()
            if c.done or flags['ended']:
                break
            if busy():
                S.cur_modes = ('sync',)
                st.pop('mode')
                I.run_handle(c)
            else:
                break
        if not flags['ended'] and seen != emitted:
            raise Bad(R14, 'the consumer receives %s although %s was emitted' % (fmts(seen), fmts(emitted)))
        if flags['ended'] and not timed and seen != emitted:
            raise Bad(R14, 'the listener ends with emissions left to deliver')
        if seen != emitted[:len(seen)]:
            raise Bad(R14, 'the consumer receives %s although %s was emitted' % (fmts(seen), fmts(emitted)))
    label = '%s%s%s' % (name, '' if timeout is None else ' timeout %d' % timeout, ', emitter on another thread' if other else '')
    check(ck, label, scenario, [rule], blame='QCoro::detail::QCoroSignalQueue::setupConnection')


def fmts(l):
    return '[' + ', '.join('(' + ', '.join(fmt(x) for x in a) + ')' for a in l) + ']'


RULES = {'C12': c12, 'C13': c13, 'C14': c14}
