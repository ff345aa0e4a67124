"""C26-C28: timers and sleeps, futures, D-Bus calls."""
from scen import *
from rules.r_then import payload
from rules.r_signal import ms, same_ms
from rules.r_io import R34

R26 = 'timer-awaits-end-at-the-next-timeout'
R26s = 'sleeps-last-as-long-as-asked'
R27 = 'futures-are-awaited-until-finished'
R27l = 'nothing-of-the-wait-is-left'
R28 = 'calls-are-awaited-until-finished'


def observer(S, obs):
    def ob(r, a):
        obs.append([payload(S.I, x) for x in a])
        return ('void',)
    S.callees['h::observe'] = ob


# ------------------------------------------------------------------ C26
def timer_awaits(ck, fn, depth, two=False):
    def scenario(S):
        I, w = S.I, S.w
        t = w.new('timer')
        active = I.choose('initially', [False, True])
        single = I.choose('single shot', [False, True])
        w.timer(t).update(active=active, single=B(single), interval=('int', 100))
        obs = []
        observer(S, obs)
        cs = [I.start_coro(harness(fn), None, [t if fn.endswith('_ref') else ('ptr', t)]) for _ in range(2 if two else 1)]
        if not active:
            for c in cs:
                if not c.done:
                    raise Bad(R26, 'awaiting a timer that is not active suspends')
            if len(obs) != len(cs):
                raise Bad(R26, 'the coroutine continues %d times' % len(obs))
            if w.live_conns(t):
                raise Bad(R34, 'a connection to the timer is left behind')
            return
        for c in cs:
            if c.done:
                raise Bad(R26, 'awaiting an active timer ends before its timeout')
        fired, killed = 0, False
        for step in range(depth):
            ops = ['stop']
            if w.deliverable():
                ops.append('deliver')
            if not killed:
                ops += ['kill', 'other signal'] + (['fire', 'halt'] if w.timer(t)['active'] else ['restart'])
            if len(ops) == 1:
                break
            op = I.choose(('event', step), ops)
            if op == 'stop':
                break
            if op == 'deliver':
                w.deliver(w.deliverable()[0])
            elif op == 'kill':
                killed = True
                w.kill(t)
            elif op == 'other signal':
                w.emit(t, 'objectNameChanged', [('param', 'name')], private=True)
            elif op == 'halt':
                w.timer(t)['active'] = False
            elif op == 'restart':
                w.timer(t)['active'] = True
            else:
                fired += 1
                w.fire_timer(t)
            if not fired and (obs or any(c.done for c in cs)):
                raise Bad(R26, 'the wait ends before the timeout of the timer')
        w.drain()
        if fired and not all(c.done for c in cs):
            raise Bad(R26, 'the coroutine is not resumed by the timeout')
        if len(obs) > len(cs):
            raise Bad(R26, 'the coroutine continues more than once')
        if fired and not killed and w.live_conns(t):
            raise Bad(R34, 'a connection to the timer is left behind')
    check(ck, fn + (' twice' if two else ''), scenario, [R26], blame='QCoro::detail::QCoroTimer::' + ('waitForTimeout' if 'wait' in fn else 'WaitForTimeoutOperation::await_suspend'))


def c26(ck):
    d = 7 if ck.thorough else 5
    for fn in ('timer_ptr', 'timer_ref', 'timer_wait'):
        timer_awaits(ck, fn, d)
        timer_awaits(ck, fn, d - 1, two=True)
    NS = {'sleep_ms': 1000000, 'sleep_s': 1000000000, 'sleep_us': 1000}
    for fn, vals in (('sleep_ms', (0, 1, 100, 3600000, 2000000000, -1, -100, -2000000000)), ('sleep_s', (0, 1, 90, 86400, -1, -3)), ('sleep_us', (0, 1000, 250000, 1500, 1999, 400, -1, -400, -999, -1000, -250000))):
        for v in vals:
            sleeps(ck, fn, 'd', ('D', NS[fn], ('int', v)), v * NS[fn])
    C = 'std::chrono::'
    # system_clock may be the same class as high_resolution_clock; both show another time than the steady one
    now = {C + 'steady_clock': 5000 * 10**9 + 123456789, C + '_V2::steady_clock': 5000 * 10**9 + 123456789,
           C + 'system_clock': 1700000000 * 10**9 + 987654321, C + '_V2::system_clock': 1700000000 * 10**9 + 987654321}
    for fn, clk in (('sleep_until_steady', 'steady_clock'), ('sleep_until_system', 'system_clock'), ('sleep_until_system_s', 'system_clock')):
        for gap in (0, 1000000, 250 * 10**6, 1700000, 3600 * 10**9, 30 * 86400 * 10**9 - 1, -1, -400000, -10**6, -250 * 10**6, -86400 * 10**9):
            key = [k for k in now if k.endswith(clk)]
            when = now[key[0]] + gap
            if fn.endswith('_s'):
                when -= when % 10**9
            sleeps(ck, fn, 'until', None, when - now[key[0]], now, clk, when)


def sleeps(ck, fn, kind, arg, ns, now=None, clk=None, when=None):
    """The sleep of ns nanoseconds is one single-shot timeout of that many milliseconds, or of none at all."""
    def scenario(S):
        I, w = S.I, S.w
        obs = []
        observer(S, obs)
        a = arg
        if now:
            w.clocks.update(now)
            name = [k for k in now if k.endswith('::' + clk) and k.count('::') == 2][0]
            a = ('tp0', name, when)
        c = I.start_coro(harness(fn), None, [a])
        ts, ps = w.active_timers(), [p for p in w.posted]
        if c.done:
            if ns > 0:
                raise Bad(R26s, 'a sleep of %g ms does not suspend' % (ns / 1e6))
            return
        if len(ts) + len(ps) != 1:
            raise Bad(R26s, 'the sleep is not one timeout (%d timers, %d posted events)' % (len(ts), len(ps)))
        if ts:
            iv = w.timer(ts[0])['interval']
        else:
            iv = ps[0][3]
        ok = [max(0, ns // 1000000), max(0, -(-ns // 1000000))]
        if not any(same_ms(iv, k) for k in ok):
            raise Bad(R26s, 'a sleep of %g ms uses a timeout of %s' % (ns / 1e6, fmt(iv)))
        if ts:
            w.fire_timer(ts[0])
        w.drain()
        if not c.done or len(obs) != 1:
            raise Bad(R26s, 'the sleep does not end with its timeout')
        if w.active_timers():
            raise Bad(R26s, 'a timer keeps running after the sleep')
        w.drain()
    check_here(ck, '%s %g ms' % (fn, ns / 1e6), scenario, [R26s], blame='QCoro::sleepUntil' if now else 'QCoro::sleepFor')



# ------------------------------------------------------------------ C27
class Future:
    """A QFuture and its watchers."""
    FUT = ('param', 'future')
    RES = ('param', 'result of the future')
    EXC = ('exc', 'exception of the future', 'std')

    def __init__(self, S, finished, canceled, outcome, races=True):
        self.S, self.I, self.w = S, S.I, S.w
        self.finished, self.canceled, self.outcome = finished, canceled, outcome
        self.races = races
        self.taken = 0
        self.watchers = []
        self.attached = []
        self.late = False
        S.on(r'^QFuture(<.*>)?::', self.future)
        S.on(r'^QFutureWatcher(Base)?(<.*>)?::', self.watcher)

    def race(self):
        if self.races and not self.finished and self.I.choose(('finishes meanwhile', self.I.uid()), [False, True]):
            self.late = True
            self.finish()

    def value(self):
        if self.outcome == 'throw':
            raise ThrowExc(self.EXC)
        return self.RES

    def future(self, name, recv, a):
        if self.I.strip(self.I.read(recv) if is_loc(recv) else recv) != self.FUT:
            return None
        k = name.rsplit('::', 1)[-1]
        if k in ('isFinished', 'isCanceled', 'isRunning', 'isStarted', 'isValid', 'isResultReadyAt', 'resultCount'):
            v = {'isFinished': self.finished, 'isCanceled': self.canceled, 'isRunning': not self.finished, 'isStarted': True, 'isValid': self.taken == 0,
                 'isResultReadyAt': self.finished and self.outcome == 'value', 'resultCount': 1 if self.finished and self.outcome == 'value' else 0}[k]
            self.race()
            return B(v) if isinstance(v, bool) else ('int', v)
        if k in ('result', 'takeResult', 'waitForFinished', 'resultAt', 'results'):
            if not self.finished and not self.canceled:
                raise Bad(R27, 'the thread is blocked until the future finishes')
            if self.canceled and not self.finished:
                return ('param', 'no result')
            v = self.value()
            if k == 'takeResult':
                self.taken += 1
            return ('void',) if k == 'waitForFinished' else v
        return None

    def watcher(self, name, recv, a):
        k = name.rsplit('::', 1)[-1]
        loc = self.w.ploc(recv)
        if k == 'setFuture':
            if self.I.strip(a[0]) == self.FUT:
                self.attached.append(loc)
                self.w.delicate.add(loc)
                if self.finished:
                    self.notify(loc)
            return ('void',)
        if k in ('isFinished', 'isCanceled', 'result', 'waitForFinished') and loc in self.attached:
            return self.future('QFuture::' + k, self.FUT, a)
        if k == 'future':
            return self.FUT
        return None

    def notify(self, loc):
        self.w.post(('py', lambda: self.w.emit(loc, 'finished')), ('ptr', loc), ('int', 0))

    def finish(self):
        self.finished = True
        for l in self.attached:
            self.notify(l)

    def cancel(self):
        self.canceled = True
        for l in self.attached:
            self.w.post(('py', lambda l=l: self.w.emit(l, 'canceled')), ('ptr', l), ('int', 0))


def constructed(I, name):
    """Objects of the class constructed so far on this path."""
    out = []
    for e in I.events:
        if e.kind == 'construct' and str(e.type).startswith(name) and e.loc not in out:
            out.append(e.loc)
    return out


def futures(ck, fn, void, take, depth):
    def scenario(S):
        I, w = S.I, S.w
        init = I.choose('initially', ['running', 'finished', 'canceled', 'canceled and finished'])
        outcome = I.choose('outcome', ['value', 'throw'])
        F = Future(S, 'finished' in init, 'canceled' in init, outcome)
        obs = []
        observer(S, obs)
        c = I.start_coro(harness(fn), None, [Future.FUT])
        if init != 'running' and not c.done:
            raise Bad(R27, 'awaiting a future that is %s suspends' % init)
        if c.done and not F.finished and not F.canceled:
            raise Bad(R27, 'the wait ends before the future finishes')
        done0 = F.finished

        def look():
            if c.done and not F.finished and not F.canceled:
                raise Bad(R27, 'the wait ends before the future finishes')
            if len(obs) > 1:
                raise Bad(R27, 'the coroutine continues more than once')
        for step in range(depth):
            ops = ['stop']
            if w.deliverable():
                ops.append('deliver')
            if not F.finished:
                ops.append('finish')
                if not F.canceled:
                    ops.append('cancel')
            if len(ops) == 1:
                break
            op = I.choose(('event', step), ops)
            if op == 'stop':
                break
            if op == 'deliver':
                w.deliver(w.deliverable()[0])
            elif op == 'finish':
                F.finish()
                if c.done and init == 'running' and not obs and c.threw is None:
                    raise Bad(R27, 'the coroutine ends without a result')
            else:
                F.cancel()
            look()
        w.drain()
        look()
        if F.finished and not c.done:
            raise Bad(R27, 'the coroutine is not resumed although the future is finished')
        if not c.done:
            return
        left = [l for l in constructed(I, 'QFutureWatcher') if l not in I.dead]
        if left:
            raise Bad(R27l, 'a QFutureWatcher created for the wait is never deleted')
        if not F.finished or F.canceled:
            return
        if outcome == 'throw':
            if c.threw != Future.EXC:
                raise Bad(R27, 'the exception of the future is %s' % ('lost' if c.threw is None else 'replaced by %s' % fmt(c.threw)))
            return
        if c.threw is not None:
            raise Bad(R27, 'an exception leaves the wait')
        if len(obs) != 1 or not void and obs[0] != [Future.RES]:
            raise Bad(R27, 'the result is %s' % (', '.join(fmt(x) for x in obs[0]) if obs else 'missing'))
        if take != F.taken:
            raise Bad(R27, 'the result is taken out of the future %d times instead of %d' % (F.taken, take))
    check(ck, fn, scenario, [R27, R27l], blame='QCoro::detail::QCoroFuture::' + ('takeResult' if take else 'result' if 'result' in fn else 'waitForFinished' if 'wait' in fn else 'WaitForFinishedOperationBase::await_suspend'))


def c27(ck):
    d = 7 if ck.thorough else 5
    for fn in ('fut_int', 'fut_void', 'fut_wait_int', 'fut_wait_void', 'fut_result_int', 'fut_result_void', 'fut_take_int', 'fut_take_mo'):
        futures(ck, fn, 'void' in fn, int('take' in fn), d)



# ------------------------------------------------------------------ C28
class Call:
    """A pending D-Bus call, its copies (which share its state) and its watchers."""
    CALL = ('param', 'pending call')
    MSG = ('param', 'reply message')

    def __init__(self, S, finished, races=True, error=False):
        self.S, self.I, self.w = S, S.I, S.w
        self.error = error
        self.finished, self.races = finished, races
        self.watchers = {}
        self.handles = set()
        S.on(r'^QDBusPending(Call|ReplyBase|Reply|CallWatcher)(<.*>)?::', self.call)

    def is_call(self, v, depth=0):
        """Does the value denote the call (or something made from it)?"""
        if v == self.CALL:
            return True
        if not isinstance(v, tuple) or depth > 6:
            return False
        if v[0] in ('obj', 'ptr') and v[1] in self.handles:
            return True
        if v[0] in ('new', 'conv', 'obj', 'vinit'):
            return any(self.is_call(x, depth + 1) for x in v[1:])
        return False

    def adopt(self):
        """Watchers constructed since the last look are attached to their call."""
        for e in self.I.events:
            if e.kind == 'construct' and str(e.type).startswith('QDBusPendingCallWatcher') and e.loc not in self.watchers:
                mine = any(self.is_call(a) for a in (e.args or ()))
                self.watchers[e.loc] = mine
                if mine:
                    self.handles.add(e.loc)
                    self.w.delicate.add(e.loc)
                    if self.finished:
                        self.notify(e.loc)

    def notify(self, loc):
        self.w.post(('py', lambda: self.w.emit(loc, 'finished', [('ptr', loc)])), ('ptr', loc), ('int', 0))

    def race(self):
        if self.races and not self.finished and self.I.choose(('finishes meanwhile', self.I.uid()), [False, True]):
            self.finish()

    def finish(self):
        self.adopt()
        self.finished = True
        for l, mine in self.watchers.items():
            if mine:
                self.notify(l)

    def call(self, name, recv, a):
        self.adopt()
        k = name.rsplit('::', 1)[-1]
        v = self.I.strip(recv)
        if is_loc(v):
            l = v
            v = self.I.read(v)
            if l in self.handles:
                v = self.CALL
        if not self.is_call(v):
            return None
        if k in ('isFinished', 'isValid', 'isError'):
            r = self.finished and (k == 'isFinished' or (k == 'isError') == self.error)
            if k == 'isFinished':
                self.race()
            return B(r)
        if k == 'reply':
            if not self.finished:
                return ('param', 'no reply yet')
            return self.MSG
        if k == 'waitForFinished':
            if not self.finished:
                raise Bad(R28, 'the thread is blocked until the call finishes')
            return ('void',)
        return None


def calls(ck, fn, depth, temporary=False):
    def scenario(S):
        I, w = S.I, S.w
        init = I.choose('initially', ['pending', 'finished'])
        C = Call(S, init == 'finished', error=I.choose('outcome', ['reply', 'error']) == 'error')
        obs = []
        observer(S, obs)
        arg = Call.CALL
        if temporary:
            arg = ('heap', 'call', I.uid())
            I.mem[arg] = Call.CALL
        c = I.start_coro(harness(fn), None, [arg])
        C.adopt()
        if temporary:
            I.dead.add(arg)
        if init == 'finished' and not c.done:
            raise Bad(R28, 'awaiting a call that is finished suspends')

        def look():
            if c.done and not C.finished:
                raise Bad(R28, 'the wait ends before the call finishes')
            if len(obs) > 1:
                raise Bad(R28, 'the coroutine continues more than once')
            if c.threw is not None:
                raise Bad(R28, 'an exception leaves the wait')
        look()
        for step in range(depth):
            ops = ['stop']
            if w.deliverable():
                ops.append('deliver')
            if not C.finished:
                ops.append('finish')
            if len(ops) == 1:
                break
            op = I.choose(('event', step), ops)
            if op == 'stop':
                break
            if op == 'deliver':
                w.deliver(w.deliverable()[0])
            else:
                C.finish()
            C.adopt()
            look()
        w.drain()
        look()
        if C.finished and not c.done:
            raise Bad(R28, 'the coroutine is not resumed although the call is finished')
        if not c.done:
            return
        left = [l for l in C.watchers if w.alive(l)]
        if left:
            raise Bad(R28, 'a QDBusPendingCallWatcher created for the wait is never deleted')
        if len(obs) != 1 or not obs[0] or not (C.is_call(obs[0][0]) or carries(obs[0][0], Call.MSG)):
            raise Bad(R28, 'the result is %s instead of the reply of the call' % (', '.join(fmt(x) for x in obs[0]) if obs else 'missing'))
    check(ck, fn + (' on a temporary' if temporary else ''), scenario, [R28],
          blame='QCoro::detail::QCoroDBusPending' + ('Reply' if 'reply' in fn else 'Call') + ('::waitForFinished' if 'wait' in fn else '::WaitForFinishedOperation::await_suspend'))


def carries(v, x, depth=0):
    if v == x:
        return True
    return isinstance(v, tuple) and depth < 6 and v[0] in ('new', 'conv', 'obj', 'vinit') and any(carries(y, x, depth + 1) for y in v[1:])


def c28(ck):
    d = 6 if ck.thorough else 4
    for fn in ('dbus_call', 'dbus_reply', 'dbus_reply2', 'dbus_reply_wait', 'dbus_reply2_wait'):
        calls(ck, fn, d)
    for fn in ('dbus_call_wait', 'dbus_call_ref', 'dbus_reply_ref', 'dbus_reply_ref_wait'):
        calls(ck, fn, d, temporary=True)


RULES = {'C26': c26, 'C27': c27, 'C28': c28}
