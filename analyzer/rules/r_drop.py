"""C40: an asynchronous generator is destroyed while its coroutine is suspended on something."""
from scen import *
from rules.r_signal import ms
from rules.r_misc import Future, Call

R40 = 'dropping-a-suspended-generator-cuts-it-off'
R40o = 'others-awaiting-the-same-task-are-still-resumed'


class Dropped:
    """A generator, a coroutine consuming it, and what has become of them."""

    def __init__(self, S, fn, args):
        self.S, self.I = S, S.I
        f = harness(fn)
        self.f = f
        self.obs = []
        self.others = {}
        self.in_other = None
        S.callees['h::observe'] = self.observe
        self.rec = self.I.rec_of(f.tu, f.d['ret'])
        self.g = self.I.start_coro(f, None, args)
        self.gone = False
        n = len(self.I.fibers)
        self.I.call_fn(harness('agc_int'), None, [self.g.ret])

    def observe(self, r, a):
        c = self.I.coro_frame()
        if c is self.g:
            self.obs.append('generator')
            if self.gone:
                raise Bad(R40, 'a destroyed generator goes on running')
        elif c is not None and c.promise in self.others:
            self.others[c.promise] += 1
            if self.in_other is not None:
                self.in_other()
        return ('void',)

    def waiting(self):
        return self.g.state == 'suspended' and not self.gone

    def drop(self):
        if self.gone:
            return
        self.gone = True
        drop(self.I, self.rec, self.g.ret)
        if self.g.destroyed != 1:
            raise Bad(R40, 'the coroutine of a dropped generator is destroyed %d times' % self.g.destroyed)
        self.resumes = self.g.resumes

    def judge(self):
        I = self.I
        if not self.gone:
            return
        if self.g.destroyed != 1 or self.g.resumes != self.resumes:
            raise Bad(R40, 'a destroyed generator is resumed')
        mine = [e for e in I.events if e.kind == 'dtor' and e.type == 'h::Guard']
        if len(mine) != len({e.loc for e in mine}) or not mine:
            raise Bad(R40, 'the stack of a dropped generator is not destroyed once')


TASKS = ['dg_task', 'dg_void', 'dg_mo', 'dg_lazy', 'dg_lazyv', 'dg_then', 'dg_inner']


def tasks(ck, fn):
    """The awaited task belongs to the generator."""
    def scenario(S):
        I = S.I
        S.cur_modes, S.cur_outcomes = ('async',), ('value', 'other')
        S.callees['h::CbRet::operator()'] = lambda r, a: ('param', 'mapped')
        n0 = set(I.fibers)
        D = Dropped(S, fn, [('obj', ('heap', 'source', I.uid()))])
        srcs = [st['coro'] for st in S.src.values() if st.get('mode') == 'async']
        if len(srcs) != 1 or not D.waiting():
            raise Bad(R40, 'the generator does not wait for the task')
        src = srcs[0]
        when = I.choose('drop', ['before', 'after'])
        if when == 'before':
            D.drop()
            D.judge()
        I.run_handle(src)
        D.judge()
        D.drop()
        D.judge()
        if not src.done:
            raise Bad(R40o, 'the awaited task does not run to its end')
        for c in I.fibers.values():
            # everything the generator started by itself is finished and unowned now
            if c is not D.g and c.fn.d.get('coro') and c.done and c.destroyed != 1 and not c.fn.qn.startswith('h::aconsume'):
                raise Bad(R40, 'the frame of %s is freed %d times' % (c.fn.qn, c.destroyed))
    check(ck, fn, scenario, [R40, R40o], blame='QCoro::detail::TaskAwaiterBase::await_suspend')


def shared(ck, fn, src, other, lazy, n_others):
    """The generator is one of several coroutines awaiting one task."""
    def scenario(S):
        I = S.I
        S.cur_modes, S.cur_outcomes = ('async',), ('value', 'other')
        c = I.start_coro(harness(src), None, [('obj', ('heap', 'source', I.uid()))])
        t = c.ret
        order = I.choose('place of the generator', list(range(n_others + 1)))
        D = None
        os = []
        dropper = I.choose('dropped by', ['nobody waiting', 'before', 'in between'] + list(range(n_others)))
        for k in range(n_others + 1):
            if k == order:
                D = Dropped(S, fn, [t])
                if not D.waiting():
                    raise Bad(R40, 'the generator does not wait for the task')
                if dropper == 'in between':
                    D.drop()
                continue
            o = I.start_coro(harness(other), None, [t])
            os.append(o)
            if c.done:
                raise Bad(R40o, 'awaiting a task makes it finish early')
        for o in os:
            D.others[o.promise] = 0
        if dropper == 'before':
            D.drop()

        def inside():
            if isinstance(dropper, int) and I.coro_frame() is os[dropper]:
                D.drop()
        D.in_other = inside
        if any(o.done for o in os) or c.done:
            raise Bad(R40o, 'an awaiting coroutine is resumed before the task finished')
        if lazy and not c.started_body:
            raise Bad(R40o, 'the awaited lazy task is not started')
        I.run_handle(c)
        if not c.done:
            raise Bad(R40o, 'the awaited task is resumed too often')
        threw = c.threw is not None
        for o in os:
            if not o.done or o.resumes != 2:
                raise Bad(R40o, 'another coroutine awaiting the task is resumed %d times instead of once' % (o.resumes - 1))
            if not threw and D.others[o.promise] != 1:
                raise Bad(R40o, 'another coroutine awaiting the task does not get its result')
        if not D.gone and not D.g.done and not D.obs:
            raise Bad(R40o, 'the generator is not resumed')
        D.drop()
        D.judge()
        drop(I, I.rec_of(c.fn.tu, c.fn.d['ret']), t)
        if c.destroyed != 1:
            raise Bad(R40o, 'the frame of the awaited task is freed %d times' % c.destroyed)
    check(ck, '%s with %d others' % (fn, n_others), scenario, [R40, R40o], blame='QCoro::detail::TaskFinalSuspend::await_suspend')


def waits(ck, fn, mk, depth):
    """A wait of the library; mk(S) -> (arguments, {event name: action})."""
    def scenario(S):
        I, w = S.I, S.w
        args, evs = mk(S)
        D = Dropped(S, fn, args)
        for step in range(depth):
            ops = ['stop']
            if w.deliverable():
                ops.append('deliver')
            if not D.gone:
                ops.append('drop')
            if w.active_timers():
                ops.append('timer')
            ops += [k for k in evs]
            op = I.choose(('event', step), ops)
            if op == 'stop':
                break
            if op == 'deliver':
                w.deliver(w.deliverable()[0])
            elif op == 'drop':
                if not D.g.done and D.g.state != 'suspended':
                    raise Bad(R40, 'the generator is neither suspended nor finished')
                D.drop()
            elif op == 'timer':
                w.fire_timer(w.active_timers()[0])
            else:
                evs[op]()
            D.judge()
        w.drain()
        D.judge()
        D.drop()
        w.drain()
        D.judge()
        poke(S)
        D.judge()
    check(ck, fn, scenario, [R40], blame=last_wait(fn))


def last_wait(fn):
    return {'dg_move': 'QCoro::detail::ThreadContext::await_suspend'}.get(fn, 'QCoro::detail::TaskAwaiterBase::await_suspend')


def thread_world(S):
    I, w = S.I, S.w
    t = w.new('thread')
    st = {'run': I.choose('thread', [False, True]), 'fin': False}
    w.q[t].update(isRunning=lambda a: B(st['run']), isFinished=lambda a: B(st['fin']))

    def start():
        if not st['run']:
            st['run'] = True
            w.emit(t, 'started', [], private=True, thread=t)
    return t, st, start


def mk_move(S):
    t, st, start = thread_world(S)
    return [('ptr', t)], {'start': start}


def mk_started(S):
    t, st, start = thread_world(S)
    st['run'] = False
    return [('ptr', t), ms(100)], {'start': start, 'kill': lambda: S.w.kill(t)}


def mk_obj(sig, args=(), timeout=True, private=False, more=(), **q):
    def mk(S):
        o = S.w.new('object', **q)
        a = [('ptr', o)] + list(more) + ([ms(100)] if timeout else [])

        def fire():
            if S.w.alive(o):
                S.w.emit(o, sig, list(args), private=private)
        return a, {sig: fire, 'kill': lambda: S.w.kill(o)}
    return mk


def mk_timer(S):
    w = S.w
    t = w.new('timer')
    w.timer(t).update(active=True, single=FALSE, interval=('int', 100))
    return [('ptr', t)], {'kill': lambda: w.kill(t)}


def mk_sleep(S):
    return [ms(100)], {}


def mk_future(S):
    F = Future(S, False, False, S.I.choose('outcome', ['value', 'throw']))
    return [Future.FUT], {'finish': lambda: F.finished or F.finish()}


def mk_dbus(S):
    C = Call(S, False)
    S.adopt = C

    def finish():
        if not C.finished:
            C.finish()
        C.adopt()
    return [Call.CALL], {'finish': finish}


def mk_file(S):
    st = {'n': 0}
    o = S.w.new('file', isOpen=TRUE, isReadable=TRUE, isWritable=TRUE, atEnd=lambda a: B(st['n'] == 0), bytesAvailable=lambda a: ('int', st['n']), openMode=('int', 3),
                readAll=('param', 'data'))

    def ready():
        if S.w.alive(o):
            st['n'] = 5
            S.w.emit(o, 'readyRead', [])
    return [('ptr', o), ms(100)], {'readyRead': ready, 'kill': lambda: S.w.kill(o)}


def mk_server(sig):
    def mk(S):
        st = {'n': 0}
        o = S.w.new('server', isListening=TRUE, hasPendingConnections=lambda a: B(st['n'] > 0), nextPendingConnection=lambda a: ('ptr', ('heap', 'connection', S.I.uid())))

        def come():
            if S.w.alive(o):
                st['n'] += 1
                S.w.emit(o, sig, [], private=(sig == 'newConnection' and False))
        return [('ptr', o), ms(100)], {sig: come, 'kill': lambda: S.w.kill(o)}
    return mk


WAITS = [
    ('dg_move', mk_move), ('dg_started', mk_started),
    ('dg_signal', mk_obj('bytesWritten', [('param', 'bytes')])),
    ('dg_listen', mk_obj('bytesWritten', [('param', 'bytes')])),
    ('dg_sleep', mk_sleep), ('dg_timer', mk_timer), ('dg_readAll', mk_file),
    ('dg_procfin', mk_obj('finished', [('int', 0), ('param', 'exit status')], state=('int', 2))),
    ('dg_future', mk_future), ('dg_dbus', mk_dbus),
    ('dg_ping', mk_obj('pong', [('param', 'elapsed'), ('param', 'payload')], more=[('param', 'payload')], state=('int', 3), isValid=TRUE)),
    ('dg_accept', mk_server('newConnection')), ('dg_waccept', mk_server('newConnection')),
]


def c40(ck):
    for fn in TASKS:
        tasks(ck, fn)
    n = 3 if ck.thorough else 2
    for k in range(1, n + 1):
        for fn, src, other, lazy in (('dg_shared', 'src_int', 'aw_task_lv', False), ('dg_sharedv', 'src_void', 'aw_task_void', False),
                                     ('dg_sharedlz', 'lsrc_int', 'aw_lazy', True), ('dg_sharedlzv', 'lsrc_void', 'aw_lazy_void', True)):
            shared(ck, fn, src, other, lazy, k)
    for fn, mk in WAITS:
        waits(ck, fn, mk, 6 if ck.thorough else 4)


RULES = {'C40': c40}
