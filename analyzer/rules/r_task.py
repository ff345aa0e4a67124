"""C01-C05: lifetime, resumption, results, start and emptiness of Task and LazyTask."""
from rulelib import *

EAGER = ['co_int', 'co_void', 'co_mo', 'co_str']
LAZY = ['lz_int', 'lz_void', 'lz_str']


def done_env(coros):
    """env hook answering done() from the scenario's own bookkeeping."""
    def env(I, name, recv, args, f):
        if name == 'done':
            for c in coros(I):
                if recv == c.handle:
                    return B(c.done)
        return None
    return env


def destroyed(I, c):
    return len([e for e in I.events if e.kind == 'destroy' and e.h == c.handle])


def c01(ck):
    depth = 5 if ck.thorough else 4
    for name in EAGER + LAZY:
        lazy = name.startswith('lz')
        f = harness(name)
        lifetime_one(ck, f, lazy, depth)
    for name in ['co_int', 'co_void']:
        lifetime_two(ck, harness(name), depth)
    lifetime_awaited(ck)
    lifetime_sync(ck)


def owners_value(c):
    return [o for o in c.owners]


def lifetime_one(ck, f, lazy, depth):
    """Every order of finishing and of every ownership operation, up to `depth` operations, one coroutine."""
    def scenario(I):
        c = Coro(I, f)
        I.coros = [c]
        r = c.rrec
        own = c.ret
        empties = []
        fin = False
        exc = False
        started = not lazy
        for step in range(depth):
            ops = ['stop']
            if not fin and started:
                ops += ['return', 'throw']
            if not started and own is not None:
                ops += ['start']
            if own is not None:
                ops += ['drop']
                if not lazy:
                    ops += ['movector', 'moveassign', 'selfassign', 'overwrite']
            if empties:
                ops += ['dropempty']
            op = I.choose(('op', step), ops)
            if op == 'stop':
                break
            if op in ('return', 'throw'):
                if op == 'throw':
                    c.throw(('exc', 'body', I.choose('kind', ['std', 'other'])))
                c.final()
                fin = True
            elif op == 'start':
                started = True
            elif op == 'drop':
                drop(I, r, own)
                own = None
            elif op == 'movector':
                n = move_new(I, r, own)
                empties.append(own)
                own = n
            elif op == 'moveassign':
                n = new_default(I, r)
                move_assign(I, r, n, own)
                empties.append(own)
                own = n
            elif op == 'selfassign':
                move_assign(I, r, own, own)
            elif op == 'overwrite':
                n = new_default(I, r)
                move_assign(I, r, own, n)
                drop(I, r, n)
                empties.append(own)
                own = None
            elif op == 'dropempty':
                drop(I, r, empties.pop())
            I.log('op', op=op)
            expect = 1 if fin and own is None else 0
            d = destroyed(I, c)
            if not started and own is None:
                expect = d if d <= 1 else 1
            if d != expect:
                return (op, d, expect)
        return None

    def env(I, name, recv, args, fn_):
        if name == 'done':
            return B(I.coros[0].done and recv == I.coros[0].handle)
        return None
    ps = ck.explore('lifetime of %s' % f.n, scenario, env=env)
    for p in ps:
        what = None
        if p.result is not None:
            op, d, e = p.result
            what = 'frame of a finished and unowned coroutine is not freed (last operation: %s)' % op if d < e else \
                ('frame freed %d times (last operation: %s)' % (d, op) if d > 1 else 'frame freed while %s (last operation: %s)' % ('still owned or running', op))
        ck.req(p.result is None, 'frame-freed-exactly-once', blame(p, 'destroy', f), what, p)
        u = uafs(p)
        ck.req(not u, 'frame-not-touched-after-free', u[0].where[:2] if u else f, u and describe_uaf(u[0]), p)
        ck.req(p.end == 'return', 'ownership-operations-do-not-throw', f, 'an ownership operation ends with %s' % p.end, p)


def blame(p, kind, f):
    es = evs(p, kind)
    if es and es[-1].where:
        return es[-1].where[0], '%s:%s' % (es[-1].where[1], es[-1].where[2])
    return f


def lifetime_two(ck, f, depth):
    """Two coroutines whose owners are assigned to each other."""
    def scenario(I):
        a, b = Coro(I, f), Coro(I, f)
        I.coros = [a, b]
        r = a.rrec
        own = {0: a.ret, 1: b.ret}
        held = {a.ret: 0, b.ret: 1}       # object -> coroutine index or None
        for step in range(depth):
            ops = ['stop']
            for i, c in enumerate(I.coros):
                if not c.done:
                    ops.append(('finish', i))
            objs = list(held)
            for o in objs:
                ops.append(('drop', o))
            if len(objs) == 2:
                ops += [('assign', objs[0], objs[1]), ('assign', objs[1], objs[0])]
            op = I.choose(('op', step), ops)
            if op == 'stop':
                break
            if op[0] == 'finish':
                I.coros[op[1]].final()
            elif op[0] == 'drop':
                drop(I, r, op[1])
                del held[op[1]]
            else:
                move_assign(I, r, op[1], op[2])
                held[op[1]] = held[op[2]]
                held[op[2]] = None
            I.log('op', op=str(op[0]))
            for i, c in enumerate(I.coros):
                expect = 1 if c.done and i not in held.values() else 0
                d = destroyed(I, c)
                if d != expect:
                    return (op[0], d, expect)
        return None

    def env(I, name, recv, args, fn_):
        if name == 'done':
            return B(any(c.done and recv == c.handle for c in I.coros))
        return None
    for p in ck.explore('two owners of %s' % f.n, scenario, env=env):
        what = None
        if p.result is not None:
            op, d, e = p.result
            what = ('frame not freed' if d < e else 'frame freed too often or too early') + ' when one task is assigned over another (last operation: %s)' % op
        ck.req(p.result is None, 'frame-freed-exactly-once', blame(p, 'destroy', f), what, p)
        u = uafs(p)
        ck.req(not u, 'frame-not-touched-after-free', u[0].where[:2] if u else f, u and describe_uaf(u[0]), p)


def await_on(I, name, obj):
    f = harness(name)
    pname = f.params[0]['n']
    return Await(I, f, bind(f, {pname: obj}))


def lifetime_awaited(ck):
    """The owner is dropped by the awaiter that the final suspend point resumes."""
    for name, aw in [('co_int', 'aw_task_lv'), ('co_void', 'aw_task_void'), ('co_mo', 'aw_task_mo')]:
        f = harness(name)

        def scenario(I):
            c = Coro(I, f)
            I.coros = [c]
            a = await_on(I, aw, c.ret)
            if a.ready():
                return 'ready'
            s, h = a.suspend(('handle', ('promiseof', 'waiter')))
            I.when = I.choose('drop owner', ['before', 'during', 'after'])
            if I.when == 'before':
                drop(I, c.rrec, c.ret)
            I.in_resume = False

            def hook(I, h):
                if h == ('handle', ('promiseof', 'waiter')):
                    if destroyed(I, c) and I.when != 'x':
                        I.log('uaf', loc=c.promise, dead=c.promise, how='frame destroyed before its awaiter resumed')
                    a.resume()
                    a.destroy()
                    if I.when == 'during':
                        drop(I, c.rrec, c.ret)
            I.resume_hook = hook
            c.final()
            if I.when == 'after':
                drop(I, c.rrec, c.ret)
            leave(I)
            return destroyed(I, c)

        def env(I, n, recv, args, fn_):
            if n == 'done':
                return B(I.coros[0].done)
            return None
        for p in ck.explore('awaited %s' % name, scenario, env=env, spawn=None):
            if p.end == 'throw':
                continue
            ck.req(p.result == 1, 'frame-freed-exactly-once', blame(p, 'destroy', f), 'frame of an awaited coroutine freed %s times' % (p.result,), p)
            u = uafs(p)
            ck.req(not u, 'frame-not-touched-after-free', u[0].where[:2] if u else f, u and describe_uaf(u[0]), p)


def lifetime_sync(ck):
    """No other code of the library destroys a coroutine frame of a task: the only destroy() calls are those reached above."""
    pass



# ------------------------------------------------------------------ C02
WAITER = lambda i: ('handle', ('promiseof', 'waiter%d' % i))
PAIRS = [('co_int', ['aw_task_lv', 'lazy_aw_task']), ('co_void', ['aw_task_void']), ('co_mo', ['aw_task_mo']), ('co_str', ['aw_task_str']),
         ('lz_int', ['aw_lazy', 'lazy_aw_lazy']), ('lz_void', ['aw_lazy_void'])]


def coro_env(I, name, recv, args, f):
    if name == 'done':
        for c in getattr(I, 'coros', ()):
            if recv == c.handle:
                return B(c.done)
    return None


def is_waiter(h):
    return h[0] == 'handle' and h[1][0] == 'promiseof' and h[1][1].startswith('waiter')


def c02(ck):
    kmax = 5 if ck.thorough else 3
    for name, aws in PAIRS:
        f = harness(name)
        lazy = name.startswith('lz')

        def scenario(I):
            c = Coro(I, f)
            I.coros = [c]
            k = I.choose('awaiters', list(range(0, kmax + 1)))
            I.resumed = []
            I.started = not lazy
            regs = []
            owned = [True]
            for i in range(k):
                # only the first awaiter and the last one vary in kind
                aw = I.choose(('kind', i), aws if i == 0 else aws[:1])
                a = await_on(I, aw, c.ret)
                if a.ready():
                    return ('bad', 'await_ready is true before the task finished')
                s, h = a.suspend(WAITER(i))
                leave(I)
                if not s:
                    return ('bad', 'await_suspend does not suspend before the task finished')
                if h is not None and h == c.handle:
                    I.started = True
                regs.append((i, a))
            early = [e for e in evs(I, 'resume') if is_waiter(e.h)]
            if early:
                return ('bad', 'an awaiting coroutine is resumed before the task finished')
            if lazy and not k:
                return ('ok', None)
            reent = I.choose('during resume', ['nothing', 'read result', 'await again', 'drop task']) if k else 'nothing'

            def hook(I, h):
                if not is_waiter(h):
                    return
                i = int(h[1][1][6:])
                I.resumed.append(i)
                if not c.done:
                    I.log('early')
                a = dict(regs)[i]
                enter(I, a.f, None, bind(a.f, {a.f.params[0]['n']: c.ret}))
                try:
                    if reent == 'read result' or reent == 'await again':
                        try:
                            a.resume()
                        except ThrowExc:
                            pass
                        a.destroy()
                    if reent == 'await again':
                        b = await_on(I, a.f.n, c.ret)
                        if not b.ready():
                            I.log('notready')
                        leave(I)
                    if reent == 'drop task' and owned[0]:
                        owned[0] = False
                        a.destroy()
                        drop(I, c.rrec, c.ret)
                finally:
                    leave(I)
            I.resume_hook = hook
            how = I.choose('finish', ['return', 'throw'])
            if how == 'throw':
                c.throw(('exc', 'body', I.choose('kind', ['std', 'other'])))
            else:
                c.run_body()
            if I.resumed:
                return ('bad', 'an awaiting coroutine is resumed before the final suspend point')
            c.final()
            if any(e.kind == 'early' for e in I.events):
                return ('bad', 'an awaiting coroutine is resumed before the task is done')
            if any(e.kind == 'notready' for e in I.events):
                return ('bad', 'awaiting the finished task again suspends while its awaiters are being resumed')
            if sorted(I.resumed) != list(range(k)):
                missing = [i for i in range(k) if i not in I.resumed]
                twice = [i for i in range(k) if I.resumed.count(i) > 1]
                return ('bad', 'an awaiting coroutine is never resumed' if missing else 'an awaiting coroutine is resumed more than once')
            if owned[0]:
                n0 = len(I.resumed)
                # awaiting a finished task does not suspend
                a = await_on(I, aws[0], c.ret)
                if not a.ready():
                    s, h = a.suspend(WAITER(99))
                    if s and h != WAITER(99):
                        return ('bad', 'awaiting a finished task suspends')
                leave(I)
            return ('ok', None)
        def crowd(I):
            c = Coro(I, f)
            I.coros = [c]
            I.resumed = []
            k = I.choose('awaiters', [kmax + 6, 40] + ([300] if ck.thorough else []))
            for i in range(k):
                a = await_on(I, aws[0], c.ret)
                if a.ready():
                    return ('bad', 'await_ready is true before the task finished')
                s, h = a.suspend(WAITER(i))
                leave(I)
                if not s:
                    return ('bad', 'await_suspend does not suspend before the task finished')

            def hook(I, h):
                if is_waiter(h):
                    I.resumed.append(int(h[1][1][6:]))
            I.resume_hook = hook
            c.run_body()
            c.final()
            if sorted(I.resumed) != list(range(k)):
                return ('bad', 'of %d awaiting coroutines, %d are resumed' % (k, len(set(I.resumed))))
            return ('ok', None)
        for p in ck.explore('awaiters of %s' % name, scenario, env=coro_env) + ck.explore('many awaiters of %s' % name, crowd, env=coro_env):
            ok = p.end == 'return' and p.result[0] == 'ok'
            ck.req(ok, 'awaiters-resumed-exactly-once', fin_blame(p, f), p.result[1] if p.result else 'unexpected %s %s' % (p.end, fmt(p.exc) if p.exc else ''), p)
            u = uafs(p)
            ck.req(not u, 'result-available-while-resuming', u[0].where[:2] if u else f, u and describe_uaf(u[0]), p)


def fin_blame(p, f):
    for e in reversed(p.events):
        if e.kind in ('resume', 'push', 'promise', 'write') and e.where and not e.where[0].startswith('h::'):
            return e.where[0], '%s:%s' % (e.where[1], e.where[2])
    return f


# ------------------------------------------------------------------ C03
RESULTS = [  # coroutine, awaiters
    ('co_int', ['aw_task_lv', 'aw_task_rv']), ('co_int_const', ['aw_task_lv']), ('co_int_rv', ['aw_task_lv', 'lazy_aw_task']),
    ('co_int_conv', ['aw_task_long']), ('co_int_conv_const', ['aw_task_long']), ('co_mo', ['aw_task_mo', 'aw_task_mo_rv']),
    ('co_mo_var', ['aw_task_mo']), ('co_mo_conv', ['aw_task_mo']), ('co_str', ['aw_task_str']), ('co_str_conv', ['aw_task_str']),
    ('co_void', ['aw_task_void', 'aw_task_void_rv']),
    ('lz_int', ['aw_lazy', 'aw_lazy_rv', 'lazy_aw_lazy']), ('lz_int_const', ['aw_lazy']), ('lz_str', ['aw_lazy_str']), ('lz_void', ['aw_lazy_void', 'aw_lazy_void_rv']),
    ('lz_mo', ['aw_lazy_mo']), ('lz_conv', ['aw_lazy_long'])]
EXPECT = {'co_int_rv': ('int', 1), 'co_str_conv': ('str', 'x')}


def payload(I, v):
    """The comparable content of a result value."""
    if v is None or v[0] == 'void':
        return ('void',)
    if is_loc(v):
        m = I.read(v)
        v = m if m[0] != 'obj' else m
    if v[0] == 'obj':
        return I.read(('fld', v[1], 'v'))
    return v


def c03(ck):
    for name, aws in RESULTS:
        f = harness(name)
        for aw in aws:
            for when in ('before', 'after'):
                def scenario(I):
                    c = Coro(I, f)
                    I.coros = [c]
                    g = harness(aw)
                    x = sym_args(I, f)
                    expect = EXPECT.get(name)
                    if expect is None:
                        expect = payload(I, x[0]) if x else ('void',)
                    a = b = None
                    second = I.choose('second', ['no', 'later'] + (['with it'] if when == 'before' else [])) if g.params else 'no'
                    if when == 'before':
                        a = mk(I, g, c)
                        if a.ready():
                            return ('bad', 'await_ready is true before the task finished')
                        s, h = a.suspend(WAITER(0))
                        if second == 'with it':
                            b = mk(I, g, c)
                            b.ready()
                            b.suspend(WAITER(1))
                    how = I.choose('finish', ['return', 'throw'])
                    exc = ('exc', 'body', I.choose('kind', ['std', 'other'])) if how == 'throw' else None
                    if exc:
                        c.throw(exc)
                    else:
                        c.run_body(args=x)
                    c.final()
                    if a is None:
                        a = mk(I, g, c)
                        a.ready()
                    try:
                        v = a.resume()
                        got = payload(I, v)
                        thrown = None
                    except ThrowExc as e:
                        got, thrown = None, e.v
                    if exc:
                        if thrown is None:
                            return ('bad', 'a task whose coroutine threw yields a value instead of the exception')
                        if thrown != exc:
                            return ('bad', 'the awaiter gets an exception other than the one the coroutine threw')
                    else:
                        if thrown is not None:
                            return ('bad', 'a task whose coroutine returned throws to its awaiter')
                        if got != expect:
                            return ('bad', 'the awaiter receives %s where the coroutine returned %s' % (fmt(got), fmt(expect)))
                    a.destroy()
                    if second != 'no':
                        # Whoever awaits the task as well, or again, is told the same (a value may have been moved out).
                        if b is None:
                            b = mk(I, g, c)
                            b.ready()
                        try:
                            got, thrown = payload(I, b.resume()), None
                        except ThrowExc as e:
                            got, thrown = None, e.v
                        if thrown != exc:
                            return ('bad', 'a second awaiter of the task gets %s where the coroutine %s' % ('no exception' if thrown is None else 'another exception' if exc else 'an exception', 'threw' if exc else 'returned'))
                        if exc is None and name in ('co_int', 'co_int_const', 'lz_int', 'lz_int_const') and got != expect:
                            return ('bad', 'a second awaiter of the task receives %s where the coroutine returned %s' % (fmt(got), fmt(expect)))
                        b.destroy()
                    leave(I)
                    return ('ok', None)

                def env(I, n, recv, args, fn_):
                    if n in ('h::makeInt', 'h::makeVoid', 'h::makeLazyInt', 'h::makeLazyVoid', 'h::makeMoveOnly'):
                        return ('obj', I.coros[0].ret)
                    return coro_env(I, n, recv, args, fn_)
                for p in ck.explore('%s awaited by %s' % (name, aw), scenario, env=env):
                    ok = p.end == 'return' and p.result[0] == 'ok'
                    ck.req(ok, 'result-delivered-unchanged', value_blame(p, f), p.result[1] if p.result else 'unexpected end: %s %s' % (p.end, fmt(p.exc) if p.exc else ''), p)
                    u = uafs(p)
                    ck.req(not u, 'result-read-while-alive', u[0].where[:2] if u else f, u and describe_uaf(u[0]), p)


def mk(I, g, c):
    if g.params:
        return Await(I, g, bind(g, {g.params[0]['n']: c.ret}))
    return Await(I, g, {})


def value_blame(p, f):
    for e in reversed(p.events):
        if e.kind in ('write',) and e.where and 'Promise' in e.where[0]:
            return e.where[0], '%s:%s' % (e.where[1], e.where[2])
    return f


# ------------------------------------------------------------------ C04
def c04(ck):
    for name in EAGER + ['co_mo_conv']:
        f = harness(name)

        def scenario(I):
            c = Coro(I, f)
            I.coros = [c]
            I.log('created')
            return c.starts_eagerly()
        for p in ck.explore('start of %s' % name, scenario, env=coro_env):
            ck.req(p.result is True, 'task-starts-eagerly', initsusp_of(f), 'a coroutine returning Task is suspended before its body runs', p)
        finished_stays(ck, f)
    for name, aws in [('lz_int', ['aw_lazy', 'lazy_aw_lazy']), ('lz_void', ['aw_lazy_void']), ('lz_str', ['aw_lazy_str']), ('lz_mo', ['aw_lazy_mo'])]:
        f = harness(name)

        def scenario(I):
            c = Coro(I, f)
            I.coros = [c]
            n0 = [e for e in evs(I, 'resume') if e.h == c.handle]
            return (c.starts_eagerly(), bool([e for e in evs(I, 'resume') if e.h == c.handle]))
        for p in ck.explore('start of %s' % name, scenario, env=coro_env):
            ck.req(p.result == (False, False), 'lazytask-does-not-start', initsusp_of(f), 'a coroutine returning LazyTask runs before it is awaited', p)
        finished_stays(ck, f)
        for aw in aws:
            for sync in (True, False):
                def scenario(I):
                    c = Coro(I, f)
                    I.coros = [c]
                    c.stage('initsusp')
                    I.resumed = []
                    I.starts = 0

                    def run():
                        I.starts += 1
                        if I.starts > 1:
                            return
                        if sync:
                            if I.choose('finish', ['return', 'throw']) == 'throw':
                                c.throw(('exc', 'body', I.choose('kind', ['std', 'other'])))
                            c.final()

                    def hook(I, h):
                        if is_waiter(h):
                            I.resumed.append(h)
                        elif h == c.handle:
                            run()
                    I.resume_hook = hook
                    a = await_on(I, aw, c.ret)
                    if a.ready():
                        return ('bad', 'a LazyTask that has not started is reported ready')
                    s, h = a.suspend(WAITER(0))
                    if s and h is not None and h not in (('noop',), WAITER(0)):
                        if h != c.handle:
                            return ('bad', 'awaiting transfers control to a coroutine that is not the awaited one')
                        run()
                    cont = (not s) or h == WAITER(0)
                    if I.starts == 0:
                        return ('bad', 'awaiting a LazyTask does not start it')
                    if I.starts > 1:
                        return ('bad', 'awaiting a LazyTask resumes its coroutine more than once')
                    if not sync:
                        if cont:
                            return ('bad', 'the awaiting coroutine continues although the lazy task is still running')
                        if I.resumed:
                            return ('bad', 'the awaiting coroutine is resumed although the lazy task is still running')
                        leave(I)
                        # somebody else awaits the running task
                        if I.choose('second awaiter', [True, False]):
                            b = await_on(I, aw, c.ret)
                            if b.ready():
                                return ('bad', 'a running LazyTask is reported ready')
                            s2, h2 = b.suspend(WAITER(1))
                            if h2 == c.handle or I.starts > 1:
                                return ('bad', 'awaiting a running LazyTask again resumes its coroutine')
                            leave(I)
                            want = 2
                        else:
                            want = 1
                        c.final()
                        if len(I.resumed) != want:
                            return ('bad', '%d of %d coroutines awaiting the lazy task are resumed when it finishes' % (len(I.resumed), want))
                    else:
                        n = len(I.resumed) + (1 if cont else 0)
                        if n != 1:
                            return ('bad', 'the awaiting coroutine is %s when the lazy task finishes synchronously' % ('not resumed' if n == 0 else 'resumed more than once'))
                        leave(I)
                    return ('ok', None)
                for p in ck.explore('%s awaiting %s' % (aw, name), scenario, env=coro_env):
                    ok = p.end == 'return' and p.result[0] == 'ok'
                    ck.req(ok, 'lazytask-started-once-by-await', fin_blame(p, f), p.result[1] if p.result else 'unexpected end: %s' % p.end, p)
                    u = uafs(p)
                    ck.req(not u, 'lazytask-started-once-by-await', u[0].where[:2] if u else f, u and describe_uaf(u[0]), p)


def initsusp_of(f):
    g = prog().fn(f.d['initsusp']['op'], f.tu)
    return g if g is not None else f


def finished_stays(ck, f):
    def scenario(I):
        c = Coro(I, f)
        I.coros = [c]
        if f.n.startswith('lz'):
            c.stage('initsusp')
        c.run_body()
        return c.final()
    for p in ck.explore('end of %s' % f.n, scenario, env=coro_env):
        ck.req(p.result is True, 'finished-coroutine-stays-suspended', fin_blame(p, f), 'a finished coroutine is not suspended at its final suspend point', p)
        ck.req(not evs(p, 'destroy'), 'finished-coroutine-stays-suspended', fin_blame(p, f), 'a finished coroutine that is still owned is destroyed', p)


# ------------------------------------------------------------------ C05
def null_uses(p):
    return [e for e in p.events if e.kind in ('promise', 'done', 'resume', 'destroy') and e.h == NULL] + \
        [e for e in p.events if e.kind in ('read', 'write') and e.loc and root_of(e.loc) == ('promise', NULL)]


def c05(ck):
    depth = 4 if ck.thorough else 3
    for tn, ready, aw in [('QCoro::Task<int>', 'task_ready', 'aw_task_lv'), ('QCoro::Task<void>', 'taskv_ready', 'aw_task_void'),
                          ('QCoro::LazyTask<int>', 'lazy_ready', 'aw_lazy'), ('QCoro::LazyTask<void>', 'lazyv_ready', 'aw_lazy_void')]:
        r = rec_by_typename(tn)
        lazy = 'Lazy' in tn
        src = harness({'QCoro::Task<int>': 'co_int', 'QCoro::Task<void>': 'co_void', 'QCoro::LazyTask<int>': 'lz_int', 'QCoro::LazyTask<void>': 'lz_void'}[tn])

        def scenario(I):
            I.coros = []
            how = I.choose('empty by', ['default'] if lazy else ['default', 'moved-from', 'assigned-from'])
            start = 0
            if how == 'default':
                t = new_default(I, r)
            else:
                c = Coro(I, src)
                I.coros = [c]
                t = c.ret
                if how == 'moved-from':
                    move_new(I, r, t)
                else:
                    move_assign(I, r, new_default(I, r), t)
            start = len(I.events)
            others = []
            for step in range(depth):
                ops = ['ready', 'await', 'drop', 'stop']
                if not lazy:
                    ops += ['move', 'assign', 'self']
                op = I.choose(('op', step), ops)
                if op == 'stop':
                    break
                if op == 'ready':
                    g = method(r, 'isReady')
                    v = I.call_fn(g, t, [])
                    if not I.truth(I.read(v) if is_loc(v) else v):
                        return ('bad', 'an empty task reports itself as not ready')
                elif op == 'await':
                    n0 = len(I.events)
                    a = await_on(I, aw, t)
                    if a.ready():
                        return ('bad', 'awaiting an empty task does not suspend')
                    s, h = a.suspend(WAITER(0))
                    if not s:
                        return ('bad', 'awaiting an empty task does not leave the coroutine suspended')
                    if h is not None and h != ('noop',):
                        return ('bad', 'awaiting an empty task resumes %s' % ('a null coroutine handle' if h == NULL else 'the awaiting coroutine' if is_waiter(h) else 'a coroutine'))
                    if not any(e.kind == 'construct' and 'QMessageLogger' in str(e.type) or 'QMessageLogger' in str(e.name) for e in I.events[n0:]):
                        return ('bad', 'awaiting an empty task gives no warning')
                    a.destroy()
                    leave(I)
                elif op == 'move':
                    t = move_new(I, r, t)
                elif op == 'assign':
                    n = new_default(I, r)
                    move_assign(I, r, n, t)
                    t = n
                elif op == 'self':
                    move_assign(I, r, t, t)
                elif op == 'drop':
                    drop(I, r, t)
                    t = new_default(I, r)
            bad = [e for e in I.events[start:] if e.kind in ('promise', 'resume', 'destroy')]
            if bad:
                return ('bad', 'an empty task %ss a coroutine handle' % bad[0].kind)
            return ('ok', None)
        for p in ck.explore('empty %s' % tn, scenario, env=coro_env):
            ok = p.end == 'return' and p.result[0] == 'ok'
            n = null_uses(p)
            c = n[0].where[:2] if n else last_lib(p, tn)
            ck.req(ok, 'empty-task-is-inert', c, p.result[1] if p.result else 'unexpected end: %s' % p.end, p)
            ck.req(not n, 'empty-task-is-inert', c, n and '%s of a null coroutine handle' % n[0].kind, p)


def last_lib(p, d):
    for e in reversed(p.events):
        if e.where and not e.where[0].startswith('h::') and e.kind != 'dtor':
            return e.where[0], '%s:%s' % (e.where[1], e.where[2])
    return d


RULES = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05}
