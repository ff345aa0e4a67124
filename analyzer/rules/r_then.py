"""C06-C08: then(), connect() and waitFor()."""
from scen import *

SRC = {'int': 'src_int', 'void': 'src_void', 'lint': 'lsrc_int', 'lvoid': 'lsrc_void'}
# continuation kind -> (takes the value, result: 'void' | 'value' | source coroutine it returns)
CB = {'cb1': (True, 'void', 'h::Cb1::operator()'), 'cb0': (False, 'void', 'h::Cb0::operator()'),
      'ret': (True, 'value', 'h::CbRet::operator()'), 'ret0': (False, 'value', 'h::CbRet0::operator()'),
      'task': (True, 'src_long', 'h::CbTask::operator()'), 'task0': (False, 'src_long', 'h::CbTask0::operator()'),
      'taskv': (True, 'src_void', 'h::CbTaskVoid::operator()'), 'lazy': (True, 'lsrc_long', 'h::CbLazy::operator()')}
R6 = 'continuation-runs-once-on-success-only'


class Callbacks:
    """Records the calls of a continuation and of an error callback."""

    def __init__(self, S, cbkind):
        self.S = S
        self.kind = CB[cbkind]
        self.calls = []
        self.errs = []
        self.outcome = None
        self.eoutcome = None
        self.task = None
        S.callees[self.kind[2]] = self.on_cb
        S.callees['h::ErrCb::operator()'] = self.on_err

    def throws(self, what, v):
        k = self.S.I.choose(what, ['returns', 'std', 'other'])
        if k != 'returns':
            x = ('exc', what, k)
            v['exc'] = x
            raise ThrowExc(x)

    def on_cb(self, recv, args):
        S = self.S
        self.calls.append(args)
        self.outcome = {}
        if len(self.calls) > 1:
            return ('param', 'again')
        self.throws('continuation', self.outcome)
        r = self.kind[1]
        if r == 'void':
            return ('void',)
        if r == 'value':
            self.outcome['value'] = ('param', 'cbresult')
            return ('param', 'cbresult')
        c = S.source(r, outcomes=('value', 'std'))
        self.task = c
        return ('obj', c.ret)

    def on_err(self, recv, args):
        S = self.S
        self.errs.append(S.I.norm(args[0]) if False else args[0])
        self.eoutcome = {}
        if len(self.errs) > 1:
            return ('void',)
        self.throws('error callback', self.eoutcome)
        return ('void',)


def excval(I, v):
    """The exception behind what an error callback received."""
    for _ in range(4):
        if is_loc(v) and v in I.mem:
            v = I.mem[v]
        elif v is not None and v[0] == 'obj' and v[1] in I.mem:
            v = I.mem[v[1]]
        elif v is not None and v[0] == 'ptr':
            v = v[1]
        else:
            break
    return v


DEFAULTS = (('int', 0), NULL, ('void',), ('float', 0.0), ('bool', 0), ('default',))


def then_result(S, cbs, st, has_err, c, what):
    """Checks the finished then() task awaited by coroutine c against the specification."""
    I = S.I
    takes, res, _ = cbs.kind
    got = S.observed()
    if st['outcome'] == 'value':
        if len(cbs.calls) != 1:
            raise Bad(R6, 'the continuation of a successful task runs %d times' % len(cbs.calls))
        if takes and cbs.calls[0] != (st['value'],):
            raise Bad(R6, 'the continuation receives %s instead of the result of the task' % (cbs.calls[0],))
        if cbs.errs:
            raise Bad(R6, 'the error callback runs although the task succeeded')
        exc = cbs.outcome.get('exc')
        val = cbs.outcome.get('value')
        if cbs.task is not None:
            t = S.src[cbs.task.promise]
            if 'outcome' not in t:
                if c.done:
                    raise Bad(R6, 'the task returned by then() finishes before the task its continuation returned')
                return 'waiting'
            exc, val = t.get('exc'), t.get('value')
            if res == 'src_void':
                val = None
    else:
        if cbs.calls:
            raise Bad(R6, 'the continuation runs although the task failed')
        x = st['exc']
        if st['outcome'] == 'std' and has_err:
            if len(cbs.errs) != 1:
                raise Bad(R6, 'the error callback runs %d times for a task that failed with a std::exception' % len(cbs.errs))
            if excval(I, cbs.errs[0]) != x:
                raise Bad(R6, 'the error callback receives something other than the exception of the task')
            exc = cbs.eoutcome.get('exc')
            val = 'default'
        else:
            if cbs.errs:
                raise Bad(R6, 'the error callback runs for something that is not a std::exception')
            exc, val = x, None
    if not c.done:
        raise Bad('then-task-finishes', 'the task returned by then() never finishes')
    if exc is not None:
        if c.threw != exc:
            raise Bad('then-task-finishes', 'the exception (%s) is not delivered through the task returned by then()' % fmt(exc))
        if got:
            raise Bad('then-task-finishes', 'the task returned by then() yields a value although there was an exception')
        return 'done'
    if c.threw is not None:
        raise Bad('then-task-finishes', 'the task returned by then() throws %s although nothing failed' % fmt(c.threw))
    if len(got) != 1:
        raise Bad('then-task-finishes', 'the coroutine awaiting the task returned by then() continues %d times' % len(got))
    if val == 'default':
        if got[0] and got[0][0] not in DEFAULTS and got[0][0][0] not in ('zero', 'init'):
            raise Bad('then-task-finishes', 'after the error callback the task returned by then() gives %s instead of a default value' % fmt(got[0][0]))
        return 'done'
    if val is not None and got[0] != (val,):
        raise Bad('then-task-finishes', 'the task returned by then() gives %s instead of what the continuation returned' % (got[0],))
    return 'done'


def c06(ck):
    variants = [('int_cb1', 'cb1'), ('int_cb0', 'cb0'), ('int_ret', 'ret'), ('int_task', 'task'), ('int_taskv', 'taskv'), ('void_cb0', 'cb0'),
                ('void_ret', 'ret0'), ('void_task', 'task0'), ('lint_cb1', 'cb1'), ('lint_ret', 'ret'), ('lint_lazy', 'lazy'), ('lvoid_cb0', 'cb0'), ('lvoid_ret', 'ret0')]
    for var, cb in variants:
        for pre in ('th', 'the', 'thk', 'thke'):
            for how in ('lv', 'rv'):
                then_one(ck, var, cb, pre, how)


def then_one(ck, var, cb, pre, how):
    name = '%s_%s_%s' % (pre, var, how)
    f = harness(name)
    sk = var.split('_')[0]
    has_err = 'e' in pre.replace('th', '', 1)
    kept = pre.startswith('thk')

    def scenario(S):
        I = S.I
        cbs = Callbacks(S, cb)
        src = S.source(SRC[sk])
        st = S.src.setdefault(src.promise, {})
        r = I.rec_of(src.fn.tu, src.fn.d['ret'])
        args = [src.ret]
        for p in f.params[1:]:
            args.append(('obj', new_default(I, I.rec_of(f.tu, p['t']))))
        c = I.start_coro(f, None, args)

        def quiet():
            if 'outcome' not in st and (cbs.calls or cbs.errs):
                raise Bad(R6, 'a callback of then() runs before the task finished')
            if 'outcome' not in st and c.done:
                raise Bad('then-task-finishes', 'the task returned by then() finishes before the task it continues')
        quiet()
        if how == 'lv' and not sk.startswith('l'):
            # a task can go away while its coroutine runs
            if I.choose('drop the task', [False, True]):
                drop(I, r, src.ret)
                quiet()
        if kept:
            order = I.choose('order', ['finish first', 'await first'])
            steps = ['src', 'go'] if order == 'finish first' else ['go', 'src']
        else:
            steps = ['src']
        for s in steps:
            if s == 'go':
                if c.state != 'suspended':
                    raise Bad('then-task-finishes', 'the coroutine that called then() does not get its task')
                I.run_handle(c)
                quiet()
            else:
                if S.pending(src) and src.resumes and st.get('mode') == 'async':
                    S.finish(src)
                    quiet()
        # a lazy task starts when the task returned by then() is awaited
        if S.pending(src) and st.get('mode') == 'async' and 'outcome' not in st:
            S.finish(src)
        if 'outcome' not in st:
            raise Bad('then-task-finishes', 'awaiting the task returned by then() does not run the task')
        if then_result(S, cbs, st, has_err, c, name) == 'waiting':
            S.finish(cbs.task)
            if 'outcome' not in S.src[cbs.task.promise]:
                raise Bad('then-task-finishes', 'the task returned by the continuation is not awaited')
            then_result(S, cbs, st, has_err, c, name)
    check(ck, name, scenario, [R6, 'then-task-finishes'], blame='QCoro::detail::TaskBase::then')


# ------------------------------------------------------------------ C07
R7 = 'connect-callback-only-while-context-lives'


def c07(ck):
    for name, takes in [('conn_int_fn1', True), ('conn_int_fn0', False), ('conn_int_mem1', True), ('conn_int_mem0', False),
                        ('conn_void_fn0', False), ('conn_void_mem0', False)]:
        f = harness(name)

        def scenario(S):
            I = S.I
            calls = []

            def cb(recv, args):
                calls.append(args)
                return ('void',)
            S.callees['h::Cb1::operator()'] = cb
            S.callees['h::Cb0::operator()'] = cb
            ctx = S.w.new('ctx')
            src = S.source('src_void' if 'void' in name else 'src_int')
            st = S.src.setdefault(src.promise, {})
            r = I.rec_of(src.fn.tu, src.fn.d['ret'])
            if I.choose('context dies before the call', [False, True]):
                ctxarg = NULL
                ctx = None
            else:
                ctxarg = ('ptr', ctx)
            args = [src.ret, ctxarg]
            for p in f.params[2:]:
                args.append(('obj', new_default(I, I.rec_of(f.tu, p['t']))))
            I.call_fn(f, None, args)
            drop(I, r, src.ret)

            def member_calls():
                return [e for e in I.events if e.kind == 'usercall' and e.callee[0] == 'memfn' and e.callee[1].startswith('h::Ctx::')]

            def total():
                return len(calls) + len(member_calls())
            if 'outcome' not in st:
                if total():
                    raise Bad(R7, 'the callback runs before the task finished')
                if ctx is not None and I.choose('context dies', [False, True]):
                    S.w.kill(ctx)
                    ctx = None
                S.finish(src)
            alive = ctx is not None
            want = 1 if alive and st['outcome'] == 'value' else 0
            if total() != want:
                raise Bad(R7, 'the callback runs %d times although %s' % (total(), 'the task failed' if st['outcome'] != 'value' else 'the context object is %s' % ('alive' if alive else 'gone')))
            if want:
                a = calls[0] if calls else tuple(member_calls()[0].args[1:])
                if not calls and member_calls()[0].args[0] not in (('ptr', ctx), ('obj', ctx)):
                    raise Bad(R7, 'the callback is invoked on something other than the context object')
                if takes and a != (st['value'],):
                    raise Bad(R7, 'the callback receives %s instead of the result of the task' % (a,))
            # the context object going away later changes nothing
            if ctx is not None:
                S.w.kill(ctx)
                if total() != want:
                    raise Bad(R7, 'the callback runs when the context object is destroyed')
        check(ck, name, scenario, [R7], blame='QCoro::connect')


# ------------------------------------------------------------------ C08
R8 = 'waitfor-returns-when-done'


def c08(ck):
    for name, srcf in [('wf_int_lv', 'src_int'), ('wf_int_rv', 'src_int'), ('wf_void_lv', 'src_void'), ('wf_void_rv', 'src_void'),
                       ('wf_lazy', 'lsrc_int'), ('wf_mo', 'src_mo')]:
        f = harness(name)
        rounds = 3 if ck.thorough else 2

        def scenario(S):
            I = S.I
            src = S.source(srcf)
            st = S.src.setdefault(src.promise, {})
            noise = [0]

            def pump():
                ops = []
                if S.pending(src) and 'outcome' not in st and st.get('mode') == 'async':
                    ops.append('finish')
                if S.w.deliverable():
                    ops.append('post')
                if noise[0] < rounds:
                    ops.append('noise')
                if not ops:
                    return False
                op = I.choose(('event', noise[0]), ops)
                if op == 'noise':
                    noise[0] += 1
                elif op == 'post':
                    S.w.deliver(S.w.deliverable()[0])
                else:
                    S.finish(src)
                return True
            S.w.pump = pump
            exc = None
            v = None
            try:
                v = I.call_fn(f, None, [src.ret])
            except ThrowExc as e:
                exc = e.v
            if 'outcome' not in st:
                raise Bad(R8, 'waitFor() returns before the task finished')
            if st['mode'] == 'sync' and evs(I, 'loopenter'):
                raise Bad(R8, 'waitFor() enters an event loop although the task finished synchronously')
            if st['mode'] == 'async' and len(evs(I, 'loopenter')) != 1:
                raise Bad(R8, 'waitFor() enters %d event loops for a task that is not finished' % len(evs(I, 'loopenter')))
            if st['outcome'] == 'value':
                if exc is not None:
                    raise Bad(R8, 'waitFor() throws %s although the task succeeded' % fmt(exc))
                if srcf != 'src_void':
                    got = payload(I, v)
                    if got != st['value']:
                        raise Bad(R8, 'waitFor() returns %s instead of the result of the task' % fmt(got))
            elif exc != st['exc']:
                raise Bad(R8, 'waitFor() does not rethrow the exception of the task')
        check(ck, name, scenario, [R8], blame='QCoro::waitFor')


def payload(I, v):
    for _ in range(4):
        if v is None:
            return v
        l = v[1] if v[0] == 'obj' else v
        if is_loc(l):
            if l in I.mem:
                v = I.mem[l]
                continue
            k = ('fld', l, 'v')
            if k in I.mem:
                v = I.mem[k]
                continue
            r = I.dyn.get(l)
            if r is not None:
                k = [x for x in I.mem if x[0] == 'fld' and x[1] == l]
                if len(k) == 1:
                    v = I.mem[k[0]]
                    continue
        break
    return v


RULES = {'C06': c06, 'C07': c07, 'C08': c08}
