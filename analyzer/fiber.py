"""Coroutines with real suspension: every coroutine of the interpreted program runs as a fiber (a parked Python thread),
so that suspending, resuming, symmetric transfer and frame destruction follow the awaiter protocol found in the sources.
Exactly one thread runs at any time; the interpreter state is switched together with the fiber."""
import threading

from facts import ToolError
import absint
from absint import Interp, Frame, ThrowExc, LoopBack, Abort, StopPath, is_loc, NULL, B, TRUE, FALSE, _Opaque

threading.stack_size(128 * 1024 * 1024)


class Kill(BaseException):
    pass


class CoroDestroyed(ThrowExc):
    uncatchable = True

    def __init__(self):
        super().__init__(('exc', 'destroyed', 'destroyed'))


class FCoro:
    """One coroutine instance."""

    def __init__(self, I, fn, this, args, env):
        self.I, self.fn, self.this, self.args, self.env = I, fn, this, args, env
        tu = fn.tu
        self.state = 'new'
        self.done = False
        self.threw = None
        self.started_body = False
        self.destroyed = 0
        self.params = []
        self.thread = None
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.exc = None
        self.transfer = None
        self.killing = False
        self.destroying = False
        self.frames = [self.base_frame()]
        self.temps = [[]]
        self.curexc = []
        self.resumes = 0
        self.promise = ('heap', 'promise', I.uid())
        self.handle = ('handle', self.promise)
        self.prec = I.rec_of(tu, fn.d['promise'])
        I.fibers[self.promise] = self
        if self.prec is None or 'fields' not in self.prec:
            raise ToolError('promise type of %s is not defined in the tree' % fn.qn)
        from rulelib import default_construct
        I.frames.append(self.base_frame())
        I.temps.append([])
        try:
            default_construct(I, self.promise, self.prec)
            g = I.prog.fn(fn.d['getret'], tu)
            r = I.call_fn(g, self.promise, [])
        finally:
            I.temps.pop()
            I.frames.pop()
        self.ret = r[1] if r is not None and r[0] == 'obj' else r

    def base_frame(self):
        fr = Frame(self.fn, self.fn.tu, self.this, {})
        fr.scopes.append([])
        fr.promise = self.promise if hasattr(self, 'promise') else None
        return fr

    # -------------------------------------------------- switching
    def resume(self):
        """Run until the next suspension; returns the handle of a symmetric transfer, or None."""
        I = self.I
        if self.state == 'running':
            I.log('uaf', loc=self.promise, dead=self.promise, how='resume of a coroutine that is not suspended')
            return None
        if self.state in ('final', 'gone'):
            I.log('uaf', loc=self.promise, dead=self.promise, how='resume of a coroutine that has finished')
            return None
        save = (I.frames, I.temps, I.curexc, I.line, I.cur)
        I.frames, I.temps, I.curexc, I.cur = self.frames, self.temps, self.curexc, self
        self.state = 'running'
        self.resumes += 1
        if self.thread is None:
            self.thread = threading.Thread(target=self.main, daemon=True)
            I.threads.append(self)
            self.thread.start()
        else:
            self.go.release()
        self.back.acquire()
        I.frames, I.temps, I.curexc, I.line, I.cur = save
        if self.exc is not None:
            e, self.exc = self.exc, None
            raise e
        t, self.transfer = self.transfer, None
        return t

    def park(self, transfer=None):
        I = self.I
        self.state = 'suspended'
        self.transfer = transfer
        line = I.line
        I.epoch += 1
        I.susp += 1
        self.back.release()
        self.go.acquire()
        if self.killing:
            raise Kill()
        I.line = line
        if self.destroying:
            raise CoroDestroyed()

    def main(self):
        try:
            try:
                self.run()
            except Kill:
                pass
            except BaseException as e:
                self.exc = e
        finally:
            if self.state == 'running':
                self.state = 'final' if not self.destroying else 'gone'
            self.alive = False
            self.back.release()

    def run(self):
        I, fn = self.I, self.fn
        try:
            s, h = self.stage('initsusp')
            if s:
                self.park(h)
            try:
                self.started_body = True
                I.call_coro_body(fn, self.this, self.args, self.promise, self.env, self.params)
            except CoroDestroyed:
                raise
            except ThrowExc as e:
                self.threw = e.v
                g = I.prog.fn(fn.d['unhandled'], fn.tu)
                I.curexc.append(e.v)
                try:
                    I.call_fn(g, self.promise, [])
                finally:
                    I.curexc.pop()
            self.done = True
            I.log('finished', h=self.handle)
            s, h = self.stage('finalsusp')
            self.state = 'final' if s else 'gone'
            if not s:
                I.log('autodestroy', h=self.handle)
                self.die()
            self.transfer = h
        except CoroDestroyed:
            self.state = 'gone'

    def stage(self, which):
        I = self.I
        d = self.fn.d[which]
        tu = self.fn.tu
        s = tu.ts(d['at'])
        g = I.prog.fn(d['op'], tu)
        if g is None:
            raise ToolError('%s of %s has no body' % (which, self.fn.qn))
        v = I.call_fn(g, self.promise, [])
        if 'suspend_never' in s:
            return False, None
        if 'suspend_always' in s:
            return True, None
        loc = v[1] if v is not None and v[0] == 'obj' else v
        if not is_loc(loc):
            loc = I.box(v)
        return I.await_protocol(tu, d, loc, self.handle)

    def die(self):
        """End of the frame: parameters and promise."""
        I = self.I
        if not self.started_body:
            for i, p in enumerate(self.fn.params):
                if i >= len(self.args) or self.fn.tu.t(p['t']).get('ref'):
                    continue
                v = self.args[i]
                if v[0] == 'obj' and is_loc(v[1]):
                    l = v[1]
                else:
                    l = I.newloc('var', p['n'] or 'p%d' % i)
                    I.mem[l] = I.read(v) if is_loc(v) else v
                    I.typ[l] = self.fn.tu.t(p['t'])
                self.params.append((l, p['t']))
        for loc, t in reversed(self.params):
            if loc not in I.dead:
                I.destroy(loc, self.fn.tu, t)
        self.params = []
        r = I.dyn.get(self.promise)
        if r is not None:
            I.destroy_rec(self.promise, r)
        I.dead.add(self.promise)
        self.destroyed += 1

    def destroy(self):
        I = self.I
        if self.destroyed:
            I.log('uaf', loc=self.promise, dead=self.promise, how='destroyed again')
            return
        if self.state == 'running' and I.cur is not self:
            # destroyed from code it called itself while not suspended
            I.log('uaf', loc=self.promise, dead=self.promise, how='destroyed while running')
        elif self.state == 'suspended':
            I.log('destroyed_suspended', h=self.handle)
            self.destroying = True
            self.resume()
            self.resumes -= 1
        self.state = 'gone' if self.state != 'running' else self.state
        I.frames.append(self.base_frame())
        I.temps.append([])
        try:
            self.die()
        finally:
            I.temps.pop()
            I.frames.pop()


class FiberInterp(Interp):
    def __init__(self, prog, **cfg):
        super().__init__(prog, **cfg)
        self.threads = []
        self.destroy_hook = None

    def reset(self):
        super().reset()
        self.fibers = {}
        self.cur = None
        self.threads = []
        self.world = None

    def end_path(self):
        for f in self.threads:
            if f.thread is not None and f.thread.is_alive():
                f.killing = True
                self.frames, self.temps, self.curexc = f.frames, f.temps, f.curexc
                f.go.release()
                f.thread.join()
        self.threads = []

    MAXITER = 24

    def loop_body(self, n, c, body, inc, post):
        """Loops run concretely: every choice in them is made by the environment."""
        iters = 0

        def run():
            if n.get('var'):
                self.decl(n['var'])
            if not post and c is not None:
                if not self.cond(c):
                    raise absint.BreakExc()
            self.st(body)
        while True:
            iters += 1
            if iters > self.MAXITER:
                self.log('looplimit')
                raise StopPath()
            try:
                try:
                    self.scope(run)
                except absint.ContinueExc:
                    pass
                if post and c is not None and not self.cond(c):
                    break
                if inc is not None:
                    self.ev(inc)
            except absint.BreakExc:
                break

    # -------------------------------------------------- running coroutines
    def start_coro(self, fn, this, args, env=None):
        """Call of a coroutine function; returns the instance after it reached its first suspension."""
        c = FCoro(self, fn, this, args, env)
        self.log('coro', fn=fn.qn, h=c.handle)
        self.run_handle(c)
        if self.detach and not self.frames and fn.qn.startswith('h::') and not fn.qn.startswith(('h::src_', 'h::lsrc_')):
            self.discard(fn, c.ret)
        return c

    detach = False      # whether tasks given to the scenario are discarded at once, so that a coroutine that finishes frees itself

    def discard(self, fn, v):
        if v is not None and v[0] == 'obj':
            v = v[1]
        r = self.rec_of(fn.tu, fn.d['ret'])
        if v is not None and is_loc(v) and r is not None and r['qn'] == 'QCoro::Task':
            self.log('dtor', loc=v, type=r['qn'])
            self.destroy_rec(v, r)
            self.dead.add(v)

    def call_fn(self, fn, this=None, args=(), env=None, coro_ok=True):
        v = super().call_fn(fn, this, args, env, coro_ok)
        if self.detach and not self.frames and fn.qn.startswith('h::') and not fn.d.get('coro'):
            self.discard(fn, v)
        return v

    def run_handle(self, c):
        h = c.resume()
        while h is not None and h != ('noop',):
            if h == NULL:
                self.log('nullresume', h=h)
                return
            self.log('resume', h=h, transfer=True)
            n = self.fibers.get(h[1]) if h[0] == 'handle' else None
            if n is None:
                if self.resume_hook:
                    self.resume_hook(self, h)
                return
            h = n.resume()

    def suspended_by_resume(self, h):
        c = self.fibers.get(h[1]) if h[0] == 'handle' else None
        if c is None:
            if h == NULL:
                self.log('nullresume', h=h)
            if self.resume_hook:
                self.resume_hook(self, h)
            return
        self.run_handle(c)

    def await_protocol(self, tu, d, loc, h):
        """await_ready/await_suspend; (suspends, transfer)."""
        g = self.prog.fn(d['ready'], tu)
        r = self.call_fn(g, loc, [])
        if is_loc(r):
            r = self.read(r)
        if self.truth(r):
            return False, None
        g = self.prog.fn(d['suspend'], tu)
        r = self.call_fn(g, loc, [h])
        if r is None or r[0] == 'void':
            return True, None
        if is_loc(r):
            r = self.read(r)
        if g.tu.t(g.d['ret']).get('k') == 'bool':
            return self.truth(r), None
        return True, r

    def coro_frame(self):
        """The coroutine whose body is being evaluated in the current frame."""
        fr = self.frames[-1]
        p = getattr(fr, 'promise', None)
        return self.fibers.get(p) if p is not None else None

    def fiber_await(self, n, what):
        c = self.coro_frame()
        fr = self.frames[-1]
        tu = fr.tu
        at = tu.ts(n['at'])
        prv = False
        v = self.ev(n['common'])
        if 'suspend_always' in at:
            c.park()
            return ('void',)
        if 'suspend_never' in at:
            return ('void',)
        if not is_loc(v):
            prv = v[0] == 'obj'
            v = v[1] if v[0] == 'obj' else self.box(v)
        m = self.mem.get(v)
        if m is not None and m[0] == 'obj' and is_loc(m[1]):
            v = m[1]
        if prv and v[0] == 'tmp' and not any(v == x[0] for lst in self.temps for x in lst):
            self.temps[-1].append((v, tu, n['at']))
        ready = self.prog.fn(n['ready'], tu)
        if ready is None or ready.body is None:
            # an awaitable from outside the library
            r = None
            if self.await_hook:
                r = self.await_hook(self, self.mem.get(v, ('obj', v)), n, tu)
            if r is None:
                raise ToolError('awaiting %s, which is not defined in the tree' % at)
            return r
        self.log(what, loc=v, type=at)
        if not self.truth(self.rd(self.call_fn(ready, v, []))):
            g = self.prog.fn(n['suspend'], tu)
            r = self.call_fn(g, v, [c.handle])
            susp, tr = True, None
            if r is not None and r[0] != 'void':
                r = self.rd(r)
                if g.tu.t(g.d['ret']).get('k') == 'bool':
                    susp = self.truth(r)
                else:
                    tr = r
            if susp:
                self.log('suspend', h=c.handle)
                c.park(tr)
        g = self.prog.fn(n['resume'], tu)
        r = self.call_fn(g, v, [])
        if r is None:
            return ('void',)
        rt = g.tu.t(g.d['ret'])
        if n.get('lv') or rt.get('ref'):
            return r if is_loc(r) else self.box(r)
        return self.read_obj(r, g.tu, g.d['ret']) if is_loc(r) else r

    def rd(self, v):
        return self.read(v) if v is not None and is_loc(v) else v

    def e_CoAwait(self, n):
        if self.coro_frame() is None:
            return super().e_CoAwait(n)
        if self.stage_hook:
            r = self.stage_hook(self, n)
            if r is not None:
                return self.awaited(n, r)
        return self.fiber_await(n, 'await')

    def e_CoYield(self, n):
        if self.coro_frame() is None:
            return super().e_CoYield(n)
        return self.fiber_await(n, 'yield')

    def spawn(self, fn, obj, args, n):
        if self.spawn_hook:
            r = self.spawn_hook(self, fn, obj, args, n)
            if r is not None:
                return r
        return self.spawn_fiber(fn, obj, args)

    def spawn_fiber(self, fn, obj, args, env=None):
        vals = []
        for p, a in zip(fn.params, args):
            t = fn.tu.t(p['t'])
            if not t.get('ref') and is_loc(a):
                a = self.read_obj(a, fn.tu, p['t'])
            vals.append(a)
        c = self.start_coro(fn, obj, vals, env)
        return ('obj', c.ret)
