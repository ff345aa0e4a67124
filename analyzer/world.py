"""A model of the part of Qt the library stands on: object lifetime, connections, posted events, timers, nested loops.
Only documented behaviour is assumed. Which event comes next is a choice, and every choice is explored."""
import re

from facts import ToolError
from absint import is_loc, NULL, TRUE, FALSE, B, StopPath, root_of, const_of, fmt


def chrono_or_int(v):
    return v


def tagged(s):
    """Does the signal have Qt's private tag parameter?"""
    return isinstance(s, tuple) and s[0] == 'memfn' and bool(s[2]) and 'QPrivateSignal' in s[2][-1]


class World:
    MAXPOST = 40

    def __init__(self, I):
        self.I = I
        I.world = self
        self.posted = []          # (id, slot, ctx, delay, args)
        self.timers = {}          # loc -> dict(interval, single, active)
        self.q = {}               # loc -> {method: value | callable(args)}
        self.glob = {}            # qualified name -> value | callable(recv, args)
        self.emitting = 0
        self.loops = []
        self.drains = 0
        self.pump = None
        self.signals = {}         # emissions by library objects: hook(loc, name, args)
        self.cur = 'main'         # the thread whose events are being processed
        self.delicate = set()     # objects that must not be destroyed while they emit
        self.on_emit = None       # hook(loc, signal, args)
        self.clocks = {}          # name of a clock -> what it shows (ns)
        self.thr = {}             # loc -> thread the object lives in (default: main)

    # ------------------------------------------------------------ objects
    def new(self, name, **queries):
        loc = ('heap', name, self.I.uid())
        self.q[loc] = dict(queries)
        return loc

    def alive(self, loc):
        dead = self.I.dead
        while True:
            if loc in dead:
                return False
            if loc[0] not in ('fld', 'elem'):
                return True
            loc = loc[1]

    def kill(self, loc):
        """The object is destroyed (by its owner)."""
        I = self.I
        if loc in I.dead:
            return
        self.emit(loc, 'destroyed', [('ptr', loc)])
        I.log('qdestroy', loc=loc)
        I.dead.add(loc)

    # ------------------------------------------------------------ connections
    def live_conns(self, loc=None, sig=None, types=None):
        I = self.I
        out = []
        for c, (sender, s, ctx, slot, typ) in list(I.conns.items()):
            if c in I.disc:
                continue
            sl = self.ploc(sender)
            if not self.alive(sl) or (loc is not None and sl != loc):
                continue
            if ctx is not None and not self.alive(self.ploc(ctx)):
                continue
            if sig is not None and self.sname(s) != sig:
                continue
            if types is not None and isinstance(s, tuple) and s[0] == 'memfn' and s[2] != types:
                continue
            out.append(c)
        return out

    def disconnect(self, recv, a):
        """QObject::disconnect(sender, signal, receiver, method) and its member forms."""
        I = self.I
        if recv is not None:
            a = [('ptr', recv)] + list(a)
            if len(a) == 2 and not (isinstance(a[1], tuple) and a[1][0] in ('memfn', 'fnref')) and a[1] != NULL:
                a = [a[0], NULL, a[1]]      # disconnect(receiver)
        a = list(a) + [NULL] * (4 - len(a))
        for c, (sender, s, ctx, slot, typ) in list(I.conns.items()):
            if c in I.disc or self.ploc(sender) != self.ploc(a[0]):
                continue
            if a[1] != NULL and self.sname(a[1]) != self.sname(s):
                continue
            if a[2] != NULL and (ctx is None or self.ploc(ctx) != self.ploc(a[2])):
                continue
            if a[3] != NULL and slot != a[3]:
                continue
            I.disc.add(c)

    def ploc(self, v):
        v = self.I.strip(v)
        if v[0] == 'ptr':
            return v[1]
        if v[0] == 'obj':
            return v[1]
        if is_loc(v):
            return v
        return ('deref', v)

    @staticmethod
    def sname(sig):
        if isinstance(sig, tuple) and sig and sig[0] in ('memfn', 'fnref'):
            return sig[1].rsplit('::', 1)[-1]
        return str(sig)

    CT = {0: 'auto', 1: 'direct', 2: 'queued', 3: 'blocking'}

    def ctype(self, typ):
        """(kind, single-shot)"""
        if typ is None:
            return 'auto', False
        c = const_of(typ)
        if c is None:
            return 'auto', False
        return self.CT.get(c & 3, 'auto'), bool(c & 0x100)

    def thread(self, loc):
        return self.thr.get(loc, 'main')

    MAIN = ('heap', 'thread', 'main')

    def thread_object(self, key):
        return self.MAIN if key == 'main' else key

    def thread_key(self, v):
        l = self.ploc(v)
        return 'main' if l == self.MAIN else l

    def runs_events(self, key):
        """Does the thread process events at present?"""
        if key == 'main':
            return True
        q = self.q.get(key)
        v = q.get('isRunning') if q else None
        v = v(()) if callable(v) else v
        return v is None or self.I.truth(v)

    def post_event(self, to, ev):
        l = self.ploc(to)
        if l == ('deref', NULL):
            return          # Qt warns and drops the event
        if not self.alive(l):
            self.I.log('uaf', loc=l, dead=l, how='an event is posted to a destroyed object')
            return
        self.posted.append((self.I.uid(), ('event', ev), self.I.strip(to), ('int', 0), ()))

    def emit(self, loc, sig, args=(), private=False, thread=None, types=None):
        """The signal is emitted; thread: the thread it is emitted in, if not the current one."""
        I = self.I
        I.log('emit', loc=loc, sig=sig, args=tuple(args))
        if self.on_emit is not None:
            self.on_emit(loc, sig, args)
        a = list(args) + ([('private',)] if private else [])
        old, self.cur = self.cur, thread or self.cur
        try:
            self.emit_to(loc, sig, a, types)
        finally:
            self.cur = old

    def emit_to(self, loc, sig, a, types=None):
        I = self.I
        for c in self.live_conns(loc, sig, types):
            if c in I.disc or not self.alive(loc):
                continue
            sender, s, ctx, slot, typ = I.conns[c]
            if ctx is not None and not self.alive(self.ploc(ctx)):
                continue
            if tagged(s) and ('private',) not in a:
                a = a + [('private',)]
            kind, single = self.ctype(typ)
            if single:
                I.disc.add(c)
            if kind == 'queued' or (kind == 'auto' and self.other_thread(ctx)):
                self.posted.append((I.uid(), slot, ctx, ('int', 0), tuple(a)))
                continue
            self.emitting += 1
            try:
                self.call(slot, ctx, a)
            finally:
                self.emitting -= 1
            if loc in self.delicate and not self.alive(loc):
                I.log('uaf', loc=loc, dead=loc, how='an object that goes on working after it emits a signal is destroyed while it emits it')

    def call(self, slot, ctx, args):
        I = self.I
        if slot[0] in ('clo', 'bound'):
            I.invoke(slot, [x for x in args])
        elif slot[0] == 'memfn':
            a = [x for x in args if x != ('private',)]
            fw = slot[3]
            g = I.prog.fn(fw.x, fw.tu)
            if slot[1].startswith('h::') or (fw.x.get('virt') and g is None):
                I.touch(self.ploc(ctx), 'call of ' + slot[1])
                I.log('usercall', callee=slot, args=tuple([ctx] + a))
            elif g is None or g.body is None:
                self.qt_slot(slot[1], self.ploc(ctx), a)
            else:
                I.touch(self.ploc(ctx), 'call of ' + slot[1])
                n = len(g.params)
                I.invoke(slot, [ctx] + a[:n])
        elif slot[0] == 'fnref':
            I.invoke(slot, list(args))
        elif slot[0] == 'py':
            slot[1]()
        elif slot[0] in ('handle', 'noop'):
            I.resume_handle(slot)
        else:
            I.log('usercall', callee=slot, args=tuple(x for x in args if x != ('private',)))

    def qt_slot(self, name, loc, a):
        """A member function of Qt is called as a slot."""
        I = self.I
        short = name.rsplit('::', 1)[-1]
        I.touch(loc, 'call of ' + name)
        if short == 'deleteLater':
            I.log('deleteLater', loc=loc)
            self.delete_later(loc)
        elif name.startswith('QTimer::') and self.on_qtimer(short, loc, a) is not None:
            pass
        elif name.startswith('QEventLoop::') and self.on_loop(short, loc, a) is not None:
            pass
        elif self.q.get(loc) is not None and short in self.q[loc]:
            v = self.q[loc][short]
            if callable(v):
                v(a)
        else:
            self.libsignal(loc, short, a)

    # ------------------------------------------------------------ posted events
    def post(self, slot, ctx, delay, args=()):
        self.posted.append((self.I.uid(), slot, ctx, delay, tuple(args)))

    def invoke_method(self, ctx, slot, typ):
        kind, _ = self.ctype(typ)
        if kind in ('auto', 'direct') and not self.other_thread(ctx):
            self.emitting += 1
            try:
                self.call(slot, ctx, [])
            finally:
                self.emitting -= 1
            return
        self.posted.append((self.I.uid(), slot, ctx, ('int', 0), ()))

    def other_thread(self, ctx):
        return ctx is not None and self.thread(self.ploc(ctx)) != self.cur

    def delete_later(self, loc):
        self.posted.append((self.I.uid(), ('deleteLater', loc), None, ('int', 0), ()))

    def deliverable(self):
        return [p for p in self.posted if p[2] is None or self.alive(self.ploc(p[2])) and self.runs_events(self.thread(self.ploc(p[2])))]

    def deliver(self, p):
        I = self.I
        self.posted.remove(p)
        _, slot, ctx, delay, args = p
        if ctx is not None and not self.alive(self.ploc(ctx)):
            return
        I.log('deliver', slot=slot)
        if slot[0] == 'deleteLater':
            self.delete_now(slot[1])
            return
        e, self.emitting = self.emitting, 0
        old, self.cur = self.cur, self.thread(self.ploc(ctx)) if ctx is not None else self.cur
        try:
            if slot[0] == 'event':
                self.event(ctx, slot[1])
            else:
                self.call(slot, ctx, list(args))
        finally:
            self.emitting = e
            self.cur = old

    def event(self, ctx, ev):
        """A posted event reaches QObject::event() of its receiver."""
        I = self.I
        loc = self.ploc(ctx)
        todo = [I.dyn.get(loc)]
        while todo:
            r = todo.pop(0)
            if r is None:
                continue
            for m in r.get('methods', []):
                fd = I.prog.fn(m, r['tu']) if m['n'] == 'event' else None
                if fd is not None and fd.body is not None:
                    I.touch(loc, 'event delivered')
                    I.call_fn(fd, loc, [ev])
                    return
            todo += list(I.bases(r))
        I.log('usercall', callee=('event', ev), args=(ctx,))

    def send_posted(self, args):
        """Deliver at once what is posted to one object of this thread (or to all)."""
        to = self.ploc(args[0]) if args and args[0] != NULL else None
        for p in list(self.deliverable()):
            if p not in self.posted or p[2] is None and to is not None:
                continue
            l = self.ploc(p[2]) if p[2] is not None else None
            if (to is None or l == to) and (l is None or self.thread(l) == self.cur):
                self.drains += 1
                if self.drains > self.MAXPOST:
                    self.I.log('livelock')
                    raise StopPath()
                self.deliver(p)

    def delete_now(self, loc):
        I = self.I
        if loc in I.dead:
            return
        r = I.dyn.get(loc)
        if r is not None and 'fields' in r:
            I.destroy_rec(loc, r)
        I.log('qdestroy', loc=loc)
        I.dead.add(loc)

    def drain(self):
        """Deliver everything that is posted, in order."""
        while True:
            ps = self.deliverable()
            if not ps:
                self.posted = [p for p in self.posted if self.alive(self.ploc(p[2]))]
                return
            self.drains += 1
            if self.drains > self.MAXPOST:
                self.I.log('livelock')
                raise StopPath()
            self.deliver(ps[0])

    # ------------------------------------------------------------ timers
    def active_timers(self):
        return [t for t, s in self.timers.items() if s['active'] and self.alive(t)]

    def timer(self, loc):
        return self.timers.setdefault(loc, dict(interval=('int', 0), single=FALSE, active=False))

    def fire_timer(self, loc):
        t = self.timer(loc)
        if not t['active'] or not self.alive(loc):
            return
        if self.I.truth(t['single']):
            t['active'] = False
        self.I.log('timerfires', loc=loc)
        self.emit(loc, 'timeout', [], private=True, thread=self.thread(loc))

    def on_qtimer(self, name, loc, args):
        I = self.I
        t = self.timer(loc)
        if name == 'setInterval':
            t['interval'] = args[0]
        elif name == 'setSingleShot':
            t['single'] = args[0]
        elif name == 'start':
            if args:
                t['interval'] = args[0]
            t['active'] = True
            I.log('timerstart', loc=loc, interval=t['interval'])
        elif name == 'stop':
            t['active'] = False
        elif name == 'isActive':
            return B(t['active'])
        elif name == 'interval':
            return t['interval']
        elif name == 'isSingleShot':
            return t['single']
        elif name in ('setTimerType', 'callOnTimeout', 'remainingTime', 'timerType'):
            return None
        else:
            return None
        return ('void',)

    # ------------------------------------------------------------ environment of opaque calls
    def env(self, I, name, recv, args, f):
        if f is None:
            return None
        loc = None
        if recv is not None:
            r = I.strip(recv) if isinstance(recv, tuple) else recv
            if r[0] in ('obj', 'ptr'):
                loc = r[1]
            elif is_loc(r):
                loc = r
        if loc is not None:
            if loc == ('deref', NULL):
                I.log('nulluse', how='%s called on a null pointer' % name)
                raise StopPath()
            if loc in I.dead:
                I.log('uaf', loc=loc, dead=loc, how='%s called on a destroyed object' % name)
            short = name.rsplit('::', 1)[-1]
            q = self.q.get(loc)
            if q is not None and short in q:
                v = q[short]
                return v(args) if callable(v) else v
            if name == 'QObject::thread':
                return ('ptr', self.thread_object(self.thread(loc)))
            if name == 'QObject::moveToThread':
                e = ('heap', 'QEvent', I.uid())
                I.log('construct', type='QEvent', loc=e, args=[('int', 22)])     # QEvent::ThreadChange
                self.event(('ptr', loc), ('ptr', e))
                self.thr[loc] = self.thread_key(args[0])
                return TRUE
            if name == 'QEvent::type':
                for e in reversed(I.events):
                    if e.kind == 'construct' and e.loc == loc and e.args:
                        a = e.args[0]
                        while isinstance(a, tuple) and a[0] == 'conv':
                            a = a[-1]
                        return a
            if name.startswith('QTimer::'):
                return self.on_qtimer(short, loc, args)
            if name.startswith('QEventLoop::'):
                return self.on_loop(short, loc, args)
            if f.get('sig') or (f.get('repo') and self.is_signal(f)):
                tu = f.get('_tu') or I.frames[-1].tu
                self.libsignal(loc, short, args, tuple(tu.ts(t) for t in f['pt']) if f.get('repo') and 'pt' in f else None)
                return ('void',)
        if name == 'QEvent::registerEventType':
            return ('int', 2000 + I.uid())
        if name == 'QThread::currentThread':
            return ('ptr', self.thread_object(self.cur))
        if name == 'QCoreApplication::postEvent':
            self.post_event(args[0], args[1])
            return ('void',)
        if name == 'QCoreApplication::sendPostedEvents':
            self.send_posted(args)
            return ('void',)
        g = self.glob.get(name)
        if g is not None:
            return g(recv, args) if callable(g) else g
        return None

    def is_signal(self, f):
        """A member of a library class without a body anywhere in the tree: a Qt signal."""
        if not f.get('rqn') or f.get('virt') or f.get('static') or f.get('defaulted') or f['qn'].startswith('h::'):
            return False
        g = self.I.prog.fn(f, f.get('_tu') or self.I.frames[-1].tu)
        return g is None or g.body is None

    def libsignal(self, loc, short, args, types=None):
        self.emit(loc, short, list(args), types=types)

    def on_loop(self, name, loc, args):
        I = self.I
        if name == 'exec':
            I.log('loopenter', loc=loc)
            st = {'loc': loc, 'quit': False}
            self.loops.append(st)
            n = 0
            try:
                while not st['quit']:
                    n += 1
                    if n > 30 or self.pump is None or not self.pump():
                        I.log('loopstuck', loc=loc)
                        raise StopPath()
            finally:
                self.loops.pop()
            I.log('loopleave', loc=loc)
            return ('int', 0)
        if name in ('quit', 'exit'):
            hit = False
            for st in self.loops:
                if st['loc'] == loc:
                    st['quit'] = True
                    hit = True
            I.log('loopquit', loc=loc, effective=hit)
            return ('void',)
        if name == 'isRunning':
            return B(any(st['loc'] == loc for st in self.loops))
        if name == 'processEvents':
            if self.pump is not None:
                self.pump()
            return TRUE
        return None
