"""Path-sensitive abstract interpreter over the extracted program.

Values are hashable terms; unknown conditions split paths (every split is explored), so one run of `explore`
enumerates all abstract paths of a scenario. Nothing is executed and no solver is involved: a condition is decided only
by the recorded literals and by constant/interval information about one term."""
import re
import resource
import time
import traceback
from facts import ToolError, NoSuchUse

LOCK = {'var', 'tmp', 'heap', 'fld', 'deref', 'elem', 'promise', 'static', 'cell'}
NULL = ('null',)
TRUE = ('bool', True)
FALSE = ('bool', False)
OPT0 = ('opt0',)
UNITNS = {}


def is_loc(v):
    return isinstance(v, tuple) and len(v) > 0 and v[0] in LOCK


def B(x):
    return TRUE if x else FALSE


def const_of(v):
    if v[0] == 'bool':
        return int(v[1])
    if v[0] == 'int':
        return v[1]
    if v == NULL:
        return 0
    return None


def root_of(loc):
    while loc[0] in ('fld', 'elem'):
        loc = loc[1]
    return loc


def contains(v, x):
    if v == x:
        return True
    return isinstance(v, tuple) and any(contains(y, x) for y in v)


class Ev:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return None

    def __repr__(self):
        return '<%s %s>' % (self.kind, ' '.join('%s=%s' % (k, fmt(v)) for k, v in self.__dict__.items() if k not in ('kind', 'node', 'tu', 'where', 'i', 'f', 'fnobj', 'virt', 'repo') and v is not None))


def fmt_(v):
    if isinstance(v, tuple):
        if not v:
            return '()'
        if v[0] == 'var' or v[0] == 'heap' or v[0] == 'tmp':
            return '%s%s' % (v[1], v[2] if len(v) > 2 else '')
        if v[0] == 'fld':
            return fmt(v[1]) + '.' + v[2]
        if v[0] == 'ptr':
            return '&' + fmt(v[1])
        if v[0] == 'deref':
            return '*' + fmt(v[1])
        if v[0] in ('int', 'bool', 'param'):
            return str(v[1])
        return '%s(%s)' % (v[0], ', '.join(fmt_(x) for x in v[1:]))
    return str(v)


def fmt(v):
    try:
        return fmt_(v)
    except (IndexError, TypeError, AttributeError):
        return str(v)[:80]


class Abort(Exception):
    """Path terminated (infeasible or uninteresting)."""


class LoopBack(Exception):
    pass


class BreakExc(Exception):
    pass


class ContinueExc(Exception):
    pass


class ReturnExc(Exception):
    def __init__(self, v):
        self.v = v


class ThrowExc(Exception):
    def __init__(self, v):
        self.v = v


class StopPath(Exception):
    """Raised by scenarios/hooks to end a path normally."""


class Frame:
    def __init__(self, fn, tu, this, env):
        self.fn = fn
        self.tu = tu
        self.this = this
        self.env = env
        self.scopes = []
        self.opaque = {}
        self.curexc = None


class Path:
    pass


MAXPATHS = 6000
MAXRSS = 3 << 20           # kB, per process
DEADLINE = [None]          # of the whole check
MAXDEPTH = 60


class Interp:
    def __init__(self, prog, **cfg):
        self.prog = prog
        self.opaque_fn = cfg.get('opaque', lambda I, f: False)     # fnref -> keep the call opaque
        self.env_hook = cfg.get('env', None)                          # (I, name, recv, args, fnref) -> value or None
        self.await_hook = cfg.get('on_await', None)                   # (I, operandvalue, node, tu) -> value or None
        self.user_throws = cfg.get('user_throws', False)              # opaque h:: callbacks may throw
        self.track = cfg.get('track', None)                           # loc -> bool : log reads
        self.spawn_hook = cfg.get('spawn', None)                      # (I, fn, args) for un-awaited coroutine calls
        self.call_hook = cfg.get('on_call', None)                     # before inlining repo functions
        self.resume_hook = cfg.get('on_resume', None)
        self.stage_hook = cfg.get('on_stage', None)               # (I, CoAwait node) -> value or None, before the operand is evaluated
        self.yield_hook = cfg.get('on_yield', None)
        self.errors = []      # paths that could not be followed
        self.stats = {'paths': 0, 'fns': set(), 'unknown': set(), 'calls': 0}

    # ------------------------------------------------------------------ exploration
    def reset(self):
        self.mem = {}
        self.lver = {}        # container -> number of structural changes
        self.ivl = {}
        self.lits = {}
        self.decisions = []
        self.events = []
        self.n = 0
        self.epoch = 0
        self.susp = 0
        self.frames = []
        self.temps = [[]]
        self.clos = {}
        self.dyn = {}
        self.typ = {}
        self.dead = set()
        self.disc = set()
        self.curexc = []
        self.forked = 0
        self.loopflag = None
        self.conns = {}
        self.next_promise = None
        self.next_params = None

    def explore(self, scenario):
        out = []
        stack = [[]]
        while stack:
            self.prefix = stack.pop()
            self.pos = 0
            self.trail = []
            self.reset()
            p = Path()
            p.result = None
            p.exc = None
            p.end = 'return'
            try:
                p.result = scenario(self)
            except Abort:
                p = None
            except LoopBack:
                p.end = 'loop'
            except StopPath:
                p.end = 'stop'
            except ThrowExc as e:
                p.end = 'throw'
                p.exc = e.v
            except NoSuchUse:
                raise
            except (ToolError, ArithmeticError, AssertionError, AttributeError, LookupError, RecursionError, TypeError, ValueError) as e:
                # this path cannot be followed: the others are still judged
                if len(self.errors) < 20:
                    self.errors.append(str(e) if isinstance(e, ToolError) else '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-8)))
                p = None
            finally:
                self.end_path()
            for i in range(len(self.prefix), len(self.trail)):
                n_opt = self.trail[i][1]
                for o in range(1, n_opt):
                    stack.append([t[0] for t in self.trail[:i]] + [o])
            if p is not None:
                p.events = self.events
                p.lits = dict(self.lits)
                p.ivl = dict(self.ivl)
                p.decisions = list(self.decisions)
                p.mem = self.mem
                p.clos = self.clos
                p.typ = self.typ
                out.append(p)
            self.stats['paths'] += 1
            if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
                self.errors.append('time ran out')
                break
            if not self.stats['paths'] % 16 and resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > MAXRSS:
                self.errors.append('memory ran out')
                break
            if len(out) > MAXPATHS:
                self.errors.append('too many abstract paths')
                break
        return out

    def end_path(self):
        pass

    def choose(self, what, options):
        """Nondeterministic choice among options (all explored)."""
        if len(options) == 1:
            return options[0]
        if self.pos < len(self.prefix):
            i = self.prefix[self.pos]
        else:
            i = 0
        self.pos += 1
        self.trail.append((i, len(options)))
        self.decisions.append((what, options[i]))
        self.forked += 1
        return options[i]

    def uid(self):
        self.n += 1
        return self.n

    # ------------------------------------------------------------------ conditions
    def get_ivl(self, t):
        return self.ivl.get(t, (None, None, frozenset()))

    def assume_eq(self, t, c):
        self.ivl[t] = (c, c, frozenset())

    def ivl_dec(self, op, t, c):
        """Decide t op c from interval info; None if unknown."""
        lo, hi, ex = self.get_ivl(t)
        if op == '==':
            if lo is not None and lo == hi:
                return lo == c
            if (lo is not None and c < lo) or (hi is not None and c > hi) or c in ex:
                return False
            return None
        if op == '<':
            if hi is not None and hi < c:
                return True
            if lo is not None and lo >= c:
                return False
            return None

    def ivl_set(self, op, t, c, val):
        lo, hi, ex = self.get_ivl(t)
        if op == '==':
            if val:
                lo = hi = c
                ex = frozenset()
            else:
                ex = ex | {c}
        elif op == '<':
            if val:
                hi = c - 1 if hi is None else min(hi, c - 1)
            else:
                lo = c if lo is None else max(lo, c)
        while lo is not None and lo in ex:
            lo += 1
        while hi is not None and hi in ex:
            hi -= 1
        if lo is not None and hi is not None and lo > hi:
            raise Abort()
        self.ivl[t] = (lo, hi, ex)

    def atom(self, a):
        if a in self.lits:
            return self.lits[a]
        if a[0] == 'eqc' or a[0] == 'ltc':
            op = '==' if a[0] == 'eqc' else '<'
            r = self.ivl_dec(op, a[1], a[2])
            if r is None:
                r = self.choose(a, [True, False])
                self.ivl_set(op, a[1], a[2], r)
                self.lits[a] = r
            return r
        if a[0] == 'lt':
            if self.lits.get(('eq',) + tuple(sorted(a[1:], key=repr))) is True or self.lits.get(('lt', a[2], a[1])) is True:
                return False
        if a[0] == 'eq':
            if self.lits.get(('lt', a[1], a[2])) or self.lits.get(('lt', a[2], a[1])):
                return False
        r = self.choose(a, [True, False])
        self.lits[a] = r
        return r

    def strip(self, v):
        while isinstance(v, tuple) and v[0] in ('qpget', 'pcast'):
            v = v[1]
        return v

    def cmp(self, op, a, b):
        """Boolean of (a op b)."""
        a = self.norm(a)
        b = self.norm(b)
        if op == '!=':
            return not self.cmp('==', a, b)
        if op == '>':
            return self.cmp('<', b, a)
        if op == '>=':
            return not self.cmp('<', a, b)
        if op == '<=':
            return not self.cmp('<', b, a)
        ca, cb = const_of(a), const_of(b)
        if a[0] == 'D' or b[0] == 'D':
            return self.cmp_dur(op, a, b)
        if op == '==':
            if a == b:
                return True
            if a[0] in ('handle', 'noop') and b[0] in ('handle', 'noop') and all(x[0] == 'noop' or x[1][0] in ('heap', 'promiseof') for x in (a, b)):
                return False
            if ca is not None and cb is not None and a[0] != 'null' and b[0] != 'null':
                return ca == cb
            if a == NULL or b == NULL:
                o = b if a == NULL else a
                if const_of(o) is not None:
                    return const_of(o) == 0
                return not self.truth(o)
            if a[0] in ('bool',) or b[0] in ('bool',):
                o, c = (b, ca) if a[0] == 'bool' else (a, cb)
                return self.truth(o) == bool(c)
            sa, sb = self.strip(a), self.strip(b)
            if sa == sb:
                return True
            known = ('ptr', 'handle', 'clo', 'conn', 'param', 'memfn')
            if sa[0] in ('ptr', 'clo', 'conn', 'memfn') and sb[0] in ('ptr', 'clo', 'conn', 'memfn'):
                return False
            if (sa[0] == 'ptr' and self.fresh(sa[1])) or (sb[0] == 'ptr' and self.fresh(sb[1])):
                return False
            if ca is not None or cb is not None:
                t, c = (b, ca) if ca is not None else (a, cb)
                if t[0] == 'lin':
                    t, c = t[1], c - t[2]
                return self.atom(('eqc', t, c))
            if a[0] == 'lin' and b[0] == 'lin' and a[1] == b[1]:
                return a[2] == b[2]
            if (a[0] == 'lin' and a[1] == b) or (b[0] == 'lin' and b[1] == a):
                return False
            x, y = sorted((sa, sb), key=repr)
            return self.atom(('eq', x, y))
        # op == '<'
        if ca is not None and cb is not None:
            return ca < cb
        if a == b:
            return False
        if cb is not None:
            t, c = a, cb
            if t[0] == 'lin':
                t, c = t[1], c - t[2]
            return self.atom(('ltc', t, c))
        if ca is not None:
            t, c = b, ca
            if t[0] == 'lin':
                t, c = t[1], c - t[2]
            # c < t  <=>  not (t < c+1)
            return not self.atom(('ltc', t, c + 1))
        la = a if a[0] == 'lin' else ('lin', a, 0)
        lb = b if b[0] == 'lin' else ('lin', b, 0)
        if la[1] == lb[1]:
            return la[2] < lb[2]
        return self.atom(('lt', a, b))

    def cmp_dur(self, op, a, b):
        # ('D', unit_ns, x): x*unit
        if a[0] != 'D':
            a = self.as_dur(a, 1)
        if b[0] != 'D':
            b = self.as_dur(b, 1)
        if a[1] == b[1]:
            return self.cmp(op, a[2], b[2])
        ca, cb = const_of(a[2]), const_of(b[2])
        if ca is not None and cb is not None:
            return (a[1] * ca == b[1] * cb) if op == '==' else a[1] * ca < b[1] * cb
        if cb is not None:
            ns = b[1] * cb
            q, r = divmod(ns, a[1])
            if r == 0:
                return self.cmp(op, a[2], ('int', q))
            return False if op == '==' else self.cmp('<', a[2], ('int', q + 1))
        if ca is not None:
            ns = a[1] * ca
            q, r = divmod(ns, b[1])
            if r == 0:
                return self.cmp(op, ('int', q), b[2])
            return False if op == '==' else self.cmp('<', ('int', q), b[2])
        if op == '==':
            x, y = sorted((a, b), key=repr)
            return self.atom(('eq', x, y))
        return self.atom(('lt', a, b))

    def as_dur(self, v, unit):
        if v[0] == 'D':
            return v
        return ('D', unit, ('cnt', v))

    def fresh(self, loc):
        return root_of(loc)[0] in ('var', 'heap', 'tmp')

    def norm(self, v):
        if v[0] == 'ref':
            return v
        return v

    def truth(self, v):
        k = v[0]
        if k == 'bool':
            return v[1]
        if k == 'int':
            return v[1] != 0
        if k in ('null', 'opt0', 'conn0', 'excnull'):
            return False
        if k in ('ptr', 'opt1', 'handle', 'clo', 'memfn', 'bound', 'exc', 'obj', 'str', 'noop'):
            return True
        if k == 'not':
            return not self.truth(v[1])
        if k == 'cmp':
            return self.cmp(v[1], v[2], v[3])
        if k == 'conn':
            return v not in self.disc
        if k == 'qpget':
            p = v[1]
            if p == NULL:
                return False
            if p[0] == 'ptr' and self.fresh(p[1]):
                return p[1] not in self.dead
            if self.env_hook:
                r = self.env_hook(self, 'alive', p, [v[2]], None)
                if r is not None:
                    return self.truth(r)
            return self.atom(('alive', p, v[2]))
        if k == 'pcast':
            return self.truth(v[1])
        if k == 'lin':
            return not self.cmp('==', v, ('int', 0))
        if k == 'has':
            return self.has(v[1])
        if is_loc(v):
            raise ToolError('truth of location %s' % (v,))
        if self.env_hook:
            r = self.env_hook(self, 'truth', v, [], None)
            if r is not None:
                return self.truth(r)
        return not self.atom(('eqc', v, 0))

    def has(self, v):
        if v == OPT0:
            return False
        if v[0] == 'opt1':
            return True
        return self.atom(('has', v))

    # ------------------------------------------------------------------ memory
    def log(self, kind, **kw):
        fr = self.frames[-1] if self.frames else None
        e = Ev(kind, i=len(self.events), where=(fr.fn.qn, fr.fn.loc.split(':')[0], self.line) if fr and fr.fn else None, **kw)
        self.events.append(e)
        return e

    line = 0

    def touch(self, loc, how):
        l = loc
        while True:
            if l in self.dead:
                self.log('uaf', loc=loc, dead=l, how=how)
                return
            if l[0] not in ('fld', 'elem'):
                return
            l = l[1]

    def read(self, loc):
        if self.dead:
            self.touch(loc, 'read')
        if self.track and self.track(loc):
            self.log('read', loc=loc)
        if loc[0] == 'elem' and type(loc[2]) is int:
            l = self.mem.get(loc[1])
            if l is not None and l[0] == 'list':
                if not 0 <= loc[2] < len(l) - 1:
                    self.log('uaf', loc=loc, dead=loc, how='an element is used that is no longer there')
                    raise StopPath()
                return l[1 + loc[2]]
        if loc in self.mem:
            return self.mem[loc]
        if loc[0] == 'cell':
            return loc[1]
        # member of a copied symbolic object
        if loc[0] == 'fld' and loc[1] in self.mem:
            base = self.mem[loc[1]]
            if base[0] != 'obj':
                return ('init', ('fld', ('cell', base), loc[2]))
        t = self.typ.get(loc)
        v = ('init', loc)
        if t and t.get('s', '').startswith('std::chrono::duration'):
            v = self.as_dur(v, dur_unit(t['s']))
        if t and loc[0] == 'static' and t.get('s', '').removeprefix('const ') == 'QEvent::Type':
            # registered event types are all different from the predefined ones
            v = self.mem[loc] = ('int', 1000 + len([x for x in self.mem if x[0] == 'static']))
        return v

    def write(self, loc, v):
        if self.dead:
            self.touch(loc, 'write')
        self.mem[loc] = v
        # elements of containers and tuples and the contents of optionals are parts of the enclosing value
        l, part = loc, v
        while True:
            if l[0] == 'elem' and type(l[2]) is int:
                i = 1 + l[2]
                l = l[1]
                o = self.mem.get(l)
                if o is None or o[0] not in ('list', 'tuple'):
                    break
                if not 0 < i < len(o):
                    self.log('uaf', loc=loc, dead=loc, how='an element is used that is no longer there')
                    raise StopPath()
                part = self.mem[l] = o[:i] + (part,) + o[i + 1:]
            elif l[0] == 'fld' and l[2] == '$val':
                l = l[1]
                o = self.mem.get(l)
                if o is None or o[0] != 'opt1' or o[1][0] == 'obj':
                    break
                part = self.mem[l] = ('opt1', part)
            else:
                break
        if loc[0] != 'var' and loc[0] != 'tmp':
            self.log('write', loc=loc, val=v)

    def deref(self, p):
        p = self.strip(p)
        if p[0] == 'ptr':
            return p[1]
        if p[0] == 'obj':
            return p[1]
        return ('deref', p)

    def addr(self, loc):
        if loc[0] == 'deref':
            return loc[1]
        return ('ptr', loc)

    def newloc(self, kind, name):
        return (kind, name, self.uid())

    # ------------------------------------------------------------------ records
    def rec_of(self, tu, tid):
        t = tu.t(tid)
        if t.get('ref'):
            t = tu.t(t['to'])
        if t.get('k') != 'rec':
            return None
        r = tu.recs.get(t['rec'])
        if r is not None and 'fields' in r:
            return r
        s = t['s']
        if s.startswith('const '):
            s = s[6:]
        if '(lambda' in s:
            return r
        if 'anonymous namespace' in s and r is None:
            return None
        g = self.prog.rec_by_type.get(s)
        return g if g is not None else r

    def is_repo_rec(self, tu, tid):
        r = self.rec_of(tu, tid)
        return r is not None and not r.get('lambda') and 'fields' in r

    def rec_methods(self, r):
        for m in r.get('methods', []):
            yield m

    def bases(self, r):
        for b in r.get('bases', []):
            br = self.rec_of(r['tu'], b)
            if br is not None:
                yield br

    def all_fields(self, r):
        for b in self.bases(r):
            yield from self.all_fields(b)
        for f in r.get('fields', []):
            yield r, f

    def find_override(self, r, fnref, tu):
        """The method of r (or nearest base) that a virtual call of fnref reaches."""
        sig = [tu.ts(p) for p in fnref.get('pt', [])]
        for m in r.get('methods', []):
            if m['n'].startswith('~') and fnref['n'].startswith('~'):
                return m, r['tu']
            if m['n'] == fnref['n'] and [r['tu'].ts(p) for p in m.get('pt', [])] == sig and bool(m.get('const')) == bool(fnref.get('const')):
                return m, r['tu']
        for b in self.bases(r):
            x = self.find_override(b, fnref, tu)
            if x:
                return x
        return None

    # ------------------------------------------------------------------ functions
    def call_fn(self, fn, this=None, args=(), env=None, coro_ok=True):
        """Interpret the body of fn with already evaluated args (values, or locations for reference parameters)."""
        if len(self.frames) > MAXDEPTH:
            raise ToolError('inlining too deep at ' + fn.qn)
        self.stats['fns'].add(fn.qn + ' ' + fn.loc)
        fr = Frame(fn, fn.tu, this, dict(env) if env else {})
        pids = fn.d.get('pids') or [p['d'] for p in fn.params]
        own = []
        for i, p in enumerate(fn.params):
            if i >= len(args):
                break
            v = args[i]
            t = fn.tu.t(p['t'])
            if t.get('ref'):
                if not is_loc(v):
                    v = self.box(v)
                fr.env[pids[i]] = v
            else:
                if is_loc(v):
                    v = self.read(v)
                if v[0] == 'obj' and is_loc(v[1]):
                    l = v[1]
                else:
                    l = self.newloc('var', p['n'] or 'p%d' % i)
                    self.mem[l] = v
                    self.typ[l] = t
                fr.env[pids[i]] = l
                own.append((l, p['t']))
        fr.promise = self.next_promise
        self.next_promise = None
        if self.next_params is not None:
            keep, self.next_params = self.next_params, None
            keep += own
            own = []
        self.frames.append(fr)
        self.temps.append([])
        line = self.line
        ret = None
        try:
            try:
                if fn.d.get('kind') == 'ctor':
                    self.ctor_inits(fn, this)
                if fn.body is not None:
                    self.st(fn.body)
            except ReturnExc as r:
                ret = r.v
            except ThrowExc:
                if self.frames[-1] is fr:
                    for l, t in reversed(own):
                        self.destroy(l, fn.tu, t)
                raise
            if fn.d.get('kind') == 'dtor':
                self.dtor_members(fn, this)
            for l, t in reversed(own):
                self.destroy(l, fn.tu, t)
        finally:
            self.temps.pop()
            self.frames.pop()
            self.line = line
        return ret

    def call_coro_body(self, fn, this, args, promise, env=None, params=None):
        """Body of a coroutine with a known promise: co_return goes to the promise."""
        self.next_promise = promise
        self.next_params = params
        return self.call_fn(fn, this, args, env)

    def box(self, v):
        l = self.newloc('tmp', 't')
        if v is not None and v[0] == 'obj' and is_loc(v[1]):
            return v[1]
        self.mem[l] = v
        return l

    def ctor_inits(self, fn, this):
        tu = fn.tu
        r = None
        for i in fn.d.get('inits', []):
            self.line = i.get('l', self.line)
            if i.get('field') is not None:
                loc = ('fld', this, i['field'])
                if self.frames[-1].tu.t(i['ft']).get('ref'):
                    v = self.ev(i['e'])
                    if not is_loc(v):
                        v = v[1] if v[0] == 'obj' else self.box(v)
                    self.mem[loc] = ('refto', v)
                    continue
                self.init_loc(loc, i['e'], i['ft'])
                if loc in self.mem and self.mem[loc][0] != 'obj':
                    self.log('write', loc=loc, val=self.mem[loc], init=True)
            elif i.get('base') is not None or i.get('deleg'):
                self.ev_obj(i['e'], this)

    def dtor_members(self, fn, this):
        rid = fn.d.get('rec')
        r = fn.tu.recs.get(rid)
        if r is None or 'fields' not in r:
            r = self.rec_of(fn.tu, fn.d['reptype']) if 'reptype' in fn.d else None
        if r is None:
            return
        self.destroy_fields(this, r)

    def destroy_fields(self, loc, r):
        for f in reversed(r.get('fields', [])):
            self.destroy(('fld', loc, f['n']), r['tu'], f['t'])
        for b in r.get('bases', []):
            br = self.rec_of(r['tu'], b)
            if br is not None and 'fields' in br:
                self.destroy_rec(loc, br)

    def destroy_rec(self, loc, r):
        d = None
        for m in r.get('methods', []):
            if m['n'].startswith('~'):
                d = self.prog.fn(m, r['tu'])
        if d is not None and d.body is not None and not d.d.get('defaulted'):
            self.call_fn(d, loc)
        else:
            self.destroy_fields(loc, r)

    def destroy(self, loc, tu, tid):
        t = tu.t(tid)
        if t.get('ref'):
            return
        if t.get('k') != 'rec':
            if loc[0] == 'var':
                self.dead.add(loc)
            return
        s = t['s']
        if self.mem.get(loc, ('x',))[0] == 'obj' and self.mem[loc][1] != loc:
            loc = self.mem[loc][1]
        r = self.rec_of(tu, tid)
        if r is not None and not r.get('lambda') and 'fields' in r:
            dyn = self.dyn.get(loc)
            self.log('dtor', loc=loc, type=s)
            self.destroy_rec(loc, dyn if dyn is not None else r)
            self.dead.add(loc)
            self.log('dtor_end', loc=loc, type=s)
            return
        if s.startswith(('std::unique_ptr<', 'const std::unique_ptr<')):
            v = self.mem.get(loc)
            if v is None:
                v = self.read(loc)
            self.delete_ptr(v, tu, (t.get('targs') or [None])[0], 'unique_ptr')
            self.mem[loc] = NULL
            self.dead.add(loc)
            return
        if s.startswith(('QSharedDataPointer<', 'QExplicitlySharedDataPointer<')):
            v = self.mem.get(loc, NULL)
            self.mem[loc] = NULL
            from models import sdp_drop
            sdp_drop(self, v, tu, (t.get('targs') or [None])[0])
            self.dead.add(loc)
            return
        if s.startswith('std::optional<') and self.mem.get(loc, OPT0)[0] == 'opt1':
            v = self.mem[loc][1]
            if v[0] == 'obj':
                self.destroy(v[1], tu, t['targs'][0])
            self.dead.add(loc)
            return
        v = self.mem.get(loc)
        self.log('dtor', loc=loc, type=s, val=v)
        self.dead.add(loc)

    def delete_ptr(self, v, tu, pt, how):
        if v == NULL:
            return
        p = self.strip(v)
        self.log('delete', ptr=p, how=how)
        if p[0] == 'ptr':
            loc = p[1]
            r = self.dyn.get(loc)
            if r is None and pt is not None:
                r = self.rec_of(tu, pt)
            if r is not None and 'fields' in r:
                self.destroy_rec(loc, r)
            self.dead.add(loc)
        self.log('delete_end', ptr=p)

    # ------------------------------------------------------------------ statements
    def st(self, n):
        if n is None:
            return
        k = n['k']
        if 'l' in n:
            self.line = n['l']
        fr = self.frames[-1]
        if k == 'Block':
            self.scope(lambda: [self.st(x) for x in n['b']])
        elif k == 'Expr':
            v = self.ev(n['e'])
            x = n['e']
            while x and x['k'] == 'Full':
                x = x['e']
            if isinstance(v, tuple) and v and v[0] == 'obj' and x and not x.get('lv') and is_loc(v[1]) and v[1][0] in ('tmp', 'heap') and v[1] not in self.dead and 't' in x:
                if not any(v[1] == y[0] for lst in self.temps for y in lst):
                    self.destroy(v[1], fr.tu, x['t'])
        elif k == 'Decl':
            for v in n['vars']:
                self.decl(v)
        elif k == 'If':
            def go():
                if n.get('init'):
                    self.st(n['init'])
                if n.get('var'):
                    self.decl(n['var'])
                if n.get('cx'):
                    c = bool(n['c'].get('cv')) if n['c'] is not None and 'cv' in n['c'] else (n.get('a') is not None)
                    if n['c'] is not None and 'cv' not in n['c']:
                        c = self.cx_cond(n)
                else:
                    c = self.cond(n['c'])
                if c:
                    self.st(n['a'])
                else:
                    self.st(n.get('b'))
            self.scope(go)
        elif k in ('While', 'For', 'DoWhile'):
            self.loop(n)
        elif k == 'RangeFor':
            self.rangefor(n)
        elif k == 'Return':
            if n['e'] is None:
                raise ReturnExc(None)
            v = self.ret_value(n['e'])
            raise ReturnExc(v)
        elif k == 'CoReturn':
            if getattr(fr, 'promise', None) is not None and n.get('f'):
                # deliver the operand to the promise
                g = self.prog.fn(n['f'], fr.tu)
                args = []
                if n.get('arg') is not None:
                    args = [self.ev(n['arg'])]
                elif n['e'] is not None:
                    self.ev(n['e'])
                p = fr.promise
                self.log('co_return', val=args[0] if args else None, f=n['f']['qn'])
                self.call_fn(g, p, args)
                raise ReturnExc(args[0] if args else None)
            v = None
            if n['e'] is not None:
                v = self.ev(n['e'])
                if is_loc(v) :
                    v = self.argval(n['e'], v)
            self.log('co_return', val=v, f=n.get('f', {}).get('qn') if n.get('f') else None)
            raise ReturnExc(v)
        elif k == 'Break':
            raise BreakExc()
        elif k == 'Continue':
            raise ContinueExc()
        elif k == 'Nop':
            pass
        elif k == 'Try':
            self.try_(n)
        elif k == 'Switch':
            self.switch(n)
        elif k in ('Case', 'Default', 'Label'):
            self.st(n['s'])
        else:
            self.unknown('stmt ' + k + ' ' + n.get('cls', ''))

    def cx_cond(self, n):
        # discarded branch was not instantiated
        return n.get('a') is not None and not (n['a']['k'] == 'Block' and not n['a']['b'] and n.get('b'))

    def unknown(self, what):
        self.stats['unknown'].add(what)

    def ret_value(self, e):
        fr = self.frames[-1]
        v = self.ev(e)
        if is_loc(v):
            rt = fr.tu.t(fr.fn.d['ret'])
            if rt.get('ref'):
                return v
            if e.get('lv'):
                v = self.read_obj(v, fr.tu, e['t'])
        return v

    def read_obj(self, loc, tu, tid):
        if self.is_repo_rec(tu, tid):
            return ('obj', loc)
        return self.read(loc)

    def scope(self, body):
        fr = self.frames[-1]
        fr.scopes.append([])
        try:
            body()
        except (ReturnExc, BreakExc, ContinueExc) as e:
            sc = fr.scopes.pop()
            self.unwind(sc, getattr(e, 'v', None))
            raise
        except ThrowExc as e:
            sc = fr.scopes.pop()
            self.unwind(sc, None)
            raise
        except BaseException:
            fr.scopes.pop()
            raise
        else:
            self.unwind(fr.scopes.pop(), None)

    def unwind(self, sc, keep):
        fr = self.frames[-1]
        for loc, t in reversed(sc):
            if keep is not None and isinstance(keep, tuple) and len(keep) > 1 and keep[0] == 'obj' and keep[1] == loc:
                continue
            self.destroy(loc, fr.tu, t)

    def decl(self, v):
        fr = self.frames[-1]
        t = fr.tu.t(v['t'])
        name = v['n'] or '?'
        if v.get('static'):
            loc = ('static', v['n'], v['d'])
            fr.env[v['d']] = loc
            return
        if t.get('ref'):
            if v.get('init') is None:
                return
            x = self.ev(v['init'])
            if not is_loc(x):
                x = self.box(x)
            fr.env[v['d']] = x
            # lifetime-extended temporary
            if x[0] == 'tmp':
                for lst in self.temps:
                    for it in lst:
                        if it[0] == x:
                            lst.remove(it)
                            fr.scopes[-1].append((x, it[2]))
                            break
            self.bindings(v, x)
            return
        loc = self.newloc('var', name)
        self.typ[loc] = t
        r = self.init_loc(loc, v.get('init'), v['t'], decl=True)
        if r is not None:
            loc = r
        fr.env[v['d']] = loc
        fr.scopes[-1].append((loc, v['t']))
        self.bindings(v, loc)

    def bindings(self, v, loc):
        fr = self.frames[-1]
        for i, b in enumerate(v.get('bindings') or []):
            val = self.read(loc)
            l = ('elem', loc, i)
            if val[0] == 'tuple' and i < len(val) - 1:
                self.mem[l] = val[1 + i]
            else:
                self.mem[l] = ('get', val, i)
            fr.env[b['d']] = l
            if 'hd' in b:
                fr.env[b['hd']] = l

    def init_loc(self, loc, init, tid, decl=False):
        """Initialise storage loc of type tid. Returns an alternative location when the object lives elsewhere."""
        fr = self.frames[-1]
        t = fr.tu.t(tid)
        if init is None:
            if t.get('k') == 'rec':
                return None
            if not decl:
                return None
            self.mem[loc] = ('undef', loc)
            return None
        if self.is_repo_rec(fr.tu, tid):
            v = self.ev_obj(init, loc)
            if isinstance(v, tuple) and v[0] == 'obj' and v[1] != loc:
                if decl:
                    return v[1]
                self.relocate(v[1], loc)
            elif isinstance(v, tuple) and v[0] != 'obj':
                self.mem[loc] = v
            return None
        v = self.ev(init)
        if is_loc(v):
            v = self.read(v)
        if v is not None and v[0] == 'obj' and v[1] == loc:
            return None
        if t.get('qobj') and v is not None and v[0] == 'obj':
            if decl:
                return v[1]
            self.mem[loc] = v
            return None
        self.mem[loc] = v
        return None

    def relocate(self, src, dst):
        def ren(l):
            if l == src:
                return dst
            if l[0] in ('fld', 'elem') and is_loc(l[1]):
                b = ren(l[1])
                if b != l[1]:
                    return (l[0], b) + l[2:]
            return l
        for k in list(self.mem):
            r = ren(k)
            if r != k:
                self.mem[r] = self.mem.pop(k)
        for tab in (self.dyn, self.typ):
            for k in list(tab):
                r = ren(k)
                if r != k:
                    tab[r] = tab[k]

    def cond(self, n):
        v = self.ev(n)
        if is_loc(v):
            v = self.read(v)
        return self.truth(v)

    def loop(self, n):
        if n['k'] == 'For':
            def go():
                if n.get('init'):
                    self.st(n['init'])
                self.loop_body(n, n.get('c'), n['body'], n.get('inc'), False)
            self.scope(go)
        else:
            self.loop_body(n, n['c'], n['body'], None, n['k'] == 'DoWhile')

    def loop_body(self, n, c, body, inc, post):
        snap = None
        generic = 0
        iters = 0
        first = post
        lid = self.uid()
        while True:
            iters += 1
            if iters > 40:
                raise ToolError('loop does not stabilise in ' + self.frames[-1].fn.qn)
            before_fork = self.forked
            const = c is None or ('cv' in c and c['cv'])

            def run():
                if n.get('var'):
                    self.decl(n['var'])
                if not first and c is not None:
                    if not self.cond(c):
                        raise BreakExc()
                self.st(body)
            f0 = self.forked
            s0 = self.susp
            try:
                try:
                    self.scope(run)
                except ContinueExc:
                    pass
                if inc is not None:
                    self.ev(inc)
                if post and c is not None:
                    if not self.cond(c):
                        break
            except BreakExc:
                break
            first = post
            if const or self.forked > f0 or self.susp > s0:
                generic += 1
                if generic == 1:
                    snap = self.havoc_snapshot(snap, lid)
                elif generic >= 3:
                    self.log('loopback')
                    raise LoopBack()
                else:
                    self.havoc(snap, lid)
        return

    def havoc_snapshot(self, snap, lid):
        return dict(self.mem)

    def havoc(self, snap, lid):
        """Forget every location whose content still changes from one iteration to the next."""
        for l in list(self.mem):
            if l in snap and snap[l] != self.mem[l] and self.mem[l][0] not in ('obj',) and root_of(l)[0] in ('var', 'fld', 'deref', 'heap', 'promise'):
                if self.mem[l][0] == 'list':
                    continue
                self.mem[l] = ('havoc', lid, l)
        self.epoch += 1

    def rangefor(self, n):
        fr = self.frames[-1]

        def go():
            if n.get('init'):
                self.st(n['init'])
            r = self.ev(n['range'])
            loc = r if is_loc(r) else None
            val = self.read(r) if is_loc(r) else r
            if val[0] == 'obj':
                self.range_obj(n, val)
                return
            items = self.list_items(val, loc)
            ver = self.lver.get(loc, 0)
            for i, it in enumerate(items):
                l = ('elem', loc, i) if loc is not None else self.newloc('tmp', 'elem')
                if loc is not None and val[0] == 'list':
                    now = self.read(loc)
                    if now[0] == 'list' and i < len(now) - 1:
                        it = now[1 + i]
                self.mem[l] = it
                try:
                    def one():
                        v = n['var']
                        t = fr.tu.t(v['t'])
                        if t.get('ref'):
                            fr.env[v['d']] = l
                        else:
                            vl = self.newloc('var', v['n'])
                            self.mem[vl] = it
                            fr.env[v['d']] = vl
                        self.bindings(v, fr.env[v['d']])
                        self.st(n['body'])
                    self.scope(one)
                except ContinueExc:
                    pass
                except BreakExc:
                    break
                if loc is not None and not self.same_list(loc, val, ver):
                    self.log('ub', how='a container is changed while it is being iterated')
        self.scope(go)

    def same_list(self, loc, val, ver):
        now = self.read(loc)
        if now[0] == 'list' and val[0] == 'list':
            return len(now) == len(val) and self.lver.get(loc, 0) == ver
        return now == val

    def range_obj(self, n, val):
        self.unknown('range-for over object')

    def list_items(self, val, loc=None):
        if val[0] == 'list':
            return list(val[1:])
        k = self.choose(('size', val), [0, 1, 2])
        return [('item', val, i) for i in range(k)]

    def try_(self, n):
        depth = len(self.frames)
        fr = self.frames[-1]
        nsc = len(fr.scopes)
        ntmp = len(self.temps)
        try:
            self.st(n['body'])
        except ThrowExc as e:
            if len(self.frames) != depth:
                del self.frames[depth:]
            del fr.scopes[nsc:]
            del self.temps[ntmp:]
            if getattr(e, 'uncatchable', False):
                raise
            for h in n['h']:
                if self.catches(h, e.v, fr.tu):
                    self.log('catch', exc=e.v, all=bool(h.get('all')))

                    def go():
                        if h.get('var'):
                            l = self.newloc('var', h['var']['n'])
                            self.mem[l] = e.v
                            fr.env[h['var']['d']] = l
                        self.st(h['body'])
                    self.curexc.append(e.v)
                    try:
                        self.scope(go)
                    finally:
                        self.curexc.pop()
                    return
            raise

    def catches(self, h, exc, tu):
        if h.get('all'):
            return True
        s = tu.ts(h['t']).replace('const ', '').replace(' &', '').strip()
        if exc[0] == 'exc':
            if s == 'std::exception':
                return exc[2] == 'std'
            return exc[2] == s
        return self.atom(('catches', exc, s))

    def switch(self, n):
        def go():
            if n.get('init'):
                self.st(n['init'])
            if n.get('var'):
                self.decl(n['var'])
            v = self.ev(n['c'])
            if is_loc(v):
                v = self.read(v)
            items = n['body']['b'] if n['body']['k'] == 'Block' else [n['body']]
            # flatten case labels
            start = None
            default = None
            for i, x in enumerate(items):
                y = x
                while y is not None and y['k'] in ('Case', 'Default'):
                    if y['k'] == 'Case':
                        if start is None and self.cmp('==', v, self.ev(y['v'])):
                            start = i
                    else:
                        default = i
                    y = y['s']
                if start is not None:
                    break
            if start is None:
                start = default
            if start is None:
                return
            try:
                for x in items[start:]:
                    while x is not None and x['k'] in ('Case', 'Default'):
                        x = x['s']
                    self.st(x)
            except BreakExc:
                pass
        self.scope(go)

    # ------------------------------------------------------------------ expressions
    def ev_obj(self, n, target):
        """Evaluate a prvalue of repo record type directly into target."""
        k = n['k']
        if k in ('Full',):
            return self.full(lambda: self.ev_obj(n['e'], target))
        if k == 'Construct':
            return self.construct(n, target)
        if k == 'Cast' and n['ck'] in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'ToVoid'):
            return self.ev_obj(n['e'], target)
        if k == 'Cond':
            return self.ev_obj(n['a'] if self.cond(n['c']) else n['b'], target)
        if k == 'InitList':
            return self.init_list(n, target)
        v = self.ev(n)
        if is_loc(v):
            v = self.read_obj(v, self.frames[-1].tu, n['t'])
        return v

    def full(self, f):
        self.temps.append([])
        depth = len(self.frames)
        try:
            v = f()
        except ThrowExc:
            ts = self.temps.pop()
            if len(self.frames) == depth:
                for loc, tu, t in reversed(ts):
                    if loc not in self.dead:
                        self.destroy(loc, tu, t)
            raise
        except BaseException:
            self.temps.pop()
            raise
        ts = self.temps.pop()
        fr = self.frames[-1]
        for loc, tu, t in reversed(ts):
            if isinstance(v, tuple) and v and v[0] == 'obj' and v[1] == loc:
                if self.temps:
                    self.temps[-1].append((loc, tu, t))
                continue
            if v == loc:
                if self.temps:
                    self.temps[-1].append((loc, tu, t))
                continue
            if loc not in self.dead:
                self.destroy(loc, tu, t)
        return v

    def ev(self, n):
        if n is None:
            return None
        k = n['k']
        if n.get('l'):
            self.line = n['l']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            self.unknown('expr ' + k + ' ' + n.get('cls', ''))
            for c in n.get('args', []):
                if c:
                    self.ev(c)
            v = ('unk', k, self.uid())
            return self.box(v) if n.get('lv') else v
        return m(n)

    def rv(self, n):
        """Evaluate to a value (loading glvalues)."""
        v = self.ev(n)
        if is_loc(v):
            v = self.read_obj(v, self.frames[-1].tu, n['t'])
        return v

    def e_Full(self, n):
        return self.full(lambda: self.ev(n['e']))

    def e_Int(self, n):
        return ('int', n['v'])

    def e_Bool(self, n):
        return B(n['v'])

    def e_Str(self, n):
        return self.box(('str', n['v'])) if n.get('lv') else ('str', n['v'])

    def e_Float(self, n):
        return ('float', self.uid())

    def e_Null(self, n):
        return NULL

    def e_ValueInit(self, n):
        t = self.frames[-1].tu.t(n['t'])
        if t.get('k') in ('int', 'enum'):
            return ('int', 0)
        if t.get('k') == 'bool':
            return FALSE
        if t.get('k') in ('ptr', 'nullptr', 'memptr'):
            return NULL
        return ('vinit', t['s'])

    def e_This(self, n):
        fr = self.frames[-1]
        if self.track and fr.this is not None and self.track(fr.this):
            self.log('use_this', loc=fr.this)
        return ('ptr', fr.this) if fr.this is not None and fr.this[0] != 'deref' else (fr.this[1] if fr.this else ('unk', 'this', 0))

    def e_Temp(self, n):
        fr = self.frames[-1]
        v = self.ev(n['e'])
        if is_loc(v):
            return v
        if v is None:
            v = ('void',)
        l = self.box(v)
        if v[0] == 'obj' and is_loc(v[1]):
            l = v[1]
        if self.temps and l[0] in ('tmp', 'heap', 'var') and l[0] == 'tmp':
            if not any(l == x[0] for lst in self.temps for x in lst):
                self.temps[-1].append((l, fr.tu, n['t']))
        return l

    def lookup(self, d):
        fr = self.frames[-1]
        return fr.env.get(d)

    def e_Ref(self, n):
        dk = n['dk']
        fr = self.frames[-1]
        if dk == 'enum':
            return ('int', n['v'])
        if dk == 'fn':
            f = n['f']
            return ('fnref', f['qn'], tuple(fr.tu.ts(p) for p in f.get('pt', [])), _Opaque(f, fr.tu))
        if dk == 'binding':
            l = self.lookup(n['d'])
            if l is not None:
                return l
            if n.get('b'):
                return self.ev(n['b'])
        l = self.lookup(n['d'])
        if l is not None:
            if self.track and self.track(l):
                self.log('use_var', loc=l, name=n['n'])
            return l
        if n['n'] == '__promise' and getattr(fr, 'promise', None) is not None:
            return fr.promise
        if dk == 'global':
            if 'cv' in n:
                return self.box(('int', n['cv'])) if n.get('lv') else ('int', n['cv'])
            loc = ('static', n.get('qn') or n['n'], 0)
            if loc not in self.typ and 't' in n:
                self.typ[loc] = fr.tu.t(n['t'])
            return loc
        if 'cv' in n:
            return self.box(('int', n['cv']))
        return ('static', n['n'], n['d'])

    def e_Member(self, n):
        if n.get('staticvar'):
            self.ev(n['base'])
            if 'cv' in n:
                return ('int', n['cv']) if not n.get('lv') else self.box(('int', n['cv']))
            return ('static', n['qn'], 0)
        b = self.ev(n['base'])
        if n.get('f'):
            return ('memref', n['f']['qn'], b, _Opaque(n['f'], self.frames[-1].tu))
        if n['arrow']:
            if is_loc(b):
                b = self.read(b)
            loc = ('fld', self.deref(b), n['n'])
        else:
            if not is_loc(b):
                b = b[1] if b[0] == 'obj' else ('cell', b)
            loc = ('fld', b, n['n'])
        if loc not in self.typ:
            self.typ[loc] = self.frames[-1].tu.t(n['t'])
        if loc[1][0] == 'cell' and not n.get('lv'):
            return self.read(loc)
        # a reference member denotes its referent
        m = self.mem.get(loc)
        if m is not None and m[0] == 'refto':
            if self.dead:
                self.touch(loc, 'read')
            return m[1]
        return loc

    def e_Subscript(self, n):
        a = self.ev(n['a'])
        i = self.rv(n['b'])
        return ('elem', a if is_loc(a) else ('cell', a), i)

    def e_Cast(self, n):
        ck = n['ck']
        v = self.ev(n['e'])
        fr = self.frames[-1]
        if ck == 'LValueToRValue':
            return self.read(v) if is_loc(v) else v
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return NULL
        if ck == 'ToVoid':
            return ('void',)
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            if is_loc(v):
                v = self.read(v)
            if v[0] in ('bool', 'int', 'null'):
                return B(const_of(v) != 0)
            if v[0] in ('cmp', 'not', 'has'):
                return v
            return ('not', ('not', v))
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            if is_loc(v):
                v = self.read(v)
            if 'cv' in n and const_of(v) is not None:
                return ('int', n['cv'])
            if v[0] == 'bool':
                return ('int', int(v[1]))
            return v
        if ck in ('ArrayToPointerDecay',):
            return ('ptr', v) if is_loc(v) else v
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return v
        if ck == 'Dynamic':
            return v
        if n.get('dyn'):
            return v
        return v

    def e_Opaque(self, n):
        fr = self.frames[-1]
        key = n['d']
        if key in fr.opaque:
            return fr.opaque[key]
        if n.get('e'):
            v = self.ev(n['e'])
        else:
            v = ('unk', 'opaque', key)
        fr.opaque[key] = v
        return v

    def e_StmtExpr(self, n):
        self.st(n['s'])
        return ('unk', 'stmtexpr', self.uid())

    def e_Unary(self, n):
        op = n['op']
        if op == '&':
            e = n['e']
            if e['k'] == 'Ref' and e['dk'] == 'fn':
                f = e['f']
                return ('memfn', f['qn'], tuple(self.frames[-1].tu.ts(p) for p in f.get('pt', [])), _Opaque(f, self.frames[-1].tu))
            if e['k'] == 'Ref' and e['dk'] == 'field':
                return ('memptr', e.get('qn'))
            v = self.ev(e)
            if is_loc(v):
                return self.addr(v)
            return v
        if op == '*':
            v = self.rv(n['e'])
            return self.deref(v)
        if op == '!':
            v = self.rv(n['e'])
            if v[0] in ('bool', 'int', 'null'):
                return B(const_of(v) == 0)
            return ('not', v)
        if op in ('++', '--'):
            l = self.ev(n['e'])
            old = self.read(l)
            new = self.arith('+' if op == '++' else '-', old, ('int', 1))
            self.write(l, new)
            return (old if n.get('post') else (l if n.get('lv') else new))
        v = self.rv(n['e'])
        if op == '-':
            c = const_of(v)
            if c is not None and v[0] == 'int':
                return ('int', -c)
            return ('neg', v)
        if op == '+':
            return v
        if op == '__extension__':
            return v
        if op == 'co_await':
            return v
        return ('un', op, v)

    def arith(self, op, a, b):
        ca, cb = const_of(a), const_of(b)
        if ca is not None and cb is not None:
            try:
                return ('int', {'+': ca + cb, '-': ca - cb, '*': ca * cb, '&': ca & cb, '|': ca | cb, '^': ca ^ cb}[op])
            except KeyError:
                if op == '/' and cb:
                    return ('int', int(ca / cb))
                if op == '%' and cb:
                    return ('int', ca - int(ca / cb) * cb)
                if op == '<<':
                    return ('int', ca << cb)
                if op == '>>':
                    return ('int', ca >> cb)
        if op in ('+', '-'):
            if cb is not None:
                k = cb if op == '+' else -cb
                return self.lin(a, k)
            if ca is not None and op == '+':
                return self.lin(b, ca)
            if op == '-' and a == b:
                return ('int', 0)
        if op == '*' and cb == 1:
            return a
        if op == '/' and cb == 1:
            return a
        if op in ('+', '*', '&', '|', '^'):
            a, b = sorted((a, b), key=repr)
        return ('bin', op, a, b)

    def lin(self, a, k):
        if a[0] == 'lin':
            k += a[2]
            a = a[1]
        return a if k == 0 else ('lin', a, k)

    def e_Binary(self, n):
        op = n['op']
        if op == '&&':
            if not self.cond(n['a']):
                return FALSE
            v = self.rv(n['b'])
            return v if v[0] in ('bool', 'not', 'cmp', 'has') else ('not', ('not', v))
        if op == '||':
            if self.cond(n['a']):
                return TRUE
            v = self.rv(n['b'])
            return v if v[0] in ('bool', 'not', 'cmp', 'has') else ('not', ('not', v))
        if op == ',':
            self.ev(n['a'])
            return self.ev(n['b'])
        if op == '=':
            v = self.rv(n['b'])
            l = self.ev(n['a'])
            self.write(l, v)
            return l
        if op in ('.*', '->*'):
            a = self.rv(n['a']) if op == '->*' else self.ev(n['a'])
            b = self.rv(n['b'])
            return ('memacc', a, b)
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            l = self.ev(n['a'])
            b = self.rv(n['b'])
            v = self.arith(op[:-1], self.read(l), b)
            self.write(l, v)
            return l
        a = self.rv(n['a'])
        b = self.rv(n['b'])
        if op in ('==', '!=', '<', '>', '<=', '>='):
            ca, cb = const_of(a), const_of(b)
            if ca is not None and cb is not None:
                return B(self.cmp(op, a, b))
            return ('cmp', op, a, b)
        if op == '<=>':
            return ('ord', a, b)
        return self.arith(op, a, b)

    def e_Cond(self, n):
        return self.ev(n['a'] if self.cond(n['c']) else n['b'])

    def e_Elvis(self, n):
        v = self.ev(n['a'])
        x = self.read(v) if is_loc(v) else v
        return v if self.truth(x) else self.ev(n['b'])

    def e_InitList(self, n):
        return self.init_list(n, None)

    def init_list(self, n, target):
        fr = self.frames[-1]
        t = fr.tu.t(n['t'])
        r = self.rec_of(fr.tu, n['t'])
        if r is not None and 'fields' in r and not r.get('lambda'):
            loc = target if target is not None else self.newloc('tmp', 'agg')
            nb = len(r.get('bases', []))
            args = n['args']
            for i, f in enumerate(r['fields']):
                if nb + i < len(args):
                    self.init_field(('fld', loc, f['n']), args[nb + i], r, f)
            self.dyn[loc] = r
            return ('obj', loc)
        if t.get('k') in ('ptr', 'nullptr') and not n['args']:
            return NULL
        if t.get('k') in ('int', 'enum', 'bool') and len(n['args']) <= 1:
            return self.rv(n['args'][0]) if n['args'] else (FALSE if t['k'] == 'bool' else ('int', 0))
        return ('list',) + tuple(self.rv(a) for a in n['args'])

    def init_field(self, loc, e, r, f):
        fr = self.frames[-1]
        t = r['tu'].t(f['t'])
        if t.get('ref'):
            v = self.ev(e)
            self.mem[loc] = ('refto', v if is_loc(v) else self.box(v))
        else:
            self.init_loc(loc, e, e['t'])

    def e_Lambda(self, n):
        fr = self.frames[-1]
        u = self.uid()
        env = {}
        this = fr.this
        caps = []
        for c in n['caps']:
            if c['k'] == 'this':
                caps.append(('this', ('ptr', fr.this)))
                if self.track and fr.this is not None and self.track(fr.this):
                    self.log('use_this', loc=fr.this)
            elif c['k'] == 'starthis':
                l = self.newloc('heap', 'starthis')
                self.copy_obj(fr.this, l)
                this = l
                caps.append(('starthis', fr.this))
            elif c['k'] == 'ref':
                l = self.ev(c['e'])
                if not is_loc(l):
                    l = self.box(l)
                env[c['d']] = l
                caps.append(('ref', l, c['n']))
            elif c['k'] == 'copy':
                t = fr.tu.t(c['t'])
                l = ('heap', 'cap_' + c['n'], self.uid())
                self.typ[l] = t
                v = self.ev(c['e'])
                if is_loc(v):
                    v = self.read_obj(v, fr.tu, c['e']['t'])
                if v[0] == 'obj' and is_loc(v[1]) and self.is_repo_rec(fr.tu, c['e']['t']):
                    l = v[1]
                else:
                    self.mem[l] = v
                env[c['d']] = l
                caps.append(('copy', l, c['n'], self.mem.get(l, ('obj', l))))
        cl = ('clo', u)
        self.clos[u] = dict(node=n, tu=fr.tu, env=env, this=this, caps=caps, fn=fr.fn, line=n.get('l', 0), outer=dict(fr.env))
        return cl

    def e_New(self, n):
        fr = self.frames[-1]
        loc = ('heap', fr.tu.ts(n['at']), self.uid())
        self.log('new', loc=loc, type=fr.tu.ts(n['at']))
        if n.get('init'):
            if self.is_repo_rec(fr.tu, n['at']):
                self.ev_obj(n['init'], loc)
            else:
                self.new_ext(loc, n['init'])
        return ('ptr', loc)

    def new_ext(self, loc, init):
        if init['k'] == 'Construct':
            args = [self.argval(a, self.ev(a)) for a in init['args']]
            self.log('construct', type=init['f']['rqn'], loc=loc, args=args)
            self.mem[loc] = ('obj', loc)
            self.typ[loc] = self.frames[-1].tu.t(init['t'])
        else:
            v = self.rv(init)
            self.mem[loc] = v

    def e_Delete(self, n):
        fr = self.frames[-1]
        v = self.rv(n['e'])
        t = fr.tu.t(n['e']['t'])
        self.delete_ptr(v, fr.tu, t.get('to'), 'delete')
        return ('void',)

    def e_Throw(self, n):
        if n['e'] is None:
            v = self.curexc[-1] if self.curexc else ('exc', 'cur', 'other')
            self.log('rethrow', exc=v)
            raise ThrowExc(v)
        v = self.rv(n['e'])
        s = self.frames[-1].tu.ts(n['e']['t'])
        x = ('exc', ('thrown', v), 'std' if 'exception' in s or 'error' in s else s)
        self.log('throw', exc=x)
        raise ThrowExc(x)

    def e_CoYield(self, n):
        e = n['e']
        v = self.yield_operand(n)
        self.log('yield', val=v)
        if self.yield_hook:
            self.yield_hook(self, v, n)
        self.suspend()
        return ('void',)

    def yield_operand(self, n):
        # operand is promise.yield_value(expr)
        e = n['e']
        while e['k'] in ('Full', 'Temp', 'Cast'):
            e = e['e']
        if e['k'] == 'Call' and e['args']:
            return self.argval(e['args'][0], self.ev(e['args'][0]))
        return self.argval(e, self.ev(e))

    def suspend(self):
        self.susp += 1
        self.epoch += 1

    # awaiting ---------------------------------------------------------
    def e_CoAwait(self, n):
        fr = self.frames[-1]
        e = n['e']
        if self.stage_hook:
            r = self.stage_hook(self, n)
            if r is not None:
                return self.awaited(n, r)
        inner = e
        while inner['k'] in ('Full', 'Temp') or (inner['k'] == 'Cast' and not inner.get('conv')) or (inner['k'] == 'Call' and inner.get('f') and inner['f']['n'] == 'move' and inner['f']['qn'] == 'std::move'):
            inner = inner['args'][0] if inner['k'] == 'Call' else inner['e']
        if inner['k'] == 'Call' and inner.get('f'):
            r = self.await_call(n, inner)
            if r is not None:
                return self.awaited(n, r[0])
        v = self.argval(e, self.ev(e))
        if v[0] == 'coro' and self.await_coro_value(v):
            return self.awaited(n, self.run_coro_value(v))
        return self.awaited(n, self.do_await(v, n))

    def awaited(self, n, v):
        if n.get('lv'):
            return v if is_loc(v) else self.box(v)
        return v

    def await_call(self, n, call):
        f = call['f']
        fn, recv = self.resolve(call)
        if fn is None or fn.body is None:
            return None
        if self.opaque_fn(self, f):
            return None
        if fn.d.get('coro'):
            obj = self.eval_recv(call, fn)
            args = self.eval_args(call, fn)
            fn2 = self.virt(fn, f, obj, call)
            if fn2 is None:
                return None
            self.log('enter', fn=fn2.qn)
            return (self.call_fn(fn2, obj, args),)
        return None

    def await_coro_value(self, v):
        return True

    def run_coro_value(self, v):
        _, fnw, this, args = v
        return self.call_fn(fnw.x, this, list(args))

    def do_await(self, v, n=None):
        fr = self.frames[-1]
        rt = fr.tu.t(n['t']) if n else {'k': 'void'}
        ev = self.log('await', val=v, type=fr.tu.ts(n['e']['t']) if n else None, rtype=rt['s'] if n else None, susp=self.susp)
        if self.await_hook:
            r = self.await_hook(self, v, n, fr.tu)
            if r is not None:
                return r
        self.suspend()
        if rt.get('k') == 'void':
            return ('void',)
        return ('awaited', ev.i, v)

    # calls ------------------------------------------------------------
    def argval(self, node, v):
        """Value of an argument for logging / opaque calls: contents for value types, identity for objects."""
        if not is_loc(v):
            return v
        fr = self.frames[-1]
        t = fr.tu.t(node['t']) if node is not None else {}
        if t.get('qobj') or (node is not None and self.is_repo_rec(fr.tu, node['t'])):
            m = self.mem.get(v)
            if m is not None and m[0] == 'obj' and is_loc(m[1]):
                return ('obj', m[1])
            return ('obj', v)
        return self.read(v)

    def resolve(self, n):
        f = n['f']
        fr = self.frames[-1]
        if not f.get('repo'):
            return None, None
        return self.prog.fn(f, fr.tu), None

    def eval_recv(self, n, fn=None):
        if 'obj' not in n:
            return None
        o = self.ev(n['obj'])
        if n.get('arrow'):
            if is_loc(o):
                o = self.read(o)
            return self.deref(o)
        if not is_loc(o):
            if o[0] == 'obj' and is_loc(o[1]):
                return o[1]
            return ('cell', o) if o[0] not in ('clo', 'bound') else o
        m = self.mem.get(o)
        if m is not None and m[0] == 'obj' and is_loc(m[1]):
            return m[1]
        return o

    def eval_args(self, n, fn=None):
        out = []
        fr = self.frames[-1]
        pt = n['f'].get('pt', []) if n.get('f') else []
        for i, a in enumerate(n['args']):
            v = self.ev(a)
            byref = i < len(pt) and fr.tu.t(pt[i]).get('ref')
            if is_loc(v) and not byref and i < len(pt):
                v = self.read_obj(v, fr.tu, a['t'])
            out.append(v)
        return out

    def virt(self, fn, f, obj, n):
        """Resolve a virtual call; None if the dynamic type is unknown and may differ."""
        if not f.get('virt') or n.get('qual'):
            return fn
        r = self.dyn.get(obj)
        if r is not None:
            m = self.find_override(r, f, self.frames[-1].tu)
            if m:
                g = self.prog.fn(m[0], m[1])
                if g is not None:
                    return g
            return fn
        return None

    def e_Call(self, n):
        self.stats['calls'] += 1
        f = n.get('f')
        fr = self.frames[-1]
        if 'durns' in n and not n.get('lv') and f is not None:
            u = dur_unit(fr.tu.types[n['t']]['s'])
            return ('D', u, ('int', n['durns'] // u))
        if f is None:
            return self.call_unknown(n)
        name = f['qn']
        short = f['n']
        key = (f.get('rqn', '') + '::' + short) if f.get('rqn') else name
        # closures
        if f.get('lambda') and n.get('op') == '()':
            o = self.ev(n['obj'])
            c = self.read(o) if is_loc(o) else o
            args = self.eval_args(n)
            if c[0] == 'clo':
                return self.invoke(c, args, f)
            return self.opaque_call(n, f, o, args)
        from models import MODELS, GENERIC
        m = MODELS.get(key) or MODELS.get(name)
        if m is not None:
            r = m(self, n, f)
            if r is not NotImplemented:
                return r
        for pat, g in GENERIC:
            if pat.match(key):
                r = g(self, n, f)
                if r is not NotImplemented:
                    return r
        fn, _ = self.resolve(n)
        # implicit/defaulted assignment operators of repo records
        if f.get('repo') and short == 'operator=' and f.get('defaulted') and (fn is None or fn.body is None or f.get('defaulted')):
            obj = self.eval_recv(n)
            a = self.ev(n['args'][0])
            src = a if is_loc(a) else (a[1] if a[0] == 'obj' else self.box(a))
            ot = fr.tu.t(n['obj']['t'])
            r = self.rec_of(fr.tu, n['obj']['t'] if not n.get('arrow') else ot.get('to', -1)) if not n.get('arrow') or 'to' in ot else None
            self.assign_obj(src, obj, r, '&&' in fr.tu.ts(f['pt'][0]))
            return obj
        if fn is not None and fn.body is not None and not self.opaque_fn(self, f):
            obj = self.eval_recv(n, fn)
            args = self.eval_args(n, fn)
            fn2 = self.virt(fn, f, obj, n)
            if fn2 is not None and fn2.body is not None:
                if self.call_hook:
                    r = self.call_hook(self, fn2, obj, args)
                    if r is not None:
                        return r
                if fn2.d.get('coro'):
                    return self.spawn(fn2, obj, args, n)
                r = self.call_fn(fn2, obj, args)
                return self.fix_result(n, r)
            return self.opaque_call(n, f, obj, args)
        obj = self.eval_recv(n)
        args = self.eval_args(n)
        if f.get('virt') and not n.get('qual') and is_loc(obj) and obj in self.dyn:
            # a virtual function of a Qt class, overridden in the library
            fn2 = self.virt(None, f, obj, n)
            if fn2 is not None and fn2.body is not None:
                if fn2.d.get('coro'):
                    return self.spawn(fn2, obj, args, n)
                return self.fix_result(n, self.call_fn(fn2, obj, args))
        return self.opaque_call(n, f, obj, args)

    def fix_result(self, n, r):
        if n.get('lv'):
            return r if is_loc(r) else self.box(r if r is not None else ('void',))
        if r is None:
            return ('void',)
        if is_loc(r):
            return self.read_obj(r, self.frames[-1].tu, n['t'])
        return r

    def spawn(self, fn, obj, args, n):
        if self.spawn_hook:
            r = self.spawn_hook(self, fn, obj, args, n)
            if r is not None:
                return r
        vals = []
        for p, a in zip(fn.params, args):
            t = fn.tu.t(p['t'])
            if not t.get('ref') and is_loc(a):
                a = self.read_obj(a, fn.tu, p['t'])
            vals.append(a)
        self.log('spawn', fn=fn.qn, args=tuple(vals), fnobj=_Opaque(fn, fn.tu), this=obj)
        return ('coro', _Opaque(fn, fn.tu), obj, tuple(vals))

    def call_unknown(self, n):
        if n.get('pmf'):
            o = self.ev(n['obj'])
            p = self.rv(n['pmf'])
            o = self.read(o) if is_loc(o) and n.get('arrow') else o
            args = [self.argval(a, self.ev(a)) for a in n['args']]
            if is_loc(o):
                o = ('obj', o)
            return self.pmf_call(n, p, self.strip(o) if n.get('arrow') else o, args)
        c = self.ev(n['callee'])
        if is_loc(c):
            c = self.read(c)
        if c[0] == 'memacc':
            args = [self.argval(a, self.ev(a)) for a in n['args']]
            return self.pmf_call(n, c[2], self.strip(c[1]) if not is_loc(c[1]) else ('obj', c[1]), args)
        args = [self.ev(a) for a in n['args']]
        if c[0] in ('clo', 'bound'):
            return self.invoke(c, args, None)
        return self.user_call(n, c, [self.argval(x, a) for x, a in zip(n['args'], args)])

    def pmf_call(self, n, p, o, args):
        loc = o[1] if o[0] in ('obj', 'ptr') else None
        if loc is not None:
            self.touch(loc, 'call through a member pointer')
        if p[0] == 'memfn' and not p[1].startswith('h::'):
            fw = p[3]
            fn = self.prog.fn(fw.x, fw.tu)
            if fn is not None and fn.body is not None:
                r = self.invoke(p, [o] + args)
                return self.fix_result(n, r)
            if loc is not None:
                return self.fix_result(n, self.lib_memfn(p, loc, args))
        return self.user_call(n, p, [o] + args)

    def user_call(self, n, callee, args):
        e = self.log('usercall', callee=callee, args=tuple(args))
        if self.user_throws:
            if self.choose(('throws', 'user', e.i), [False, True]):
                kind = self.choose(('exckind', e.i), ['std', 'other'])
                x = ('exc', ('user', e.i), kind)
                raise ThrowExc(x)
        self.epoch += 1
        t = self.frames[-1].tu.t(n['t']) if n is not None else {'k': 'void'}
        v = ('ures', e.i) if t.get('k') != 'void' else ('void',)
        return self.box(v) if n is not None and n.get('lv') else v

    def resume_handle(self, h):
        self.log('resume', h=h)
        if h[0] == 'handle' and h[1] in self.dead:
            self.log('uaf', loc=h[1], dead=h[1], how='resume of a destroyed coroutine')
        if h != ('noop',):
            self.epoch += 1
            self.suspended_by_resume(h)
        return ('void',)

    def lib_memfn(self, p, loc, args):
        """Call a member function without a body (of a library, or a signal) through a pointer to it."""
        fw = p[3]
        vals = tuple(self.read(a) if is_loc(a) else a for a in args)
        recv = ('obj', loc)
        if self.env_hook:
            r = self.env_hook(self, p[1], recv, vals, dict(fw.x, _tu=fw.tu))
            if r is not None:
                self.log('query' if fw.x.get('const') else 'call', name=p[1], recv=recv, args=vals, f=fw.x, tu=fw.tu, res=r)
                return r
        e = self.log('call', name=p[1], recv=recv, args=vals)
        return ('res', e.i, p[1])

    def invoke(self, c, args, f=None):
        """Call a closure / bound function value."""
        if c[0] in ('handle', 'noop'):
            return self.resume_handle(c)
        if c[0] == 'clo':
            cl = self.clos[c[1]]
            fn = None
            tu = cl['tu']
            if f is not None:
                fn = self.prog.fn(f, self.frames[-1].tu if self.frames else tu)
                if fn is None or fn.body is None:
                    fn = None
            if fn is None:
                ops = [tu.fns[o] for o in cl['node']['ops'] if o in tu.fns and tu.fns[o].body is not None]
                cand = [g for g in ops if len(g.params) == len(args)]
                if not cand:
                    cand = [g for g in ops if len(g.params) <= len(args)]
                if not cand:
                    raise ToolError('cannot resolve closure call at line %d of %s' % (cl['line'], tu.src))
                fn = cand[0]
            env = dict(cl['outer'])
            env.update(cl['env'])
            args = args[:len(fn.params)]
            if fn.d.get('coro'):
                if self.spawn_hook:
                    r = self.spawn_hook(self, fn, cl['this'], args, None)
                    if r is not None:
                        return r
                if hasattr(self, 'spawn_fiber'):
                    return self.spawn_fiber(fn, cl['this'], args, env)
                self.log('spawn', fn=fn.qn, args=tuple(args), closure=c, fnobj=_Opaque(fn, fn.tu), this=cl['this'])
                return ('coro', _Opaque(fn, fn.tu), cl['this'], tuple(args))
            self.log('invoke', callee=c)
            return self.call_fn(fn, cl['this'], args, env) or ('void',)
        if c[0] == 'bound':
            _, fv, bargs = c
            full = []
            for a in bargs:
                if a == ('placeholder', '*'):
                    full += list(args)
                elif a[0] == 'placeholder':
                    if a[1] > len(args):
                        raise ToolError('a bound function is called with too few arguments')
                    full.append(args[a[1] - 1])
                else:
                    full.append(a)
            return self.invoke(fv, full, None)
        if c[0] == 'memfn':
            fw = c[3]
            fn = self.prog.fn(fw.x, fw.tu)
            if fn is not None and fn.body is not None:
                o = args[0]
                loc = self.deref(o) if not is_loc(o) else o
                r = self.dyn.get(loc)
                if r is not None and fw.x.get('virt'):
                    m = self.find_override(r, fw.x, fw.tu)
                    if m:
                        fn = self.prog.fn(m[0], m[1]) or fn
                return self.call_fn(fn, loc, list(args[1:])) or ('void',)
            loc = self.deref(args[0]) if not is_loc(args[0]) else args[0]
            self.touch(loc, 'call of ' + c[1])
            return self.lib_memfn(c, loc, args[1:])
        if c[0] == 'fnref':
            fw = c[3]
            fn = self.prog.fn(fw.x, fw.tu)
            if fn is not None and fn.body is not None:
                return self.call_fn(fn, None, args) or ('void',)
        return self.user_call(None, c, [self.read(a) if is_loc(a) else a for a in args])

    PURE = re.compile(r'^(std::|QtPrivate|Qt::|q[A-Z]|QDebug|QMessageLogger|operator|__builtin)')

    def recv_value(self, n, obj):
        """Receiver as a value: identity for objects, contents for values."""
        if obj is None:
            return None
        if not is_loc(obj):
            return obj
        fr = self.frames[-1]
        t = fr.tu.t(n['obj']['t'])
        if n.get('arrow'):
            t = fr.tu.t(t.get('to')) if t.get('to') is not None else t
        if t.get('qobj'):
            return ('obj', obj)
        if obj[0] == 'cell':
            return obj[1]
        if obj in self.mem:
            return self.mem[obj] if self.mem[obj][0] != 'obj' else ('obj', self.mem[obj][1])
        if obj[0] in ('var', 'tmp', 'fld'):
            return self.read(obj)
        return ('obj', obj)

    def opaque_call(self, n, f, obj, args):
        fr = self.frames[-1]
        recv = None
        if 'obj' in n:
            if self.dead and is_loc(obj):
                self.touch(obj, 'call of ' + f['qn'])
            recv = self.recv_value(n, obj)
        vals = tuple(self.argval(a, v) for a, v in zip(n['args'], args)) if n['args'] else ()
        const = f.get('const') or f.get('static') or not f.get('rqn')
        rt = fr.tu.t(n['t'])
        name = f['qn']
        if self.env_hook:
            r = self.env_hook(self, name, recv, vals, f)
            if r is not None:
                self.log('query' if f.get('const') else 'call', name=name, recv=recv, args=vals, f=f, tu=fr.tu, res=r)
                return self.box(r) if n.get('lv') and not is_loc(r) else r
        identity = recv is not None and recv[0] in ('obj', 'param', 'init', 'deref', 'ptr', 'awaited', 'res')
        if const and f.get('const') and recv is not None:
            v = ('call', name, recv, vals) + ((self.epoch,) if identity else ())
            self.log('query', name=name, recv=recv, args=vals, f=f, res=v)
            if rt['s'].startswith('std::chrono::duration'):
                v = self.as_dur(v, dur_unit(rt['s']))
            return self.box(v) if n.get('lv') else v
        e = self.log('call', name=name, recv=recv, args=vals, f=f, tu=fr.tu, repo=f.get('repo'), virt=f.get('virt'))
        if name.startswith('h::') and self.user_throws:
            if self.choose(('throws', name, e.i), [False, True]):
                kind = self.choose(('exckind', e.i), ['std', 'other'])
                raise ThrowExc(('exc', ('user', e.i), kind))
        if not const or not self.PURE.match(name):
            self.epoch += 1
        if recv is not None and is_loc(obj) and obj in self.mem and self.mem[obj][0] != 'obj' and not f.get('const'):
            self.mem[obj] = ('mut', name, self.mem[obj], e.i)
        if f.get('noreturn'):
            from models import undefined
            undefined(self, 'the program is terminated (%s)' % name)
        if rt.get('k') == 'void':
            return ('void',)
        v = ('res', e.i, name)
        if rt['s'].startswith('std::chrono::duration'):
            v = self.as_dur(v, dur_unit(rt['s']))
        return self.box(v) if n.get('lv') else v

    # construction -------------------------------------------------------
    def e_Construct(self, n):
        return self.construct(n, None)

    def construct(self, n, target):
        fr = self.frames[-1]
        f = n['f']
        t = fr.tu.t(n['t'])
        r = self.rec_of(fr.tu, n['t'])
        args = n['args']
        if r is not None and r.get('lambda'):
            v = self.ev(args[0]) if args else ('unk', 'lambda', 0)
            return self.read(v) if is_loc(v) else v
        if r is not None and 'fields' in r:
            # elided copies
            if (n.get('copy') or n.get('move')) and args:
                a0 = args[0]
                if not a0.get('lv'):
                    v = self.ev_obj(a0, target) if target is not None else self.ev(a0)
                    return v if not is_loc(v) else ('obj', v)
                if n.get('elide'):
                    v = self.ev(a0)
                    if is_loc(v):
                        for lst in self.temps:
                            for it in list(lst):
                                if it[0] == v:
                                    lst.remove(it)
                        return ('obj', v) if self.mem.get(v, ('obj',))[0] == 'obj' or v not in self.mem else self.mem[v]
            loc = target if target is not None else self.newloc('tmp', r['n'])
            fn = self.prog.fn(f, fr.tu)
            usercode = fn is not None and fn.body is not None and not f.get('defaulted')
            if usercode or (fn is not None and fn.d.get('inits') and not (n.get('copy') or n.get('move'))):
                if n.get('inherited'):
                    a = [fr.env.get(d) for d in (fr.fn.d.get('pids') or [p['d'] for p in fr.fn.params])]
                else:
                    a = self.eval_args(n)
                self.dyn.setdefault(loc, r) if target is None or loc not in self.dyn else None
                self.dyn_set(loc, r, target)
                self.log('ctor', type=t['s'], loc=loc, args=tuple(self.argval(x, v) if i < len(args) else v for i, (x, v) in enumerate(zip(list(args) + [None] * (len(a) - len(args)), a))))
                self.call_fn(fn, loc, a)
                return ('obj', loc)
            if (n.get('copy') or n.get('move')) and args:
                v = self.ev(args[0])
                src = v if is_loc(v) else (v[1] if v[0] == 'obj' else None)
                if src is None:
                    return v
                m = self.mem.get(src)
                if m is not None and m[0] not in ('obj',):
                    if target is not None:
                        self.mem[target] = m
                    return m
                if m is not None and m[0] == 'obj' and is_loc(m[1]):
                    src = m[1]
                self.dyn_set(loc, r, target)
                self.copy_obj(src, loc, r, bool(n.get('move')))
                return ('obj', loc)
            self.dyn_set(loc, r, target)
            if n.get('inherited'):
                # inheriting constructor: forwards to the base constructor with the same parameters
                return ('obj', loc)
            for rr, fd in self.all_fields(r):
                self.default_field(loc, rr, fd)
            return ('obj', loc)
        from models import construct_ext
        return construct_ext(self, n, f, t, target)

    def dyn_set(self, loc, r, target):
        # most derived wins; constructors of bases run with target == this of the derived object
        cur = self.dyn.get(loc)
        if cur is None or not self.derives(cur, r):
            self.dyn[loc] = r

    def derives(self, r, b):
        if r is b or r['qn'] == b['qn']:
            return True
        return any(self.derives(x, b) for x in self.bases(r))

    def default_field(self, loc, r, fd):
        l = ('fld', loc, fd['n'])
        tu = r['tu']
        t = tu.t(fd['t'])
        if fd.get('init') is not None:
            fr = Frame(None, tu, loc, {})
            fr.fn = _NoFn
            fr.scopes.append([])
            self.frames.append(fr)
            try:
                self.init_loc(l, fd['init'], fd['t'])
            finally:
                self.frames.pop()
            return
        from models import default_value
        v = default_value(t)
        if v is not None:
            self.mem[l] = v

    def copy_obj(self, src, dst, r=None, move=False):
        if r is None:
            for k in list(self.mem):
                if k[0] == 'fld' and k[1] == src:
                    self.mem[('fld', dst, k[2])] = self.mem[k]
            return
        for b in self.bases(r):
            cc = self.copy_ctor(b, move)
            if cc is not None:
                self.call_fn(cc, dst, [src])
            else:
                self.copy_obj(src, dst, b, move)
        for fd in r.get('fields', []):
            s = ('fld', src, fd['n'])
            d = ('fld', dst, fd['n'])
            tu = r['tu']
            sub = self.rec_of(tu, fd['t'])
            if sub is not None and 'fields' in sub and not sub.get('lambda'):
                cc = self.copy_ctor(sub, move)
                if cc is not None:
                    self.call_fn(cc, d, [s])
                else:
                    self.copy_obj(s, d, sub, move)
                self.dyn[d] = sub
                continue
            v = self.read(s)
            self.mem[d] = v
            self.typ[d] = tu.t(fd['t'])
            if move:
                from models import moved_from
                mv = moved_from(tu.t(fd['t'])['s'], v)
                if mv is not None:
                    self.mem[s] = mv

    def ctors(self, r):
        for m in r.get('methods', []):
            g = self.prog.fn(m, r['tu'])
            if g is not None and g.d.get('kind') == 'ctor':
                yield g

    def copy_ctor(self, r, move):
        """User-provided copy/move constructor of r, if any."""
        best = None
        for g in self.ctors(r):
            if g.d.get('movector' if move else 'copyctor') and g.body is not None and not g.d.get('defaulted'):
                return g
            if move and g.d.get('copyctor') and g.body is not None and not g.d.get('defaulted'):
                best = g
        if best is not None and not any(g.d.get('movector') for g in self.ctors(r)):
            return best
        return None

    def copy_ctor_any(self, src, dst, r, move):
        g = self.copy_ctor(r, move)
        if g is not None:
            self.call_fn(g, dst, [src])
        else:
            self.copy_obj(src, dst, r, move)

    def suspended_by_resume(self, h):
        if self.resume_hook:
            self.resume_hook(self, h)

    def assign_obj(self, src, dst, r, move):
        if r is None:
            r = self.dyn.get(dst) or self.dyn.get(src)
        if r is None:
            self.mem[dst] = self.mem.get(src, ('obj', src))
            return
        for b in r.get('bases', []):
            br = self.rec_of(r['tu'], b)
            if br is None:
                continue
            op = self.find_assign(br, move)
            if op is not None:
                self.call_fn(op, dst, [src])
            else:
                self.assign_obj(src, dst, br, move)
        for fd in r.get('fields', []):
            s = ('fld', src, fd['n'])
            d = ('fld', dst, fd['n'])
            tu = r['tu']
            sub = self.rec_of(tu, fd['t'])
            if sub is not None and 'fields' in sub and not sub.get('lambda'):
                op = self.find_assign(sub, move)
                if op is not None:
                    self.call_fn(op, d, [s])
                else:
                    self.assign_obj(s, d, sub, move)
                continue
            v = self.read(s)
            t = tu.t(fd['t'])
            if t['s'].startswith(('QSharedDataPointer<', 'QExplicitlySharedDataPointer<')):
                from models import sdp_drop
                old = self.read(d)
                self.write(d, v)
                if old != v:
                    sdp_drop(self, old, tu, (t.get('targs') or [None])[0])
            if t['s'].startswith('std::unique_ptr<'):
                self.delete_ptr(self.read(d), tu, (t.get('targs') or [None])[0], 'unique_ptr')
            self.write(d, v)
            if move:
                from models import moved_from
                mv = moved_from(t['s'], v)
                if mv is not None:
                    self.mem[s] = mv

    def find_assign(self, r, move):
        for m in r.get('methods', []):
            if m['n'] == 'operator=':
                g = self.prog.fn(m, r['tu'])
                if g is not None and g.body is not None and not g.d.get('defaulted') and (g.d.get('moveassign') if move else g.d.get('copyassign')):
                    return g
        return None


class _NF:
    qn = '(default member initialiser)'
    loc = '?:0'
    d = {'ret': -1}


_NoFn = _NF()


class _Opaque:
    """Hashable wrapper that compares equal to every other wrapper (identity carried elsewhere in the term)."""
    __slots__ = ('x', 'tu')

    def __init__(self, x, tu):
        self.x = x
        self.tu = tu

    def key(self):
        return getattr(self.x, 'usr', None) or (self.x.get('usr') or self.x.get('qn') if isinstance(self.x, dict) else None)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, _Opaque) and self.key() == o.key()

    def __repr__(self):
        return 'fn'


def dur_unit(s):
    """Unit in ns of a std::chrono::duration type."""
    m = re.search(r'duration<[^,<>]+(?:, (?:std::)?ratio<(\d+)(?:L)?(?:, (\d+)(?:L)?)?>)?>', s)
    if not m:
        return 1
    num = int(m.group(1) or 1)
    den = int(m.group(2) or 1)
    return num * 1000000000 // den if m.group(1) else 1000000000
