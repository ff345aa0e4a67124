"""Shared vocabulary of the rules: exploring scenarios, coroutine lifecycle and awaiter protocol stages, reporting."""
import os
import pickle
import re
import sys
import tempfile
import traceback
from facts import program, ToolError, NoSuchUse, REPO
import absint
from absint import (Interp, Ev, Frame, Path, fmt, is_loc, NULL, TRUE, FALSE, OPT0, B, StopPath, Abort, ThrowExc, _Opaque,
                    root_of, contains, const_of, dur_unit)
import models

P = None


def prog():
    global P
    if P is None:
        P = program()
    return P


class Check:
    """Collects obligations and violations of one property."""

    def __init__(self, pid, tier='quick'):
        self.pid = pid
        self.tier = tier
        self.P = prog()
        self.obl = 0
        self.rules = {}
        self.constructs = {}
        self.viol = []
        self.paths = 0
        self.fns = set()
        self.unknown = set()
        self.notes = []
        self.errors = []      # what could not be analysed
        self.jobs = []
        self.only = None      # judge scenarios of other rules under these rules only
        self.shallow = 0      # ... with so many events less
        self.detach = False   # discard the tasks of the awaiting coroutines as soon as they run
        self.poke = True      # ... and emit everything still connected afterwards
        self.values = None    # timeouts to try instead of those of the scenario

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # ---- jobs: each explores one scenario in a forked process, up to one per core at a time
    JOBS = min(8, os.cpu_count() or 1)

    def fork(self, job):
        if os.environ.get('QCORO_VERIF_NOFORK'):
            job()
            return
        while len([j for j in self.jobs if j['pid']]) >= self.JOBS:
            self.reap()
        out = tempfile.TemporaryFile()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid:
            self.jobs.append({'pid': pid, 'out': out})
            return
        st = 1
        try:
            self.obl, self.paths, self.rules, self.constructs, self.viol, self.fns, self.unknown, self.notes, self.errors = 0, 0, {}, {}, [], set(), set(), [], []
            try:
                job()
                r = ('ok', (self.obl, self.paths, self.rules, self.constructs, self.viol, self.fns, self.unknown, self.notes, self.errors))
            except BaseException as e:
                r = ('error', str(e) if isinstance(e, ToolError) else '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-8)))
            out.write(pickle.dumps(r))
            out.flush()
            st = 0
        finally:
            os._exit(st)

    def reap(self):
        pid, st = os.wait()
        for j in self.jobs:
            if j['pid'] == pid:
                j['pid'] = None
                j['st'] = st

    def join(self):
        """Collect the results of all jobs, in the order in which they were started."""
        while any(j['pid'] for j in self.jobs):
            self.reap()
        jobs, self.jobs = self.jobs, []
        for j in jobs:
            if j['st']:
                self.errors.append('an analysis process ended abnormally (status %d)' % j['st'])
                continue
            j['out'].seek(0)
            what, r = pickle.loads(j['out'].read())
            j['out'].close()
            if what != 'ok':
                self.errors.append(r)
                continue
            obl, paths, rules, constructs, viol, fns, unknown, notes, errors = r
            self.errors += errors
            self.obl += obl
            self.paths += paths
            for d, e in ((self.rules, rules), (self.constructs, constructs)):
                for k, v in e.items():
                    d[k] = d.get(k, 0) + v
            self.fns |= fns
            self.unknown |= unknown
            self.notes += notes
            for v in viol:
                if not any((w['rule'], w['construct'], w['what']) == (v['rule'], v['construct'], v['what']) for w in self.viol):
                    self.viol.append(v)

    def explore(self, label, scenario, **cfg):
        I = Interp(self.P, **cfg)
        ps = I.explore(scenario)
        self.paths += len(ps)
        self.fns |= I.stats['fns']
        self.unknown |= I.stats['unknown']
        self.constructs[label] = self.constructs.get(label, 0) + len(ps)
        self.problems(I, label, ps)
        return ps

    def problems(self, I, label, ps):
        self.errors += ['%s [%s]' % (e, label) for e in I.errors]
        if not ps and not I.errors:
            self.errors.append('no abstract path through ' + label)

    def req(self, cond, rule, construct, msg, path=None):
        """One obligation: `rule` on `construct` (a function, or text)."""
        self.obl += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if cond:
            return True
        where = where_of(construct)
        key = (rule, where[0], msg)
        for v in self.viol:
            if (v['rule'], v['construct'], v['what']) == key:
                return False
        self.viol.append({'rule': rule, 'construct': where[0], 'location': where[1], 'what': msg,
                          'path': trace(path) if path is not None else None})
        return False


def where_of(c):
    if isinstance(c, absint._Opaque):
        c = c.x
    if hasattr(c, 'qn'):
        return c.qn, c.loc
    if isinstance(c, tuple):
        return c
    return str(c), ''


def trace(p):
    if isinstance(p, Path):
        return {'end': p.end, 'result': fmt(p.result) if p.result is not None else None, 'exception': fmt(p.exc) if p.exc else None,
                'assumptions': ['%s = %s' % (fmt(a), fmt(v) if isinstance(v, tuple) else v) for a, v in p.decisions],
                'events': ['%s%s' % (repr(e)[:300], ' @%s:%s' % (e.where[1], e.where[2]) if e.where else '') for e in p.events if e.kind not in ('promise', 'done')][-80:]}
    return p


# ------------------------------------------------------------------ locating code
def fn(qn, pick=None):
    """The one definition of qn (optionally the one satisfying pick)."""
    ds = prog().defs(qn)
    if pick:
        ds = [d for d in ds if pick(d)]
    if not ds:
        raise ToolError('function %s not found in the current tree' % qn)
    return ds[0]


_bare = None


def bare(qn):
    while True:
        q = re.sub(r'<[^<>]*>', '', qn)
        if q == qn:
            return q
        qn = q


def bare_def(name):
    """Some definition whose qualified name without template arguments is `name`."""
    global _bare
    if _bare is None:
        _bare = {}
        for f in prog().by_usr.values():
            if f.body is not None:
                _bare.setdefault(bare(f.qn), f)
    return _bare.get(name)


KEPT = [False]      # scenarios use the form of each wait that keeps the task beyond the wrapper and the arguments


class NotKept(Exception):
    """There is no such form."""


def kept_name(name):
    d = prog().defs('h::k_' + name)
    if d:
        return 'k_' + name
    p, _, rest = name.partition('_')
    if prog().defs('h::%s_k_%s' % (p, rest)):
        return '%s_k_%s' % (p, rest)
    return None


def harness(name):
    if KEPT[0]:
        k = kept_name(name)
        if k is None and KEPT[0] == 'only':
            raise NotKept(name)
        name = k or name
    if prog().broken and not prog().defs('h::' + name):
        for rx, (msg, internal) in prog().broken.items():
            if re.match(rx, name):
                raise NoSuchUse(name, msg, internal)
    return fn('h::' + name)


def has_param(fn_, sub):
    return any(sub in fn_.tu.ts(p['t']) for p in fn_.params)


CHRONO = 'std::chrono::duration'


def walk(n):
    if isinstance(n, dict):
        if 'k' in n:
            yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)):
                yield from walk(v)


def nodes(f, kind):
    return [n for n in walk(f.body) if n['k'] == kind]


# ------------------------------------------------------------------ symbolic arguments
def sym_args(I, f, given=None):
    """Symbolic arguments for f; `given` maps parameter names/indices to values or locations."""
    given = given or {}
    out = []
    for i, p in enumerate(f.params):
        if p['n'] in given:
            out.append(given[p['n']])
            continue
        if i in given:
            out.append(given[i])
            continue
        out.append(sym_arg(I, f.tu, p['t'], p['n'] or 'p%d' % i))
    return out


def sym_arg(I, tu, tid, name):
    t = tu.t(tid)
    if t.get('ref'):
        l = ('param', name)
        l = ('var', name, 0)
        I.typ[l] = tu.t(t['to'])
        return l
    v = ('param', name)
    if t['s'].replace('const ', '').startswith(CHRONO):
        v = I.as_dur(v, dur_unit(t['s']))
    return v


def enter(I, f, this=None, env=None, promise=None):
    """Push a frame for evaluating nodes of f outside of a normal call."""
    fr = Frame(f, f.tu, this, env or {})
    fr.scopes.append([])
    fr.promise = promise
    I.frames.append(fr)
    I.temps.append([])
    return fr


def leave(I):
    I.temps.pop()
    I.frames.pop()


def bind(f, vals):
    """env mapping for parameters of f: name -> location."""
    pids = f.d.get('pids') or [p['d'] for p in f.params]
    env = {}
    for d, p in zip(pids, f.params):
        if p['n'] in vals:
            env[d] = vals[p['n']]
    return env


# ------------------------------------------------------------------ objects
def default_construct(I, loc, r):
    for g in I.ctors(r):
        if g.d.get('defctor') and (g.body is not None or g.d.get('inits')):
            I.dyn_set(loc, r, loc)
            I.call_fn(g, loc, [])
            return
    I.dyn_set(loc, r, loc)
    for b in I.bases(r):
        default_construct(I, loc, b)
    for fd in r.get('fields', []):
        I.default_field(loc, r, fd)


def rec_by_typename(s):
    r = prog().rec_by_type.get(s)
    if r is None or 'fields' not in r:
        raise ToolError('type %s not found in the current tree' % s)
    return r


def method(r, name, pick=None):
    """Definition of method `name` of record r (searching bases)."""
    seen = [r]
    while seen:
        x = seen.pop(0)
        for m in x.get('methods', []):
            if m['n'] == name:
                g = prog().fn(m, x['tu'])
                if g is not None and g.body is not None and (pick is None or pick(g)):
                    return g
        for b in x.get('bases', []):
            t = x['tu'].t(b)
            br = x['tu'].recs.get(t.get('rec'))
            if br is None or 'fields' not in br:
                br = prog().rec_by_type.get(t['s'])
            if br is not None:
                seen.append(br)
    return None


# ------------------------------------------------------------------ coroutine lifecycle
class Coro:
    def __init__(self, I, f):
        """Create the frame of coroutine f: promise, return object."""
        self.f = f
        self.I = I
        tu = f.tu
        self.prec = I.rec_of(tu, f.d['promise'])
        if self.prec is None:
            raise ToolError('promise type of %s is not defined in the tree' % f.qn)
        self.promise = ('heap', 'promise', I.uid())
        self.handle = ('handle', self.promise)
        self.done = False
        self.destroyed = 0
        default_construct(I, self.promise, self.prec)
        g = prog().fn(f.d['getret'], tu)
        enter(I, f, None, None, self.promise)
        r = I.call_fn(g, self.promise, [])
        leave(I)
        self.ret = r[1] if r is not None and r[0] == 'obj' else r
        self.rrec = I.rec_of(tu, f.d['ret'])

    def _susp(self, which):
        """('never'|'always', None) or (object, protocol refs)."""
        d = self.f.d[which]
        tu = self.f.tu
        s = tu.ts(d['at'])
        g = prog().fn(d['op'], tu)
        enter(self.I, self.f, None, None, self.promise)
        v = self.I.call_fn(g, self.promise, [])
        leave(self.I)
        if 'suspend_never' in s:
            return 'never', d, None
        if 'suspend_always' in s:
            return 'always', d, None
        return 'obj', d, v

    def stage(self, which):
        """Run initial/final suspend; returns (suspended, handle to transfer to)."""
        I = self.I
        kind, d, v = self._susp(which)
        if kind == 'never':
            return False, None
        if kind == 'always':
            return True, None
        return run_awaiter(I, self.f.tu, d, v, self.handle)

    def starts_eagerly(self):
        return not self.stage('initsusp')[0]

    def return_value(self, node, loc=None):
        """co_return of an already evaluated operand."""

    def throw(self, exc):
        I = self.I
        g = prog().fn(self.f.d['unhandled'], self.f.tu)
        I.curexc.append(exc)
        try:
            enter(I, self.f, None, None, self.promise)
            I.call_fn(g, self.promise, [])
            leave(I)
        finally:
            I.curexc.pop()

    def final(self):
        """Reach the final suspend point."""
        self.done = True
        s, h = self.stage('finalsusp')
        if not s:
            self.I.log('autodestroy', h=self.handle)
        if h is not None and h != ('noop',):
            self.I.log('resume', h=h, transfer=True)
            self.I.suspended_by_resume(h)
        return s

    def run_body(self, args=None, this=None):
        """Interpret the body; deliver its co_return / exception to the promise. Returns 'value'/'void'/exception."""
        I = self.I
        f = self.f
        args = args if args is not None else sym_args(I, f)
        try:
            v = I.call_coro_body(f, this, args, self.promise)
        except ThrowExc as e:
            self.throw(e.v)
            return ('threw', e.v)
        return ('returned', v)


def run_awaiter(I, tu, d, v, h):
    """await_ready/await_suspend on awaiter value v (record location). Returns (suspended, transfer handle)."""
    loc = v[1] if v is not None and v[0] == 'obj' else v
    if loc is None or not is_loc(loc):
        loc = I.box(v if v is not None else ('void',))
    g = prog().fn(d['ready'], tu)
    r = I.call_fn(g, loc, [])
    if is_loc(r):
        r = I.read(r)
    if I.truth(r):
        return False, None
    if d.get('suspend') is None:
        return True, None
    g = prog().fn(d['suspend'], tu)
    r = I.call_fn(g, loc, [h])
    if r is None or r[0] == 'void':
        return True, None
    if is_loc(r):
        r = I.read(r)
    rt = g.tu.t(g.d['ret'])
    if rt.get('k') == 'bool':
        return (True, None) if I.truth(r) else (False, None)
    return True, r


class Await:
    """One co_await expression, evaluated stage by stage."""

    def __init__(self, I, f, env=None, index=0, promise=None, this=None, node=None):
        self.I = I
        self.f = f
        self.node = node if node is not None else nodes(f, 'CoAwait')[index]
        enter(I, f, this, env, promise or ('promiseof', 'awaiting'))
        v = I.ev(self.node['common'])
        if not is_loc(v):
            v = v[1] if v[0] == 'obj' else I.box(v)
        m = I.mem.get(v)
        if m is not None and m[0] == 'obj' and is_loc(m[1]):
            v = m[1]
        self.awaiter = v
        self.tu = f.tu

    def stage_fn(self, which):
        g = prog().fn(self.node[which], self.tu)
        if g is None or g.body is None:
            return None
        return g

    def ready(self):
        g = self.stage_fn('ready')
        r = self.I.call_fn(g, self.awaiter, [])
        return self.I.truth(r if not is_loc(r) else self.I.read(r))

    def suspend(self, h):
        g = self.stage_fn('suspend')
        r = self.I.call_fn(g, self.awaiter, [h])
        if r is None or r[0] == 'void':
            return True, None
        if is_loc(r):
            r = self.I.read(r)
        if g.tu.t(g.d['ret']).get('k') == 'bool':
            return self.I.truth(r), None
        return True, r

    def resume(self):
        g = self.stage_fn('resume')
        r = self.I.call_fn(g, self.awaiter, [])
        if r is not None and is_loc(r):
            r = self.I.read_obj(r, g.tu, g.d['ret']) if not g.tu.t(g.d['ret']).get('ref') else r
        return r

    def destroy(self):
        """End of the full expression: the awaiter temporary dies."""
        self.I.destroy(self.awaiter, self.tu, self.node['at'])


# ------------------------------------------------------------------ connections
def fire(I, conn, args=()):
    """Deliver a signal to one connection, if it still exists. Returns False when nothing was invoked."""
    if conn in I.disc:
        return False
    sender, sig, ctx, slot, typ = I.conns[conn]
    if ctx is not None:
        p = I.strip(ctx)
        if p[0] == 'ptr' and p[1] in I.dead:
            return False
    invoke_slot(I, slot, ctx, args)
    return True


def invoke_slot(I, slot, ctx, args):
    if slot[0] in ('clo', 'bound', 'handle', 'noop'):
        I.invoke(slot, list(args))
    elif slot[0] == 'memfn':
        I.invoke(slot, [ctx] + list(args))
    else:
        I.user_call(None, slot, list(args))


def signame(sig):
    if isinstance(sig, tuple) and sig[0] in ('memfn', 'fnref'):
        return sig[1]
    return str(sig)


def evs(p, *kinds):
    return [e for e in p.events if e.kind in kinds]


def calls(p, name):
    return [e for e in p.events if e.kind in ('call', 'query') and e.name == name]


# ------------------------------------------------------------------ owner objects
def user_ctor(I, r, move):
    return I.copy_ctor(r, move)


def move_new(I, r, src):
    """T t(std::move(src)) through the move constructor T's overload resolution picks."""
    dst = ('heap', 'obj', I.uid())
    I.dyn_set(dst, r, dst)
    g = I.copy_ctor(r, True)
    if g is not None:
        I.call_fn(g, dst, [src])
    else:
        I.copy_obj(src, dst, r, True)
    return dst


def move_assign(I, r, dst, src):
    op = I.find_assign(r, True)
    if op is not None:
        I.call_fn(op, dst, [src])
    else:
        I.assign_obj(src, dst, r, True)


def drop(I, r, loc):
    I.log('dtor', loc=loc, type=r['qn'])
    I.destroy_rec(loc, r)
    I.dead.add(loc)


def new_default(I, r):
    l = ('heap', 'obj', I.uid())
    default_construct(I, l, r)
    return l


def uafs(I_or_p):
    return [e for e in I_or_p.events if e.kind == 'uaf']


def describe_uaf(e):
    return '%s touches %s after its end of life (%s)' % (e.where[0] if e.where else '?', fmt(e.loc), e.how)
