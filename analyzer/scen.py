"""Scenarios in which library coroutines really suspend and resume (FiberInterp) among modelled Qt objects (World)."""
import re

from rulelib import *
from fiber import FiberInterp, FCoro
from world import World, tagged


def world_env(I, name, recv, args, f):
    sc = getattr(I, 'scene', None)
    if sc is not None:
        r = sc.env(name, recv, args, f)
        if r is not None:
            return r
    if I.world is not None:
        return I.world.env(I, name, recv, args, f)
    return None


def on_await(I, v, n, tu):
    sc = I.scene
    if sc is None:
        return None
    return sc.opaque_await(I.coro_frame(), v)


class Scene:
    """One scenario run: the interpreter, the world, and controllable source coroutines."""

    modes = ('sync', 'async')
    outcomes = ('value', 'std', 'other')

    def __init__(self, I):
        self.I = I
        self.w = World(I)
        I.scene = self
        self.src = {}         # promise -> dict
        self.values = {}
        self.callees = {}     # qualified name -> function(recv, args)
        self.patterns = []    # (regular expression for qualified names, function(name, recv, args))
        self.cur_modes = None

    def on(self, rx, f):
        self.patterns.append((re.compile(rx), f))

    def env(self, name, recv, args, f):
        g = self.callees.get(name)
        if g is None:
            for rx, h in self.patterns:
                if rx.search(name):
                    return h(name, recv, args)
            return None
        return g(recv, args)

    # ---- source coroutines of the harness: await an opaque operand, then return or throw
    def source(self, harness_fn, modes=None, outcomes=None):
        """Starts h::<harness_fn>(Opaque); its behaviour is chosen among modes and outcomes."""
        self.cur_modes = modes or self.modes
        self.cur_outcomes = outcomes or self.outcomes
        c = self.I.start_coro(harness(harness_fn), None, [('obj', ('heap', 'source', self.I.uid()))])
        self.src.setdefault(c.promise, {}).update(coro=c)
        return c

    def opaque_await(self, c, v):
        I = self.I
        st = self.src.setdefault(c.promise, {})
        st['coro'] = c
        n = st['n'] = len(self.src)
        mode = I.choose(('source %d completes' % n), list(st.get('modes') or self.cur_modes))
        outs = list(st.get('outcomes') or self.cur_outcomes)
        st['mode'] = mode
        if mode == 'async':
            c.park()
        st['outcome'] = o = I.choose(('source %d' % n), outs)
        if o == 'value':
            st['value'] = v = ('param', 'result%d' % n)
            return v
        st['exc'] = x = ('exc', 'thrown%d' % n, o)
        raise ThrowExc(x)

    def pending(self, c):
        return c.state == 'suspended'

    def finish(self, c):
        self.I.run_handle(c)

    # ---- observation
    def observed(self, since=0):
        return observed(self.I, since)


def observed(p, since=0):
    """Values passed to h::observe(), in order."""
    return [tuple(e.args or ()) for e in p.events[since:] if e.kind in ('call', 'query') and e.name == 'h::observe']


def explore(ck, label, scenario, **cfg):
    """ck.explore with suspending coroutines; scenario(S) gets a Scene."""
    cfg.setdefault('env', world_env)
    cfg.setdefault('on_await', on_await)
    I = FiberInterp(ck.P, **cfg)

    def run(I):
        I.scene = None
        I.detach = ck.detach
        return scenario(Scene(I))
    ps = I.explore(run)
    ck.paths += len(ps)
    ck.fns |= I.stats['fns']
    ck.unknown |= I.stats['unknown']
    ck.constructs[label] = ck.constructs.get(label, 0) + len(ps)
    ck.problems(I, label, ps)
    return ps


class Bad(Exception):
    """Raised by a scenario when the observed behaviour differs from the specified one."""

    def __init__(self, rule, what, where=None):
        self.rule, self.what, self.where = rule, what, where


def judged(fn_):
    """Turn Bad into a result."""
    def run(S):
        try:
            fn_(S)
        except Bad as b:
            return ('bad', b.rule, b.what, b.where)
        return ('ok',)
    return run


def poked(run):
    """After the scenario, every signal that is still connected is emitted once more."""
    def f(S):
        r = run(S)
        try:
            if r[0] == 'ok':
                poke(S)
        except Bad:
            pass        # judged by other properties
        return r
    return f


def poke(S):
    w = S.w
    S.callees['h::observe'] = lambda r, a: ('void',)
    w.drain()
    for c in w.live_conns():
        if c in S.I.disc:
            continue
        sender, sig, ctx, slot, typ = S.I.conns[c]
        l = w.ploc(sender)
        if l not in w.q:
            continue        # an object of the library itself
        n = len(sig[2]) if isinstance(sig, tuple) and sig[0] == 'memfn' and sig[2] else 0
        S.I.log('poke', loc=l, sig=w.sname(sig))
        if w.alive(l):
            w.emit(l, w.sname(sig), [('param', 'late%d' % k) for k in range(n - (1 if tagged(sig) else 0))])
    w.drain()


def check(ck, label, scenario, rules, blame=None, uaf_rule='nothing-dead-is-touched', **cfg):
    """Explore a judged scenario in a process of its own; every path is one obligation per rule of `rules`."""
    ck.fork(lambda: check_here(ck, label, scenario, rules, blame, uaf_rule, **cfg))


def check_here(ck, label, scenario, rules, blame=None, uaf_rule='nothing-dead-is-touched', **cfg):
    run = judged(scenario)
    if ck.only is not None:
        run = poked(run) if ck.poke else run
        rules = [r for r in ck.only if r != uaf_rule]
    try:
        ps = explore(ck, label, run, **cfg)
    except NoSuchUse as e:
        unusable(ck, e)
        return []
    except NotKept:
        return []

    def at(p):
        if blame is not None:
            d = bare_def(blame) if isinstance(blame, str) else blame
            if d is not None:
                return d
        return last_lib_fn(p, label)
    for p in ps:
        bad = p.result if p.result is not None and p.result[0] == 'bad' else None
        if ck.only is not None:
            if bad is not None and bad[1] not in ck.only:
                bad = None
            for r in rules:
                b = bad is not None and bad[1] == r
                ck.req(not b, r, (bad[3] or at(p)) if b else label, bad[2] + ' [%s]' % label if b else '', p)
            us = {}
            for u in uafs(p):
                us.setdefault((u.where[:2] if u.where else label, describe_uaf(u)), u)
            if not us:
                ck.req(True, uaf_rule, label, '', p)
            for at_, what in us:
                ck.req(False, uaf_rule, at_, what + ' [%s]' % label, p)
            continue
        for r in rules:
            if bad is not None and bad[1] == r:
                ck.req(False, r, bad[3] or at(p), bad[2] + ' [%s]' % label, p)
            else:
                ck.req(True, r, label, '', p)
        if bad is not None and bad[1] not in rules:
            ck.req(False, bad[1], bad[3] or at(p), bad[2] + ' [%s]' % label, p)
        if p.end == 'throw':
            ck.req(False, rules[0], at(p), 'unexpected exception %s [%s]' % (fmt(p.exc), label), p)
        if p.end == 'loop':
            ck.errors.append('loop not analysed [%s]' % label)
        if p.end == 'stop':
            kinds = [e for e in p.events if e.kind in ('loopstuck', 'livelock', 'looplimit')]
            if kinds:
                ck.req(False, rules[0], at(p), {'loopstuck': 'the nested event loop never ends', 'livelock': 'events are posted without end', 'looplimit': 'a loop goes on without waiting for anything'}[kinds[-1].kind] + ' [%s]' % label, p)
        u = uafs(p)
        ck.req(not u, uaf_rule, u[0].where[:2] if u and u[0].where else label, u and describe_uaf(u[0]) + ' [%s]' % label, p)
        n = [e for e in p.events if e.kind in ('nullresume', 'nulluse', 'ub')]
        ck.req(not n, uaf_rule, n[0].where[:2] if n and n[0].where else label, n and '%s [%s]' % (getattr(n[0], 'how', None) or 'a null coroutine handle is used', label), p)
    return ps


def unusable(ck, e):
    """A documented use of the library is rejected by the compiler."""
    if e.internal:
        ck.notes.append('not analysed: ' + str(e))
        return
    ck.req(False, 'documented-use-compiles', ('h::' + e.name, 'use of the public interface'), 'the compiler rejects this use of the library: ' + e.msg)


def last_lib_fn(p, d):
    """The last library construct on the path (the place to look at)."""
    for e in reversed(p.events):
        if e.where and not e.where[0].startswith('h::') and e.kind not in ('dtor', 'finished', 'emit'):
            return e.where[0], '%s:%s' % (e.where[1], e.where[2])
    return d
