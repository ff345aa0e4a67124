"""C09-C11: Generator and AsyncGenerator."""
from scen import *
from rules.r_then import payload

R9 = 'values-lazily-in-order-then-end-or-rethrow'
R10 = 'producer-and-consumer-take-turns'
R11 = 'generator-destroys-its-coroutine-once'


class Steps:
    """What the body of the generator does next."""

    def __init__(self, S, limit, outs=('yield', 'end', 'std', 'other')):
        self.S = S
        self.limit = limit
        self.n = 0
        self.asked = 0
        self.values = []
        self.exc = None
        self.ended = False
        self.outs = outs
        self.loc = ('heap', 'steps', S.I.uid())
        S.stepsof = getattr(S, 'stepsof', {})
        S.stepsof[self.loc] = self
        S.callees['h::Steps::more'] = lambda r, a: S.stepsof[r[1]].more()
        S.callees['h::Steps::next'] = lambda r, a: S.stepsof[r[1]].next()

    def more(self):
        I = self.S.I
        self.asked += 1
        outs = list(self.outs) if self.asked <= self.limit else [o for o in self.outs if o != 'yield']
        o = I.choose(('step', self.loc, self.asked), outs)
        if o == 'yield':
            return TRUE
        self.ended = True
        if o == 'end':
            return FALSE
        self.exc = ('exc', ('body', self.loc), o)
        raise ThrowExc(self.exc)

    def next(self):
        v = ('param', 'yielded%d_%d' % (self.loc[2], len(self.values)))
        self.values.append(v)
        return v


def obs_vals(S, since=0):
    return [tuple(payload(S.I, x) for x in a) for a in S.observed(since)]


def c09(ck):
    limit = 4 if ck.thorough else 3
    for gen, cons in [('gen_lv', 'gc_int'), ('gen_rv', 'gc_int'), ('gen_cv', 'gc_cint'), ('gen_mov', 'gc_mo')]:
        def scenario(S):
            I = S.I
            st = Steps(S, limit)
            c = I.start_coro(harness(gen), None, [('ptr', st.loc)])
            if st.asked:
                raise Bad(R9, 'the generator body runs before the first value is requested')
            # what the consumer sees, and how far the producer was at that time
            seen = []

            def ob(r, a):
                seen.append((tuple(payload(I, x) for x in a), st.asked, len(st.values)))
                return ('void',)
            S.callees['h::observe'] = ob
            exc = None
            try:
                I.call_fn(harness(cons), None, [c.ret])
            except ThrowExc as e:
                exc = e.v
            for k, v in enumerate(st.values):
                for j in (0, 1):
                    i = 2 * k + j
                    if i >= len(seen):
                        raise Bad(R9, 'a yielded value never reaches the consumer')
                    if seen[i][0] != (v,):
                        raise Bad(R9, 'dereferencing gives %s instead of the value yielded last' % fmt(seen[i][0][0] if seen[i][0] else 'the end'))
                    if seen[i][2] != k + 1:
                        raise Bad(R9, 'the body is advanced %d times for %d requested values' % (seen[i][2], k + 1))
            rest = seen[2 * len(st.values):]
            if not st.ended:
                raise Bad(R9, 'the consumer stops before the generator ended')
            if st.exc is not None:
                if exc != st.exc:
                    raise Bad(R9, 'an exception of the generator body is not rethrown from the begin() or increment that ran it')
                if rest:
                    raise Bad(R9, 'the consumer continues although the generator body threw')
            else:
                if exc is not None:
                    raise Bad(R9, 'an increment throws %s although the body did not' % fmt(exc))
                if not rest or rest[0][0] != ():
                    raise Bad(R9, 'the iterator differs from end() although the body finished')
                if len(rest) < 2 or not I.truth(rest[1][0][0]):
                    raise Bad(R9, 'an iterator at the end leaves the end when it is advanced')
            if st.asked != len(st.values) + 1:
                raise Bad(R9, 'the body is resumed after it ended')
        check(ck, '%s consumed by %s' % (gen, cons), scenario, [R9], blame='QCoro::GeneratorIterator::operator++')

    def past_throw(S):
        I = S.I
        st = Steps(S, 2)
        c = I.start_coro(harness('gen_lv'), None, [('ptr', st.loc)])
        try:
            I.call_fn(harness('gc_throwing'), None, [c.ret])
        except ThrowExc as e:
            if e.v != st.exc or st.values:
                raise Bad(R9, 'an exception escapes from advancing an iterator that has reached the end')
            return
        if st.exc is not None:
            ob = obs_vals(S)
            if len(ob) != 1 or not I.truth(ob[0][0]):
                raise Bad(R9, 'an iterator whose increment threw is not at the end')
    check(ck, 'advancing after an exception', past_throw, [R9], blame='QCoro::GeneratorIterator::operator++')


# ------------------------------------------------------------------ C10
def c10(ck):
    limit = 3 if ck.thorough else 2
    for gen, cons in [('agen_lv', 'agc_int'), ('agen_rv', 'agc_int'), ('agen_rv', 'agc_foreach'), ('agen_wait', 'agc_int'), ('agen_wait', 'agc_foreach'), ('agen_mov', 'agc_mo')]:
        def scenario(S):
            I = S.I
            S.cur_modes, S.cur_outcomes = ('sync', 'async'), ('value', 'other')
            st = Steps(S, limit)
            args = [('ptr', st.loc)]
            if gen == 'agen_wait':
                args.append(('obj', ('heap', 'source', I.uid())))
            g = I.start_coro(harness(gen), None, args)
            if st.asked:
                raise Bad(R10, 'the producer runs before it is awaited')
            seen = []
            src = S.src.setdefault(g.promise, {})

            def ob(r, a):
                if I.coro_frame() is g:
                    return ('void',)
                seen.append((tuple(payload(I, x) for x in a), st.asked, len(st.values)))
                return ('void',)
            S.callees['h::observe'] = ob
            f = harness(cons)
            c0 = len(I.fibers)
            if f.d.get('coro'):
                c = I.start_coro(f, None, [g.ret])
            else:
                I.call_fn(f, None, [g.ret])
                c = [x for x in I.fibers.values()][c0]
            n = 0
            while not c.done and src.get('mode') == 'async' and g.state == 'suspended' and n < 8 and not st.ended and 'exc' not in src:
                before = len(seen)
                if len(seen) != 2 * len(st.values):
                    raise Bad(R10, 'the consumer continues while the producer is waiting')
                src.pop('mode')
                I.run_handle(g)
                n += 1
            exc = st.exc if st.exc is not None else src.get('exc')
            if not c.done:
                raise Bad(R10, 'the consumer is not resumed when the producer yields, finishes or throws')
            for k, v in enumerate(st.values):
                for j in (0, 1):
                    i = 2 * k + j
                    if i >= len(seen):
                        raise Bad(R10, 'a yielded value never reaches the consumer')
                    if seen[i][0] != (v,):
                        raise Bad(R10, 'dereferencing gives %s instead of the value yielded last' % fmt(seen[i][0][0] if seen[i][0] else 'the end'))
                    if seen[i][2] != k + 1:
                        raise Bad(R10, 'the producer is advanced %d times for %d requested values' % (seen[i][2], k + 1))
            rest = seen[2 * len(st.values):]
            if exc is not None:
                if c.threw != exc:
                    raise Bad(R10, 'an exception of the generator body is not rethrown from the awaited begin() or increment')
                if rest:
                    raise Bad(R10, 'the consumer continues although the generator body threw')
            else:
                if c.threw is not None:
                    raise Bad(R10, 'awaiting the generator throws %s although its body did not' % fmt(c.threw))
                if len(rest) != 1 or rest[0][0] != ():
                    raise Bad(R10, 'the iterator differs from end() although the body finished')
        check(ck, '%s consumed by %s' % (gen, cons), scenario, [R10], blame='QCoro::AsyncGeneratorIterator::operator++')

    # several consumers, one after the other, each awaiting one step
    def turns(S):
        I = S.I
        st = Steps(S, limit, ('yield', 'end'))
        S.cur_modes, S.cur_outcomes = ('sync', 'async'), ('value',)
        g = I.start_coro(harness('agen_wait'), None, [('ptr', st.loc), ('obj', ('heap', 'source', I.uid()))])
        src = S.src.setdefault(g.promise, {})
        it = ('heap', 'iterator', I.uid())
        fb = harness('agc_begin')
        r = I.rec_of(fb.tu, fb.params[1]['t'])
        I.dyn_set(it, r, it)
        h = [fd for fd in r['fields']]
        I.call_fn(harness('agen_it'), None, [g.ret])
        I.mem[('fld', it, h[0]['n'])] = NULL
        others = []
        for k in range(limit + 2):
            f = fb if k == 0 else harness('agc_next')
            src.pop('mode', None)
            c = I.start_coro(f, None, [g.ret, it])
            if src.get('mode') == 'async' and not c.done:
                for o in others:
                    if o[0].resumes != o[1]:
                        raise Bad(R10, 'a coroutine that is not awaiting the generator is resumed')
                src.pop('mode')
                I.run_handle(g)
            if not c.done:
                raise Bad(R10, 'the coroutine awaiting the generator is not resumed')
            for o in others:
                if o[0].resumes != o[1]:
                    raise Bad(R10, 'a coroutine that is not awaiting the generator is resumed')
            others.append((c, c.resumes))
            e = I.truth(I.call_fn(harness('agc_isend'), None, [g.ret, it]))
            if e != st.ended:
                raise Bad(R10, 'the iterator %s end() although the body %s' % ('equals' if e else 'differs from', 'finished' if st.ended else 'yielded'))
            if st.ended:
                break
    check(ck, 'consumers taking turns', turns, [R10], blame='QCoro::AsyncGeneratorIterator::operator++')

    def two(S):
        """Two generators and their consumers do not get mixed up."""
        I = S.I
        S.cur_modes, S.cur_outcomes = ('async',), ('value',)
        gs = []
        seen = {}

        def ob(r, a):
            f = I.coro_frame()
            seen.setdefault(f.promise, []).append(tuple(payload(I, x) for x in a))
            return ('void',)
        S.callees['h::observe'] = ob
        for i in range(2):
            st = Steps(S, 1, ('yield', 'end'))
            g = I.start_coro(harness('agen_wait'), None, [('ptr', st.loc), ('obj', ('heap', 'source', I.uid()))])
            n0 = len(I.fibers)
            I.call_fn(harness('agc_int'), None, [g.ret])
            gs.append((st, g, list(I.fibers.values())[n0]))
        for n in range(4):
            live = [x for x in gs if not x[0].ended and x[1].state == 'suspended']
            if not live:
                break
            st, g, c = I.choose(('go on', n), live)
            I.run_handle(g)
        for st, g, c in gs:
            if st.ended:
                want = [(v,) for v in st.values for _ in (0, 1)] + [()]
                if seen.get(c.promise) != want or not c.done:
                    raise Bad(R10, 'a consumer receives something other than what its own generator yielded')
    check(ck, 'two generators at once', two, [R10], blame='QCoro::AsyncGeneratorIterator::operator++')

    def empty(S):
        I = S.I
        f = harness('agc_begin')
        r = I.rec_of(f.tu, f.params[0]['t'])
        g = new_default(I, r)
        n0 = len(I.fibers)
        I.call_fn(harness('agc_int'), None, [g])
        c = list(I.fibers.values())[n0]
        if not c.done or S.observed() != [()]:
            raise Bad(R10, 'awaiting begin() of an empty generator does not give end()')
    check(ck, 'empty generator', empty, [R10], blame='QCoro::AsyncGenerator::begin')


# ------------------------------------------------------------------ C11
def c11(ck):
    depth = 4 if ck.thorough else 3
    for gen, cons, kind in [('gen_lv', 'gc_int', 'sync'), ('agen_lv', 'agc_int', 'async'), ('agen_wait', 'agc_int', 'async')]:
        own_gen(ck, gen, cons, kind, depth)


def own_gen(ck, gen, cons, kind, depth):
    f = harness(gen)

    def mk(S):
        I = S.I
        st = Steps(S, 1, ('yield', 'end'))
        args = [('ptr', st.loc)]
        if gen == 'agen_wait':
            args.append(('obj', ('heap', 'source', I.uid())))
        return st, I.start_coro(f, None, args)

    def guards(I):
        b = len([e for e in I.events if e.kind in ('call', 'construct') and e.name == 'h::Guard' or e.kind == 'gctor'])
        d = [e.loc for e in I.events if e.kind == 'dtor' and e.type == 'h::Guard']
        return d

    def scenario(S):
        I = S.I
        S.cur_modes, S.cur_outcomes = ('async',), ('value',)
        cors = []
        r = I.rec_of(f.tu, f.d['ret'])
        held = {}
        progress = I.choose('progress', ['new', 'begun', 'finished'] if gen != 'agen_wait' else ['new', 'begun'])
        for i in range(2):
            st, c = mk(S)
            cors.append(c)
            held[c.ret] = i
        consumer = None
        if progress != 'new':
            # run the first one for a while
            c = cors[0]
            I.run_gen_limit = True
            if kind == 'sync':
                g = method(r, 'begin')
                I.call_fn(g, c.ret, [])
                if progress == 'finished' and c.state == 'suspended' and not c.done:
                    I.run_handle(c)
            else:
                I.call_fn(harness(cons), None, [c.ret]) if not harness(cons).d.get('coro') else I.start_coro(harness(cons), None, [c.ret])
                if progress == 'finished' and not c.done:
                    return
            if progress == 'begun' and c.done and gen != 'agen_lv':
                return
        for step in range(depth):
            objs = list(held)
            ops = [] if objs else ['stop']
            if objs:
                ops += [('drop', o) for o in objs]
                ops += [('moveto new', objs[0]), ('self', objs[0])]
                for o in objs[1:]:
                    ops += [('assign', objs[0], o), ('assign', o, objs[0])]
                    if kind == 'async':
                        ops += [('swap', objs[0], o)]
                if len(objs) < 3:
                    ops.append(('default',))
            op = I.choose(('op', step), ops)
            if op == 'stop':
                break
            if op[0] == 'drop':
                drop(I, r, op[1])
                held.pop(op[1])
            elif op[0] == 'moveto new':
                n = move_new(I, r, op[1])
                held[n] = held[op[1]]
                held[op[1]] = None
            elif op[0] == 'self':
                move_assign(I, r, op[1], op[1])
            elif op[0] == 'assign':
                move_assign(I, r, op[1], op[2])
                held[op[1]] = held[op[2]]
                held[op[2]] = None
            elif op[0] == 'swap':
                I.call_fn(harness(I.choose('swap form', ['agen_swap', 'agen_fswap'])), None, [op[1], op[2]])
                held[op[1]], held[op[2]] = held[op[2]], held[op[1]]
            elif op[0] == 'default':
                held[new_default(I, r)] = None
            for i, c in enumerate(cors):
                want = 0 if i in held.values() else 1
                if c.destroyed != want:
                    raise Bad(R11, 'the coroutine of a generator is destroyed %d times where it should be %d times (last operation: %s)' % (c.destroyed, want, op[0]))
        # everything that was on the stack of a destroyed coroutine is gone, once
        for i, c in enumerate(cors):
            born = c.resumes > 0
            d = [l for l in guards(I)]
            if len(d) != len(set(d)):
                raise Bad(R11, 'an object on the stack of a generator is destroyed twice')
        n = sum(1 for c in cors if c.resumes > 0 and (c.destroyed or c.done))
        started = [c for c in cors if c.started_body]
        want = sum(1 for c in started if c.destroyed or c.done)
        if len(guards(I)) != want:
            raise Bad(R11, 'the objects on the stack of a destroyed generator are not destroyed with it')
    check(ck, 'ownership of %s' % gen, scenario, [R11], blame='QCoro::Generator::operator=' if kind == 'sync' else 'QCoro::AsyncGenerator::operator=')


RULES = {'C09': c09, 'C10': c10, 'C11': c11}
