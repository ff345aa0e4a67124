"""C29, C30: QML tasks and the image provider."""
from scen import *
from rules.r_then import payload
from rules.r_misc import Future, carries

R29 = 'qml-gets-the-result-once'
R30 = 'image-before-finished-once'


def value_of(I, v):
    v = payload(I, v)
    for _ in range(6):
        if v is None:
            return None
        if v[0] in ('variant', 'js', 'made', 'conv'):
            v = payload(I, v[-1])
        elif v[0] == 'new' and len(v) == 3:
            v = payload(I, v[2])
        else:
            break
    return v


class Qml:
    """The QML side: JavaScript functions, variants and the engine."""

    def __init__(self, S):
        self.S, self.I, self.w = S, S.I, S.w
        self.called = []
        self.changed = []
        S.callees['QVariant::fromValue'] = lambda r, a: ('variant', a[0])
        S.on(r'^QVariant::fromValue', lambda n, r, a: ('variant', a[0]))
        S.on(r'^QVariant::(isNull|isValid)$', self.isnull)
        S.on(r'^QJSValue::(isCallable|call|engine)$', self.js)
        S.on(r'^QJSEngine::toScriptValue', lambda n, r, a: ('js', a[0]))
        for n in ('make_variant', 'make_string', 'make_image'):
            S.callees['h::' + n] = lambda r, a: ('made', a[0])
        S.w.on_emit = self.emitted

    def isnull(self, name, recv, a):
        v = payload(self.I, recv)
        null = v == ('param', 'null variant') or v is None or v[0] in ('vinit', 'zero', 'default') or v == ('new', 'QVariant')
        return B(null == name.endswith('isNull'))

    def js(self, name, recv, a):
        v = payload(self.I, recv)
        k = name.rsplit('::', 1)[-1]
        if k == 'isCallable':
            return B(v == ('param', 'function'))
        if k == 'call':
            x = payload(self.I, a[0]) if a else ('list',)
            self.called.append((v, x))
            return ('param', 'result of the function')
        return None

    def emitted(self, loc, sig, args):
        if sig == 'valueChanged':
            self.changed.append((loc, self.value(loc)))

    def value(self, loc):
        r = self.I.call_fn(harness('qml_value'), None, [('ptr', loc)])
        return r


def qml(ck, kind, mode, copies, depth):
    def scenario(S):
        I, w = S.I, S.w
        Q = Qml(S)
        fut = None
        if kind == 'future':
            fut = Future(S, I.choose('future', ['running', 'finished']) == 'finished', False, 'value', races=False)
            q = I.call_fn(harness('qml_new_future'), None, [Future.FUT])
        elif kind == 'empty':
            q = I.call_fn(harness('qml_new_empty'), None, [])
        else:
            src = S.source('src_' + kind, outcomes=('value',) if mode != 'then' else ('value', 'std'))
            st = S.src[src.promise]
            q = I.call_fn(harness('qml_new_' + kind), None, [src.ret])
            drop(I, I.rec_of(src.fn.tu, src.fn.d['ret']), src.ret)
        q = w.ploc(q)
        tasks = [q]
        if copies:
            how = I.choose('copy', ['copied', 'assigned', 'copied, original gone', 'assigned, original gone'])
            if how.startswith('copied'):
                c = w.ploc(I.call_fn(harness('qml_copy'), None, [q]))
            else:
                c = w.ploc(I.call_fn(harness('qml_new_empty'), None, []))
                I.call_fn(harness('qml_assign'), None, [c, q])
            tasks.append(c)
            if how.endswith('gone'):
                tasks.remove(q)
                I.call_fn(harness('qml_delete'), None, [('ptr', q)])
            q = c
        if kind == 'future' and not fut.finished and not fut.attached:
            raise Bad(R29, 'the future a QML task was made of is not awaited')
        listener = inter = None
        callable_ = True
        if mode == 'then':
            callable_ = I.choose('callable', [True, False])
            f = ('param', 'function' if callable_ else 'no function')
            I.call_fn(harness('qml_then'), None, [q, f])
        else:
            inter = I.choose('intermediate value', ['given', 'null', 'none'])
            if inter == 'none':
                listener = I.call_fn(harness('qml_await_def'), None, [q])
            else:
                listener = I.call_fn(harness('qml_await'), None, [q, ('param', 'intermediate' if inter == 'given' else 'null variant')])
            if listener is None or listener == NULL or I.strip(listener)[0] != 'ptr':
                raise Bad(R29, 'await() returns no object')
            listener = w.ploc(listener)
        gone = False

        def ended():
            if kind == 'empty':
                return False
            if kind == 'future':
                return fut.finished
            return 'outcome' in st and (st['mode'] == 'sync' or src.done)

        def settled():
            if kind == 'future':
                return fut.finished and not w.deliverable()
            return ended()

        def result():
            return Future.RES if kind == 'future' else st.get('value')

        def ok():
            return kind == 'future' or st.get('outcome') == 'value'

        def matches(v):
            v = value_of(I, v)
            return kind == 'void' or v == result()

        def look():
            if mode == 'then':
                if Q.called and not (callable_ and ended() and ok()):
                    raise Bad(R29, 'the function given to then() is called %s' % ('although it is not callable' if not callable_ else 'although the task failed' if ended() else 'before the task finishes'))
                if len(Q.called) > 1:
                    raise Bad(R29, 'the function given to then() is called more than once')
                if settled() and ok() and callable_ and not Q.called:
                    raise Bad(R29, 'the function given to then() is not called although the task finished')
                for f, x in Q.called:
                    if f != ('param', 'function'):
                        raise Bad(R29, 'something other than the given function is called')
                    if kind != 'void' and not (x is not None and x[0] == 'list' and len(x) == 2 and matches(x[1])):
                        raise Bad(R29, 'the function given to then() gets %s instead of the result' % fmt(x))
                return
            if gone:
                return
            want = []
            if inter == 'given':
                want.append('intermediate')
            if settled() and ok() and kind != 'empty':
                want.append('result')
            got = []
            for l, v in Q.changed:
                if l != listener:
                    raise Bad(R29, 'another object changes its value')
                if value_of(I, v) == ('param', 'intermediate'):
                    got.append('intermediate')
                elif ended() and matches(v):
                    got.append('result')
                else:
                    raise Bad(R29, 'the value of the object changes to %s' % fmt(v))
            if got == want + ['result'] and ended() and not settled() and ok() and kind != 'empty':
                want.append('result')
            if got != want:
                raise Bad(R29, 'the object returned by await() announces %s instead of %s' % (' and '.join(got) or 'no change', ' and '.join(want) or 'no change'))
            v = value_of(I, Q.value(listener))
            if want and want[-1] == 'result':
                if not matches(v):
                    raise Bad(R29, 'the value of the object returned by await() is not the result')
            elif want and v != ('param', 'intermediate'):
                raise Bad(R29, 'the value of the object returned by await() is not the intermediate value')
        look()
        for step in range(depth):
            ops = ['stop']
            if w.deliverable():
                ops.append('deliver')
            if kind == 'future' and not fut.finished or kind not in ('future', 'empty') and not src.done and st.get('mode') == 'async':
                ops.append('finish')
            if tasks:
                ops.append('drop')
            if listener is not None and not gone:
                ops.append('kill')
            if len(ops) == 1:
                break
            op = I.choose(('event', step), ops)
            if op == 'stop':
                break
            if op == 'deliver':
                w.deliver(w.deliverable()[0])
            elif op == 'finish':
                fut.finish() if kind == 'future' else S.finish(src)
            elif op == 'drop':
                I.call_fn(harness('qml_delete'), None, [('ptr', tasks.pop())])
            else:
                gone = True
                n = len(Q.changed)
                w.kill(listener)
            look()
        w.drain()
        if kind == 'future' and fut.finished:
            w.drain()
        look()
        if gone and len(Q.changed) > n:
            raise Bad(R29, 'a deleted object gets a value')
    label = 'QmlTask of %s, %s%s' % (kind, mode, ', copied' if copies else '')
    check(ck, label, scenario, [R29], blame='QCoro::QmlTask::' + mode)


def c29(ck):
    d = 5 if ck.thorough else 4
    for mode in ('then', 'await'):
        for kind in ('int', 'str', 'void', 'variant', 'future', 'empty'):
            qml(ck, kind, mode, False, d)
        for kind in ('int', 'variant', 'empty'):
            qml(ck, kind, mode, True, d)


# ------------------------------------------------------------------ C30
def images(ck, depth):
    def scenario(S):
        I, w = S.I, S.w
        Q = Qml(S)
        f = harness('img_new')
        r = next(r for r in f.tu.recs.values() if r['qn'] == 'h::Provider')
        prov = ('heap', 'Provider', I.uid())
        I.dyn[prov] = r
        n = I.choose('requests', [1, 2])
        srcs, reqs, done, order = [], [], {}, []
        tex = []

        def produce(recv, a):
            reqs.append(tuple(payload(I, x) for x in a))
            c = S.source('src_image', outcomes=('value',))
            srcs.append(c)
            return ('obj', c.ret)
        S.callees['QCoro::ImageProvider::asyncRequestImage'] = produce
        S.callees['h::Provider::asyncRequestImage'] = produce

        def texture(recv, a):
            tex.append(payload(I, a[0]))
            return ('param', 'texture')
        S.callees['QQuickTextureFactory::textureFactoryForImage'] = texture

        def emitted(loc, sig, args):
            if sig != 'finished':
                return
            done[loc] = done.get(loc, 0) + 1
            if done[loc] > 1:
                raise Bad(R30, 'a response signals that it is finished more than once')
            del tex[:]
            I.call_fn(harness('img_texture'), None, [('ptr', loc)])
            order.append((loc, value_of(I, tex[0]) if len(tex) == 1 else None))
        w.on_emit = emitted

        def finished(recv, a):
            w.emit(recv[1], 'finished', [])
            return ('void',)
        S.callees['QQuickImageResponse::finished'] = finished
        ids = [(('param', 'id%d' % k), ('param', 'size%d' % k)) for k in range(n)]
        resp = []

        def look():
            for k, (i, s) in enumerate(ids):
                if k >= len(resp):
                    break
                if reqs[k] != (i, s):
                    raise Bad(R30, 'the coroutine is asked for (%s) instead of the requested id and size' % ', '.join(fmt(x) if x is not None else '?' for x in reqs[k]))
                c = srcs[k]
                st = S.src[c.promise]
                fin = c.done
                if fin and not done.get(resp[k]):
                    raise Bad(R30, 'the response does not signal that it is finished although its image was produced')
                if done.get(resp[k]) and not fin and not c.done and st.get('mode') == 'async' and c.state == 'suspended':
                    raise Bad(R30, 'the response signals that it is finished before its image was produced')
                for l, img in order:
                    if l == resp[k] and img != st.get('value'):
                        raise Bad(R30, 'the texture is made of %s instead of the produced image when the response signals that it is finished' % (fmt(img) if img else 'nothing'))
        for k in range(n):
            x = I.call_fn(harness('img_request'), None, [('ptr', prov), ids[k][0], ids[k][1]])
            if x is None or I.strip(x)[0] != 'ptr':
                raise Bad(R30, 'no response is returned')
            if len(reqs) != k + 1:
                raise Bad(R30, 'the coroutine is invoked %d times for one request' % (len(reqs) - k))
            resp.append(w.ploc(x))
            if resp[-1] in resp[:-1]:
                raise Bad(R30, 'two requests share a response')
            look()
        for step in range(depth):
            ops = ['stop'] + [c for c in srcs if not c.done and S.src[c.promise].get('mode') == 'async']
            ops += [('forget', l) for l in resp if done.get(l) and w.alive(l)]
            if len(ops) == 1:
                break
            op = I.choose(('event', step), ops)
            if op == 'stop':
                break
            if isinstance(op, tuple):
                w.kill(op[1])
            else:
                S.finish(op)
            w.drain()
            look()
        w.drain()
        look()
    check(ck, 'image requests', scenario, [R30], blame='QCoro::ImageProvider::requestImageResponse')


def c30(ck):
    images(ck, 6 if ck.thorough else 4)


RULES = {'C29': c29, 'C30': c30}
