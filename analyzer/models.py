"""Models of the standard-library and Qt operations the library is built on.

Each model receives (interpreter, call node, function reference) and returns the value (or location) of the call."""
import re
from absint import (NULL, TRUE, FALSE, OPT0, B, is_loc, const_of, dur_unit, _Opaque, ThrowExc, Abort, StopPath, root_of)
from facts import ToolError

MODELS = {}
GENERIC = []


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def generic(rx):
    def deco(f):
        GENERIC.append((re.compile(rx), f))
        return f
    return deco


# ------------------------------------------------------------------ helpers
def recv(I, n):
    """Location (or bare value wrapped as location) of the receiver."""
    return I.eval_recv(n)


def rval(I, n):
    """Value of the receiver."""
    o = I.eval_recv(n)
    return I.read(o) if is_loc(o) else o


def arg(I, n, i):
    a = n['args'][i]
    return I.argval(a, I.ev(a))


def args(I, n):
    return [I.argval(a, I.ev(a)) for a in n['args']]


def ret(I, n, v):
    if n.get('lv'):
        return v if is_loc(v) else I.box(v)
    if is_loc(v):
        return I.read_obj(v, I.frames[-1].tu, n['t'])
    return v


def tname(I, n):
    return I.frames[-1].tu.ts(n['t'])


def set_(I, loc, v):
    """Store into an object, invalidating cached parts of its old content."""
    todo = [loc]
    while todo:
        o = todo.pop()
        for part in ('$val', '$alt'):
            k = ('fld', o, part)
            if I.mem.pop(k, None) is not None:
                todo.append(k)
    if is_loc(loc):
        I.write(loc, v)


def obj_or(I, node, v):
    """Turn an argument into the value stored in a container/optional."""
    if not is_loc(v):
        return v
    fr = I.frames[-1]
    src = v
    t = fr.tu.t(node['t'])
    val = I.read_obj(v, fr.tu, node['t'])
    if val[0] == 'obj' and I.is_repo_rec(fr.tu, node['t']):
        l = I.newloc('heap', 'el')
        r = I.rec_of(fr.tu, node['t'])
        if src in I.mem and I.mem[src][0] != 'obj':
            return I.mem[src]
        I.dyn[l] = r
        I.copy_obj(val[1], l, r, node.get('lv') == 2)
        return ('obj', l)
    return val


def rec_fresh(I, n, tid, argnodes, kind='heap'):
    """Construct a T (type id) from argument nodes; returns its value."""
    fr = I.frames[-1]
    t = fr.tu.t(tid)
    r = I.rec_of(fr.tu, tid)
    if r is not None and 'fields' in r and not r.get('lambda'):
        loc = (kind, t['s'], I.uid())
        vals = [I.ev(a) for a in argnodes]
        if len(argnodes) == 1 and I.rec_of(fr.tu, argnodes[0]['t']) is r:
            src = vals[0]
            if not is_loc(src):
                if src[0] == 'obj' and is_loc(src[1]):
                    src = src[1]
                else:
                    I.mem[loc] = src
                    return ('obj', loc)
            m = I.mem.get(src)
            if m is not None and m[0] == 'obj' and is_loc(m[1]):
                src = m[1]
            elif m is not None:
                I.mem[loc] = m
                return ('obj', loc)
            I.dyn[loc] = r
            I.copy_obj(src, loc, r, moves(fr.tu, n, 0))
            return ('obj', loc)
        I.dyn[loc] = r
        ctor = pick_ctor(I, r, [fr.tu.ts(a['t']) for a in argnodes])
        I.log('ctor', type=t['s'], loc=loc, args=tuple(I.argval(a, v) for a, v in zip(argnodes, vals)))
        if ctor is not None:
            I.call_fn(ctor, loc, vals)
        else:
            for rr, fd in I.all_fields(r):
                I.default_field(loc, rr, fd)
            for (rr, fd), a, v in zip(list(I.all_fields(r)), argnodes, vals):
                I.mem[('fld', loc, fd['n'])] = I.argval(a, v)
        return ('obj', loc)
    if not argnodes:
        return default_value(t) or ('vinit', t['s'])
    if len(argnodes) == 1:
        a = argnodes[0]
        v = I.ev(a)
        mv = moves(fr.tu, n, 0)
        x = I.argval(a, v)
        if mv and is_loc(v):
            m = moved_from(fr.tu.ts(a['t']), x)
            if m is not None:
                I.write(v, m)
        if t['s'].startswith('std::chrono::duration'):
            x = to_dur(x, t['s'], fr.tu.ts(a['t']))
        return conv_opt(t['s'], fr.tu.ts(a['t']), x)
    vals = tuple(I.argval(a, I.ev(a)) for a in argnodes)
    if t.get('qobj'):
        loc = (kind, t['s'], I.uid())
        I.log('construct', type=t['s'], loc=loc, args=vals)
        I.mem[loc] = ('obj', loc)
        return ('obj', loc)
    return ('new', t['s']) + vals


def conv_opt(dst, src, x):
    """Implicit conversion of a value of type src to dst, where dst may be an optional."""
    if dst.startswith('std::optional<'):
        src = src.replace('const ', '')
        if 'nullopt_t' in src:
            return OPT0
        if opt_depth(src) < opt_depth(dst):
            return ('opt1', x)
    return x


def opt_depth(s):
    n = 0
    while s.startswith('std::optional<'):
        s = s[len('std::optional<'):]
        n += 1
    return n


def undefined(I, what):
    """Undefined behaviour is reached: reported in scenarios, elsewhere the path is not followed."""
    if getattr(I, 'world', None) is not None:
        I.log('ub', how=what)
        raise StopPath()
    raise Abort()


def moves(tu, n, i):
    pt = n.get('f', {}).get('pt', [])
    if i < len(pt):
        return '&&' in tu.ts(pt[i])
    return False


def pick_ctor(I, r, types):
    """Find the definition of the constructor that takes the given argument types (by count and loose type match)."""
    cands = []
    for g in I.ctors(r):
        if g.body is None and 'inits' not in g.d:
            continue
        if g.d.get('copyctor') or g.d.get('movector'):
            continue
        if len(g.params) == len(types):
            cands.append(g)
    # template constructors appear as instantiated functions
    for g in I.prog.by_qn.get(r['qn'] + '::' + r['n'], []):
        if g.d.get('kind') == 'ctor' and (g.body is not None) and len(g.params) == len(types) and g not in cands and r['tu'].ts(r['t']) == g.tu.ts(g.d.get('reptype', -1)):
            if not (g.d.get('copyctor') or g.d.get('movector')):
                cands.append(g)
    if not cands:
        return None

    def base(s):
        return s.replace('const ', '').replace('&', '').strip()
    for g in cands:
        if all(base(g.tu.ts(p['t'])) == base(t) for p, t in zip(g.params, types)):
            return g
    return cands[0]


def to_dur(v, dst, src):
    if v[0] == 'D':
        return v
    if src.startswith(('std::chrono::duration', 'const std::chrono::duration')):
        return ('D', dur_unit(src), ('cnt', v))
    return ('D', dur_unit(dst), v)


def opt_parts(I, loc):
    v = I.read(loc)
    return v


# ------------------------------------------------------------------ defaults
def default_value(t):
    s = t.get('s', '')
    if s.startswith('const '):
        s = s[6:]
    if s.startswith('std::optional<'):
        return OPT0
    if s.startswith(('std::unique_ptr<', 'std::shared_ptr<', 'QPointer<', 'std::coroutine_handle<', 'std::function<', 'QSharedPointer<', 'QWeakPointer<', 'std::weak_ptr<', 'QSharedDataPointer<', 'QExplicitlySharedDataPointer<')):
        return NULL
    if s.startswith('QMetaObject::Connection'):
        return ('conn0',)
    if s.startswith(('std::vector<', 'std::deque<', 'QList<', 'QVector<', 'QQueue<', 'std::list<', 'std::queue<', 'std::array<')):
        return ('list',)
    if 'exception_ptr' in s:
        return ('excnull',)
    if s.startswith('std::variant<'):
        return ('alt', first_targ(s), ('void',))
    if s.startswith('std::chrono::duration'):
        return ('D', dur_unit(s), ('int', 0)) if False else None
    return None


def first_targ(s):
    i = s.index('<') + 1
    d = 0
    for j in range(i, len(s)):
        if s[j] == '<':
            d += 1
        elif s[j] == '>':
            if d == 0:
                return s[i:j]
            d -= 1
        elif s[j] == ',' and d == 0:
            return s[i:j]
    return s[i:-1]


def moved_from(s, v):
    if s.startswith('const '):
        return None
    if s.startswith(('std::unique_ptr<', 'std::shared_ptr<', 'QFutureWatcher<', 'QSharedDataPointer<', 'QExplicitlySharedDataPointer<')):
        return NULL
    if s.startswith(('std::vector<', 'std::deque<', 'QList<')):
        return ('list',)
    if s.startswith('std::function<'):
        return ('moved', v)
    return None


# ------------------------------------------------------------------ construction of external types
def construct_ext(I, n, f, t, target):
    fr = I.frames[-1]
    a = n['args']
    s = t['s']
    if s.startswith('const '):
        s = s[6:]
    name = f['rqn']
    if (n.get('copy') or n.get('move')) and a:
        v = I.ev(a[0])
        if is_loc(v):
            x = I.mem.get(v)
            if x is not None and x[0] == 'obj' and is_loc(x[1]) and not t.get('qobj'):
                pass
            val = I.read(v)
            if n.get('move'):
                mv = moved_from(s, val)
                if mv is not None:
                    I.mem[v] = mv
            return val
        return v
    if name == 'std::optional':
        if not a:
            return OPT0
        at = fr.tu.ts(a[0]['t'])
        if 'nullopt_t' in at:
            I.ev(a[0])
            return OPT0
        v = I.ev(a[0])
        if at.replace('const ', '').startswith('std::optional<') and opt_depth(at.replace('const ', '')) >= opt_depth(s):
            x = I.read(v) if is_loc(v) else v
            return x
        if len(a) == 1:
            x = obj_or(I, a[0], v)
            if is_loc(v) and moves(fr.tu, n, 0):
                mv = moved_from(at, x)
                if mv is not None:
                    I.mem[v] = mv
            vt = fr.tu.ts(t['targs'][0]) if t.get('targs') else ''
            if vt.startswith('std::chrono::duration'):
                x = to_dur(x, vt, at)
            return ('opt1', x)
        return ('opt1', ('tuple',) + tuple(I.argval(y, I.ev(y)) for y in a[1:]))
    if name in ('QSharedDataPointer', 'QExplicitlySharedDataPointer'):
        v = I.strip(I.rv(a[0])) if a else NULL
        return ('sdp', v[1]) if v[0] == 'ptr' else v
    if name in ('std::unique_ptr', 'QPointer', 'std::shared_ptr'):
        if not a:
            return NULL
        v = I.rv(a[0])
        src = fr.tu.ts(a[0]['t'])
        return I.strip(v) if name == 'QPointer' else v
    if name == 'std::coroutine_handle':
        return I.rv(a[0]) if a else NULL
    if name.endswith('exception_ptr'):
        return ('excnull',) if not a or fr.tu.t(a[0]['t']).get('k') == 'nullptr' else I.rv(a[0])
    if name == 'QMetaObject::Connection':
        return I.rv(a[0]) if a else ('conn0',)
    if name == 'std::variant':
        if not a:
            return ('alt', first_targ(s), ('void',))
        v = I.ev(a[0])
        x = obj_or(I, a[0], v)
        return ('alt', plain(fr.tu.ts(a[0]['t'])), x)
    if name in ('std::vector', 'std::deque', 'QList', 'std::list', 'std::queue', 'std::array'):
        if not a:
            return ('list',)
        vs = [I.argval(x, I.ev(x)) for x in a]
        if vs and vs[0][0] == 'list':
            return vs[0]
        return ('new', s) + tuple(vs)
    if ITERATOR.match(name) and len(a) == 1:
        v = I.rv(a[0])
        if v[0] == 'iter':
            return v        # const_iterator from iterator
    if name == 'std::tuple':
        return ('tuple',) + tuple(I.argval(x, I.ev(x)) for x in a)
    if name == 'std::pair':
        return ('tuple',) + tuple(I.argval(x, I.ev(x)) for x in a)
    if name in ('std::__atomic_base', 'std::atomic'):
        return I.rv(a[0]) if a else ('int', 0)
    if name == 'std::chrono::duration':
        if not a:
            return ('D', dur_unit(s), ('int', 0))
        v = I.rv(a[0])
        return to_dur(v, s, fr.tu.ts(a[0]['t']))
    if name == 'std::chrono::time_point':
        return I.rv(a[0]) if a else ('vinit', s)
    if name == 'std::function':
        if not a or fr.tu.t(a[0]['t']).get('k') == 'nullptr':
            return NULL
        v = I.ev(a[0])
        return obj_or(I, a[0], v)
    if name in ('std::nullopt_t', 'std::monostate'):
        for x in a:
            I.ev(x)
        return ('void',)
    vals = tuple(I.argval(x, I.ev(x)) for x in a)
    if t.get('qobj') or name in ('QEventLoop',):
        loc = target if target is not None else I.newloc('tmp', s)
        I.mem[loc] = ('obj', loc)
        I.typ[loc] = t
        I.log('construct', type=name, loc=loc, args=vals)
        return ('obj', loc)
    if target is not None and target[0] in ('heap', 'var', 'fld') and name in ('QObject', 'QQuickImageResponse', 'QSharedData', 'QQuickAsyncImageProvider'):
        I.log('construct', type=name, loc=target, args=vals)
        return ('obj', target)
    I.log('construct', type=name, loc=target, args=vals, inert=name.startswith(('QDebug', 'QMessageLogger', 'std::basic_string_view')))
    if len(vals) == 1 and name in ('QVariant', 'QString', 'QByteArrayView', 'QByteArray', 'QStringView', 'QFuture', 'QDBusMessage', 'QDBusPendingReply', 'QDBusPendingCall', 'QDeadlineTimer', 'QFlags'):
        return ('conv', s, vals[0])
    return ('new', s) + vals


def plain(s):
    s = s.replace('&', '').strip()
    if s.startswith('const '):
        s = s[6:]
    return s


# ------------------------------------------------------------------ utility
@model('std::move', 'std::forward', 'std::as_const', 'std::forward_like', 'qAsConst', 'std::move_if_noexcept')
def m_move(I, n, f):
    if len(n['args']) != 1:
        return NotImplemented
    v = I.ev(n['args'][0])
    if is_loc(v):
        return v
    return I.box(v)


@model('std::addressof', 'std::__addressof')
def m_addressof(I, n, f):
    v = I.ev(n['args'][0])
    return I.addr(v) if is_loc(v) else v


@model('std::exchange', 'qExchange')
def m_exchange(I, n, f):
    l = I.ev(n['args'][0])
    v = I.rv(n['args'][1])
    if n['args'][1]['k'] == 'InitList':
        pass
    old = I.read(l)
    t = I.frames[-1].tu.ts(n['args'][0]['t'])
    if v[0] in ('vinit', 'list') and default_value({'s': t}) is not None:
        v = default_value({'s': t})
    set_(I, l, v)
    return old


@model('std::swap', 'qSwap')
def m_swap(I, n, f):
    fr = I.frames[-1]
    a, b = I.ev(n['args'][0]), I.ev(n['args'][1])
    if I.is_repo_rec(fr.tu, n['args'][0]['t']):
        r = I.rec_of(fr.tu, n['args'][0]['t'])
        tmp = I.newloc('var', 'swaptmp')
        I.dyn[tmp] = r
        for dst, src in ((tmp, a), (a, b), (b, tmp)):
            if dst is tmp:
                I.copy_ctor_any(src, dst, r, True)
            else:
                op = I.find_assign(r, True) or I.find_assign(r, False)
                if op is not None:
                    I.call_fn(op, dst, [src])
                else:
                    I.assign_obj(src, dst, r, True)
        I.destroy_rec(tmp, r)
        return ('void',)
    x, y = I.read(a), I.read(b)
    set_(I, a, y)
    set_(I, b, x)
    return ('void',)


@model('std::invoke')
def m_invoke(I, n, f):
    c = I.ev(n['args'][0])
    cv = I.read(c) if is_loc(c) else c
    r = I.rec_of(I.frames[-1].tu, n['args'][0]['t'])
    if r is not None and not r.get('lambda') and cv[0] not in ('clo', 'bound', 'memfn'):
        # an object of a class with a call operator
        ops = [m for m in r.get('methods', []) if m['n'] == 'operator()' and len(m.get('pt', [])) == len(n['args']) - 1]
        if len(ops) == 1:
            return I.e_Call(dict(n, f=ops[0], obj=n['args'][0], args=n['args'][1:], op='()', arrow=False))
    rest = [I.ev(a) for a in n['args'][1:]]
    if cv[0] in ('clo', 'bound'):
        return I.fix_result(n, I.invoke(cv, rest))
    if cv[0] == 'memfn' or I.frames[-1].tu.t(n['args'][0]['t']).get('k') == 'memptr' or 'memptr' == I.frames[-1].tu.t(I.frames[-1].tu.t(n['args'][0]['t']).get('to', -1)).get('k'):
        vals = [I.argval(x, v) for x, v in zip(n['args'][1:], rest)]
        if cv[0] == 'memfn' and I.prog.fn(cv[3].x, cv[3].tu) is not None and I.prog.fn(cv[3].x, cv[3].tu).body is not None:
            return I.fix_result(n, I.invoke(cv, [vals[0]] + rest[1:]))
        if cv[0] == 'memfn' and not cv[1].startswith('h::'):
            return I.fix_result(n, I.invoke(cv, [I.strip(vals[0])] + vals[1:]))
        return call_user(I, n, cv, [I.strip(vals[0])] + vals[1:])
    vals = [I.argval(x, v) for x, v in zip(n['args'][1:], rest)]
    return call_user(I, n, cv if not is_loc(c) or c in I.mem else ('init', c), vals, n['args'][0])


def call_user(I, n, cv, vals, node=None):
    return I.user_call(n, cv, vals)


@model('std::apply')
def m_apply(I, n, f):
    c = I.ev(n['args'][0])
    cv = I.read(c) if is_loc(c) else c
    t = arg(I, n, 1)
    items = list(t[1:]) if t[0] == 'tuple' else [('get', t, i) for i in range(3)]
    if cv[0] in ('clo', 'bound'):
        return I.fix_result(n, I.invoke(cv, items))
    return I.user_call(n, cv, items)


@model('std::bind')
def m_bind(I, n, f):
    fv = arg(I, n, 0)
    return ('bound', fv, tuple(placeholder(arg(I, n, i)) for i in range(1, len(n['args']))))


def placeholder(v):
    m = re.search(r'std::placeholders::_(\d+)\b', repr(v)) if 'placeholders' in repr(v) else None
    return ('placeholder', int(m.group(1))) if m else v


@model('std::mem_fn')
def m_memfn(I, n, f):
    return ('bound', arg(I, n, 0), (('placeholder', '*'),))


@model('std::bind_front')
def m_bindf(I, n, f):
    fv = arg(I, n, 0)
    return ('bound', fv, tuple(arg(I, n, i) for i in range(1, len(n['args']))) + (('placeholder', '*'),))


@model('std::make_tuple', 'std::forward_as_tuple', 'std::tie', 'std::make_pair')
def m_mktuple(I, n, f):
    return ('tuple',) + tuple(args(I, n))


@model('std::make_optional')
def m_mkopt(I, n, f):
    v = I.ev(n['args'][0])
    return ('opt1', obj_or(I, n['args'][0], v))


@model('std::make_unique', 'std::make_shared')
def m_mkunique(I, n, f):
    fr = I.frames[-1]
    t = fr.tu.t(n['t'])
    et = t['targs'][0]
    es = fr.tu.ts(et)
    if es.startswith('Q') and es.endswith('Event') and not I.is_repo_rec(fr.tu, et):
        # not a value: an event has an identity
        loc = ('heap', es, I.uid())
        vals = args(I, n)
        I.log('new', loc=loc, type=es, how='make_unique')
        I.log('construct', type=es, loc=loc, args=tuple(vals))
        I.mem[loc] = ('obj', loc)
        I.typ[loc] = fr.tu.t(et)
        return ('ptr', loc)
    v = rec_fresh(I, n, et, n['args'])
    if v[0] == 'obj' and is_loc(v[1]):
        loc = v[1]
        if loc[0] != 'heap':
            l2 = ('heap', es, I.uid())
            I.relocate(loc, l2)
            loc = l2
    else:
        loc = ('heap', es, I.uid())
        if fr.tu.t(et).get('qobj'):
            I.log('construct', type=es, loc=loc, args=(v,))
            I.mem[loc] = ('obj', loc)
            I.typ[loc] = fr.tu.t(et)
        else:
            I.mem[loc] = v
    I.log('new', loc=loc, type=es, how='make_unique')
    return ('ptr', loc)


@model('std::clamp', 'qBound', 'std::minmax')
def m_clamp(I, n, f):
    if len(n['args']) != 3:
        return NotImplemented
    a = args(I, n)
    v, lo, hi = a if f['n'] == 'clamp' else (a[1], a[0], a[2])
    return ret(I, n, lo if I.cmp('<', v, lo) else hi if I.cmp('<', hi, v) else v)


@model('std::max', 'std::min', 'qMax', 'qMin')
def m_max(I, n, f):
    if len(n['args']) != 2:
        return NotImplemented
    a, b = arg(I, n, 0), arg(I, n, 1)
    lt = I.cmp('<', a, b)
    big = f['n'] in ('max', 'qMax')
    v = (b if lt else a) if big else (a if lt else b)
    return ret(I, n, v)


@model('std::current_exception')
def m_curexc(I, n, f):
    return I.curexc[-1] if I.curexc else ('excnull',)


@model('std::rethrow_exception')
def m_rethrow(I, n, f):
    v = I.rv(n['args'][0])
    I.log('rethrow', exc=v)
    raise ThrowExc(v)


@model('std::make_exception_ptr')
def m_mkexc(I, n, f):
    return ('exc', ('made', arg(I, n, 0)), 'std')


@model('std::noop_coroutine')
def m_noop(I, n, f):
    return ('noop',)


@model('std::source_location::current', 'std::source_location::function_name', 'std::source_location::line')
def m_srcloc(I, n, f):
    return ('srcloc',)


@generic(r'^std::basic_string_view::')
def g_sv(I, n, f):
    I.eval_recv(n)
    for a in n['args']:
        I.ev(a)
    return ret(I, n, ('sv', f['n'], I.uid()))


@generic(r'^(QDebug|QMessageLogger|QLoggingCategory|QLoggingCategoryMacroHolder|QNoDebug)::')
def g_dbg(I, n, f):
    I.eval_recv(n)
    for a in n['args']:
        I.ev(a)
    return ret(I, n, FALSE if 'bool' in f['n'] else ('inert', f['n']))


@model('operator<<')
def g_dbgop(I, n, f):
    for a in n['args']:
        I.ev(a)
    if 'QDebug' in tname(I, n):
        return ret(I, n, ('inert', 'dbg'))
    return NotImplemented


@model('QNonConstOverload::operator()', 'QConstOverload::operator()', 'QtPrivate::QNonConstOverload::operator()', 'QOverload::operator()',
       'QNonConstOverload::of', 'QConstOverload::of', 'QOverload::of')
def m_overload(I, n, f):
    return I.rv(n['args'][0])


@model('qobject_cast')
def m_qocast(I, n, f):
    v = I.rv(n['args'][0])
    return v


@model('__builtin_unreachable', 'Q_UNREACHABLE', 'std::unreachable', 'qt_assert', 'std::terminate', 'std::abort', 'qt_assert_x')
def m_unreach(I, n, f):
    I.log('terminate', name=f['qn'])
    undefined(I, 'code marked unreachable is reached' if 'unreach' in f['qn'].lower() else 'the program is terminated (%s)' % f['qn'])


# ------------------------------------------------------------------ optional
def optval(I, o):
    """Location of the contained value of the optional at o."""
    v = I.read(o)
    l = ('fld', o, '$val')
    if l not in I.mem:
        if v[0] == 'opt1':
            if v[1][0] == 'obj' and is_loc(v[1][1]):
                return v[1][1]
            I.mem[l] = v[1]
        else:
            I.mem[l] = ('optget', v)
    return l


@generic(r'^std::optional::(has_value|operator bool)$')
def g_opthas(I, n, f):
    v = rval(I, n)
    if v[0] in ('opt0', 'opt1'):
        return B(v[0] == 'opt1')
    return ('has', v)


@generic(r'^std::optional::(operator\*|operator->|value)$')
def g_optget(I, n, f):
    o = I.eval_recv(n)
    if not is_loc(o):
        o = I.box(o)
    v = I.read(o)
    if f['n'] == 'value':
        if not I.has(v):
            raise ThrowExc(('exc', 'bad_optional_access', 'std'))
    else:
        empty = v == OPT0 or (v[0] not in ('opt1',) and not I.has(v))
        I.log('optderef', loc=o, val=v, empty=empty)
        if empty:
            if v == OPT0:
                undefined(I, 'an empty optional is dereferenced')
            raise Abort()
    l = optval(I, o)
    if f['n'] == 'operator->':
        return I.addr(l)
    return l if n.get('lv') else I.read(l)


@generic(r'^std::optional::value_or$')
def g_optor(I, n, f):
    o = I.eval_recv(n)
    d = arg(I, n, 0)
    v = I.read(o) if is_loc(o) else o
    if I.has(v):
        if v[0] == 'opt1':
            return v[1]
        return ('optget', v)
    t = tname(I, n)
    if t.startswith('std::optional<'):
        at = tname(I, n['args'][0])
        if 'nullopt_t' in at:
            return OPT0
        if opt_depth(at) < opt_depth(t):
            return ('opt1', d)
    return d


def obj_type(I, n):
    fr = I.frames[-1]
    ot = fr.tu.t(n['obj']['t']) if 'obj' in n else {'s': ''}
    if n.get('arrow'):
        ot = fr.tu.t(ot.get('to', -1))
    return ot.get('s', '').replace('const ', '')


@generic(r'^std::optional::(emplace|operator=|reset|swap)$')
def g_optset(I, n, f):
    if f['n'] == 'swap':
        return NotImplemented
    fr = I.frames[-1]
    o = I.eval_recv(n)
    if f['n'] == 'reset':
        set_(I, o, OPT0)
        return ('void',)
    if f['n'] == 'operator=':
        at = fr.tu.ts(n['args'][0]['t']).replace('const ', '')
        v = I.ev(n['args'][0])
        if 'nullopt_t' in at:
            set_(I, o, OPT0)
        elif at.startswith('std::optional<') and opt_depth(at) >= opt_depth(obj_type(I, n)):
            set_(I, o, I.read(v) if is_loc(v) else v)
        else:
            set_(I, o, ('opt1', obj_or(I, n['args'][0], v)))
        return o
    tid = None
    t = I.typ.get(o)
    ot = fr.tu.t(n['obj']['t'])
    if n.get('arrow'):
        ot = fr.tu.t(ot.get('to', -1))
    if ot.get('targs') and len(n['args']) != 1:
        v = rec_fresh(I, n, ot['targs'][0], n['args'])
    elif ot.get('targs'):
        v = rec_fresh(I, n, ot['targs'][0], n['args'])
    else:
        v = ('tuple',) + tuple(args(I, n))
    set_(I, o, ('opt1', v))
    return optval(I, o)


# ------------------------------------------------------------------ smart pointers
@generic(r'^std::(unique_ptr|shared_ptr)::(get|operator bool|operator\*|operator->)$')
def g_up(I, n, f):
    v = rval(I, n)
    k = f['n']
    if k == 'get':
        return v
    if k == 'operator bool':
        if v[0] in ('null', 'ptr'):
            return B(v[0] == 'ptr')
        return ('not', ('not', v))
    if k == 'operator->':
        return v
    return I.deref(v)


@generic(r'^std::(unique_ptr|shared_ptr)::(operator=|reset|release|swap)$')
def g_upset(I, n, f):
    fr = I.frames[-1]
    o = I.eval_recv(n)
    k = f['n']
    ot = fr.tu.t(n['obj']['t'])
    if n.get('arrow'):
        ot = fr.tu.t(ot.get('to', -1))
    pt = (ot.get('targs') or [None])[0]
    old = I.read(o)
    if k == 'release':
        I.mem[o] = NULL
        return old
    if k == 'swap':
        a = I.ev(n['args'][0])
        x = I.read(a)
        I.write(a, old)
        I.write(o, x)
        return ('void',)
    new = NULL
    if n['args']:
        a = n['args'][0]
        v = I.ev(a)
        new = I.read(v) if is_loc(v) else v
        if is_loc(v) and k == 'operator=' and 'unique_ptr' in fr.tu.ts(a['t']):
            if v == o:
                return o
            I.mem[v] = NULL
    I.write(o, new)
    I.delete_ptr(old, fr.tu, pt, 'unique_ptr')
    return o if k == 'operator=' else ('void',)


def qp_now(I, v, ts):
    """The value of an operand of a comparison: a QPointer reads as what it points to now."""
    if 'QPointer<' not in ts or v == NULL:
        return v
    return qpcur(I, I.strip(v))


def qpcur(I, p):
    """What a QPointer to p holds now."""
    if getattr(I, 'world', None) is not None and p[0] == 'ptr':
        return NULL if p[1] in I.dead else p
    return ('qpget', p, I.susp)


@generic(r'^QPointer::(data|get|operator->|operator .*\*)$')
def g_qp(I, n, f):
    v = rval(I, n)
    if v == NULL:
        return NULL
    p = I.strip(v)
    if getattr(I, 'world', None) is not None and p[0] == 'ptr':
        if p[1] in I.dead and f['n'] == 'operator->':
            I.log('uaf', loc=p[1], dead=p[1], how='use of a null QPointer')
        return qpcur(I, p)
    if f['n'] == 'operator->':
        I.log('qpderef', ptr=p, loc=None)
    return ('qpget', p, I.susp)


@generic(r'^QPointer::(isNull|operator bool|operator!)$')
def g_qpnull(I, n, f):
    v = rval(I, n)
    x = FALSE if v == NULL else qpcur(I, I.strip(v))
    if x == NULL or x[0] == 'ptr':
        return B((x == NULL) == (f['n'] != 'operator bool'))
    if f['n'] == 'operator bool':
        return x if x == FALSE else ('not', ('not', x))
    return TRUE if v == NULL else ('not', x)


@generic(r'^QPointer::operator\*$')
def g_qpstar(I, n, f):
    return I.deref(rval(I, n))


@generic(r'^QPointer::(operator=|clear)$')
def g_qpset(I, n, f):
    o = I.eval_recv(n)
    v = I.strip(arg(I, n, 0)) if n['args'] else NULL
    I.write(o, v)
    return o


def sdp_holders(I, v):
    """How many living shared pointers hold v?"""
    w = getattr(I, 'world', None)
    n = 0
    for l, x in I.mem.items():
        if x == v:
            r = l
            ok = True
            while True:
                if r in I.dead:
                    ok = False
                    break
                if r[0] not in ('fld', 'elem'):
                    break
                r = r[1]
            n += ok
    return n


def sdp_drop(I, v, tu, pt):
    """A holder of v went away."""
    if v[0] == 'sdp' and not sdp_holders(I, v) and v[1] not in I.dead:
        I.delete_ptr(('ptr', v[1]), tu, pt, 'shared data pointer')


def sdp_pointee(I, n):
    fr = I.frames[-1]
    ot = fr.tu.t(n['obj']['t'])
    if n.get('arrow'):
        ot = fr.tu.t(ot.get('to', -1))
    return ot, (ot.get('targs') or [None])[0]


@generic(r'^Q(Explicitly)?SharedDataPointer::(operator->|operator\*|operator .*\*|data|constData|get|take|detach)$')
def g_sdp(I, n, f):
    o = I.eval_recv(n)
    v = I.read(o)
    ot, pt = sdp_pointee(I, n)
    fr = I.frames[-1]
    k = f['n']
    if v[0] != 'sdp':
        return v
    shares = 'Explicitly' not in f['rqn'] and k not in ('constData', 'take') and not ot['s'].startswith('const ') or k == 'detach'
    if shares and sdp_holders(I, v) > 1:
        r = I.rec_of(fr.tu, pt)
        loc = ('heap', fr.tu.ts(pt), I.uid())
        I.log('new', loc=loc, type=fr.tu.ts(pt), how='detach')
        if r is not None and 'fields' in r:
            I.dyn[loc] = r
            g = I.copy_ctor(r, False)
            if g is not None:
                I.call_fn(g, loc, [v[1]])
            else:
                I.copy_obj(v[1], loc, r)
        v = ('sdp', loc)
        I.write(o, v)
    if k == 'take':
        I.mem[o] = NULL
    if k == 'detach':
        return ('void',)
    return v[1] if k == 'operator*' else ('ptr', v[1])


@generic(r'^Q(Explicitly)?SharedDataPointer::(operator bool|operator!)$')
def g_sdpb(I, n, f):
    v = rval(I, n)
    if v[0] in ('sdp', 'null', 'ptr'):
        return B((v[0] != 'null') == (f['n'] != 'operator!'))
    return NotImplemented


@generic(r'^Q(Explicitly)?SharedDataPointer::(operator=|reset|swap)$')
def g_sdpset(I, n, f):
    fr = I.frames[-1]
    o = I.eval_recv(n)
    ot, pt = sdp_pointee(I, n)
    old = I.read(o)
    if f['n'] == 'swap':
        a = I.ev(n['args'][0])
        x = I.read(a)
        I.write(a, old)
        I.write(o, x)
        return ('void',)
    new = NULL
    if n['args']:
        v = I.ev(n['args'][0])
        new = I.read(v) if is_loc(v) else v
        if new[0] == 'ptr':
            new = ('sdp', new[1])
        if is_loc(v) and v != o and moves(fr.tu, n, 0):
            I.mem[v] = NULL
    I.write(o, new)
    if old != new:
        sdp_drop(I, old, fr.tu, pt)
    return o


@generic(r'^QSharedDataPointer::operator\*$')
def g_sdp3(I, n, f):
    return I.deref(g_sdp(I, n, f))


@generic(r'^QSharedDataPointer::operator=$')
def g_sdps(I, n, f):
    o = I.eval_recv(n)
    v = I.rv(n['args'][0])
    I.write(o, v)
    return o


# ------------------------------------------------------------------ variant
def altloc(I, o):
    l = ('fld', o, '$alt')
    v = I.read(o)
    if v[0] == 'alt' and v[2][0] == 'obj' and is_loc(v[2][1]):
        return v[2][1]
    if l not in I.mem:
        I.mem[l] = v[2] if v[0] == 'alt' else ('altget', v)
    return l


def altis(I, v, t):
    if v[0] == 'alt':
        return plain(v[1]) == plain(t)
    # exactly one alternative is active
    known = I.lits.get(('altof', v))
    if known is not None:
        return known == t
    for k, val in I.lits.items():
        if k[0] == 'alt' and k[1] == v and val:
            return k[2] == t
    return I.atom(('alt', v, t))


@model('std::holds_alternative')
def m_holds(I, n, f):
    fr = I.frames[-1]
    o = I.ev(n['args'][0])
    v = I.read(o) if is_loc(o) else o
    t = fr.tu.ts(f['ta'][0])
    return B(altis(I, v, plain(t)))


@model('std::get')
def m_get(I, n, f):
    fr = I.frames[-1]
    o = I.ev(n['args'][0])
    at = fr.tu.ts(n['args'][0]['t']).replace('const ', '')
    if at.startswith('std::variant<'):
        if not is_loc(o):
            o = I.box(o)
        v = I.read(o)
        t = plain(fr.tu.ts(n['t']))
        if not altis(I, v, t):
            x = ('exc', 'bad_variant_access', 'std')
            I.log('throw', exc=x)
            raise ThrowExc(x)
        l = altloc(I, o)
        return l if n.get('lv') else I.read(l)
    idx = 0
    for a in f.get('ta', []):
        if isinstance(a, str) and a.startswith('#'):
            idx = int(a[1:])
            break
    v = I.read(o) if is_loc(o) else o
    x = v[1 + idx] if v[0] == 'tuple' and idx < len(v) - 1 else ('get', v, idx)
    if n.get('lv') and not is_loc(x):
        l = ('elem', o if is_loc(o) else ('cell', o), idx)
        if v[0] == 'tuple':
            I.mem[l] = x
        else:
            I.mem.setdefault(l, x)
        return l
    return x


@model('std::get_if')
def m_getif(I, n, f):
    fr = I.frames[-1]
    p = I.rv(n['args'][0])
    o = I.deref(p)
    v = I.read(o)
    t = plain(fr.tu.ts(fr.tu.t(n['t']).get('to', -1)))
    if not altis(I, v, t):
        return NULL
    return I.addr(altloc(I, o))


@generic(r'^std::variant::(emplace|operator=|index|valueless_by_exception)$')
def g_variant(I, n, f):
    fr = I.frames[-1]
    o = I.eval_recv(n)
    k = f['n']
    if k == 'emplace':
        tid = next((a for a in f.get('ta', []) if not isinstance(a, str)), None)
        et = fr.tu.t(tid) if tid is not None else {'s': '?'}
        if not n['args']:
            v = default_value(et) or ('void',)
        else:
            v = rec_fresh(I, n, tid, n['args'])
        set_(I, o, ('alt', plain(et['s']), v))
        return altloc(I, o)
    if k == 'operator=':
        a = n['args'][0]
        v = I.ev(a)
        at = plain(fr.tu.ts(a['t']))
        if at.startswith('std::variant<'):
            set_(I, o, I.read(v) if is_loc(v) else v)
        else:
            alt = alt_for(I, n, at)
            set_(I, o, ('alt', alt, conv_opt(alt, at, obj_or(I, a, v))))
        return o
    v = I.read(o)
    if k == 'index':
        t = fr.tu.t(n['obj']['t'])
        names = [plain(fr.tu.ts(x)) for x in t.get('targs', [])]
        if v[0] == 'alt' and v[1] in names:
            return ('int', names.index(v[1]))
        for i, x in enumerate(names[:-1]):
            if altis(I, v, x):
                return ('int', i)
        return ('int', len(names) - 1)
    return FALSE


def alt_for(I, n, at):
    fr = I.frames[-1]
    t = fr.tu.t(n['obj']['t'])
    if n.get('arrow'):
        t = fr.tu.t(t.get('to', -1))
    names = [plain(fr.tu.ts(x)) for x in t.get('targs', [])]
    if at in names:
        return at
    rest = [x for x in names if x != 'std::monostate' and 'exception_ptr' not in x]
    return rest[0] if rest else at


# ------------------------------------------------------------------ containers
ITER_T = re.compile(r'__normal_iterator|_Deque_iterator|QList<.*>::(const_)?iterator|_List_(const_)?iterator|iterator')
ITERATOR = re.compile(r'^(__gnu_cxx::__normal_iterator|std::_Deque_iterator|QList::iterator|QList::const_iterator|std::_List_(const_)?iterator|std::reverse_iterator)$')


def lst(I, o):
    v = I.read(o)
    if v[0] == 'list':
        return v
    return None


@generic(r'^(std::(vector|deque|list|queue|array)|QList|QQueue|QVector)::(push_back|emplace_back|append|push|enqueue|push_front|emplace_front|prepend|operator<<)$')
def g_push(I, n, f):
    o = I.eval_recv(n)
    fr = I.frames[-1]
    ot = fr.tu.t(n['obj']['t'])
    if n.get('arrow'):
        ot = fr.tu.t(ot.get('to', -1))
    if f['n'].startswith('emplace') and ot.get('targs'):
        v = rec_fresh(I, n, ot['targs'][0], n['args'])
    else:
        v = obj_or(I, n['args'][0], I.ev(n['args'][0]))
    l = lst(I, o)
    front = 'front' in f['n'] or f['n'] == 'prepend'
    I.log('push', loc=o, val=v, front=front)
    I.lver[o] = I.lver.get(o, 0) + 1
    if l is not None:
        I.mem[o] = ('list', v) + l[1:] if front else l + (v,)
        i = 0 if front else len(l) - 1
        return ret(I, n, ('elem', o, i)) if n.get('lv') else ('void',)
    I.mem[o] = ('pushed', I.read(o), v)
    return ret(I, n, ('unk', 'elem', I.uid())) if n.get('lv') else ('void',)


@generic(r'^(std::(vector|deque|list|queue|array)|QList|QQueue|QVector)::(empty|isEmpty|size|count|length)$')
def g_empty(I, n, f):
    o = I.eval_recv(n)
    v = I.read(o) if is_loc(o) else o
    if v[0] == 'list':
        return B(len(v) == 1) if f['n'] in ('empty', 'isEmpty') else ('int', len(v) - 1)
    if v[0] == 'pushed' and f['n'] in ('empty', 'isEmpty'):
        return FALSE
    if f['n'] in ('empty', 'isEmpty'):
        return ('cmp', '==', ('size', v), ('int', 0))
    return ('size', v)


@generic(r'^(std::(vector|deque|list|queue|array)|QList|QQueue|QVector)::(front|first|head|back|last|at|operator\[\]|constFirst|takeFirst|dequeue|takeLast|data)$')
def g_front(I, n, f):
    o = I.eval_recv(n)
    if not is_loc(o):
        o = I.box(o)
    v = I.read(o)
    k = f['n']
    if k == 'data':
        return ('ptr', o)
    if k in ('at', 'operator[]'):
        i = const_of(arg(I, n, 0))
        i = i if i is not None else 0
    elif k in ('back', 'last', 'takeLast'):
        i = len(v) - 2 if v[0] == 'list' else -1
    else:
        i = 0
    I.log('elem', loc=o, idx=i, val=v)
    if v[0] == 'list':
        if not (0 <= i < len(v) - 1):
            I.log('oob', loc=o)
            undefined(I, 'an element is used that is not there')
        x = v[1 + i]
    else:
        x = ('item', v, i)
    if k in ('takeFirst', 'dequeue', 'takeLast'):
        I.log('pop', loc=o, val=x)
        I.lver[o] = I.lver.get(o, 0) + 1
        I.mem[o] = ('list',) + tuple(y for j, y in enumerate(v[1:]) if j != i) if v[0] == 'list' else ('popped', v)
        return x
    if x[0] == 'obj' and is_loc(x[1]):
        return x[1]
    l = elem(I, o, v, i, x)
    return l if n.get('lv') else x


def elem(I, o, l, i, x):
    """The location of an element of a container."""
    if l[0] == 'list' and is_loc(o) and I.mem.get(o) == l:
        e = ('elem', o, i)
        I.mem[e] = x
        return e
    e = ('elem', o, ('at', l, i))
    I.mem.setdefault(e, x)
    return e


@generic(r'^(std::(vector|deque|list|queue|array)|QList|QQueue|QVector)::(pop_front|pop|removeFirst|pop_back|removeLast|clear)$')
def g_pop(I, n, f):
    o = I.eval_recv(n)
    v = I.read(o)
    I.log('pop' if f['n'] != 'clear' else 'clear', loc=o, val=v)
    I.lver[o] = I.lver.get(o, 0) + 1
    if f['n'] == 'clear':
        I.mem[o] = ('list',)
    elif v[0] == 'list':
        if len(v) == 1:
            I.log('oob', loc=o)
            undefined(I, 'an element is used that is not there')
        back = 'back' in f['n'] or 'Last' in f['n']
        I.mem[o] = v[:-1] if back else ('list',) + v[2:]
    else:
        I.mem[o] = ('popped', v)
    return ('void',)


@generic(r'^(std::(vector|deque|list)|QList|QQueue|QVector)::(c?begin|c?end|constBegin|constEnd|r?begin|r?end)$')
def g_begin(I, n, f):
    o = I.eval_recv(n)
    v = I.read(o) if is_loc(o) else o
    if v[0] != 'list':
        k = I.choose(('size', v), [0, 1, 2])
        v = ('list',) + tuple(('item', v, i) for i in range(k))
        if is_loc(o):
            I.mem[o] = v
    if not is_loc(o):
        o = I.box(v)
    return ('iter', o, 0 if 'egin' in f['n'] else len(v) - 1)


@generic(r'^(__gnu_cxx::__normal_iterator|std::_Deque_iterator|QList::iterator|QList::const_iterator|std::_List_(const_)?iterator)::operator(\*|->|\[\])$')
def g_iterderef(I, n, f):
    v = rval(I, n)
    if v[0] != 'iter':
        return ret(I, n, ('iterderef', v))
    o, i = v[1], v[2]
    if f['n'] == 'operator[]':
        i += const_of(arg(I, n, 0)) or 0
    l = lst(I, o)
    if l is None or not (0 <= i < len(l) - 1):
        I.log('oob', loc=o)
        undefined(I, 'an element is used that is not there')
    x = l[1 + i]
    if x[0] == 'obj' and is_loc(x[1]):
        loc = x[1]
    else:
        loc = elem(I, o, l, i, x)
    return I.addr(loc) if f['n'] == 'operator->' else loc


@generic(r'^(__gnu_cxx::__normal_iterator|std::_Deque_iterator|QList::iterator|QList::const_iterator|std::_List_(const_)?iterator)::operator(\+\+|--|\+|-|\+=|-=)$')
def g_iterinc(I, n, f):
    o = I.eval_recv(n)
    v = I.read(o) if is_loc(o) else o
    if v[0] != 'iter':
        return NotImplemented
    op = f['n'][8:]
    if op == '-':
        b = arg(I, n, 0)
        if b[0] == 'iter':
            return ('int', v[2] - b[2])
    d = 1 if op[0] == '+' else -1
    if len(op) == 1 or op[1] == '=':
        d *= const_of(arg(I, n, 0)) or 0
    nv = ('iter', v[1], v[2] + d)
    if len(op) == 1:
        return nv
    if is_loc(o):
        I.mem[o] = nv
    post = bool(n['args']) and op in ('++', '--')
    return v if post else (o if n.get('lv') else nv)


@generic(r'^(__gnu_cxx|std)::operator(==|!=|<|>|<=|>=|-)$')
def m_itereq(I, n, f):
    if len(n['args']) != 2 or not any(ITER_T.search(I.frames[-1].tu.ts(x['t'])) for x in n['args']):
        return NotImplemented
    a, b = arg(I, n, 0), arg(I, n, 1)
    if a[0] == 'iter' and b[0] == 'iter':
        op = f['n'][8:]
        if op == '-':
            return ('int', a[2] - b[2])
        if a[1] != b[1]:
            undefined(I, 'iterators of different containers are compared')
        return B(I.cmp(op, ('int', a[2]), ('int', b[2])))
    return NotImplemented


@generic(r'^(std::(vector|deque|list)|QList|QQueue|QVector)::(erase|remove|removeAt|takeAt|removeIf|removeAll|removeOne|swap|insert|emplace|resize|replace)$')
def g_erase(I, n, f):
    o = I.eval_recv(n)
    v = I.read(o)
    k = f['n']
    I.lver[o] = I.lver.get(o, 0) + 1
    if k == 'swap':
        a = I.ev(n['args'][0])
        x = I.read(a)
        I.mem[o], I.mem[a] = x, v
        return ('void',)
    a = args(I, n)
    if v[0] != 'list':
        return NotImplemented
    if k == 'removeIf':
        keep = tuple(x for x in v[1:] if not pred(I, a[0], x))
        I.mem[o] = ('list',) + keep
        return ('int', len(v) - 1 - len(keep))
    if k in ('removeAt', 'takeAt', 'remove') or k == 'erase' and a[0][0] == 'int':
        i = const_of(a[0])
        c = const_of(a[1]) if len(a) > 1 else 1
        if i is None or c is None:
            return NotImplemented
        if not 0 <= i < len(v) - 1:
            I.log('oob', loc=o)
            undefined(I, 'an element is used that is not there')
        I.log('pop', loc=o, val=v[1 + i])
        I.mem[o] = v[:1 + i] + v[1 + i + c:]
        return v[1 + i] if k == 'takeAt' else ('void',)
    if k == 'resize':
        c = const_of(a[0])
        if c is None or c > len(v) - 1:
            return NotImplemented
        I.mem[o] = v[:1 + c]
        return ('void',)
    if k == 'replace':
        i = const_of(a[0])
        if i is None or not 0 <= i < len(v) - 1:
            return NotImplemented
        I.write(('elem', o, i), a[1])
        return ('void',)
    if k in ('insert', 'emplace') and len(a) == 2:
        i = a[0][2] if a[0][0] == 'iter' else const_of(a[0])
        if i is None or not 0 <= i < len(v):
            return NotImplemented
        x = obj_or(I, n['args'][1], I.ev(n['args'][1])) if k == 'insert' else a[1]
        I.log('push', loc=o, val=x, front=i == 0)
        I.mem[o] = v[:1 + i] + (x,) + v[1 + i:]
        return ret(I, n, ('iter', o, i)) if a[0][0] == 'iter' else ('void',)
    if k == 'insert' and len(a) == 3 and a[0][0] == 'iter':
        sp = span(I, a[1:])
        if sp is None:
            return NotImplemented
        xs = tuple(cur(I, sp[0], i) for i in sp[1])
        i = a[0][2]
        I.mem[o] = v[:1 + i] + xs + v[1 + i:]
        return ('iter', o, i)
    if k == 'erase' and a[0][0] == 'iter':
        i = a[0][2]
        j = a[1][2] if len(a) > 1 else i + 1
        if not 0 <= i <= j <= len(v) - 1:
            I.log('oob', loc=o)
            undefined(I, 'an element is used that is not there')
        if j > i:
            I.log('pop', loc=o, val=v[1 + i])
        I.mem[o] = ('list',) + v[1:1 + i] + v[1 + j:]
        return ('iter', o, i)
    if k in ('removeAll', 'removeOne'):
        I.mem[o] = ('list',) + tuple(x for x in v[1:] if not I.cmp('==', x, a[0]))
        return ('void',)
    return NotImplemented


@generic(r'^(std::(vector|deque|list|queue|array)|QList|QQueue|QVector)::(reserve|shrink_to_fit|squeeze|detach)$')
def g_reserve(I, n, f):
    I.eval_recv(n)
    args(I, n)
    return ('void',)


@generic(r'^(std::(vector|deque|list|queue)|QList|QQueue|QVector)::(operator=|assign)$')
def g_lassign(I, n, f):
    o = I.eval_recv(n)
    if len(n['args']) != 1:
        return NotImplemented
    a = I.ev(n['args'][0])
    v = I.read(a) if is_loc(a) else a
    if v[0] == 'new' and len(v) == 2:
        v = ('list',)
    if v[0] != 'list':
        return NotImplemented
    I.lver[o] = I.lver.get(o, 0) + 1
    if is_loc(a) and moves(I.frames[-1].tu, n, 0) and a != o:
        I.mem[a] = ('list',)
    I.mem[o] = v
    return o if n.get('lv') else v


@generic(r'^(std::(vector|deque|list)|QList|QQueue|QVector)::(contains|indexOf|value)$')
def g_contains(I, n, f):
    v = rval(I, n)
    a = args(I, n)
    if v[0] != 'list':
        return NotImplemented
    if f['n'] == 'value':
        i = const_of(a[0])
        if i is None or not 0 <= i < len(v) - 1:
            return NotImplemented
        return v[1 + i]
    for i, x in enumerate(v[1:]):
        if holds(I, '==', x, a[0]):
            return TRUE if f['n'] == 'contains' else ('int', i)
    return FALSE if f['n'] == 'contains' else ('int', -1)


@generic(r'^(__gnu_cxx::__normal_iterator|std::_Deque_iterator|QList::iterator|QList::const_iterator|std::_List_(const_)?iterator)::operator(==|!=|<|>|<=|>=)$')
def g_itercmp(I, n, f):
    a, b = rval(I, n), arg(I, n, 0)
    if a[0] == 'iter' and b[0] == 'iter' and a[1] == b[1]:
        return B(I.cmp(f['n'][8:], ('int', a[2]), ('int', b[2])))
    return NotImplemented


@model('std::next', 'std::prev', 'std::distance', 'std::advance')
def m_next(I, n, f):
    a = args(I, n)
    if a[0][0] != 'iter':
        return NotImplemented
    if f['n'] == 'distance':
        return ('int', a[1][2] - a[0][2]) if a[1][0] == 'iter' else NotImplemented
    d = const_of(a[1]) if len(a) > 1 else 1
    if d is None:
        return NotImplemented
    nv = ('iter', a[0][1], a[0][2] + (-d if f['n'] == 'prev' else d))
    if f['n'] == 'advance':
        I.write(I.ev(n['args'][0]), nv)
        return ('void',)
    return nv


@generic(r'^std::(c?begin|c?end|size|ssize|empty|data)$')
def g_freebegin(I, n, f):
    if len(n['args']) != 1:
        return NotImplemented
    o = I.ev(n['args'][0])
    v = I.read(o) if is_loc(o) else o
    if v[0] != 'list':
        return NotImplemented
    if f['n'] == 'empty':
        return B(len(v) == 1)
    if 'size' in f['n']:
        return ('int', len(v) - 1)
    if not is_loc(o):
        o = I.box(o)
    if f['n'] == 'data':
        return ('ptr', o)
    return ('iter', o, 0 if 'begin' in f['n'] else len(v) - 1)


def span(I, a):
    """[first, last) of a container as element positions."""
    if len(a) < 2 or a[0][0] != 'iter' or a[1][0] != 'iter' or a[0][1] != a[1][1] or lst(I, a[0][1]) is None:
        return None
    return a[0][1], range(a[0][2], a[1][2])


def cur(I, o, i):
    l = lst(I, o)
    if l is None or not 0 <= i < len(l) - 1:
        I.log('uaf', loc=o, dead=o, how='an element is used that is no longer there')
        raise StopPath()
    return l[1 + i]


def pred(I, f, x):
    r = I.invoke(f, [x])
    return I.truth(I.read(r) if is_loc(r) else r)


def holds(I, op, x, y):
    r = I.cmp(op, x, y)
    return r if isinstance(r, bool) else I.truth(r)


@model('std::for_each', 'std::ranges::for_each')
def m_foreach(I, n, f):
    a = args(I, n)
    sp = span(I, a)
    if sp is None or a[2][0] != 'clo':
        return NotImplemented
    o, r = sp
    ver = I.lver.get(o, 0)
    for i in r:
        x = cur(I, o, i)
        I.invoke(a[2], [elem(I, o, lst(I, o), i, x)])
        if I.lver.get(o, 0) != ver:
            I.read(o)
            I.log('ub', how='a container is changed while it is being iterated')
    return a[2]


@model('std::replace', 'std::replace_if')
def m_replace(I, n, f):
    a = args(I, n)
    sp = span(I, a)
    if sp is None:
        return NotImplemented
    o, r = sp
    I.read(o)
    for i in r:
        x = cur(I, o, i)
        if (pred(I, a[2], x) if f['n'] == 'replace_if' else holds(I, '==', x, a[2])):
            I.write(('elem', o, i), a[3])
    return ('void',)


@model('std::find', 'std::find_if', 'std::find_if_not')
def m_find(I, n, f):
    a = args(I, n)
    sp = span(I, a)
    if sp is None:
        return NotImplemented
    o, r = sp
    for i in r:
        x = cur(I, o, i)
        if f['n'] == 'find':
            hit = holds(I, '==', x, a[2])
        else:
            hit = pred(I, a[2], x) == (f['n'] == 'find_if')
        if hit:
            return ('iter', o, i)
    return a[1]


@model('std::count', 'std::count_if', 'std::any_of', 'std::all_of', 'std::none_of')
def m_count(I, n, f):
    a = args(I, n)
    sp = span(I, a)
    if sp is None:
        return NotImplemented
    o, r = sp
    k = 0
    for i in r:
        x = cur(I, o, i)
        hit = holds(I, '==', x, a[2]) if f['n'] == 'count' else pred(I, a[2], x)
        k += hit
        if f['n'] == 'any_of' and hit:
            return TRUE
        if f['n'] == 'all_of' and not hit or f['n'] == 'none_of' and hit:
            return FALSE
    return ('int', k) if f['n'].startswith('count') else B(f['n'] != 'any_of')


@model('std::remove', 'std::remove_if')
def m_remove(I, n, f):
    a = args(I, n)
    sp = span(I, a)
    if sp is None:
        return NotImplemented
    o, r = sp
    w = r.start
    for i in r:
        x = cur(I, o, i)
        hit = holds(I, '==', x, a[2]) if f['n'] == 'remove' else pred(I, a[2], x)
        if not hit:
            if w != i:
                I.write(('elem', o, w), x)
            w += 1
    return ('iter', o, w)


@model('std::erase', 'std::erase_if')
def m_erase(I, n, f):
    o = I.ev(n['args'][0])
    l = lst(I, o) if is_loc(o) else None
    if l is None:
        return NotImplemented
    p = I.rv(n['args'][1])
    keep = []
    for x in l[1:]:
        hit = holds(I, '==', x, p) if f['n'] == 'erase' else pred(I, p, x)
        if not hit:
            keep.append(x)
    I.lver[o] = I.lver.get(o, 0) + 1
    I.mem[o] = ('list',) + tuple(keep)
    return ('int', len(l) - 1 - len(keep))


# ------------------------------------------------------------------ coroutine handles
@generic(r'^std::coroutine_handle::(address|operator coroutine_handle.*|operator coroutine_handle)$')
def g_haddr(I, n, f):
    return rval(I, n)


@generic(r'^std::coroutine_handle::operator (std::)?coroutine_handle')
def g_hconv(I, n, f):
    return rval(I, n)


@generic(r'^std::coroutine_handle::operator bool$')
def g_hbool(I, n, f):
    v = rval(I, n)
    if v == NULL:
        return FALSE
    if v[0] == 'handle':
        return TRUE
    return ('not', ('not', v))


@generic(r'^std::coroutine_handle::operator=$')
def g_hset(I, n, f):
    o = I.eval_recv(n)
    v = I.rv(n['args'][0])
    I.write(o, v)
    return o


@generic(r'^std::coroutine_handle::from_address$')
def g_hfa(I, n, f):
    return I.rv(n['args'][0])


@generic(r'^std::coroutine_handle::from_promise$')
def g_hfp(I, n, f):
    o = I.ev(n['args'][0])
    if not is_loc(o):
        o = o[1] if o[0] == 'obj' else ('cell', o)
    if o[0] == 'promise' and len(o) == 2:
        return o[1]
    return ('handle', o)


def promise_loc(I, h):
    if h[0] == 'handle':
        return h[1]
    return ('promise', h)


@generic(r'^std::coroutine_handle::promise$')
def g_hprom(I, n, f):
    h = rval(I, n)
    I.log('promise', h=h)
    if h[0] == 'handle' and h[1] in I.dead:
        I.log('uaf', loc=h[1], dead=h[1], how='promise of a destroyed coroutine')
    return promise_loc(I, h)


@generic(r'^std::coroutine_handle::done$')
def g_hdone(I, n, f):
    h = rval(I, n)
    I.log('done', h=h)
    if h[0] == 'handle' and h[1] in I.dead:
        I.log('uaf', loc=h[1], dead=h[1], how='done() of a destroyed coroutine')
    fb = getattr(I, 'fibers', None)
    if fb is not None and h[0] == 'handle' and h[1] in fb:
        return B(fb[h[1]].done)
    if I.env_hook:
        r = I.env_hook(I, 'done', h, (), f)
        if r is not None:
            return r
    return ('done', h, I.epoch)


@generic(r'^std::coroutine_handle::(resume|operator\(\))$')
def g_hresume(I, n, f):
    return I.resume_handle(rval(I, n))


@generic(r'^std::coroutine_handle::destroy$')
def g_hdestroy(I, n, f):
    h = rval(I, n)
    I.log('destroy', h=h)
    I.epoch += 1
    if h == NULL:
        I.log('nulluse', how='destroy')
    fb = getattr(I, 'fibers', None)
    if fb is not None and h[0] == 'handle' and h[1] in fb:
        fb[h[1]].destroy()
    elif h[0] == 'handle':
        if h[1] in I.dead:
            I.log('uaf', loc=h[1], dead=h[1], how='destroyed again')
        elif I.dyn.get(h[1]) is not None:
            I.destroy_rec(h[1], I.dyn[h[1]])
        I.dead.add(h[1])
    if I.env_hook:
        I.env_hook(I, 'destroyed', h, (), f)
    return ('void',)


@generic(r'^(operator==|operator!=|std::(__n4861::)?operator(==|!=|<|>|<=|>=)|std::__exception_ptr::operator(==|!=)|std::__cxx11::operator==|std::chrono::operator(==|!=|<|>|<=|>=))$')
def g_eq(I, n, f):
    if len(n['args']) != 2:
        return NotImplemented
    fr = I.frames[-1]
    ts = [fr.tu.ts(a['t']) for a in n['args']]
    a, b = (qp_now(I, I.rv(x), t) for x, t in zip(n['args'], ts))
    op = f['n'][8:]
    if any('optional' in t for t in ts):
        if any('nullopt' in t for t in ts):
            v = a if 'nullopt' in ts[1] else b
            r = I.has(v)
            return B(r != (op == '=='))
        oa, ob = 'optional' in ts[0], 'optional' in ts[1]
        ha = I.has(a) if oa else True
        hb = I.has(b) if ob else True
        if not ha or not hb:
            return B((ha == hb) == (op == '=='))
        ga = (a[1] if a[0] == 'opt1' else ('optget', a)) if oa else a
        gb = (b[1] if b[0] == 'opt1' else ('optget', b)) if ob else b
        return B(I.cmp(op, ga, gb))
    if any('exception_ptr' in t for t in ts):
        def x(v):
            return NULL if v[0] in ('excnull', 'null') else v
        a, b = x(a), x(b)
        if a[0] == 'exc' and b == NULL or b[0] == 'exc' and a == NULL:
            return B(op == '!=')
        return B(I.cmp(op, a, b))
    # the result of <=> compared with zero
    if a[0] == 'ord' and b[0] != 'ord':
        return ('cmp', op, a[1], a[2])
    if b[0] == 'ord' and a[0] != 'ord':
        return ('cmp', op, b[2], b[1])
    if a[0] == b[0] == 'tp0' and a[1] == b[1]:
        return B(I.cmp(op, ('int', a[2]), ('int', b[2])))
    if any('chrono::duration' in t for t in ts):
        a, b = to_dur(a, ts[0], ts[0]), to_dur(b, ts[1], ts[1])
        return ('cmp', op, a, b)
    if a[0] in ('unk', 'inert') or b[0] in ('unk', 'inert'):
        return NotImplemented
    return ('cmp', op, a, b)


@generic(r'^(operator<=>|std::(__n4861::)?operator<=>|std::chrono::operator<=>)$')
def g_ord(I, n, f):
    if len(n['args']) != 2:
        return NotImplemented
    fr = I.frames[-1]
    ts = [fr.tu.ts(a['t']) for a in n['args']]
    a, b = I.rv(n['args'][0]), I.rv(n['args'][1])
    if a[0] == b[0] == 'tp0' and a[1] == b[1]:
        return ('ord', ('int', a[2]), ('int', b[2]))
    if any('chrono::duration' in t for t in ts):
        return ('ord', to_dur(a, ts[0], ts[0]), to_dur(b, ts[1], ts[1]))
    if a[0] in ('unk', 'inert') or b[0] in ('unk', 'inert'):
        return NotImplemented
    return ('ord', a, b)


@generic(r'^std::(__n4861::)?is_(eq|neq|lt|lteq|gt|gteq)$')
def g_isord(I, n, f):
    v = I.rv(n['args'][0])
    if v[0] != 'ord':
        return NotImplemented
    return ('cmp', {'eq': '==', 'neq': '!=', 'lt': '<', 'lteq': '<=', 'gt': '>', 'gteq': '>='}[f['n'].split('is_')[1]], v[1], v[2])


@generic(r'^std::__exception_ptr::exception_ptr::operator bool$')
def g_excb(I, n, f):
    v = rval(I, n)
    if v[0] in ('excnull', 'null'):
        return FALSE
    if v[0] == 'exc':
        return TRUE
    return ('not', ('not', v))


@generic(r'^std::__exception_ptr::exception_ptr::operator=$')
def g_excs(I, n, f):
    o = I.eval_recv(n)
    v = I.rv(n['args'][0])
    I.write(o, ('excnull',) if v == NULL else v)
    return o


# ------------------------------------------------------------------ atomics
@generic(r'^(std::__atomic_base|std::atomic)::')
def g_atomic(I, n, f):
    k = f['n']
    o = I.eval_recv(n)
    if o is None:
        return NotImplemented
    if k in ('load',) or k.startswith('operator ') and '=' not in k:
        return I.read(o)
    old = I.read(o)
    post = len(n['args']) == 1 and k in ('operator++', 'operator--')
    if k in ('operator++', 'operator--'):
        new = I.arith('+' if '+' in k else '-', old, ('int', 1))
        I.write(o, new)
        I.log('atomic', loc=o, op=k)
        return old if post else new
    a = args(I, n)
    if k in ('fetch_add', 'fetch_sub'):
        new = I.arith('+' if 'add' in k else '-', old, a[0])
        I.write(o, new)
        I.log('atomic', loc=o, op=k)
        return old
    if k in ('operator+=', 'operator-='):
        new = I.arith(k[8], old, a[0])
        I.write(o, new)
        return new
    if k in ('operator=', 'store'):
        I.write(o, a[0])
        return a[0]
    if k == 'exchange':
        I.write(o, a[0])
        return old
    return NotImplemented


# ------------------------------------------------------------------ functions
@generic(r'^std::(__n4861::)?(function|_Mem_fn_base|_Mem_fn|_Bind|_Bind_result|_Bind_front|move_only_function)::operator\(\)$')
def g_func(I, n, f):
    v = rval(I, n)
    a = [I.ev(x) for x in n['args']]
    if v[0] in ('clo', 'bound'):
        return I.fix_result(n, I.invoke(v, a))
    return I.user_call(n, v, [I.argval(x, y) for x, y in zip(n['args'], a)])


@generic(r'^std::function::operator bool$')
def g_funcb(I, n, f):
    v = rval(I, n)
    return v if v in (TRUE, FALSE) else ('not', ('not', v))


@generic(r'^std::function::operator=$')
def g_funcs(I, n, f):
    o = I.eval_recv(n)
    v = obj_or(I, n['args'][0], I.ev(n['args'][0]))
    I.write(o, v)
    return o


# ------------------------------------------------------------------ swapping
@generic(r'^(swap|std::\w+::swap|Q\w*::swap)$')
def g_swap(I, n, f):
    """Free and member functions that exchange two values of library types."""
    if n.get('obj') is not None:
        a, b = I.eval_recv(n), I.ev(n['args'][0])
    elif len(n['args']) == 2:
        a, b = I.ev(n['args'][0]), I.ev(n['args'][1])
    else:
        return NotImplemented
    if not is_loc(a) or not is_loc(b) or f.get('repo'):
        return NotImplemented
    x, y = I.read(a), I.read(b)
    set_(I, a, y)
    set_(I, b, x)
    return ('void',)


# ------------------------------------------------------------------ chrono
@generic(r'^std::chrono::duration::count$')
def g_count(I, n, f):
    fr = I.frames[-1]
    v = rval(I, n)
    t = fr.tu.t(n['obj']['t'])
    if n.get('arrow'):
        t = fr.tu.t(t.get('to', -1))
    if v[0] == 'D':
        u = dur_unit(t['s'])
        if not u or u == v[1]:
            return v[2]
        if v[1] % u == 0:
            return I.arith('*', v[2], ('int', v[1] // u))
        return I.arith('/', v[2], ('int', u // v[1])) if u % v[1] == 0 else ('cnt', v)
    return ('cnt', v)


@generic(r'^std::chrono::duration::(zero|max|min)$')
def g_zero(I, n, f):
    s = tname(I, n)
    return ('D', dur_unit(s), ('int', 0) if f['n'] == 'zero' else ('durlimit', f['n']))


@model('std::chrono::duration_cast', 'std::chrono::ceil', 'std::chrono::floor', 'std::chrono::round')
def m_durcast(I, n, f):
    fr = I.frames[-1]
    v = I.rv(n['args'][0])
    src = fr.tu.ts(n['args'][0]['t'])
    dst = tname(I, n)
    d = to_dur(v, dst, src)
    u = dur_unit(dst)
    if d[1] == u:
        return d
    if d[1] % u == 0:
        return ('D', u, I.arith('*', d[2], ('int', d[1] // u)))
    c = const_of(d[2])
    if c is not None:
        ns = c * d[1]
        if f['n'] == 'duration_cast':
            q = abs(ns) // u * (1 if ns >= 0 else -1)
        elif f['n'] == 'ceil':
            q = -((-ns) // u)
        else:
            q = ns // u
        return ('D', u, ('int', q))
    return ('D', u, ('durconv', f['n'], d))


@generic(r'^std::chrono::duration::operator(=|\+=|-=|\*=|/=|%=|\+\+|--)$')
def g_durassign(I, n, f):
    o = I.eval_recv(n)
    if not is_loc(o):
        return NotImplemented
    fr = I.frames[-1]
    op = f['n'][8:]
    s = plain(obj_type(I, n))
    d = to_dur(I.read(o), s, s)
    if op in ('++', '--'):
        nv = ('D', d[1], I.arith(op[0], d[2], ('int', 1)))
        I.write(o, nv)
        return d if n['args'] else (o if n.get('lv') else nv)
    a = n['args'][0]
    at = plain(fr.tu.ts(a['t']))
    v = I.rv(a)
    if at.startswith('std::chrono::duration'):
        v = to_dur(v, at, at)
        if v[1] != d[1]:
            c = const_of(v[2])
            if v[1] % d[1] == 0:
                v = ('D', d[1], I.arith('*', v[2], ('int', v[1] // d[1])))
            else:
                return NotImplemented
        nv = v if op == '=' else ('D', d[1], I.arith(op[:-1], d[2], v[2]))
    elif op in ('*=', '/=', '%='):
        nv = ('D', d[1], I.arith(op[:-1], d[2], v))
    else:
        return NotImplemented
    I.write(o, nv)
    return o if n.get('lv') else nv


@generic(r'^std::chrono::operator(\*|/|%)$')
def g_durmul(I, n, f):
    if len(n['args']) != 2:
        return NotImplemented
    fr = I.frames[-1]
    ts = [plain(fr.tu.ts(a['t'])) for a in n['args']]
    a, b = I.rv(n['args'][0]), I.rv(n['args'][1])
    da, db = (t.startswith('std::chrono::duration') for t in ts)
    op = f['n'][8:]
    rs = tname(I, n)
    if da and db:
        a, b = to_dur(a, ts[0], ts[0]), to_dur(b, ts[1], ts[1])
        if a[1] != b[1]:
            ca, cb = const_of(a[2]), const_of(b[2])
            if ca is None or cb is None or not cb:
                return NotImplemented
            a, b = ('D', 1, ('int', ca * a[1])), ('D', 1, ('int', cb * b[1]))
        r = I.arith(op, a[2], b[2])
        return r if op == '/' else ('D', a[1], r)
    if not da and db and op == '*':
        a, b, ts = b, a, ts[::-1]
    elif not da:
        return NotImplemented
    a = to_dur(a, ts[0], ts[0])
    u = dur_unit(rs)
    if a[1] != u:
        if a[1] % u:
            return NotImplemented
        a = ('D', u, I.arith('*', a[2], ('int', a[1] // u)))
    return ('D', u, I.arith(op, a[2], b))


@generic(r'^std::chrono::time_point::operator(=|\+=|-=)$')
def g_tpassign(I, n, f):
    o = I.eval_recv(n)
    if not is_loc(o):
        return NotImplemented
    v, b = I.read(o), I.rv(n['args'][0])
    op = f['n'][8:]
    if op == '=':
        nv = b
    elif v[0] == 'tp0' and b[0] == 'D' and const_of(b[2]) is not None:
        nv = ('tp0', v[1], v[2] + (1 if op == '+=' else -1) * b[1] * const_of(b[2]))
    else:
        return NotImplemented
    I.write(o, nv)
    return o if n.get('lv') else nv


@generic(r'^std::chrono::operator(\+|-)$')
def g_durarith(I, n, f):
    if len(n['args']) != 2:
        return NotImplemented
    fr = I.frames[-1]
    ts = [fr.tu.ts(a['t']).replace('const ', '') for a in n['args']]
    a, b = I.rv(n['args'][0]), I.rv(n['args'][1])
    rs = tname(I, n)
    if rs.startswith('std::chrono::duration') and ts[0].startswith('std::chrono::time_point'):
        if a[0] == b[0] == 'tp0' and a[1] == b[1]:
            return ('D', dur_unit(rs), ('int', (a[2] - b[2]) // dur_unit(rs)))
        return ('D', dur_unit(rs), ('tpdiff', a, b))
    if rs.startswith('std::chrono::duration'):
        a, b = to_dur(a, rs, ts[0]), to_dur(b, rs, ts[1])
        u = dur_unit(rs)
        if a[1] == u and b[1] == u:
            return ('D', u, I.arith(f['n'][8:], a[2], b[2]))
        return ('D', u, ('durarith', f['n'], a, b))
    if a[0] == 'tp0' and b[0] == 'D' and const_of(b[2]) is not None:
        return ('tp0', a[1], a[2] + (1 if f['n'].endswith('+') else -1) * b[1] * const_of(b[2]))
    return ('tp', f['n'], a, b)


@generic(r'^std::chrono::time_point::time_since_epoch$')
def g_epoch(I, n, f):
    v = rval(I, n)
    if v[0] == 'tp0':
        u = dur_unit(tname(I, n))
        return ('D', u, ('int', v[2] // u))
    return ('D', dur_unit(tname(I, n)), ('epoch', v))


@model('std::chrono::abs')
def m_durabs(I, n, f):
    v = to_dur(I.rv(n['args'][0]), tname(I, n), I.frames[-1].tu.ts(n['args'][0]['t']))
    c = const_of(v[2])
    return ('D', v[1], ('int', abs(c)) if c is not None else ('abs', v[2]))


@model('std::chrono::time_point_cast')
def m_tpcast(I, n, f):
    return I.rv(n['args'][0])


@generic(r'^std::chrono::duration::operator(-|\+)$')
def g_durneg(I, n, f):
    if n['args']:
        return NotImplemented
    v = rval(I, n)
    if v[0] == 'D':
        return ('D', v[1], I.arith('-', ('int', 0), v[2])) if f['n'].endswith('-') else v
    return ('neg', v)


@generic(r'^std::chrono::.*_clock::now$')
def g_now(I, n, f):
    I.log('now', clock=f['rqn'])
    w = getattr(I, 'world', None)
    if w is not None and f['rqn'] in w.clocks:
        return ('tp0', f['rqn'], w.clocks[f['rqn']])
    return ('now', f['rqn'])


# ------------------------------------------------------------------ Qt object model
@model('QObject::connect')
def m_connect(I, n, f):
    a = args(I, n)
    fr = I.frames[-1]
    # drop the connection type
    typ = None
    if a and len(n['args']) >= 4 and fr.tu.ts(n['args'][-1]['t']).startswith('Qt::ConnectionType'):
        typ = a.pop()
    ctx = None
    slot = None
    if len(a) == 3:
        sender, sig, slot = a
    elif len(a) == 4:
        sender, sig, ctx, slot = a
    else:
        return NotImplemented
    c = ('conn', I.uid())
    I.log('connect', sender=sender, sig=sig, ctx=ctx, slot=slot, type=typ, conn=c)
    I.conns[c] = (sender, sig, ctx, slot, typ)
    if I.env_hook:
        I.env_hook(I, 'connect', c, (sender, sig, ctx, slot), f)
    return c


@generic(r'^QMetaObject::Connection::operator (void|bool|.*RestrictedBool)')
def g_connb(I, n, f):
    v = rval(I, n)
    if v[0] == 'conn':
        return B(v not in I.disc)
    if v[0] == 'conn0':
        return FALSE
    return ('not', ('not', v))


@generic(r'^QMetaObject::Connection::operator=$')
def g_conns(I, n, f):
    o = I.eval_recv(n)
    v = I.rv(n['args'][0])
    I.write(o, v)
    return o


@model('QObject::disconnect')
def m_disconnect(I, n, f):
    fr = I.frames[-1]
    if len(n['args']) == 1 and 'Connection' in fr.tu.ts(n['args'][0]['t']):
        v = I.rv(n['args'][0])
        I.log('disconnect', conn=v)
        I.disc.add(v)
        return TRUE
    r = I.eval_recv(n) if 'obj' in n else None
    a = args(I, n)
    I.log('disconnect_all', recv=('obj', r) if r is not None else None, args=tuple(a))
    w = getattr(I, 'world', None)
    if w is not None:
        w.disconnect(r, a)
    return TRUE


@model('QTimer::singleShot')
def m_singleshot(I, n, f):
    fr = I.frames[-1]
    a = args(I, n)
    delay = a[0]
    slot = a[-1]
    ctx = a[-2] if len(a) >= 3 else None
    I.log('post', how='singleShot', delay=delay, ctx=ctx, slot=slot)
    if getattr(I, 'world', None) is not None:
        I.world.post(slot, ctx, delay)
    return ('void',)


@model('QTimer::callOnTimeout')
def m_callontimeout(I, n, f):
    w = getattr(I, 'world', None)
    if w is None:
        return NotImplemented
    o = I.eval_recv(n)
    a = args(I, n)
    typ = a.pop() if I.frames[-1].tu.ts(n['args'][-1]['t']).startswith('Qt::ConnectionType') else None
    c = ('conn', I.uid())
    ctx, slot = (a[0], a[1]) if len(a) > 1 else (None, a[0])
    I.log('connect', sender=('ptr', o), sig='timeout', ctx=ctx, slot=slot, type=typ, conn=c)
    I.conns[c] = (('ptr', o), 'timeout', ctx, slot, typ)
    if I.env_hook:
        I.env_hook(I, 'connect', c, (('ptr', o), 'timeout', ctx, slot), f)
    return c


@model('QMetaObject::invokeMethod')
def m_invokemethod(I, n, f):
    fr = I.frames[-1]
    a = args(I, n)
    typ = None
    slot = None
    for x, v in zip(n['args'][1:], a[1:]):
        if 'ConnectionType' in fr.tu.ts(x['t']):
            typ = v
        elif slot is None:
            slot = v
    I.log('post', how='invokeMethod', ctx=a[0], slot=slot, type=typ)
    if getattr(I, 'world', None) is not None:
        I.world.invoke_method(a[0], slot, typ)
    return TRUE


@model('QObject::deleteLater')
def m_dellater(I, n, f):
    o = I.eval_recv(n)
    I.log('deleteLater', loc=o)
    if getattr(I, 'world', None) is not None:
        I.world.delete_later(o)
    return ('void',)


@generic(r'^Q(?!SharedPointer|WeakPointer|ScopedPointer)[A-Za-z]+::operator=$')
def g_valueassign(I, n, f):
    """Assignment between values of one Qt value class: the receiver gets the value."""
    if 'obj' not in n or len(n['args']) != 1:
        return NotImplemented
    fr = I.frames[-1]
    a = n['args'][0]
    base = lambda s: re.sub(r'\b(const|struct|class)\b|&', '', s).strip()
    if base(fr.tu.ts(a['t'])) != base(obj_type(I, n)):
        return NotImplemented
    o = I.eval_recv(n)
    if not is_loc(o):
        return NotImplemented
    v = obj_or(I, a, I.ev(a))
    I.write(o, v)
    return o
