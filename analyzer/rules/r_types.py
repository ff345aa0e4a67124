"""C35: compile-time witnesses. The compiler's type checker decides: every expectation of witness/types.cpp must type-check
against the headers of the current tree, and every misuse below must be rejected while its correct twin is accepted."""
import hashlib
import os
import re
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

import facts
from facts import ToolError

RULE_T = 'documented-type'
RULE_N = 'misuse-is-rejected'
HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'witness')

# (construct, program with @ as the place, accepted in that place, rejected in that place)
TASK = 'QCoro::Task<> f(%s) { co_await @; }'
ARGS = 'QTimer *t, QObject *o, QString s, std::vector<int> v, Plain p'
BAD = ['42', 's', 'p', 'o', 'v', 'std::string{}', 'nullptr', 'milliseconds{1}', 'QUrl{}']
MISUSE = [
    ('co_await in QCoro::Task', 'QCoro::Task<> f(%s) { co_await @; }' % ARGS, ['t', 'taskInt()'], BAD + ['genInt()']),
    ('co_await in QCoro::Task<T>', 'QCoro::Task<int> f(%s) { co_await @; co_return 1; }' % ARGS, ['t', 'taskInt()'], BAD),
    ('co_await in QCoro::LazyTask', 'QCoro::LazyTask<> f(%s) { co_await @; }' % ARGS, ['t', 'taskInt()'], BAD),
    ('co_await in QCoro::AsyncGenerator', 'QCoro::AsyncGenerator<int> f(%s) { co_await @; co_yield 1; }' % ARGS, ['taskInt()', 'OwnAwaiter{}'], BAD),
    ('co_await in QCoro::Generator', 'QCoro::Generator<int> f(%s, QFuture<int> u, QProcess *r) { @; co_yield 1; }' % ARGS, ['t->start()', '(void) taskInt()'],
     ['co_await ' + x for x in ['t', 'taskInt()', 'taskVoid()', 'lazyInt()', 'u', 'r', 'std::suspend_always{}', 'std::suspend_never{}', 'OwnAwaiter{}', 'WithMember{}', 'WithFree{}', '42', 'QCoro::sleepFor(milliseconds{1})', 'agenInt().begin()']]),
    ('co_await in QCoro::Generator', 'QCoro::Generator<const QString &> f(%s) { @; co_yield s; }' % ARGS, ['(void) taskInt()'],
     ['co_await ' + x for x in ['t', 'taskInt()', 'std::suspend_always{}', 'OwnAwaiter{}']]),
    ('QCoro::waitFor', 'void f(%s) { QCoro::waitFor(@); }' % ARGS, ['taskInt()', 'OwnAwaiter{}'], BAD),
    ('QCoro::connect', 'void f(%s) { QCoro::connect(@, o, [] {}); }' % ARGS, ['taskInt()', 'QFuture<int>{}'], BAD),
    ('QCoro::connect', 'struct Other {}; void f(%s) { QCoro::connect(taskInt(), o, @); }' % ARGS, ['[](int) {}', '[] {}'],
     ['[](QString) {}', '[](int, int) {}', '[](QByteArray, int) {}', '42', 'Other{}']),
    ('QCoro::detail::TaskBase::then', 'struct Other {}; void f(QCoro::Task<int> &t) { auto r = t.then(@); }', ['[](int) { return 1; }', '[] { return 1; }'],
     ['[](QString) { return 1; }', '[](int, int) { return 1; }', '42', 'Other{}']),
    ('QCoro::detail::TaskBase::then', 'void f(QCoro::Task<> &t) { auto r = t.then(@); }', ['[] { return 1; }', '[] {}'], ['[](int) { return 1; }', '42']),
    ('QCoro::Task', 'QCoro::Task<int> f(QCoro::Task<int> a) { return @; }', ['a', 'std::move(a)'], ['(const QCoro::Task<int> &) a', '[](auto &x) { QCoro::Task<int> b = x; return b; }(a)']),
    ('QCoro::Task', 'QCoro::Task<@> f() { co_return 1; }', ['int', 'long', 'qint64'], ['QUrl', 'QObject *', 'void', 'MoveOnly']),
    ('QCoro::Task', 'QCoro::Task<int> f(QString s, Plain p, MoveOnly m) { co_return @; }', ['1', '{}'], ['s', 'p', 'm', 'nullptr', '""', '']),
    ('QCoro::LazyTask', 'QCoro::LazyTask<int> f(QString s, Plain p, MoveOnly m) { co_return @; }', ['1'], ['s', 'p', 'm', 'nullptr', '""', '']),
    ('QCoro::Generator', 'QCoro::Generator<int> f(QString s, Plain p) { co_yield @; }', ['1'], ['s', 'p', 'nullptr']),
    ('QCoro::AsyncGenerator', 'QCoro::AsyncGenerator<int> f(QString s, Plain p) { co_yield @; }', ['1'], ['s', 'p', 'nullptr']),
    ('QCoro::Generator', 'QCoro::Generator<int> f() { co_yield 1; co_return @; }', [''], ['1']),
    ('QCoro::AsyncGenerator', 'QCoro::AsyncGenerator<int> f() { co_yield 1; co_return @; }', [''], ['1']),
]
for T, mk in (('QCoro::Task<int>', 'taskInt()'), ('QCoro::Task<>', 'taskVoid()'), ('QCoro::LazyTask<int>', 'lazyInt()'), ('QCoro::Generator<int>', 'genInt()'), ('QCoro::AsyncGenerator<int>', 'agenInt()')):
    C = re.sub('<.*', '', T)
    MISUSE.append((C, 'void f() { auto a = %s; %s b{@}; }' % (mk, T), ['std::move(a)'] if 'Lazy' not in T else [mk], ['a', '(const decltype(a) &) a', 'std::as_const(a)']))
    if 'Lazy' not in T:
        MISUSE.append((C, 'void f() { auto a = %s; %s b = %s; b = @; }' % (mk, T, mk), ['std::move(a)'], ['a', 'std::as_const(a)']))


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def c35(ck):
    fl = facts.flags(facts.stub_dir(facts.repo_files()))
    cxx = facts.CLANG + '/bin/clang++'
    lines = open(os.path.join(HERE, 'types.cpp')).read().splitlines()
    with tempfile.TemporaryDirectory(prefix='c35.') as d:
        pch = os.path.join(d, 'p.pch')
        r = run([cxx, '-x', 'c++-header', *fl, os.path.join(HERE, 'prelude.h'), '-o', pch])
        if r.returncode:
            raise ToolError('the public headers do not compile: ' + r.stdout[-1500:])

        def check(src, *more):
            return run([cxx, '-fsyntax-only', '-ferror-limit=0', '-w', *fl, '-include-pch', pch, *more, src])

        progs = [('T', None, None, os.path.join(HERE, 'types.cpp'))]
        for i, (c, tpl, good, bad) in enumerate(MISUSE):
            for kind, xs in (('+', good), ('-', bad)):
                for j, x in enumerate(xs):
                    p = os.path.join(d, '%s%d_%d.cpp' % ('good' if kind == '+' else 'bad', i, j))
                    open(p, 'w').write(tpl.replace('@', x) + '\n')
                    progs.append((kind, c, tpl.replace('@', x), p))
        with ThreadPoolExecutor(min(8, os.cpu_count() or 4)) as ex:
            res = list(ex.map(lambda q: check(q[3]), progs))
    # expectations
    out, cur = [], None
    for l in res[0].stdout.splitlines():
        if re.search(r': (fatal )?error: ', l):
            cur = [l]
            out.append(cur)
        elif cur is not None:
            cur.append(l)
    bad = {}
    for b in out:
        at = [int(x) - 1 for l in b for x in re.findall(r'types\.cpp:(\d+):\d+: ', l)]
        at = [i for i in at if '//@' in lines[i]]
        msg = re.sub(r'^.*?error: ', '', b[0])
        if not at:
            raise ToolError('error without a witness: ' + b[0])
        bad.setdefault(at[0], msg)
    if res[0].returncode and not bad:
        raise ToolError('types.cpp: ' + res[0].stdout[-800:])
    for i, l in enumerate(lines):
        if '//@' not in l:
            continue
        what, c = [x.strip() for x in l.split('//@')]
        c = c.strip()
        ck.fns.add(c)
        ck.obl += 1
        ck.constructs[what[:160]] = 1; ck.rules[RULE_T] = ck.rules.get(RULE_T, 0) + 1
        if i in bad:
            ck.viol.append({'rule': RULE_T, 'construct': c, 'location': 'witness/types.cpp:%d' % (i + 1), 'what': 'the documented type or use no longer holds: %s (compiler: %s)' % (what, bad[i][:400]), 'path': []})
    # misuse
    for (kind, c, text, p), r in zip(progs[1:], res[1:]):
        ck.fns.add(c)
        ck.obl += 1
        ck.constructs[('accepted: ' if kind == '+' else 'rejected: ') + text[:200]] = 1; ck.rules[RULE_N] = ck.rules.get(RULE_N, 0) + 1
        if kind == '+' and r.returncode:
            m = re.search(r'error: (.*)', r.stdout)
            ck.viol.append({'rule': RULE_T, 'construct': c, 'location': 'witness program', 'what': 'a correct program is rejected: %s (compiler: %s)' % (text, m.group(1)[:400] if m else r.stdout[-400:]), 'path': []})
        if kind == '-' and not r.returncode:
            ck.viol.append({'rule': RULE_N, 'construct': c, 'location': 'witness program', 'what': 'a wrong program is accepted: ' + text, 'path': []})


RULES = {'C35': c35}
