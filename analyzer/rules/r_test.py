"""C36: the verification macros for test coroutines."""
import re
import subprocess
import tempfile

from scen import *
import facts
from rules.r_then import payload

R36 = 'a-failed-check-ends-the-coroutine'
R36u = 'documented-macro-compiles'


class Macro:
    """Runs one harness coroutine with QtTest and the checked expressions answered by the scenario."""

    def __init__(self, S, fn):
        self.S, self.I = S, S.I
        self.log = []
        self.val = {}
        S.on(r'^QTest::q', self.qtest)
        S.on(r'^h::(cond|lhs|rhs|text)$', self.expr)
        S.callees['h::act'] = self.act
        S.callees['h::after'] = self.after
        self.coro = self.I.start_coro(harness(fn), None, [])

    def expr(self, name, r, a):
        k = name[3:]
        if k == 'cond':
            v = B(self.I.choose('cond() is', [True, False]))
        else:
            v = ('param', k, self.I.uid())
        self.log.append((k, v))
        return v

    def act(self, r, a):
        o = self.I.choose('act()', ['returns', 'h::Expected', 'std', 'other'])
        self.log.append(('act', o))
        if o != 'returns':
            raise ThrowExc(('exc', 'thrown', o))
        return ('void',)

    def after(self, r, a):
        self.log.append(('after',))
        return ('void',)

    def qtest(self, name, r, a):
        k = name.split('::')[1].split('<')[0]
        if k in ('qVerify', 'qCompare', 'qExpectFail', 'qTest'):
            ok = self.I.choose(k + '() returns', [True, False])
            self.log.append((k, [text_of(self.I, x) for x in a], ok))
            return B(ok)
        if k in ('qFail', 'qSkip'):
            self.log.append((k, [text_of(self.I, x) for x in a], None))
            return ('void',)
        return None


def text_of(I, v):
    """A pointer to a string literal becomes the literal."""
    v = payload(I, v)
    if isinstance(v, tuple) and v and v[0] == 'ptr' and is_loc(v[1]):
        w = I.mem.get(v[1])
        if w is not None and w[0] == 'str':
            return w
    return v


def strs(args):
    return [x[1] if isinstance(x, tuple) and x and x[0] == 'str' else x for x in args]


# macro -> evaluated expressions, QtTest function, texts that must be among its arguments
CHECKS = {
    'mac_verify': [('qVerify', ['cond'], ['cond()'])],
    'mac_verify2': [('qVerify', ['cond', 'text'], ['cond()'])],
    'mac_compare': [('qCompare', ['lhs', 'rhs'], ['lhs()', 'rhs()'])],
    'mac_expectfail': [('qExpectFail', ['text'], [''])],
    'mac_test': [('qTest', ['lhs'], ['element', 'lhs()', '"element"'])],
    'mac_twice': [('qVerify', ['cond'], ['cond()']), ('qCompare', ['lhs', 'rhs'], ['lhs()', 'rhs()'])],
    'mac_fail': [('qFail', ['text'], [])],
    'mac_skip': [('qSkip', ['text'], [])],
}


def located(args):
    t = strs(args)
    return any(isinstance(x, str) and x.endswith('harness.cpp') for x in t)


def run_check(S, fn):
    m = Macro(S, fn)
    log = list(m.log)
    for k, exprs, texts in CHECKS[fn]:
        seen = {}
        while log and log[0][0] in ('cond', 'lhs', 'rhs', 'text'):
            e = log.pop(0)
            if e[0] in seen:
                raise Bad(R36, 'the macro evaluates its operand %s() more than once' % e[0])
            seen[e[0]] = e[1]
        for e in exprs:
            if e not in seen:
                raise Bad(R36, 'the macro does not evaluate %s()' % e)
        if not log or log[0][0] != k:
            raise Bad(R36, 'the outcome is not reported through %s()' % k)
        _, args, ok = log.pop(0)
        for e in exprs:
            if seen[e] not in args:
                raise Bad(R36, '%s() is not told the value of %s()' % (k, e))
        ts = strs(args)
        for t in texts:
            if t not in ts:
                raise Bad(R36, '%s() is not told the text %s' % (k, t))
        for seq, xs in (([seen[e] for e in exprs], args), (texts, ts)):
            at = [xs.index(x) for x in seq]
            if at != sorted(at):
                raise Bad(R36, '%s() is told its operands in the wrong order' % k)
        if not located(args):
            raise Bad(R36, '%s() is not told the location of the check' % k)
        if ok is not True:
            if log:
                raise Bad(R36, 'the coroutine goes on after %s' % ('a failed check' if ok is False else k + '()'))
            if not m.coro.done:
                raise Bad(R36, 'the coroutine does not end at the failed check')
            return
    if log != [('after',)]:
        raise Bad(R36, 'the coroutine does not go on after a passed check')
    if not m.coro.done:
        raise Bad(R36, 'the coroutine does not go on after a passed check')


def run_throws(S, fn):
    m = Macro(S, fn)
    log = m.log
    if [e[0] for e in log].count('act') != 1:
        raise Bad(R36, 'the macro does not evaluate its operand once')
    o = [e[1] for e in log if e[0] == 'act'][0]
    fails = [e for e in log if e[0] == 'qFail']
    after = ('after',) in log
    if not m.coro.done or m.coro.threw is not None:
        raise Bad(R36, 'the exception leaves the test coroutine')
    if o == 'h::Expected':
        if fails or not after:
            raise Bad(R36, 'the expected exception is reported as a failure')
        return
    if not fails:
        raise Bad(R36, 'an expression that %s is not reported as a failure' % ('returns' if o == 'returns' else 'throws another exception'))
    if after:
        raise Bad(R36, 'the coroutine goes on after a failed check')
    if len(fails) > 1 or not located(fails[0][1]):
        raise Bad(R36, 'qFail() is not told the location of the check, once')


def run_branch(S, fn):
    m = Macro(S, fn)
    first = m.log[0][1] == B(True)
    if first == (('after',) in m.log):
        raise Bad(R36, 'the macro is not one statement')


TRY = ['QCORO_TRY_VERIFY(x)', 'QCORO_TRY_VERIFY_WITH_TIMEOUT(x, 10)', 'QCORO_TRY_VERIFY2(x, "text")', 'QCORO_TRY_VERIFY2_WITH_TIMEOUT(x, "text", 10)',
       'QCORO_TRY_COMPARE(x, true)', 'QCORO_TRY_COMPARE_WITH_TIMEOUT(x, true, 10)']
USES = TRY + ['QCORO_VERIFY(x)', 'QCORO_VERIFY2(x, "text")', 'QCORO_COMPARE(x, true)', 'QCORO_FAIL("text")', 'QCORO_SKIP("text")', 'QCORO_EXPECT_FAIL("", "text", Continue)', 'QCORO_EXPECT_FAIL("", "text", Abort)',
              'QCORO_TEST(x, "element")', 'QCORO_VERIFY_THROWS_EXCEPTION(std::exception, f())', 'QCORO_VERIFY_EXCEPTION_THROWN(f(), std::exception)',
              'if (x) QCORO_VERIFY(x); else QCORO_FAIL("text")']


def compiles(ck):
    fl = facts.flags(facts.stub_dir(facts.repo_files()))
    with tempfile.NamedTemporaryFile('w', suffix='.cpp', prefix='c36.') as f:
        f.write('#include "qcorotask.h"\n#include "test/qcorotest.h"\n#include <QTest>\nbool f();\n')
        for i, u in enumerate(USES):
            f.write('QCoro::Task<> f%d(bool x) { %s; }\n' % (i, u))
        f.flush()
        r = subprocess.run([facts.CLANG + '/bin/clang++', '-fsyntax-only', '-ferror-limit=0', '-w', *fl, f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    bad = {}
    for b in re.split(r'\n(?=\S+: (?:fatal )?error: )', r.stdout):
        m = re.search(r'error: (.*)', b)
        at = [int(x) - 5 for x in re.findall(r'c36\.\w+\.cpp:(\d+):', b)]
        if m and at:
            bad.setdefault(at[0], m.group(1))
    if r.returncode and not bad:
        raise ToolError('qcorotest.h does not compile: ' + r.stdout[-800:])
    for i, u in enumerate(USES):
        name = re.search(r'QCORO_\w+', u).group(0)
        ck.constructs[u] = 1
        ck.req(i not in bad, R36u, (name, 'qcoro/test/qcorotest.h'), 'a use of %s does not compile: %s' % (name, bad.get(i)))


def c36(ck):
    for fn in CHECKS:
        check(ck, 'h::' + fn, lambda S, fn=fn: run_check(S, fn), [R36], blame=('QCORO_' + fn[4:].upper(), 'qcoro/test/qcorotest.h'))
    for fn in ('mac_throws', 'mac_thrown'):
        check(ck, 'h::' + fn, lambda S, fn=fn: run_throws(S, fn), [R36], blame=('QCORO_VERIFY_THROWS_EXCEPTION', 'qcoro/test/qcorotest.h'))
    check(ck, 'h::mac_branch', lambda S: run_branch(S, 'mac_branch'), [R36], blame=('QCORO_VERIFY', 'qcoro/test/qcorotest.h'))
    compiles(ck)


RULES = {'C36': c36}
