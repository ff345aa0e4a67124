// Instantiates every public template of the library, so that the analyses see resolved and instantiated bodies, and
// names one use of every awaitable, so that the analyses find the awaiter types by use and not by their private names.
#include "qcorotask.h"
#include "qcorolazytask.h"
#include "qcorogenerator.h"
#include "qcoroasyncgenerator.h"
#include "core/qcorotimer.h"
#include "core/qcorosignal.h"
#include "core/qcorofuture.h"
#include "core/qcoroiodevice.h"
#include "core/qcoroprocess.h"
#include "core/qcorothread.h"
#include "network/qcoronetworkreply.h"
#include "network/qcoroabstractsocket.h"
#include "network/qcorolocalsocket.h"
#include "network/qcorotcpserver.h"
#include "dbus/qcorodbuspendingcall.h"
#include "dbus/qcorodbuspendingreply.h"
#include "websockets/qcorowebsocket.h"
#include "websockets/qcorowebsocketserver.h"
#include "qml/qcoroqmltask.h"
#include "quick/qcoroimageprovider.h"
#include "test/qcorotest.h"
#include <QTimer>
#include <QFile>
#include <QTcpSocket>
#include <QUdpSocket>
#include <QHostAddress>
#include <QNetworkRequest>
#include <QUrl>
#include <QLocalSocket>
#include <QTcpServer>
#include <QNetworkReply>
#include <QProcess>
#include <QThread>
#include <QDBusPendingReply>
#include <QDBusMessage>
#include <QWebSocket>
#include <QWebSocketServer>
#include <QAbstractItemModel>
#include <memory>

using namespace std::chrono_literals;

namespace h {

struct MoveOnly { MoveOnly() = default; MoveOnly(int x) : v(x) {} MoveOnly(MoveOnly &&) noexcept = default; MoveOnly &operator=(MoveOnly &&) noexcept = default; int v = 0; };
// what a coroutine of the harness sees
void observe();
template<typename T> void observe(const T &);

struct Ctx : QObject { void slot0(); void slot1(int v); };
struct Cb0 { void operator()() const; };
struct Cb1 { void operator()(int) const; };
struct CbRet { long operator()(int); };
struct CbRet0 { long operator()(); };
struct CbTask { QCoro::Task<long> operator()(int); };
struct CbTaskVoid { QCoro::Task<> operator()(int); };
struct CbTask0 { QCoro::Task<long> operator()(); };
struct ErrCb { void operator()(const std::exception &); };

QCoro::Task<int> makeInt();
QCoro::Task<> makeVoid();
QCoro::LazyTask<int> makeLazyInt();
QCoro::LazyTask<> makeLazyVoid();
QCoro::Task<MoveOnly> makeMoveOnly();

// coroutine bodies: return_value variants
QCoro::Task<> co_void() { co_return; }
QCoro::Task<int> co_int(int v) { co_return v; }
QCoro::Task<int> co_int_const(const int &v) { co_return v; }
QCoro::Task<int> co_int_rv() { co_return 1; }
QCoro::Task<long> co_int_conv(int v) { co_return v; }
QCoro::Task<long> co_int_conv_const(const int &v) { co_return v; }
QCoro::Task<MoveOnly> co_mo(int v) { co_return MoveOnly{v}; }
QCoro::Task<MoveOnly> co_mo_var(int v) { MoveOnly m{v}; co_return std::move(m); }
QCoro::Task<MoveOnly> co_mo_conv(int v) { co_return v; }
QCoro::Task<QString> co_str(const QString &s) { co_return s; }
QCoro::Task<QString> co_str_conv() { co_return "x"; }
QCoro::LazyTask<> lz_void() { co_return; }
QCoro::LazyTask<int> lz_int(int v) { co_return v; }
QCoro::LazyTask<int> lz_int_const(const int &v) { co_return v; }
QCoro::LazyTask<MoveOnly> lz_mo(int v) { co_return MoveOnly{v}; }
QCoro::LazyTask<long> lz_conv(int v) { co_return v; }
QCoro::LazyTask<QString> lz_str(const QString &v) { co_return v; }

// awaiting tasks
QCoro::Task<> aw_task_lv(QCoro::Task<int> &t) { auto v = co_await t; observe(v); }
QCoro::Task<> aw_task_rv() { auto v = co_await makeInt(); observe(v); }
QCoro::Task<> aw_task_void(QCoro::Task<> &t) { co_await t; observe(); }
QCoro::Task<> aw_task_mo(QCoro::Task<MoveOnly> &t) { auto v = co_await t; observe(v); }
QCoro::Task<> aw_task_long(QCoro::Task<long> &t) { auto v = co_await t; observe(v); }
QCoro::Task<> aw_task_str(QCoro::Task<QString> &t) { auto v = co_await t; observe(v); }
QCoro::Task<> aw_task_mo_rv() { auto v = co_await makeMoveOnly(); observe(v); }
QCoro::Task<> aw_task_void_rv() { co_await makeVoid(); observe(); }
QCoro::Task<> aw_lazy_void_rv() { co_await makeLazyVoid(); observe(); }
QCoro::Task<> aw_lazy_mo(QCoro::LazyTask<MoveOnly> &t) { auto v = co_await t; observe(v); }
QCoro::Task<> aw_lazy_long(QCoro::LazyTask<long> &t) { auto v = co_await t; observe(v); }
QCoro::Task<> aw_lazy_str(QCoro::LazyTask<QString> &t) { auto v = co_await t; observe(v); }
QCoro::LazyTask<> lazy_aw_lazy(QCoro::LazyTask<int> &t) { auto v = co_await t; observe(v); }
QCoro::Task<> aw_lazy(QCoro::LazyTask<int> &t) { auto v = co_await t; observe(v); }
QCoro::Task<> aw_lazy_rv() { auto v = co_await makeLazyInt(); observe(v); }
QCoro::Task<> aw_lazy_void(QCoro::LazyTask<> &t) { co_await t; observe(); }
QCoro::LazyTask<> lazy_aw_task(QCoro::Task<int> &t) { auto v = co_await t; observe(v); }

// special members
void taskv_ready(const QCoro::Task<> &t) { bool b = t.isReady(); observe(b); }
void lazy_ready(const QCoro::LazyTask<int> &t) { bool b = t.isReady(); observe(b); }
void lazyv_ready(const QCoro::LazyTask<> &t) { bool b = t.isReady(); observe(b); }
void lazyv_default() { QCoro::LazyTask<> t; }
void task_ready(const QCoro::Task<int> &t) { bool b = t.isReady(); observe(b); }
void task_default() { QCoro::Task<int> t; }
void task_move(QCoro::Task<int> &o) { QCoro::Task<int> t(std::move(o)); }
void task_assign(QCoro::Task<int> &t, QCoro::Task<int> &o) { t = std::move(o); }
void task_dtor(QCoro::Task<int> *t) { delete t; }
void taskmo_move(QCoro::Task<MoveOnly> &o) { QCoro::Task<MoveOnly> t(std::move(o)); }
void taskmo_assign(QCoro::Task<MoveOnly> &t, QCoro::Task<MoveOnly> &o) { t = std::move(o); }
void taskmo_default() { QCoro::Task<MoveOnly> t; }
void tasks_move(QCoro::Task<QString> &o) { QCoro::Task<QString> t(std::move(o)); }
void tasks_assign(QCoro::Task<QString> &t, QCoro::Task<QString> &o) { t = std::move(o); }
void tasks_default() { QCoro::Task<QString> t; }
void taskv_default() { QCoro::Task<> t; }
void taskv_move(QCoro::Task<> &o) { QCoro::Task<> t(std::move(o)); }
void taskv_assign(QCoro::Task<> &t, QCoro::Task<> &o) { t = std::move(o); }
void taskv_dtor(QCoro::Task<> *t) { delete t; }
void lazy_default() { QCoro::LazyTask<int> t; }
void lazy_dtor(QCoro::LazyTask<int> *t) { delete t; }

// then()
void then_int_cb1_lv(QCoro::Task<int> &t, Cb1 c) { t.then(c); }
void then_int_cb1_rv(QCoro::Task<int> &t, Cb1 c) { std::move(t).then(std::move(c)); }
void then_int_cb0_lv(QCoro::Task<int> &t, Cb0 c) { t.then(c); }
void then_int_cb0_rv(QCoro::Task<int> &t, Cb0 c) { std::move(t).then(std::move(c)); }
void then_int_ret_lv(QCoro::Task<int> &t, CbRet c) { t.then(c); }
void then_int_ret_rv(QCoro::Task<int> &t, CbRet c) { std::move(t).then(std::move(c)); }
void then_int_task_lv(QCoro::Task<int> &t, CbTask c) { t.then(c); }
void then_int_task_rv(QCoro::Task<int> &t, CbTask c) { std::move(t).then(std::move(c)); }
void then_int_taskv_rv(QCoro::Task<int> &t, CbTaskVoid c) { std::move(t).then(std::move(c)); }
void then_void_cb0_lv(QCoro::Task<> &t, Cb0 c) { t.then(c); }
void then_void_cb0_rv(QCoro::Task<> &t, Cb0 c) { std::move(t).then(std::move(c)); }
void then_void_ret_lv(QCoro::Task<> &t, CbRet0 c) { t.then(c); }
void then_void_ret_rv(QCoro::Task<> &t, CbRet0 c) { std::move(t).then(std::move(c)); }
void then_void_task_lv(QCoro::Task<> &t, CbTask0 c) { t.then(c); }
void then_void_task_rv(QCoro::Task<> &t, CbTask0 c) { std::move(t).then(std::move(c)); }
void thenerr_int_cb1_lv(QCoro::Task<int> &t, Cb1 c, ErrCb e) { t.then(c, e); }
void thenerr_int_cb1_rv(QCoro::Task<int> &t, Cb1 c, ErrCb e) { std::move(t).then(std::move(c), std::move(e)); }
void thenerr_int_ret_lv(QCoro::Task<int> &t, CbRet c, ErrCb e) { t.then(c, e); }
void thenerr_int_ret_rv(QCoro::Task<int> &t, CbRet c, ErrCb e) { std::move(t).then(std::move(c), std::move(e)); }
void thenerr_int_task_lv(QCoro::Task<int> &t, CbTask c, ErrCb e) { t.then(c, e); }
void thenerr_int_task_rv(QCoro::Task<int> &t, CbTask c, ErrCb e) { std::move(t).then(std::move(c), std::move(e)); }
void thenerr_void_cb0_lv(QCoro::Task<> &t, Cb0 c, ErrCb e) { t.then(c, e); }
void thenerr_void_cb0_rv(QCoro::Task<> &t, Cb0 c, ErrCb e) { std::move(t).then(std::move(c), std::move(e)); }
void thenerr_void_task_lv(QCoro::Task<> &t, CbTask0 c, ErrCb e) { t.then(c, e); }
void thenerr_void_task_rv(QCoro::Task<> &t, CbTask0 c, ErrCb e) { std::move(t).then(std::move(c), std::move(e)); }
void lthen_int_ret_lv(QCoro::LazyTask<int> &t, CbRet c) { t.then(c); }
void lthen_int_ret_rv(QCoro::LazyTask<int> &t, CbRet c) { std::move(t).then(std::move(c)); }
void lthenerr_int_ret_rv(QCoro::LazyTask<int> &t, CbRet c, ErrCb e) { std::move(t).then(std::move(c), std::move(e)); }
void lthen_void_cb0_rv(QCoro::LazyTask<> &t, Cb0 c) { std::move(t).then(std::move(c)); }

// connect()
void conn_int_fn1(QCoro::Task<int> &t, Ctx *c, Cb1 f) { QCoro::connect(std::move(t), c, f); }
void conn_int_fn0(QCoro::Task<int> &t, Ctx *c, Cb0 f) { QCoro::connect(std::move(t), c, f); }
void conn_int_mem1(QCoro::Task<int> &t, Ctx *c) { QCoro::connect(std::move(t), c, &Ctx::slot1); }
void conn_int_mem0(QCoro::Task<int> &t, Ctx *c) { QCoro::connect(std::move(t), c, &Ctx::slot0); }
void conn_void_fn0(QCoro::Task<> &t, Ctx *c, Cb0 f) { QCoro::connect(std::move(t), c, f); }
void conn_void_mem0(QCoro::Task<> &t, Ctx *c) { QCoro::connect(std::move(t), c, &Ctx::slot0); }
void conn_future(QFuture<int> f, Ctx *c, Cb1 cb) { QCoro::connect(std::move(f), c, cb); }

// waitFor()
int wf_int_lv(QCoro::Task<int> &t) { return QCoro::waitFor(t); }
int wf_int_rv(QCoro::Task<int> &t) { return QCoro::waitFor(std::move(t)); }
void wf_void_lv(QCoro::Task<> &t) { QCoro::waitFor(t); }
void wf_void_rv(QCoro::Task<> &t) { QCoro::waitFor(std::move(t)); }
int wf_lazy(QCoro::LazyTask<int> &t) { return QCoro::waitFor(std::move(t)); }
MoveOnly wf_mo(QCoro::Task<MoveOnly> &t) { return QCoro::waitFor(std::move(t)); }

// generators
QCoro::Generator<int> gen_int() { int v = 1; co_yield v; co_yield 2; }
QCoro::Generator<const int> gen_cint() { int v = 1; co_yield v; }
QCoro::Generator<QString> gen_str() { QString s; co_yield s; co_yield QString(); }
QCoro::Generator<MoveOnly> gen_mo() { co_yield MoveOnly{}; }
QCoro::AsyncGenerator<int> agen_int() { int v = 1; co_yield v; co_yield 2; }
QCoro::AsyncGenerator<QString> agen_str() { QString s; co_yield s; co_yield QString(); }
void gen_begin(QCoro::Generator<int> &g) { auto it = g.begin(); }
void gen_end(QCoro::Generator<int> &g) { auto it = g.end(); }
void gen_incr(QCoro::GeneratorIterator<int> &it) { ++it; }
int gen_deref(QCoro::GeneratorIterator<int> &it) { return *it; }
bool gen_eq(QCoro::GeneratorIterator<int> &a, QCoro::GeneratorIterator<int> &b) { return a == b; }
bool gen_ne(QCoro::GeneratorIterator<int> &a, QCoro::GeneratorIterator<int> &b) { return a != b; }
void gen_move(QCoro::Generator<int> &o) { QCoro::Generator<int> g(std::move(o)); }
void gen_assign(QCoro::Generator<int> &g, QCoro::Generator<int> &o) { g = std::move(o); }
void gen_dtor(QCoro::Generator<int> *g) { delete g; }
void gen_default() { QCoro::Generator<int> g; }
void gen_loop(QCoro::Generator<int> &g) { for (auto &&v : g) { observe(v); } }
QCoro::Task<> agen_begin(QCoro::AsyncGenerator<int> &g) { auto it = co_await g.begin(); }
QCoro::Task<> agen_incr(QCoro::AsyncGenerator<int>::iterator &it) { co_await ++it; observe(); }
void agen_end(QCoro::AsyncGenerator<int> &g) { auto it = g.end(); }
int agen_deref(QCoro::AsyncGenerator<int>::iterator &it) { return *it; }
bool agen_eq(QCoro::AsyncGenerator<int>::iterator &a, QCoro::AsyncGenerator<int>::iterator &b) { return a == b; }
bool agen_ne(QCoro::AsyncGenerator<int>::iterator &a, QCoro::AsyncGenerator<int>::iterator &b) { return a != b; }
void agen_move(QCoro::AsyncGenerator<int> &o) { QCoro::AsyncGenerator<int> g(std::move(o)); }
void agen_assign(QCoro::AsyncGenerator<int> &g, QCoro::AsyncGenerator<int> &o) { g = std::move(o); }
void agen_swap(QCoro::AsyncGenerator<int> &g, QCoro::AsyncGenerator<int> &o) { g.swap(o); }
void agen_fswap(QCoro::AsyncGenerator<int> &g, QCoro::AsyncGenerator<int> &o) { swap(g, o); }
void agen_dtor(QCoro::AsyncGenerator<int> *g) { delete g; }
void agen_default() { QCoro::AsyncGenerator<int> g; }
QCoro::Task<> agen_foreach(QCoro::AsyncGenerator<int> &g, Cb1 cb) { QCORO_FOREACH(int v, g) { cb(v); } }

// signals: 0 / 1 / 2 arguments and a private tag
QCoro::Task<> sig_private0(QTimer *o) { auto r = co_await qCoro(o, &QTimer::timeout); observe(r); }
QCoro::Task<> sig_plain0(QIODevice *o) { auto r = co_await qCoro(static_cast<QObject *>(o), &QObject::destroyed); observe(r); }
QCoro::Task<> sig_dev0(QProcess *o, std::chrono::milliseconds t) { auto r = co_await qCoro(o, &QProcess::started, t); observe(r); }
QCoro::Task<> sig_dev1(QFile *o, std::chrono::milliseconds t) { auto r = co_await qCoro(o, &QIODevice::bytesWritten, t); observe(r); }
QCoro::Task<> sig_two(QProcess *o, std::chrono::milliseconds t) { auto r = co_await qCoro(o, qOverload<int, QProcess::ExitStatus>(&QProcess::finished), t); observe(r); }
QCoro::Task<> sig_private1(QObject *o, std::chrono::milliseconds t) { auto r = co_await qCoro(o, &QObject::objectNameChanged, t); observe(r); }
QCoro::Task<> sig_private3(QAbstractItemModel *o, std::chrono::milliseconds t) { auto r = co_await qCoro(o, &QAbstractItemModel::rowsInserted, t); observe(r); }
// types whose names resemble the private tag's are ordinary arguments
struct NotQPrivateSignal {};
class Emitter : public QObject {
    Q_OBJECT
Q_SIGNALS:
    void lookalike1(NotQPrivateSignal);
    void lookalike2(int, const NotQPrivateSignal &);
    void lookalike3(const NotQPrivateSignal &, int, QPrivateSignal);
    void empties(std::nullptr_t, std::monostate);
};
QCoro::Task<> sig_look1(Emitter *o, std::chrono::milliseconds t) { auto r = co_await qCoro(o, &Emitter::lookalike1, t); observe(r); }
QCoro::Task<> sig_look2(Emitter *o, std::chrono::milliseconds t) { auto r = co_await qCoro(o, &Emitter::lookalike2, t); observe(r); }
QCoro::Task<> sig_look2_forever(Emitter *o) { auto r = co_await qCoro(o, &Emitter::lookalike2); observe(r); }
QCoro::Task<> sig_look3(Emitter *o, std::chrono::milliseconds t) { auto r = co_await qCoro(o, &Emitter::lookalike3, t); observe(r); }
QCoro::Task<> sig_empties(Emitter *o, std::chrono::milliseconds t) { auto r = co_await qCoro(o, &Emitter::empties, t); observe(r); }
// the awaiters themselves
QCoro::Task<> rawsig_moved(QFile *o, std::chrono::milliseconds t) {
    QCoro::detail::QCoroSignal a(o, &QIODevice::bytesWritten, t); auto b = std::move(a); auto r = co_await b; observe(r); }
QCoro::Task<> rawsig_assigned(QFile *o, QFile *p, std::chrono::milliseconds t) {
    QCoro::detail::QCoroSignal a(o, &QIODevice::bytesWritten, t); QCoro::detail::QCoroSignal b(p, &QIODevice::bytesWritten, t); b = std::move(a); auto r = co_await b; observe(r); }
QCoro::Task<> rawsig_dev1(QFile *o, std::chrono::milliseconds t) { auto r = co_await QCoro::detail::QCoroSignal(o, &QIODevice::bytesWritten, t); observe(r); }
QCoro::Task<> sig_dev1_forever(QFile *o) { auto r = co_await qCoro(o, &QIODevice::bytesWritten); observe(r); }
QCoro::Task<> sig_two_forever(QProcess *o) { auto r = co_await qCoro(o, qOverload<int, QProcess::ExitStatus>(&QProcess::finished)); observe(r); }
QCoro::Task<> sig_twice(QFile *o, std::chrono::milliseconds t) { auto r = co_await qCoro(o, &QIODevice::bytesWritten, t); observe(r); auto s = co_await qCoro(o, &QIODevice::bytesWritten, t); observe(s); }
QCoro::Task<> rawsig_dev0(QProcess *o, std::chrono::milliseconds t) { auto r = co_await QCoro::detail::QCoroSignal(o, &QProcess::started, t); observe(r); }
void listen0(QProcess *o, std::chrono::milliseconds t) { auto g = qCoroSignalListener(o, &QProcess::started, t); }
void listen_default(QProcess *o) { auto g = qCoroSignalListener(o, &QProcess::started); }
void listen1(QFile *o, std::chrono::milliseconds t) { auto g = qCoroSignalListener(o, &QIODevice::bytesWritten, t); }
void listen2(QProcess *o, std::chrono::milliseconds t) { auto g = qCoroSignalListener(o, qOverload<int, QProcess::ExitStatus>(&QProcess::finished), t); }
void listen_private1(QObject *o, std::chrono::milliseconds t) { auto g = qCoroSignalListener(o, &QObject::objectNameChanged, t); }

// timers
QCoro::Task<> timer_ptr(QTimer *t) { co_await t; observe(); }
QCoro::Task<> timer_ref(QTimer &t) { co_await t; observe(); }
QCoro::Task<> timer_wait(QTimer *t) { co_await qCoro(t).waitForTimeout(); observe(); }
QCoro::Task<> sleep_ms(std::chrono::milliseconds d) { co_await QCoro::sleepFor(d); observe(); }
QCoro::Task<> sleep_s(std::chrono::seconds d) { co_await QCoro::sleepFor(d); observe(); }
QCoro::Task<> sleep_us(std::chrono::microseconds d) { co_await QCoro::sleepFor(d); observe(); }
QCoro::Task<> sleep_until_steady(std::chrono::steady_clock::time_point w) { co_await QCoro::sleepUntil(w); observe(); }
QCoro::Task<> sleep_until_system(std::chrono::system_clock::time_point w) { co_await QCoro::sleepUntil(w); observe(); }
QCoro::Task<> sleep_until_system_s(std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds> w) { co_await QCoro::sleepUntil(w); observe(); }

// futures
QCoro::Task<> fut_int(QFuture<int> f) { auto v = co_await f; observe(v); }
QCoro::Task<> fut_void(QFuture<void> f) { co_await f; observe(); }
QCoro::Task<> fut_wait_int(QFuture<int> f) { auto v = co_await qCoro(f).waitForFinished(); observe(v); }
QCoro::Task<> fut_wait_void(QFuture<void> f) { co_await qCoro(f).waitForFinished(); observe(); }
QCoro::Task<> fut_result_int(QFuture<int> f) { auto v = co_await qCoro(f).result(); observe(v); }
QCoro::Task<> fut_result_void(QFuture<void> f) { co_await qCoro(f).result(); observe(); }
QCoro::Task<> fut_take_int(QFuture<int> f) { auto v = co_await qCoro(f).takeResult(); observe(v); }
QCoro::Task<> fut_take_mo(QFuture<MoveOnly> f) { auto v = co_await qCoro(f).takeResult(); observe(v); }

// devices
QCoro::Task<> dev_ptr(QFile *f) { auto d = co_await f; observe(d); }
QCoro::Task<> dev_ref(QFile &f) { auto d = co_await f; observe(d); }
QCoro::Task<> reply_ptr(QNetworkReply *r) { auto x = co_await r; observe(x); }

// threads
QCoro::Task<> thr_move(QThread *t) { co_await QCoro::moveToThread(t); observe(); }

// D-Bus
QCoro::Task<> dbus_call(QDBusPendingCall c) { auto m = co_await c; observe(m); }
QCoro::Task<> dbus_call_wait(const QDBusPendingCall &c) { auto m = co_await qCoro(c).waitForFinished(); observe(m); }
QCoro::Task<> dbus_reply(QDBusPendingReply<QString> r) { auto m = co_await r; observe(m); }
QCoro::Task<> dbus_reply2(QDBusPendingReply<QString, int> r) { auto m = co_await r; observe(m); }
QCoro::Task<> dbus_reply_wait(QDBusPendingReply<QString> r) { auto m = co_await qCoro(r).waitForFinished(); observe(m); }
QCoro::Task<> dbus_reply2_wait(QDBusPendingReply<QString, int> r) { auto m = co_await qCoro(r).waitForFinished(); observe(m); }
QCoro::Task<> dbus_call_ref(const QDBusPendingCall &c) { auto m = co_await c; observe(m); }
QCoro::Task<> dbus_reply_ref(const QDBusPendingReply<QString> &r) { auto m = co_await r; observe(m); }
QCoro::Task<> dbus_reply_ref_wait(const QDBusPendingReply<QString> &r) { auto m = co_await qCoro(r).waitForFinished(); observe(m); }

// QML
void qml_conv_int(QCoro::Task<int> &t) { QCoro::QmlTask q(std::move(t)); }
void qml_conv_str(QCoro::Task<QString> &t) { QCoro::QmlTask q(std::move(t)); }
void qml_conv_void(QCoro::Task<> &t) { QCoro::QmlTask q(std::move(t)); }
void qml_conv_variant(QCoro::Task<QVariant> &t) { QCoro::QmlTask q(std::move(t)); }
void qml_conv_future(QFuture<int> f) { QCoro::QmlTask q(std::move(f)); }

QCoro::QmlTask *qml_new_int(QCoro::Task<int> &t) { return new QCoro::QmlTask(std::move(t)); }
QCoro::QmlTask *qml_new_str(QCoro::Task<QString> &t) { return new QCoro::QmlTask(std::move(t)); }
QCoro::QmlTask *qml_new_void(QCoro::Task<> &t) { return new QCoro::QmlTask(std::move(t)); }
QCoro::QmlTask *qml_new_variant(QCoro::Task<QVariant> &t) { return new QCoro::QmlTask(std::move(t)); }
QCoro::QmlTask *qml_new_future(QFuture<int> f) { return new QCoro::QmlTask(std::move(f)); }
QCoro::QmlTask *qml_new_empty() { return new QCoro::QmlTask(); }
QCoro::QmlTask *qml_copy(const QCoro::QmlTask &q) { return new QCoro::QmlTask(q); }
void qml_assign(QCoro::QmlTask &a, const QCoro::QmlTask &b) { a = b; }
void qml_delete(QCoro::QmlTask *q) { delete q; }
void qml_then(QCoro::QmlTask &q, QJSValue f) { q.then(f); }
QCoro::QmlTaskListener *qml_await(QCoro::QmlTask &q, const QVariant &i) { return q.await(i); }
QCoro::QmlTaskListener *qml_await_def(QCoro::QmlTask &q) { return q.await(); }
QVariant qml_value(QCoro::QmlTaskListener *l) { return l->value(); }

// images
struct Provider : QCoro::ImageProvider { QCoro::Task<QImage> asyncRequestImage(const QString &id, const QSize &size) override; };
QQuickImageResponse *img_request(QQuickAsyncImageProvider *p, const QString &id, const QSize &s) { return p->requestImageResponse(id, s); }
QQuickTextureFactory *img_texture(QQuickImageResponse *r) { return r->textureFactory(); }
void img_new() { Provider p; }
QImage make_image(int);
QVariant make_variant(int);
QString make_string(int);

// a suspension that is neither a task nor a Qt type: how and when it ends is up to the environment
struct Opaque { bool await_ready(); void await_suspend(std::coroutine_handle<>); int await_resume(); };
QCoro::Task<> aw_opaque(Opaque o) { auto v = co_await o; observe(v); }
QCoro::Task<int> src_int(Opaque o) { int v = co_await o; co_return v; }
QCoro::Task<> src_void(Opaque o) { co_await o; }
QCoro::Task<long> src_long(Opaque o) { long v = co_await o; co_return v; }
QCoro::Task<MoveOnly> src_mo(Opaque o) { int v = co_await o; co_return MoveOnly{v}; }
QCoro::Task<QImage> src_image(Opaque o) { int v = co_await o; co_return make_image(v); }
QCoro::Task<QVariant> src_variant(Opaque o) { int v = co_await o; co_return make_variant(v); }
QCoro::Task<QString> src_str(Opaque o) { int v = co_await o; co_return make_string(v); }
QCoro::LazyTask<int> lsrc_int(Opaque o) { int v = co_await o; co_return v; }
QCoro::LazyTask<> lsrc_void(Opaque o) { co_await o; }
QCoro::LazyTask<long> lsrc_long(Opaque o) { long v = co_await o; co_return v; }

struct CbLazy { QCoro::LazyTask<long> operator()(int); };
// the result of then()
#define TH(name, T, CB, W) \
    QCoro::Task<> th_##name##_lv(T &t, CB c) { W(co_await t.then(c)); } \
    QCoro::Task<> th_##name##_rv(T &t, CB c) { W(co_await std::move(t).then(std::move(c))); } \
    QCoro::Task<> the_##name##_lv(T &t, CB c, ErrCb e) { W(co_await t.then(c, e)); } \
    QCoro::Task<> the_##name##_rv(T &t, CB c, ErrCb e) { W(co_await std::move(t).then(std::move(c), std::move(e))); } \
    QCoro::Task<> thk_##name##_rv(T &t) { auto r = std::move(t).then(CB{}); co_await std::suspend_always{}; W(co_await r); } \
    QCoro::Task<> thke_##name##_rv(T &t) { auto r = std::move(t).then(CB{}, ErrCb{}); co_await std::suspend_always{}; W(co_await r); } \
    QCoro::Task<> thk_##name##_lv(T &t) { auto r = t.then(CB{}); co_await std::suspend_always{}; W(co_await r); } \
    QCoro::Task<> thke_##name##_lv(T &t) { auto r = t.then(CB{}, ErrCb{}); co_await std::suspend_always{}; W(co_await r); }
#define WV(x) auto v = x; observe(v)
#define WN(x) x; observe()
TH(int_cb1, QCoro::Task<int>, Cb1, WN)
TH(int_cb0, QCoro::Task<int>, Cb0, WN)
TH(int_ret, QCoro::Task<int>, CbRet, WV)
TH(int_task, QCoro::Task<int>, CbTask, WV)
TH(int_taskv, QCoro::Task<int>, CbTaskVoid, WN)
TH(void_cb0, QCoro::Task<>, Cb0, WN)
TH(void_ret, QCoro::Task<>, CbRet0, WV)
TH(void_task, QCoro::Task<>, CbTask0, WV)
TH(lint_cb1, QCoro::LazyTask<int>, Cb1, WN)
TH(lint_ret, QCoro::LazyTask<int>, CbRet, WV)
TH(lint_lazy, QCoro::LazyTask<int>, CbLazy, WV)
TH(lvoid_cb0, QCoro::LazyTask<>, Cb0, WN)
TH(lvoid_ret, QCoro::LazyTask<>, CbRet0, WV)

// generators whose steps are up to the environment
struct Steps { bool more(); int next(); };
struct Guard { Guard(); ~Guard(); int x; };
QCoro::Generator<int> gen_lv(Steps *s) { Guard g; while (s->more()) { int v = s->next(); co_yield v; } }
QCoro::Generator<int> gen_rv(Steps *s) { Guard g; while (s->more()) { co_yield s->next(); } }
QCoro::Generator<const int> gen_cv(Steps *s) { Guard g; while (s->more()) { const int v = s->next(); co_yield v; } }
QCoro::Generator<MoveOnly> gen_mov(Steps *s) { Guard g; while (s->more()) { co_yield MoveOnly{s->next()}; } }
QCoro::AsyncGenerator<int> agen_lv(Steps *s) { Guard g; while (s->more()) { int v = s->next(); co_yield v; } }
QCoro::AsyncGenerator<int> agen_rv(Steps *s) { Guard g; while (s->more()) { co_yield s->next(); } }
QCoro::AsyncGenerator<int> agen_wait(Steps *s, Opaque o) { Guard g; while (s->more()) { int w = co_await o; observe(w); co_yield s->next(); } }
QCoro::AsyncGenerator<MoveOnly> agen_mov(Steps *s) { Guard g; while (s->more()) { co_yield MoveOnly{s->next()}; } }
template<typename G> void consume(G &g) {
    auto it = g.begin();
    while (it != g.end()) { observe(*it); observe(*it); ++it; }
    observe();
    ++it;
    observe(it == g.end());
}
void gc_int(QCoro::Generator<int> &g) { consume(g); }
void gc_cint(QCoro::Generator<const int> &g) { consume(g); }
void gc_mo(QCoro::Generator<MoveOnly> &g) { consume(g); }
// advances past an exception
void gc_throwing(QCoro::Generator<int> &g) {
    auto it = g.begin();
    while (it != g.end()) { try { ++it; } catch (...) { ++it; observe(it == g.end()); } }
}
template<typename G> QCoro::Task<> aconsume(G &g) {
    auto it = co_await g.begin();
    while (it != g.end()) { observe(*it); observe(*it); co_await ++it; }
    observe();
}
QCoro::Task<> agc_int(QCoro::AsyncGenerator<int> &g) { return aconsume(g); }
QCoro::Task<> agc_mo(QCoro::AsyncGenerator<MoveOnly> &g) { return aconsume(g); }
QCoro::Task<> agc_foreach(QCoro::AsyncGenerator<int> &g) { QCORO_FOREACH(int v, g) { observe(v); observe(v); } observe(); }
QCoro::Task<> agc_begin(QCoro::AsyncGenerator<int> &g, QCoro::AsyncGenerator<int>::iterator &it) { it = co_await g.begin(); observe(it == g.end()); }
QCoro::Task<> agc_next(QCoro::AsyncGenerator<int> &g, QCoro::AsyncGenerator<int>::iterator &it) { auto &r = co_await ++it; observe(r == g.end()); }
bool agc_isend(QCoro::AsyncGenerator<int> &g, QCoro::AsyncGenerator<int>::iterator &it) { return it == g.end(); }
bool gc_neq(QCoro::Generator<int> &g, QCoro::GeneratorIterator<int> &it) { return it != g.end(); }
void agen_it(QCoro::AsyncGenerator<int> &g) { auto it = g.end(); }

// consumers of listeners, busy elsewhere between two items
template<typename G> QCoro::Task<> lconsume(G g, Opaque busy) {
    co_await busy;
    auto it = co_await g.begin();
    while (it != g.end()) { observe(*it); co_await busy; co_await ++it; }
    observe();
    co_await busy;
}
QCoro::Task<> lsn0(QProcess *o, std::chrono::milliseconds t, Opaque b) { return lconsume(qCoroSignalListener(o, &QProcess::started, t), b); }
QCoro::Task<> lsn1(QFile *o, std::chrono::milliseconds t, Opaque b) { return lconsume(qCoroSignalListener(o, &QIODevice::bytesWritten, t), b); }
QCoro::Task<> lsn2(QProcess *o, std::chrono::milliseconds t, Opaque b) { return lconsume(qCoroSignalListener(o, qOverload<int, QProcess::ExitStatus>(&QProcess::finished), t), b); }
QCoro::Task<> lsn_private1(QObject *o, std::chrono::milliseconds t, Opaque b) { return lconsume(qCoroSignalListener(o, &QObject::objectNameChanged, t), b); }
QCoro::Task<> lsn_forever(QFile *o, Opaque b) { return lconsume(qCoroSignalListener(o, &QIODevice::bytesWritten), b); }

using std::chrono::milliseconds;
// devices
#define IO(P, T) \
    QCoro::Task<> P##_read(T *d, qint64 n, milliseconds t) { auto r = co_await qCoro(d).read(n, t); observe(r); } \
    QCoro::Task<> P##_readLine(T *d, qint64 n, milliseconds t) { auto r = co_await qCoro(d).readLine(n, t); observe(r); } \
    QCoro::Task<> P##_readAll(T *d, milliseconds t) { auto r = co_await qCoro(*d).readAll(t); observe(r); } \
    QCoro::Task<> P##_wrr(T *d, milliseconds t) { auto r = co_await qCoro(d).waitForReadyRead(t); observe(r); } \
    QCoro::Task<> P##_wrr_int(T *d, int t) { auto r = co_await qCoro(d).waitForReadyRead(t); observe(r); } \
    QCoro::Task<> P##_wbw(T *d, milliseconds t) { auto r = co_await qCoro(d).waitForBytesWritten(t); observe(r); } \
    QCoro::Task<> P##_wbw_int(T *d, int t) { auto r = co_await qCoro(d).waitForBytesWritten(t); observe(r); } \
    QCoro::Task<> P##_write(T *d, const QByteArray &b) { auto r = co_await qCoro(d).write(b); observe(r); } \
    QCoro::Task<> P##_read_def(T *d, qint64 n) { auto r = co_await qCoro(d).read(n); observe(r); } \
    QCoro::Task<> P##_readLine_def(T *d) { auto r = co_await qCoro(d).readLine(); observe(r); } \
    QCoro::Task<> P##_readAll_def(T *d) { auto r = co_await qCoro(d).readAll(); observe(r); } \
    QCoro::Task<> P##_await(T *d) { auto r = co_await d; observe(r); }
IO(file, QFile)
IO(tcp, QTcpSocket)
IO(udp, QUdpSocket)
IO(lsock, QLocalSocket)
IO(proc, QProcess)
QCoro::Task<> reply_readAll(QNetworkReply *d, milliseconds t) { auto r = co_await qCoro(*d).readAll(t); observe(r); }
QCoro::Task<> reply_read(QNetworkReply *d, qint64 n, milliseconds t) { auto r = co_await qCoro(d).read(n, t); observe(r); }
QCoro::Task<> reply_readLine(QNetworkReply *d, qint64 n, milliseconds t) { auto r = co_await qCoro(d).readLine(n, t); observe(r); }
QCoro::Task<> reply_wrr(QNetworkReply *d, milliseconds t) { auto r = co_await qCoro(d).waitForReadyRead(t); observe(r); }
QCoro::Task<> reply_wrr_int(QNetworkReply *d, int t) { auto r = co_await qCoro(d).waitForReadyRead(t); observe(r); }
QCoro::Task<> reply_wbw(QNetworkReply *d, milliseconds t) { auto r = co_await qCoro(d).waitForBytesWritten(t); observe(r); }
QCoro::Task<> reply_wbw_int(QNetworkReply *d, int t) { auto r = co_await qCoro(d).waitForBytesWritten(t); observe(r); }
QCoro::Task<> reply_write(QNetworkReply *d, const QByteArray &b) { auto r = co_await qCoro(d).write(b); observe(r); }
QCoro::Task<> reply_read_def(QNetworkReply *d, qint64 n) { auto r = co_await qCoro(d).read(n); observe(r); }
QCoro::Task<> reply_readLine_def(QNetworkReply *d) { auto r = co_await qCoro(d).readLine(); observe(r); }
QCoro::Task<> reply_readAll_def(QNetworkReply *d) { auto r = co_await qCoro(d).readAll(); observe(r); }
QCoro::Task<> reply_await(QNetworkReply *d) { auto r = co_await d; observe(r); }
QCoro::Task<> reply_await_ref(QNetworkReply &d) { auto r = co_await d; observe(r); }
QCoro::Task<> reply_fin(QNetworkReply *d, milliseconds t) { auto r = co_await qCoro(d).waitForFinished(t); observe(r); }
QCoro::Task<> reply_fin_def(QNetworkReply *d) { auto r = co_await qCoro(*d).waitForFinished(); observe(r); }
QCoro::Task<> file_await_ref(QFile &d) { auto r = co_await d; observe(r); }

// sockets
#define CONN(P, T) \
    QCoro::Task<> P##_conn(T *d, milliseconds t) { auto r = co_await qCoro(d).waitForConnected(t); observe(r); } \
    QCoro::Task<> P##_conn_int(T *d, int t) { auto r = co_await qCoro(d).waitForConnected(t); observe(r); } \
    QCoro::Task<> P##_conn_def(T *d) { auto r = co_await qCoro(*d).waitForConnected(); observe(r); } \
    QCoro::Task<> P##_disc(T *d, milliseconds t) { auto r = co_await qCoro(d).waitForDisconnected(t); observe(r); } \
    QCoro::Task<> P##_disc_int(T *d, int t) { auto r = co_await qCoro(d).waitForDisconnected(t); observe(r); } \
    QCoro::Task<> P##_disc_def(T *d) { auto r = co_await qCoro(*d).waitForDisconnected(); observe(r); }
CONN(tcp, QTcpSocket)
CONN(udp, QUdpSocket)
CONN(lsock, QLocalSocket)
QCoro::Task<> tcp_cth(QTcpSocket *d, const QString &n, quint16 p, QIODevice::OpenMode m, QAbstractSocket::NetworkLayerProtocol l, milliseconds t) { auto r = co_await qCoro(d).connectToHost(n, p, m, l, t); observe(r); }
QCoro::Task<> tcp_ctha(QTcpSocket *d, const QHostAddress &a, quint16 p, QIODevice::OpenMode m, milliseconds t) { auto r = co_await qCoro(d).connectToHost(a, p, m, t); observe(r); }
QCoro::Task<> tcp_cth_def(QTcpSocket *d, const QString &n, quint16 p) { auto r = co_await qCoro(d).connectToHost(n, p); observe(r); }
QCoro::Task<> tcp_ctha_def(QTcpSocket *d, const QHostAddress &a, quint16 p) { auto r = co_await qCoro(d).connectToHost(a, p); observe(r); }
QCoro::Task<> lsock_cts(QLocalSocket *d, const QString &n, QIODevice::OpenMode m, milliseconds t) { auto r = co_await qCoro(d).connectToServer(n, m, t); observe(r); }
QCoro::Task<> lsock_ctsn(QLocalSocket *d, QIODevice::OpenMode m, milliseconds t) { auto r = co_await qCoro(d).connectToServer(m, t); observe(r); }
QCoro::Task<> lsock_cts_def(QLocalSocket *d, const QString &n) { auto r = co_await qCoro(d).connectToServer(n); observe(r); }
QCoro::Task<> lsock_ctsn_def(QLocalSocket *d) { auto r = co_await qCoro(d).connectToServer(); observe(r); }

// processes
QCoro::Task<> proc_started(QProcess *d, milliseconds t) { auto r = co_await qCoro(d).waitForStarted(t); observe(r); }
QCoro::Task<> proc_started_int(QProcess *d, int t) { auto r = co_await qCoro(d).waitForStarted(t); observe(r); }
QCoro::Task<> proc_started_def(QProcess *d) { auto r = co_await qCoro(*d).waitForStarted(); observe(r); }
QCoro::Task<> proc_fin(QProcess *d, milliseconds t) { auto r = co_await qCoro(d).waitForFinished(t); observe(r); }
QCoro::Task<> proc_fin_int(QProcess *d, int t) { auto r = co_await qCoro(d).waitForFinished(t); observe(r); }
QCoro::Task<> proc_fin_def(QProcess *d) { auto r = co_await qCoro(*d).waitForFinished(); observe(r); }
QCoro::Task<> proc_start(QProcess *d, QIODevice::OpenMode m, milliseconds t) { auto r = co_await qCoro(d).start(m, t); observe(r); }
QCoro::Task<> proc_startp(QProcess *d, const QString &p, const QStringList &a, QIODevice::OpenMode m, milliseconds t) { auto r = co_await qCoro(d).start(p, a, m, t); observe(r); }
QCoro::Task<> proc_start_def(QProcess *d) { auto r = co_await qCoro(d).start(); observe(r); }
QCoro::Task<> proc_startp_def(QProcess *d, const QString &p, const QStringList &a) { auto r = co_await qCoro(d).start(p, a); observe(r); }

// threads
QCoro::Task<> thr_started(QThread *d, milliseconds t) { auto r = co_await qCoro(d).waitForStarted(t); observe(r); }
QCoro::Task<> thr_started_def(QThread *d) { auto r = co_await qCoro(*d).waitForStarted(); observe(r); }
QCoro::Task<> thr_fin(QThread *d, milliseconds t) { auto r = co_await qCoro(d).waitForFinished(t); observe(r); }
QCoro::Task<> thr_fin_def(QThread *d) { auto r = co_await qCoro(*d).waitForFinished(); observe(r); }
QCoro::Task<> thr_move2(QThread *a, QThread *b) { co_await QCoro::moveToThread(a); observe(); co_await QCoro::moveToThread(b); observe(); }

// servers
QCoro::Task<> srv_next(QTcpServer *d, milliseconds t) { auto r = co_await qCoro(d).waitForNewConnection(t); observe(r); }
QCoro::Task<> srv_next_int(QTcpServer *d, int t) { auto r = co_await qCoro(d).waitForNewConnection(t); observe(r); }
QCoro::Task<> srv_next_def(QTcpServer *d) { auto r = co_await qCoro(*d).waitForNewConnection(); observe(r); }
QCoro::Task<> wss_next(QWebSocketServer *d, milliseconds t) { auto r = co_await qCoro(d).nextPendingConnection(t); observe(r); }
QCoro::Task<> wss_next_def(QWebSocketServer *d) { auto r = co_await qCoro(*d).nextPendingConnection(); observe(r); }

// WebSockets
QCoro::Task<> ws_open(QWebSocket *d, const QUrl &u, milliseconds t) { auto r = co_await qCoro(d).open(u, t); observe(r); }
QCoro::Task<> ws_openr(QWebSocket *d, const QNetworkRequest &u, milliseconds t) { auto r = co_await qCoro(d).open(u, t); observe(r); }
QCoro::Task<> ws_open_def(QWebSocket *d, const QUrl &u) { auto r = co_await qCoro(*d).open(u); observe(r); }
QCoro::Task<> ws_openr_def(QWebSocket *d, const QNetworkRequest &u) { auto r = co_await qCoro(*d).open(u); observe(r); }
QCoro::Task<> ws_ping(QWebSocket *d, const QByteArray &p, milliseconds t) { auto r = co_await qCoro(d).ping(p, t); observe(r); }
QCoro::Task<> ws_ping_def(QWebSocket *d, const QByteArray &p) { auto r = co_await qCoro(d).ping(p); observe(r); }
QCoro::Task<> ws_bf(QWebSocket *d, milliseconds t, Opaque b) { return lconsume(qCoro(d).binaryFrames(t), b); }
QCoro::Task<> ws_bm(QWebSocket *d, milliseconds t, Opaque b) { return lconsume(qCoro(d).binaryMessages(t), b); }
QCoro::Task<> ws_tf(QWebSocket *d, milliseconds t, Opaque b) { return lconsume(qCoro(d).textFrames(t), b); }
QCoro::Task<> ws_tm(QWebSocket *d, milliseconds t, Opaque b) { return lconsume(qCoro(d).textMessages(t), b); }
QCoro::Task<> ws_bf_def(QWebSocket *d, Opaque b) { return lconsume(qCoro(d).binaryFrames(), b); }
QCoro::Task<> ws_bm_def(QWebSocket *d, Opaque b) { return lconsume(qCoro(d).binaryMessages(), b); }
QCoro::Task<> ws_tf_def(QWebSocket *d, Opaque b) { return lconsume(qCoro(d).textFrames(), b); }
QCoro::Task<> ws_tm_def(QWebSocket *d, Opaque b) { return lconsume(qCoro(d).textMessages(), b); }

// generators that are dropped while they wait
QCoro::AsyncGenerator<int> dg_task(Opaque o) { Guard g; int v = co_await src_int(o); observe(v); co_yield v; }
QCoro::AsyncGenerator<int> dg_void(Opaque o) { Guard g; co_await src_void(o); observe(); co_yield 1; }
QCoro::AsyncGenerator<int> dg_mo(Opaque o) { Guard g; MoveOnly m = co_await src_mo(o); observe(m); co_yield 1; }
QCoro::AsyncGenerator<int> dg_lazy(Opaque o) { Guard g; int v = co_await lsrc_int(o); observe(v); co_yield v; }
QCoro::AsyncGenerator<int> dg_lazyv(Opaque o) { Guard g; co_await lsrc_void(o); observe(); co_yield 1; }
QCoro::AsyncGenerator<int> dg_then(Opaque o) { Guard g; long v = co_await src_int(o).then(CbRet{}); observe(v); co_yield 1; }
QCoro::AsyncGenerator<int> dg_shared(QCoro::Task<int> &t) { Guard g; int v = co_await t; observe(v); co_yield v; }
QCoro::AsyncGenerator<int> dg_sharedv(QCoro::Task<> &t) { Guard g; co_await t; observe(); co_yield 1; }
QCoro::AsyncGenerator<int> dg_sharedlz(QCoro::LazyTask<int> &t) { Guard g; int v = co_await t; observe(v); co_yield v; }
QCoro::AsyncGenerator<int> dg_sharedlzv(QCoro::LazyTask<> &t) { Guard g; co_await t; observe(); co_yield 1; }
QCoro::AsyncGenerator<int> dg_inner(Opaque o) { Guard g; auto i = dg_task(o); auto it = co_await i.begin(); observe(*it); co_yield 1; }
QCoro::AsyncGenerator<int> dg_move(QThread *t) { Guard g; co_await QCoro::moveToThread(t); observe(); co_yield 1; }
QCoro::AsyncGenerator<int> dg_signal(QFile *o, std::chrono::milliseconds t) { Guard g; auto r = co_await qCoro(o, &QIODevice::bytesWritten, t); observe(r); co_yield 1; }
QCoro::AsyncGenerator<int> dg_listen(QFile *o, std::chrono::milliseconds t) { Guard g; auto l = qCoroSignalListener(o, &QIODevice::bytesWritten, t); QCORO_FOREACH(qint64 v, l) { observe(v); co_yield 1; } }
QCoro::AsyncGenerator<int> dg_sleep(std::chrono::milliseconds t) { Guard g; co_await QCoro::sleepFor(t); observe(); co_yield 1; }
QCoro::AsyncGenerator<int> dg_timer(QTimer *o) { Guard g; co_await qCoro(o).waitForTimeout(); observe(); co_yield 1; }
QCoro::AsyncGenerator<int> dg_readAll(QFile *o, std::chrono::milliseconds t) { Guard g; auto r = co_await qCoro(o).readAll(t); observe(r); co_yield 1; }
QCoro::AsyncGenerator<int> dg_started(QThread *o, std::chrono::milliseconds t) { Guard g; auto r = co_await qCoro(o).waitForStarted(t); observe(r); co_yield 1; }
QCoro::AsyncGenerator<int> dg_procfin(QProcess *o, std::chrono::milliseconds t) { Guard g; auto r = co_await qCoro(o).waitForFinished(t); observe(r); co_yield 1; }
QCoro::AsyncGenerator<int> dg_future(QFuture<int> f) { Guard g; co_await qCoro(f).waitForFinished(); observe(); co_yield 1; }
QCoro::AsyncGenerator<int> dg_dbus(QDBusPendingCall c) { Guard g; auto m = co_await qCoro(c).waitForFinished(); observe(m); co_yield 1; }
QCoro::AsyncGenerator<int> dg_ping(QWebSocket *o, const QByteArray &p, milliseconds t) { Guard g; auto r = co_await qCoro(o).ping(p, t); observe(r); co_yield 1; }
QCoro::AsyncGenerator<int> dg_accept(QTcpServer *o, milliseconds t) { Guard g; auto r = co_await qCoro(o).waitForNewConnection(t); observe(r); co_yield 1; }
QCoro::AsyncGenerator<int> dg_waccept(QWebSocketServer *o, milliseconds t) { Guard g; auto r = co_await qCoro(o).nextPendingConnection(t); observe(r); co_yield 1; }

// the same waits, with the task kept beyond the end of the wrapper and of the arguments
#define KIO(P, T) \
    QCoro::Task<> P##_k_read(T *d, qint64 n, milliseconds t) { auto k = qCoro(d).read(n, t); auto r = co_await std::move(k); observe(r); } \
    QCoro::Task<> P##_k_readLine(T *d, qint64 n, milliseconds t) { auto k = qCoro(d).readLine(n, t); auto r = co_await std::move(k); observe(r); } \
    QCoro::Task<> P##_k_readAll(T *d, milliseconds t) { auto k = qCoro(*d).readAll(t); auto r = co_await std::move(k); observe(r); } \
    QCoro::Task<> P##_k_wrr(T *d, milliseconds t) { auto k = qCoro(d).waitForReadyRead(t); auto r = co_await std::move(k); observe(r); } \
    QCoro::Task<> P##_k_wrr_int(T *d, int t) { auto k = qCoro(d).waitForReadyRead(t); auto r = co_await std::move(k); observe(r); } \
    QCoro::Task<> P##_k_wbw(T *d, milliseconds t) { auto k = qCoro(d).waitForBytesWritten(t); auto r = co_await std::move(k); observe(r); } \
    QCoro::Task<> P##_k_wbw_int(T *d, int t) { auto k = qCoro(d).waitForBytesWritten(t); auto r = co_await std::move(k); observe(r); } \
    QCoro::Task<> P##_k_write(T *d, const QByteArray &b) { auto k = qCoro(d).write(QByteArray(b)); auto r = co_await std::move(k); observe(r); } \
    QCoro::Task<> P##_k_read_def(T *d, qint64 n) { auto k = qCoro(d).read(n); auto r = co_await std::move(k); observe(r); } \
    QCoro::Task<> P##_k_readLine_def(T *d) { auto k = qCoro(d).readLine(); auto r = co_await std::move(k); observe(r); } \
    QCoro::Task<> P##_k_readAll_def(T *d) { auto k = qCoro(d).readAll(); auto r = co_await std::move(k); observe(r); }
KIO(file, QFile)
KIO(tcp, QTcpSocket)
KIO(udp, QUdpSocket)
KIO(lsock, QLocalSocket)
KIO(proc, QProcess)
#define KCONN(P, T) \
    QCoro::Task<> P##_k_conn(T *d, milliseconds t) { auto k = qCoro(d).waitForConnected(t); auto r = co_await std::move(k); observe(r); } \
    QCoro::Task<> P##_k_conn_int(T *d, int t) { auto k = qCoro(d).waitForConnected(t); auto r = co_await std::move(k); observe(r); } \
    QCoro::Task<> P##_k_conn_def(T *d) { auto k = qCoro(*d).waitForConnected(); auto r = co_await std::move(k); observe(r); } \
    QCoro::Task<> P##_k_disc(T *d, milliseconds t) { auto k = qCoro(d).waitForDisconnected(t); auto r = co_await std::move(k); observe(r); } \
    QCoro::Task<> P##_k_disc_int(T *d, int t) { auto k = qCoro(d).waitForDisconnected(t); auto r = co_await std::move(k); observe(r); } \
    QCoro::Task<> P##_k_disc_def(T *d) { auto k = qCoro(*d).waitForDisconnected(); auto r = co_await std::move(k); observe(r); }
KCONN(tcp, QTcpSocket)
KCONN(udp, QUdpSocket)
KCONN(lsock, QLocalSocket)
QCoro::Task<> k_sig_private0(QTimer *o) { auto k = qCoro(o, &QTimer::timeout); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_sig_plain0(QIODevice *o) { auto k = qCoro(static_cast<QObject *>(o), &QObject::destroyed); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_sig_dev0(QProcess *o, std::chrono::milliseconds t) { auto k = qCoro(o, &QProcess::started, t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_sig_dev1(QFile *o, std::chrono::milliseconds t) { auto k = qCoro(o, &QIODevice::bytesWritten, t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_sig_two(QProcess *o, std::chrono::milliseconds t) { auto k = qCoro(o, qOverload<int, QProcess::ExitStatus>(&QProcess::finished), t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_sig_private1(QObject *o, std::chrono::milliseconds t) { auto k = qCoro(o, &QObject::objectNameChanged, t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_sig_private3(QAbstractItemModel *o, std::chrono::milliseconds t) { auto k = qCoro(o, &QAbstractItemModel::rowsInserted, t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_sig_dev1_forever(QFile *o) { auto k = qCoro(o, &QIODevice::bytesWritten); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_sig_two_forever(QProcess *o) { auto k = qCoro(o, qOverload<int, QProcess::ExitStatus>(&QProcess::finished)); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_timer_wait(QTimer *t) { auto k = qCoro(t).waitForTimeout(); co_await std::move(k); observe(); }
QCoro::Task<> k_sleep_ms(std::chrono::milliseconds d) { auto k = QCoro::sleepFor(d); co_await std::move(k); observe(); }
QCoro::Task<> k_sleep_s(std::chrono::seconds d) { auto k = QCoro::sleepFor(d); co_await std::move(k); observe(); }
QCoro::Task<> k_sleep_us(std::chrono::microseconds d) { auto k = QCoro::sleepFor(d); co_await std::move(k); observe(); }
QCoro::Task<> k_sleep_until_steady(std::chrono::steady_clock::time_point w) { auto k = QCoro::sleepUntil(w); co_await std::move(k); observe(); }
QCoro::Task<> k_sleep_until_system(std::chrono::system_clock::time_point w) { auto k = QCoro::sleepUntil(w); co_await std::move(k); observe(); }
QCoro::Task<> k_sleep_until_system_s(std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds> w) { auto k = QCoro::sleepUntil(w); co_await std::move(k); observe(); }
QCoro::Task<> k_fut_wait_int(QFuture<int> f) { auto k = qCoro(f).waitForFinished(); auto v = co_await std::move(k); observe(v); }
QCoro::Task<> k_fut_wait_void(QFuture<void> f) { auto k = qCoro(f).waitForFinished(); co_await std::move(k); observe(); }
QCoro::Task<> k_fut_result_int(QFuture<int> f) { auto k = qCoro(f).result(); auto v = co_await std::move(k); observe(v); }
QCoro::Task<> k_fut_result_void(QFuture<void> f) { auto k = qCoro(f).result(); co_await std::move(k); observe(); }
QCoro::Task<> k_fut_take_int(QFuture<int> f) { auto k = qCoro(f).takeResult(); auto v = co_await std::move(k); observe(v); }
QCoro::Task<> k_fut_take_mo(QFuture<MoveOnly> f) { auto k = qCoro(f).takeResult(); auto v = co_await std::move(k); observe(v); }
QCoro::Task<> k_dbus_call_wait(const QDBusPendingCall &c) { auto k = qCoro(QDBusPendingCall(c)).waitForFinished(); auto m = co_await std::move(k); observe(m); }
QCoro::Task<> k_dbus_reply_wait(QDBusPendingReply<QString> r) { auto k = qCoro(r).waitForFinished(); auto m = co_await std::move(k); observe(m); }
QCoro::Task<> k_dbus_reply2_wait(QDBusPendingReply<QString, int> r) { auto k = qCoro(r).waitForFinished(); auto m = co_await std::move(k); observe(m); }
QCoro::Task<> k_dbus_reply_ref_wait(const QDBusPendingReply<QString> &r) { auto k = qCoro(QDBusPendingReply<QString>(r)).waitForFinished(); auto m = co_await std::move(k); observe(m); }
QCoro::Task<> k_reply_readAll(QNetworkReply *d, milliseconds t) { auto k = qCoro(*d).readAll(t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_reply_read(QNetworkReply *d, qint64 n, milliseconds t) { auto k = qCoro(d).read(n, t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_reply_readLine(QNetworkReply *d, qint64 n, milliseconds t) { auto k = qCoro(d).readLine(n, t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_reply_wrr(QNetworkReply *d, milliseconds t) { auto k = qCoro(d).waitForReadyRead(t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_reply_wrr_int(QNetworkReply *d, int t) { auto k = qCoro(d).waitForReadyRead(t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_reply_wbw(QNetworkReply *d, milliseconds t) { auto k = qCoro(d).waitForBytesWritten(t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_reply_wbw_int(QNetworkReply *d, int t) { auto k = qCoro(d).waitForBytesWritten(t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_reply_write(QNetworkReply *d, const QByteArray &b) { auto k = qCoro(d).write(QByteArray(b)); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_reply_read_def(QNetworkReply *d, qint64 n) { auto k = qCoro(d).read(n); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_reply_readLine_def(QNetworkReply *d) { auto k = qCoro(d).readLine(); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_reply_readAll_def(QNetworkReply *d) { auto k = qCoro(d).readAll(); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_reply_fin(QNetworkReply *d, milliseconds t) { auto k = qCoro(d).waitForFinished(t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_reply_fin_def(QNetworkReply *d) { auto k = qCoro(*d).waitForFinished(); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_tcp_cth(QTcpSocket *d, const QString &n, quint16 p, QIODevice::OpenMode m, QAbstractSocket::NetworkLayerProtocol l, milliseconds t) { auto k = qCoro(d).connectToHost(QString(n), p, m, l, t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_tcp_ctha(QTcpSocket *d, const QHostAddress &a, quint16 p, QIODevice::OpenMode m, milliseconds t) { auto k = qCoro(d).connectToHost(QHostAddress(a), p, m, t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_tcp_cth_def(QTcpSocket *d, const QString &n, quint16 p) { auto k = qCoro(d).connectToHost(QString(n), p); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_tcp_ctha_def(QTcpSocket *d, const QHostAddress &a, quint16 p) { auto k = qCoro(d).connectToHost(QHostAddress(a), p); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_lsock_cts(QLocalSocket *d, const QString &n, QIODevice::OpenMode m, milliseconds t) { auto k = qCoro(d).connectToServer(QString(n), m, t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_lsock_ctsn(QLocalSocket *d, QIODevice::OpenMode m, milliseconds t) { auto k = qCoro(d).connectToServer(m, t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_lsock_cts_def(QLocalSocket *d, const QString &n) { auto k = qCoro(d).connectToServer(QString(n)); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_lsock_ctsn_def(QLocalSocket *d) { auto k = qCoro(d).connectToServer(); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_proc_started(QProcess *d, milliseconds t) { auto k = qCoro(d).waitForStarted(t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_proc_started_int(QProcess *d, int t) { auto k = qCoro(d).waitForStarted(t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_proc_started_def(QProcess *d) { auto k = qCoro(*d).waitForStarted(); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_proc_fin(QProcess *d, milliseconds t) { auto k = qCoro(d).waitForFinished(t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_proc_fin_int(QProcess *d, int t) { auto k = qCoro(d).waitForFinished(t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_proc_fin_def(QProcess *d) { auto k = qCoro(*d).waitForFinished(); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_proc_start(QProcess *d, QIODevice::OpenMode m, milliseconds t) { auto k = qCoro(d).start(m, t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_proc_startp(QProcess *d, const QString &p, const QStringList &a, QIODevice::OpenMode m, milliseconds t) { auto k = qCoro(d).start(QString(p), QStringList(a), m, t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_proc_start_def(QProcess *d) { auto k = qCoro(d).start(); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_proc_startp_def(QProcess *d, const QString &p, const QStringList &a) { auto k = qCoro(d).start(QString(p), QStringList(a)); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_thr_started(QThread *d, milliseconds t) { auto k = qCoro(d).waitForStarted(t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_thr_started_def(QThread *d) { auto k = qCoro(*d).waitForStarted(); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_thr_fin(QThread *d, milliseconds t) { auto k = qCoro(d).waitForFinished(t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_thr_fin_def(QThread *d) { auto k = qCoro(*d).waitForFinished(); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_srv_next(QTcpServer *d, milliseconds t) { auto k = qCoro(d).waitForNewConnection(t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_srv_next_int(QTcpServer *d, int t) { auto k = qCoro(d).waitForNewConnection(t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_srv_next_def(QTcpServer *d) { auto k = qCoro(*d).waitForNewConnection(); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_wss_next(QWebSocketServer *d, milliseconds t) { auto k = qCoro(d).nextPendingConnection(t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_wss_next_def(QWebSocketServer *d) { auto k = qCoro(*d).nextPendingConnection(); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_ws_open(QWebSocket *d, const QUrl &u, milliseconds t) { auto k = qCoro(d).open(QUrl(u), t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_ws_openr(QWebSocket *d, const QNetworkRequest &u, milliseconds t) { auto k = qCoro(d).open(QNetworkRequest(u), t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_ws_open_def(QWebSocket *d, const QUrl &u) { auto k = qCoro(*d).open(QUrl(u)); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_ws_openr_def(QWebSocket *d, const QNetworkRequest &u) { auto k = qCoro(*d).open(QNetworkRequest(u)); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_ws_ping(QWebSocket *d, const QByteArray &p, milliseconds t) { auto k = qCoro(d).ping(QByteArray(p), t); auto r = co_await std::move(k); observe(r); }
QCoro::Task<> k_ws_ping_def(QWebSocket *d, const QByteArray &p) { auto k = qCoro(d).ping(QByteArray(p)); auto r = co_await std::move(k); observe(r); }

} // namespace h

// ---- test macros
namespace h {
struct Expected : std::exception {};
bool cond(); int lhs(); int rhs(); void act(); const char *text(); void after();
QCoro::Task<> mac_verify() { QCORO_VERIFY(cond()); after(); co_return; }
QCoro::Task<> mac_verify2() { QCORO_VERIFY2(cond(), text()); after(); co_return; }
QCoro::Task<> mac_fail() { QCORO_FAIL(text()); after(); co_return; }
QCoro::Task<> mac_compare() { QCORO_COMPARE(lhs(), rhs()); after(); co_return; }
QCoro::Task<> mac_skip() { QCORO_SKIP(text()); after(); co_return; }
QCoro::Task<> mac_expectfail() { QCORO_EXPECT_FAIL("", text(), Continue); after(); co_return; }
QCoro::Task<> mac_test() { QCORO_TEST(lhs(), "element"); after(); co_return; }
QCoro::Task<> mac_throws() { QCORO_VERIFY_THROWS_EXCEPTION(Expected, act()); after(); co_return; }
QCoro::Task<> mac_thrown() { QCORO_VERIFY_EXCEPTION_THROWN(act(), Expected); after(); co_return; }
// the macros are statements: they can be the branch of an if, and may follow each other
QCoro::Task<> mac_branch() { if (cond()) QCORO_VERIFY(cond()); else after(); co_return; }
QCoro::Task<> mac_twice() { QCORO_VERIFY(cond()); QCORO_COMPARE(lhs(), rhs()); after(); co_return; }
}
