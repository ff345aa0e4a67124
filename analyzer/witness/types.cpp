// One expectation per line; the construct it is about follows //@
// ---- the coroutine types are move-only
template<typename T> constexpr bool copyable = std::is_copy_constructible_v<T> || std::is_copy_assignable_v<T>;
static_assert(!copyable<QCoro::Task<int>> && !copyable<QCoro::Task<>> && !copyable<QCoro::Task<MoveOnly>> && !copyable<QCoro::Task<QString>>); //@ QCoro::Task
static_assert(!copyable<QCoro::LazyTask<int>> && !copyable<QCoro::LazyTask<>> && !copyable<QCoro::LazyTask<MoveOnly>>); //@ QCoro::LazyTask
static_assert(!copyable<QCoro::Generator<int>> && !copyable<QCoro::Generator<const QString &>> && !copyable<QCoro::Generator<MoveOnly>>); //@ QCoro::Generator
static_assert(!copyable<QCoro::AsyncGenerator<int>> && !copyable<QCoro::AsyncGenerator<const QString &>> && !copyable<QCoro::AsyncGenerator<MoveOnly>>); //@ QCoro::AsyncGenerator
static_assert(std::is_move_constructible_v<QCoro::Task<int>> && std::is_move_assignable_v<QCoro::Task<int>> && std::is_default_constructible_v<QCoro::Task<int>>); //@ QCoro::Task
static_assert(std::is_move_constructible_v<QCoro::Task<>> && std::is_move_assignable_v<QCoro::Task<>> && std::is_default_constructible_v<QCoro::Task<>>); //@ QCoro::Task
static_assert(std::is_move_constructible_v<QCoro::Generator<int>> && std::is_move_assignable_v<QCoro::Generator<int>>); //@ QCoro::Generator
static_assert(std::is_move_constructible_v<QCoro::AsyncGenerator<int>> && std::is_move_assignable_v<QCoro::AsyncGenerator<int>>); //@ QCoro::AsyncGenerator
// ---- then()
void thens(QCoro::Task<int> &ti, QCoro::Task<> &tv, QCoro::LazyTask<int> &li, QCoro::LazyTask<> &lv) {
    auto err = [](const std::exception &) { return 1L; }; auto errv = [](const std::exception &) {};
    SAME(ti.then([](int) { return 1L; }), QCoro::Task<long>) //@ QCoro::detail::TaskBase::then
    SAME(ti.then([] { return 1L; }), QCoro::Task<long>) //@ QCoro::detail::TaskBase::then
    SAME(ti.then([](int) {}), QCoro::Task<void>) //@ QCoro::detail::TaskBase::then
    SAME(ti.then([](int) -> QCoro::Task<long> { co_return 1; }), QCoro::Task<long>) //@ QCoro::detail::TaskBase::then
    SAME(ti.then([](int) -> QCoro::Task<> { co_return; }), QCoro::Task<>) //@ QCoro::detail::TaskBase::then
    SAME(ti.then([](int) -> MoveOnly { return {}; }), QCoro::Task<MoveOnly>) //@ QCoro::detail::TaskBase::then
    SAME(std::move(ti).then([](int) { return 1L; }), QCoro::Task<long>) //@ QCoro::detail::TaskBase::then
    SAME(std::move(ti).then([](int) -> QCoro::Task<long> { co_return 1; }), QCoro::Task<long>) //@ QCoro::detail::TaskBase::then
    SAME(tv.then([] { return 1L; }), QCoro::Task<long>) //@ QCoro::detail::TaskBase::then
    SAME(tv.then([] {}), QCoro::Task<>) //@ QCoro::detail::TaskBase::then
    SAME(std::move(tv).then([]() -> QCoro::Task<long> { co_return 1; }), QCoro::Task<long>) //@ QCoro::detail::TaskBase::then
    SAME(ti.then([](int) { return 1L; }, err), QCoro::Task<long>) //@ QCoro::detail::TaskBase::then
    SAME(std::move(ti).then([](int) -> QCoro::Task<long> { co_return 1; }, err), QCoro::Task<long>) //@ QCoro::detail::TaskBase::then
    SAME(tv.then([] {}, errv), QCoro::Task<>) //@ QCoro::detail::TaskBase::then
    SAME(li.then([](int) { return 1L; }), QCoro::LazyTask<long>) //@ QCoro::detail::TaskBase::then
    SAME(li.then([](int) -> QCoro::LazyTask<long> { co_return 1; }), QCoro::LazyTask<long>) //@ QCoro::detail::TaskBase::then
    SAME(std::move(li).then([](int) { return 1L; }), QCoro::LazyTask<long>) //@ QCoro::detail::TaskBase::then
    SAME(std::move(lv).then([] {}), QCoro::LazyTask<>) //@ QCoro::detail::TaskBase::then
    SAME(std::move(li).then([](int) { return 1L; }, err), QCoro::LazyTask<long>) //@ QCoro::detail::TaskBase::then
}
// ---- waitFor()
void waits(QCoro::Task<int> &t, QCoro::Task<> &v) {
    SAME(QCoro::waitFor(t), int) //@ QCoro::waitFor
    SAME(QCoro::waitFor(taskInt()), int) //@ QCoro::waitFor
    SAME(QCoro::waitFor(v), void) //@ QCoro::waitFor
    SAME(QCoro::waitFor(taskMo()), MoveOnly) //@ QCoro::waitFor
    SAME(QCoro::waitFor(lazyInt()), int) //@ QCoro::waitFor
    SAME(QCoro::waitFor(lazyVoid()), void) //@ QCoro::waitFor
    SAME(QCoro::waitFor(OwnAwaiter{}), QString) //@ QCoro::waitFor
    SAME(QCoro::waitFor(WithMember{}), QString) //@ QCoro::waitFor
    SAME(QCoro::waitFor(WithFree{}), QString) //@ QCoro::waitFor
}
// ---- connect()
void connects(QObject *c, QFuture<int> f, QFuture<void> fv, QTimer *t, QProcess *p) {
    QCoro::connect(taskInt(), c, [](int) {}); QCoro::connect(taskInt(), c, [] {}); QCoro::connect(taskVoid(), c, [] {}); //@ QCoro::connect
    QCoro::connect(taskInt(), t, qOverload<int>(&QTimer::start)); QCoro::connect(taskInt(), t, &QTimer::stop); QCoro::connect(taskVoid(), t, &QTimer::stop); //@ QCoro::connect
    QCoro::connect(taskInt(), p, [](auto &&) {}); QCoro::connect(taskMo(), p, [](MoveOnly) {}); QCoro::connect(taskMo(), p, [](const MoveOnly &) {}); //@ QCoro::connect
    QCoro::connect(std::move(f), c, [](int) {}); QCoro::connect(std::move(fv), c, [] {}); //@ QCoro::connect
}
// ---- what is awaited gives
QCoro::Task<> tasks(QCoro::Task<int> &t, const QCoro::Task<int> &ct, QCoro::Task<> &v) {
    IS(taskInt(), int) //@ QCoro::Task
    IS(taskMo(), MoveOnly) //@ QCoro::Task
    IS(t, int) //@ QCoro::Task
    ISVOID(taskVoid()) //@ QCoro::Task
    ISVOID(v) //@ QCoro::Task
    IS(lazyInt(), int) //@ QCoro::LazyTask
    ISVOID(lazyVoid()) //@ QCoro::LazyTask
    IS(OwnAwaiter{}, QString) //@ QCoro::detail::TaskPromiseBase::await_transform
    IS(WithMember{}, QString) //@ QCoro::detail::TaskPromiseBase::await_transform
    IS(WithFree{}, QString) //@ QCoro::detail::TaskPromiseBase::await_transform
    auto g = agenInt(); auto it = co_await g.begin(); SAME(*it, int &) //@ QCoro::AsyncGenerator
    static_assert(std::is_same_v<std::remove_cvref_t<decltype(*genRef().begin())>, QString>); //@ QCoro::Generator
}
QCoro::LazyTask<> lazies() {
    IS(taskInt(), int) //@ QCoro::LazyTask
    IS(OwnAwaiter{}, QString) //@ QCoro::LazyTask
}
QCoro::AsyncGenerator<int> agens() {
    IS(taskInt(), int) //@ QCoro::AsyncGenerator
    IS(OwnAwaiter{}, QString) //@ QCoro::AsyncGenerator
    co_yield 1;
}
QCoro::Task<> timers(QTimer *t, QTimer &tr) {
    ISVOID(t) //@ co_await QTimer
    ISVOID(tr) //@ co_await QTimer
    ISVOID(qCoro(t).waitForTimeout()) //@ QCoro::detail::QCoroTimer::waitForTimeout
    ISVOID(qCoro(tr).waitForTimeout()) //@ QCoro::detail::QCoroTimer::waitForTimeout
    ISVOID(QCoro::sleepFor(std::chrono::seconds{1})) //@ QCoro::sleepFor
    ISVOID(QCoro::sleepFor(milliseconds{1})) //@ QCoro::sleepFor
    ISVOID(QCoro::sleepUntil(std::chrono::steady_clock::now())) //@ QCoro::sleepUntil
    ISVOID(QCoro::sleepUntil(std::chrono::system_clock::now())) //@ QCoro::sleepUntil
}
QCoro::Task<> threads(QThread *t) {
    ISVOID(QCoro::moveToThread(t)) //@ QCoro::moveToThread
    IS(qCoro(t).waitForStarted(milliseconds{1}), bool) //@ QCoro::detail::QCoroThread::waitForStarted
    IS(qCoro(*t).waitForFinished(milliseconds{1}), bool) //@ QCoro::detail::QCoroThread::waitForFinished
}
QCoro::Task<> futures(QFuture<int> f, QFuture<void> v, QFuture<MoveOnly> m, QFuture<QString> s) {
    IS(f, int) //@ co_await QFuture
    IS(s, QString) //@ co_await QFuture
    ISVOID(v) //@ co_await QFuture
    IS(qCoro(f).result(), int) //@ QCoro::detail::QCoroFuture::result
    IS(qCoro(f).waitForFinished(), int) //@ QCoro::detail::QCoroFuture::waitForFinished
    ISVOID(qCoro(v).result()) //@ QCoro::detail::QCoroFuture::result
    ISVOID(qCoro(v).waitForFinished()) //@ QCoro::detail::QCoroFuture::waitForFinished
    IS(qCoro(m).takeResult(), MoveOnly) //@ QCoro::detail::QCoroFuture::takeResult
    IS(qCoro(s).takeResult(), QString) //@ QCoro::detail::QCoroFuture::takeResult
}
template<typename D> QCoro::Task<> devices(D *d, qint64 n, QByteArray b) {
    IS(qCoro(d).readAll(), QByteArray) //@ QCoro::detail::QCoroIODevice::readAll
    IS(qCoro(*d).readAll(milliseconds{1}), QByteArray) //@ QCoro::detail::QCoroIODevice::readAll
    IS(qCoro(d).read(n), QByteArray) //@ QCoro::detail::QCoroIODevice::read
    IS(qCoro(d).read(n, milliseconds{1}), QByteArray) //@ QCoro::detail::QCoroIODevice::read
    IS(qCoro(d).readLine(), QByteArray) //@ QCoro::detail::QCoroIODevice::readLine
    IS(qCoro(d).readLine(n), QByteArray) //@ QCoro::detail::QCoroIODevice::readLine
    IS(qCoro(d).readLine(n, milliseconds{1}), QByteArray) //@ QCoro::detail::QCoroIODevice::readLine
    IS(qCoro(d).write(b), qint64) //@ QCoro::detail::QCoroIODevice::write
    IS(qCoro(d).waitForReadyRead(), bool) //@ QCoro::detail::QCoroIODevice::waitForReadyRead
    IS(qCoro(d).waitForReadyRead(1), bool) //@ QCoro::detail::QCoroIODevice::waitForReadyRead
    IS(qCoro(d).waitForReadyRead(milliseconds{1}), bool) //@ QCoro::detail::QCoroIODevice::waitForReadyRead
    IS(qCoro(d).waitForBytesWritten(), std::optional<qint64>) //@ QCoro::detail::QCoroIODevice::waitForBytesWritten
    IS(qCoro(d).waitForBytesWritten(1), std::optional<qint64>) //@ QCoro::detail::QCoroIODevice::waitForBytesWritten
    IS(qCoro(d).waitForBytesWritten(milliseconds{1}), std::optional<qint64>) //@ QCoro::detail::QCoroIODevice::waitForBytesWritten
}
template QCoro::Task<> devices(QFile *, qint64, QByteArray);
template QCoro::Task<> devices(QTcpSocket *, qint64, QByteArray);
template QCoro::Task<> devices(QUdpSocket *, qint64, QByteArray);
template QCoro::Task<> devices(QLocalSocket *, qint64, QByteArray);
template QCoro::Task<> devices(QProcess *, qint64, QByteArray);
template QCoro::Task<> devices(QNetworkReply *, qint64, QByteArray);
QCoro::Task<> directDevices(QFile *f, QFile &fr, QTcpSocket *t, QLocalSocket *l, QProcess *p) {
    IS(f, QByteArray) //@ co_await QIODevice
    IS(fr, QByteArray) //@ co_await QIODevice
    IS(t, QByteArray) //@ co_await QIODevice
    IS(l, QByteArray) //@ co_await QIODevice
    IS(p, QByteArray) //@ co_await QIODevice
}
QCoro::Task<> replies(QNetworkReply *r, QNetworkAccessManager &nam, QNetworkRequest q) {
    IS(r, QNetworkReply *) //@ co_await QNetworkReply
    IS(nam.get(q), QNetworkReply *) //@ co_await QNetworkReply
    IS(qCoro(r).waitForFinished(), bool) //@ QCoro::detail::QCoroNetworkReply::waitForFinished
    IS(qCoro(*r).waitForFinished(milliseconds{1}), bool) //@ QCoro::detail::QCoroNetworkReply::waitForFinished
}
template<typename S> QCoro::Task<> sockets(S *s) {
    IS(qCoro(s).waitForConnected(), bool) //@ waitForConnected
    IS(qCoro(s).waitForConnected(1), bool) //@ waitForConnected
    IS(qCoro(*s).waitForConnected(milliseconds{1}), bool) //@ waitForConnected
    IS(qCoro(s).waitForDisconnected(), bool) //@ waitForDisconnected
    IS(qCoro(s).waitForDisconnected(1), bool) //@ waitForDisconnected
    IS(qCoro(*s).waitForDisconnected(milliseconds{1}), bool) //@ waitForDisconnected
}
template QCoro::Task<> sockets(QTcpSocket *);
template QCoro::Task<> sockets(QUdpSocket *);
template QCoro::Task<> sockets(QLocalSocket *);
QCoro::Task<> connecting(QTcpSocket *t, QLocalSocket *l, QHostAddress a, QString n) {
    IS(qCoro(t).connectToHost(n, 80), bool) //@ QCoro::detail::QCoroAbstractSocket::connectToHost
    IS(qCoro(t).connectToHost(a, 80), bool) //@ QCoro::detail::QCoroAbstractSocket::connectToHost
    IS(qCoro(t).connectToHost(n, 80, QIODevice::ReadWrite, QAbstractSocket::AnyIPProtocol, milliseconds{1}), bool) //@ QCoro::detail::QCoroAbstractSocket::connectToHost
    IS(qCoro(t).connectToHost(a, 80, QIODevice::ReadWrite, milliseconds{1}), bool) //@ QCoro::detail::QCoroAbstractSocket::connectToHost
    IS(qCoro(l).connectToServer(), bool) //@ QCoro::detail::QCoroLocalSocket::connectToServer
    IS(qCoro(l).connectToServer(n), bool) //@ QCoro::detail::QCoroLocalSocket::connectToServer
    IS(qCoro(l).connectToServer(n, QIODevice::ReadOnly, milliseconds{1}), bool) //@ QCoro::detail::QCoroLocalSocket::connectToServer
}
QCoro::Task<> processes(QProcess *p, QString n, QStringList a) {
    IS(qCoro(p).waitForStarted(), bool) //@ QCoro::detail::QCoroProcess::waitForStarted
    IS(qCoro(p).waitForStarted(1), bool) //@ QCoro::detail::QCoroProcess::waitForStarted
    IS(qCoro(*p).waitForStarted(milliseconds{1}), bool) //@ QCoro::detail::QCoroProcess::waitForStarted
    IS(qCoro(p).waitForFinished(), bool) //@ QCoro::detail::QCoroProcess::waitForFinished
    IS(qCoro(p).waitForFinished(1), bool) //@ QCoro::detail::QCoroProcess::waitForFinished
    IS(qCoro(p).waitForFinished(milliseconds{1}), bool) //@ QCoro::detail::QCoroProcess::waitForFinished
    IS(qCoro(p).start(), bool) //@ QCoro::detail::QCoroProcess::start
    IS(qCoro(p).start(n, a), bool) //@ QCoro::detail::QCoroProcess::start
}
QCoro::Task<> servers(QTcpServer *t, QWebSocketServer *w) {
    IS(qCoro(t).waitForNewConnection(), QTcpSocket *) //@ QCoro::detail::QCoroTcpServer::waitForNewConnection
    IS(qCoro(t).waitForNewConnection(1), QTcpSocket *) //@ QCoro::detail::QCoroTcpServer::waitForNewConnection
    IS(qCoro(*t).waitForNewConnection(milliseconds{1}), QTcpSocket *) //@ QCoro::detail::QCoroTcpServer::waitForNewConnection
    IS(qCoro(w).nextPendingConnection(), QWebSocket *) //@ QCoro::detail::QCoroWebSocketServer::nextPendingConnection
    IS(qCoro(*w).nextPendingConnection(milliseconds{1}), QWebSocket *) //@ QCoro::detail::QCoroWebSocketServer::nextPendingConnection
}
QCoro::Task<> websockets(QWebSocket *w, QUrl u, QNetworkRequest q, QByteArray b) {
    IS(qCoro(w).open(u), bool) //@ QCoro::detail::QCoroWebSocket::open
    IS(qCoro(w).open(q, milliseconds{1}), bool) //@ QCoro::detail::QCoroWebSocket::open
    IS(qCoro(*w).ping(b), std::optional<milliseconds>) //@ QCoro::detail::QCoroWebSocket::ping
    SAME(qCoro(w).binaryFrames(), QCoro::AsyncGenerator<std::tuple<QByteArray, bool>>) //@ QCoro::detail::QCoroWebSocket::binaryFrames
    SAME(qCoro(w).textFrames(), QCoro::AsyncGenerator<std::tuple<QString, bool>>) //@ QCoro::detail::QCoroWebSocket::textFrames
    SAME(qCoro(w).binaryMessages(), QCoro::AsyncGenerator<QByteArray>) //@ QCoro::detail::QCoroWebSocket::binaryMessages
    SAME(qCoro(w).textMessages(), QCoro::AsyncGenerator<QString>) //@ QCoro::detail::QCoroWebSocket::textMessages
}
QCoro::Task<> signals_(QTimer *t, QFile *f, QProcess *p, QObject *o, QAbstractItemModel *m) {
    using Exit = std::tuple<int, QProcess::ExitStatus>; using Rows = std::tuple<QModelIndex, int, int>;
    IS(qCoro(t, &QTimer::timeout), std::tuple<>) //@ qCoro(object, signal)
    IS(qCoro(t, &QTimer::timeout, milliseconds{1}), std::optional<std::tuple<>>) //@ qCoro(object, signal, timeout)
    IS(qCoro(f, &QIODevice::bytesWritten), qint64) //@ qCoro(object, signal)
    IS(qCoro(f, &QIODevice::bytesWritten, milliseconds{1}), std::optional<qint64>) //@ qCoro(object, signal, timeout)
    IS(qCoro(o, &QObject::objectNameChanged), QString) //@ qCoro(object, signal)
    IS(qCoro(o, &QObject::objectNameChanged, milliseconds{1}), std::optional<QString>) //@ qCoro(object, signal, timeout)
    IS(qCoro(p, qOverload<int, QProcess::ExitStatus>(&QProcess::finished)), Exit) //@ qCoro(object, signal)
    IS(qCoro(p, qOverload<int, QProcess::ExitStatus>(&QProcess::finished), milliseconds{1}), std::optional<Exit>) //@ qCoro(object, signal, timeout)
    IS(qCoro(m, &QAbstractItemModel::rowsInserted), Rows) //@ qCoro(object, signal)
    SAME(qCoroSignalListener(f, &QIODevice::bytesWritten), QCoro::AsyncGenerator<qint64>) //@ qCoroSignalListener
    SAME(qCoroSignalListener(t, &QTimer::timeout, milliseconds{1}), QCoro::AsyncGenerator<std::tuple<>>) //@ qCoroSignalListener
    SAME(qCoroSignalListener(m, &QAbstractItemModel::rowsInserted), QCoro::AsyncGenerator<Rows>) //@ qCoroSignalListener
}
QCoro::Task<> dbus(QDBusPendingCall c, QDBusPendingReply<QString> r, QDBusPendingReply<QString, int> r2, QDBusPendingReply<> r0) {
    using R2 = QDBusPendingReply<QString, int>;
    IS(c, QDBusMessage) //@ co_await QDBusPendingCall
    IS(qCoro(c).waitForFinished(), QDBusMessage) //@ QCoro::detail::QCoroDBusPendingCall::waitForFinished
    IS(r, QDBusPendingReply<QString>) //@ co_await QDBusPendingReply
    IS(r2, R2) //@ co_await QDBusPendingReply
    IS(r0, QDBusPendingReply<>) //@ co_await QDBusPendingReply
    IS(qCoro(r).waitForFinished(), QDBusPendingReply<QString>) //@ QCoro::detail::QCoroDBusPendingReply::waitForFinished
}
// ---- tasks of any value type, or without one, convert to a QML task
QCoro::Task<QString> taskString(); QCoro::Task<QVariant> taskVariant();
QCoro::QmlTask qml1() { return taskInt(); } //@ QCoro::QmlTask
QCoro::QmlTask qml2() { return taskVoid(); } //@ QCoro::QmlTask
QCoro::QmlTask qml3() { return taskString(); } //@ QCoro::QmlTask
QCoro::QmlTask qml4() { return taskVariant(); } //@ QCoro::QmlTask
QCoro::QmlTask qml5(QFuture<QString> f) { return f; } //@ QCoro::QmlTask
static_assert(std::is_copy_constructible_v<QCoro::QmlTask> && std::is_copy_assignable_v<QCoro::QmlTask>); //@ QCoro::QmlTask
