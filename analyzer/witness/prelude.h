// Everything the witnesses use. Nothing of this is ever linked or run.
#include "qcorotask.h"
#include "qcorolazytask.h"
#include "qcorogenerator.h"
#include "qcoroasyncgenerator.h"
#include "core/qcorocore.h"
#include "core/qcorothread.h"
#include "network/qcoronetwork.h"
#include "dbus/qcorodbus.h"
#include "websockets/qcorowebsocket.h"
#include "websockets/qcorowebsocketserver.h"
#include "qml/qcoroqmltask.h"
#include <QAbstractItemModel>
#include <QFile>
#include <QHostAddress>
#include <QLocalSocket>
#include <QNetworkAccessManager>
#include <QNetworkReply>
#include <QNetworkRequest>
#include <QProcess>
#include <QTcpServer>
#include <QTcpSocket>
#include <QThread>
#include <QTimer>
#include <QUdpSocket>
#include <QUrl>
#include <QVariant>
#include <QWebSocket>
#include <QWebSocketServer>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>
using std::chrono::milliseconds;
template<typename T> T make();
struct VoidTag {};
template<typename T> struct NotVoid {};
template<typename T> NotVoid<T> operator,(T &&, VoidTag);
// the type of co_await E is exactly the given one, or void
#define IS(E, ...) { auto r_ = co_await E; static_assert(std::is_same_v<decltype(r_), __VA_ARGS__>); }
#define ISVOID(E) { auto r_ = (co_await E, VoidTag{}); static_assert(std::is_same_v<decltype(r_), VoidTag>); }
#define SAME(E, ...) static_assert(std::is_same_v<decltype(E), __VA_ARGS__>);
struct Plain { int x; };
struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly &&); MoveOnly &operator=(MoveOnly &&); MoveOnly(const MoveOnly &) = delete; };
struct OwnAwaiter { bool await_ready() const; void await_suspend(std::coroutine_handle<>); QString await_resume(); };
struct WithMember { OwnAwaiter operator co_await() const; };
struct WithFree {};
OwnAwaiter operator co_await(WithFree);
QCoro::Task<int> taskInt(); QCoro::Task<> taskVoid(); QCoro::Task<MoveOnly> taskMo();
QCoro::LazyTask<int> lazyInt(); QCoro::LazyTask<> lazyVoid();
QCoro::Generator<int> genInt(); QCoro::Generator<const QString &> genRef(); QCoro::AsyncGenerator<int> agenInt();
