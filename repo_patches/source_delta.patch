From 69cb7ed0fdaaf84ccec8ef091e505654ba17685f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 01/26] fix: destroy the previous coroutine when move-assigning
 a (Async)Generator

---
 qcoro/qcoroasyncgenerator.h | 9 +++++++--
 qcoro/qcorogenerator.h      | 7 ++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/qcoro/qcoroasyncgenerator.h b/qcoro/qcoroasyncgenerator.h
index b976dbd..bc12d1e 100644
--- a/qcoro/qcoroasyncgenerator.h
+++ b/qcoro/qcoroasyncgenerator.h
@@ -303,8 +303,13 @@ public:
 
     /// Move-assignment operator.
     AsyncGenerator& operator=(AsyncGenerator &&other) noexcept {
-        m_coroutine = other.m_coroutine;
-        other.m_coroutine = nullptr;
+        if (std::addressof(other) != this) {
+            if (m_coroutine) {
+                m_coroutine.destroy();
+            }
+            m_coroutine = other.m_coroutine;
+            other.m_coroutine = nullptr;
+        }
         return *this;
     }
 
diff --git a/qcoro/qcorogenerator.h b/qcoro/qcorogenerator.h
index a325463..12fc20e 100644
--- a/qcoro/qcorogenerator.h
+++ b/qcoro/qcorogenerator.h
@@ -242,9 +242,14 @@ public:
     }
     Generator(const Generator &) = delete;
     Generator &operator=(Generator &&other) noexcept {
+        if (std::addressof(other) != this) {
+            if (mGeneratorCoroutine.address() != nullptr) {
+                mGeneratorCoroutine.destroy();
+            }
             mGeneratorCoroutine = other.mGeneratorCoroutine;
             other.mGeneratorCoroutine = std::coroutine_handle<promise_type>::from_address(nullptr);
-            return *this;
+        }
+        return *this;
     };
     Generator &operator=(const Generator &) = delete;
     /**
-- 
2.43.0


From 121db632fa387883d3d186ca262e002ecd7088ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 02/26] fix: do not resume a null coroutine when awaiting a
 default-constructed LazyTask

---
 qcoro/impl/lazytask.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qcoro/impl/lazytask.h b/qcoro/impl/lazytask.h
index d69db6b..d4ed809 100644
--- a/qcoro/impl/lazytask.h
+++ b/qcoro/impl/lazytask.h
@@ -44,8 +44,12 @@ inline auto LazyTask<T>::operator co_await() const noexcept {
         TaskAwaiter(std::coroutine_handle<promise_type> thisTask)
             : detail::TaskAwaiterBase<promise_type>{thisTask} {}
 
-        auto await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
+        std::coroutine_handle<> await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
             detail::TaskAwaiterBase<promise_type>::await_suspend(awaitingCoroutine);
+            if (!this->mAwaitedCoroutine) {
+                // There is nothing to resume, same as with a default-constructed Task.
+                return std::noop_coroutine();
+            }
             // Return handle to the lazy task, so that it gets automatically resumed.
             return this->mAwaitedCoroutine;
         }
-- 
2.43.0


From fc7027872fd05e16d0fe02d089f99c6aafee53b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 03/26] fix: make sleepUntil() measure the time against the
 clock of the time_point

---
 qcoro/core/qcorotimer.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qcoro/core/qcorotimer.h b/qcoro/core/qcorotimer.h
index 833c8f0..af5ee27 100644
--- a/qcoro/core/qcorotimer.h
+++ b/qcoro/core/qcorotimer.h
@@ -66,8 +66,7 @@ QCoro::Task<> sleepFor(const std::chrono::duration<Rep, Period> &timeout) {
 //! A coroutine that suspends until the specified time.
 template<typename Clock, typename Duration>
 QCoro::Task<> sleepUntil(const std::chrono::time_point<Clock, Duration> &when) {
-    const auto tp = when.time_since_epoch() - std::chrono::steady_clock::now().time_since_epoch();
-    return sleepFor(tp);
+    return sleepFor(when - Clock::now());
 }
 
 } // namespace QCoro
-- 
2.43.0


From ae8dda79e07dd91afff56ccfc2403a704c9898f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 04/26] fix: waitForReadyRead() must return false when the
 device gets closed or disconnected

---
 qcoro/core/qcoroiodevice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index 0d457b8..92795e1 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -110,7 +110,7 @@ QCoro::Task<bool> QCoroIODevice::waitForReadyRead(std::chrono::milliseconds time
     }
 
     const auto result = co_await waitForReadyReadImpl(timeout);
-    co_return result.has_value();
+    co_return result.value_or(false);
 }
 
 QCoro::Task<std::optional<qint64>> QCoroIODevice::waitForBytesWritten(int timeout_msecs) {
-- 
2.43.0


From b936d702a6291c3ad7d58478fe76d78599ba8b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 05/26] fix: deliver signal await timeout even when the sender
 has been destroyed

---
 qcoro/core/qcorosignal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/core/qcorosignal.h b/qcoro/core/qcorosignal.h
index d68586c..2a05417 100644
--- a/qcoro/core/qcorosignal.h
+++ b/qcoro/core/qcorosignal.h
@@ -110,7 +110,7 @@ public:
 
     void handleTimeout(std::coroutine_handle<> awaitingCoroutine) {
         if (mTimeoutTimer) {
-            QObject::connect(mTimeoutTimer.get(), &QTimer::timeout, mObj,
+            QObject::connect(mTimeoutTimer.get(), &QTimer::timeout, mTimeoutTimer.get(),
                 [this, awaitingCoroutine]() {
                     QObject::disconnect(mConn);
                     awaitingCoroutine.resume();
-- 
2.43.0


From d6f4bfc967f97f4e872ee33276e41f3fa235c03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 06/26] fix: signal listener must not resume a coroutine that
 is no longer awaiting the signal

---
 qcoro/core/qcorosignal.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qcoro/core/qcorosignal.h b/qcoro/core/qcorosignal.h
index 2a05417..b49d568 100644
--- a/qcoro/core/qcorosignal.h
+++ b/qcoro/core/qcorosignal.h
@@ -110,6 +110,8 @@ public:
 
     void handleTimeout(std::coroutine_handle<> awaitingCoroutine) {
         if (mTimeoutTimer) {
+            // Only the current awaiter shall be resumed when the timer fires.
+            QObject::disconnect(mTimeoutTimer.get(), &QTimer::timeout, nullptr, nullptr);
             QObject::connect(mTimeoutTimer.get(), &QTimer::timeout, mTimeoutTimer.get(),
                 [this, awaitingCoroutine]() {
                     QObject::disconnect(mConn);
@@ -271,6 +273,8 @@ public:
                 mQueue.setAwaiter(awaitingCoroutine);
             }
             result_type await_resume() {
+                // No longer waiting, further emissions must only be enqueued.
+                mQueue.setAwaiter(nullptr);
                 return mQueue.dequeue();
             }
 
-- 
2.43.0


From b43482792b990823200b1159b7d283ec0c6bf0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 07/26] fix: disconnect from QWebSocketServer::newConnection
 when the listener is destroyed

---
 qcoro/websockets/qcorowebsocketserver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/websockets/qcorowebsocketserver.cpp b/qcoro/websockets/qcorowebsocketserver.cpp
index c2c6056..9eef02f 100644
--- a/qcoro/websockets/qcorowebsocketserver.cpp
+++ b/qcoro/websockets/qcorowebsocketserver.cpp
@@ -19,7 +19,7 @@ public:
         connect(server, &QWebSocketServer::closed, this, [this]() {
             Q_EMIT ready(nullptr);
         });
-        connect(server, &QWebSocketServer::newConnection, [this, server]() {
+        connect(server, &QWebSocketServer::newConnection, this, [this, server]() {
             Q_EMIT ready(server->nextPendingConnection());
         });
     }
-- 
2.43.0


From a66e72d4f433a6760a083c19ceeb3f6fb51b0560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 08/26] fix: do not dereference an empty optional in
 QmlTask::await()

---
 qcoro/qml/qcoroqmltask.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qcoro/qml/qcoroqmltask.cpp b/qcoro/qml/qcoroqmltask.cpp
index 8523aeb..d086970 100644
--- a/qcoro/qml/qcoroqmltask.cpp
+++ b/qcoro/qml/qcoroqmltask.cpp
@@ -79,6 +79,12 @@ QmlTaskListener *QmlTask::await(const QVariant &intermediateValue)
     if (!intermediateValue.isNull()) {
         listener->setValue(QVariant(intermediateValue));
     }
+    if (!d->task) {
+        qCWarning(qcoroqml, ".await called on a QmlTask that is not connected to any coroutine. "
+                            "Make sure you don't default-construct QmlTask in your code");
+        return listener;
+    }
+
     d->task->then([listener](auto &&value) {
         if (listener) {
             listener->setValue(std::move(value));
-- 
2.43.0


From 17796e57794feb291d79e2ded5abd192278a73d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 09/26] fix: write() must not spin forever when there is
 nothing left to flush

---
 qcoro/core/qcoroiodevice.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index 92795e1..009947e 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -83,11 +83,16 @@ QCoro::Task<QByteArray> QCoroIODevice::readLine(qint64 maxSize, std::chrono::mil
 
 QCoro::Task<qint64> QCoroIODevice::write(const QByteArray &buffer) {
     const auto bytesWritten = mDevice->write(buffer);
+    if (bytesWritten > 0 && mDevice->bytesToWrite() == 0) {
+        // Unbuffered device, everything has been written already.
+        co_return bytesWritten;
+    }
+
     qint64 bytesConfirmed = 0;
     while (bytesConfirmed < bytesWritten) {
         const auto flushed = co_await waitForBytesWritten(-1);
-        if (!flushed.has_value()) {
-            // There was an intermediate error and we don't know how much was actually
+        if (!flushed.has_value() || *flushed == 0) {
+            // There was an intermediate error or there is nothing more to flush and we don't know how much was actually
             // written, so we report only what we know for sure was written.
             break;
         }
-- 
2.43.0


From 0d4d49c4c4092c75c5eee74bec0822cc379df910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 10/26] fix: QDBusPendingCall waitForFinished() must not
 suspend when the call is already finished

---
 qcoro/dbus/qcorodbuspendingcall.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qcoro/dbus/qcorodbuspendingcall.cpp b/qcoro/dbus/qcorodbuspendingcall.cpp
index af7098e..1f28a04 100644
--- a/qcoro/dbus/qcorodbuspendingcall.cpp
+++ b/qcoro/dbus/qcorodbuspendingcall.cpp
@@ -36,6 +36,10 @@ QCoroDBusPendingCall::QCoroDBusPendingCall(const QDBusPendingCall &call)
 {}
 
 QCoro::Task<QDBusMessage> QCoroDBusPendingCall::waitForFinished() {
+    if (mCall.isFinished()) {
+        co_return mCall.reply();
+    }
+
     QDBusPendingCallWatcher watcher{mCall};
     co_await qCoro(&watcher, &QDBusPendingCallWatcher::finished);
     co_return watcher.reply();
-- 
2.43.0


From d567167adc7977898b9df1f6db427f4e3205cab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 11/26] fix: QDBusPendingCall awaiter must not reference a
 temporary

---
 qcoro/dbus/qcorodbuspendingcall.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qcoro/dbus/qcorodbuspendingcall.h b/qcoro/dbus/qcorodbuspendingcall.h
index b56ff19..d8420ad 100644
--- a/qcoro/dbus/qcorodbuspendingcall.h
+++ b/qcoro/dbus/qcorodbuspendingcall.h
@@ -26,10 +26,10 @@ private:
         void await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept;
         QDBusMessage await_resume() const;
     private:
-        const QDBusPendingCall &mCall;
+        QDBusPendingCall mCall;
     };
 
-    const QDBusPendingCall &mCall;
+    QDBusPendingCall mCall;
 
     friend struct awaiter_type<QDBusPendingCall>;
 public:
-- 
2.43.0


From f584511a7be7d9c647659fecad579a777c7fcd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 12/26] fix: buffer WebSocket frames received before the
 generator is first awaited

---
 qcoro/websockets/qcorowebsocket.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/qcoro/websockets/qcorowebsocket.cpp b/qcoro/websockets/qcorowebsocket.cpp
index c686d14..75d3bbf 100644
--- a/qcoro/websockets/qcorowebsocket.cpp
+++ b/qcoro/websockets/qcorowebsocket.cpp
@@ -116,13 +116,11 @@ Q_SIGNALS:
     void ready(std::optional<std::tuple<QString>>); // text messages
 };
 
-template<typename Signal>
-auto watcherGenerator(QWebSocket *ws, Signal signal, std::chrono::milliseconds timeout) ->
+template<typename Signal, typename Listener>
+auto watcherGeneratorImpl([[maybe_unused]] std::unique_ptr<WebSocketSignalWatcher> watcher, Listener signalListener) ->
     QCoro::AsyncGenerator<unwrapped_signal_args_t<signal_args_t<Signal>>>
 {
-    WebSocketSignalWatcher watcher(ws, signal);
     using signalType = std::optional<signal_args_t<Signal>>;
-    auto signalListener = qCoroSignalListener(&watcher, qOverload<signalType>(&WebSocketSignalWatcher::ready), timeout);
     auto it = co_await signalListener.begin();
     while (it != signalListener.end()) {
         if (!(*it).has_value()) {
@@ -138,6 +136,18 @@ auto watcherGenerator(QWebSocket *ws, Signal signal, std::chrono::milliseconds t
     }
 }
 
+template<typename Signal>
+auto watcherGenerator(QWebSocket *ws, Signal signal, std::chrono::milliseconds timeout) ->
+    QCoro::AsyncGenerator<unwrapped_signal_args_t<signal_args_t<Signal>>>
+{
+    // The watcher must be connected to the socket before the generator gets initially
+    // suspended, otherwise we would miss everything that arrives until it's first awaited.
+    auto watcher = std::make_unique<WebSocketSignalWatcher>(ws, signal);
+    using signalType = std::optional<signal_args_t<Signal>>;
+    auto signalListener = qCoroSignalListener(watcher.get(), qOverload<signalType>(&WebSocketSignalWatcher::ready), timeout);
+    return watcherGeneratorImpl<Signal>(std::move(watcher), std::move(signalListener));
+}
+
 
 } // namespace
 
-- 
2.43.0


From e3553fa5a74ab427100a90e90a7ebb6719c5f92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 13/26] fix: sleepFor() and sleepUntil() must not hang when the
 time is already over

---
 qcoro/core/qcorotimer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qcoro/core/qcorotimer.h b/qcoro/core/qcorotimer.h
index af5ee27..02b3db5 100644
--- a/qcoro/core/qcorotimer.h
+++ b/qcoro/core/qcorotimer.h
@@ -11,6 +11,8 @@
 #include <QPointer>
 #include <QTimer>
 
+#include <algorithm>
+
 /*! \cond internal */
 
 namespace QCoro::detail {
@@ -59,7 +61,8 @@ template<typename Rep, typename Period>
 QCoro::Task<> sleepFor(const std::chrono::duration<Rep, Period> &timeout) {
     QTimer timer;
     timer.setSingleShot(true);
-    timer.start(std::chrono::duration_cast<std::chrono::milliseconds>(timeout));
+    // QTimer does not support negative intervals and would never time out.
+    timer.start(std::max(std::chrono::duration_cast<std::chrono::milliseconds>(timeout), std::chrono::milliseconds::zero()));
     co_await timer;
 }
 
-- 
2.43.0


From 83da621546552760c0dd549bca0d8e52775ccfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 14/26] fix: own the then() callbacks in the returned LazyTask

The coroutine created by LazyTask::then() is suspended before it could move the
callbacks it got by reference into its frame, so temporary callbacks were
dangling by the time the returned task was awaited.
---
 qcoro/impl/taskbase.h | 4 ++--
 qcoro/qcorotask.h     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qcoro/impl/taskbase.h b/qcoro/impl/taskbase.h
index 9a62449..2cf9b14 100644
--- a/qcoro/impl/taskbase.h
+++ b/qcoro/impl/taskbase.h
@@ -132,7 +132,7 @@ inline auto TaskBase<T, TaskImpl, PromiseType>::handleException(ErrorCallback &e
 
 template<typename T, template<typename> class TaskImpl, typename PromiseType>
 template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R>
-inline auto TaskBase<T, TaskImpl, PromiseType>::thenImpl(TaskT task_, ThenCallback &&thenCallback, ErrorCallback &&errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>> {
+inline auto TaskBase<T, TaskImpl, PromiseType>::thenImpl(TaskT task_, ThenCallback thenCallback, ErrorCallback errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>> {
     auto thenCb = std::forward<ThenCallback>(thenCallback);
     auto errCb = std::forward<ErrorCallback>(errorCallback);
     const auto &task = static_cast<const TaskImpl<T> &>(task_);
@@ -165,7 +165,7 @@ inline auto TaskBase<T, TaskImpl, PromiseType>::thenImpl(TaskT task_, ThenCallba
 
 template<typename T, template<typename> class TaskImpl, typename PromiseType>
 template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R>
-inline auto TaskBase<T, TaskImpl, PromiseType>::thenImplRef(TaskT &task_, ThenCallback &&thenCallback, ErrorCallback &&errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>> {
+inline auto TaskBase<T, TaskImpl, PromiseType>::thenImplRef(TaskT &task_, ThenCallback thenCallback, ErrorCallback errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>> {
     auto thenCb = std::forward<ThenCallback>(thenCallback);
     auto errCb = std::forward<ErrorCallback>(errorCallback);
     const auto &task = static_cast<const TaskImpl<T> &>(task_);
diff --git a/qcoro/qcorotask.h b/qcoro/qcorotask.h
index 0f1bd8f..9d6149f 100644
--- a/qcoro/qcorotask.h
+++ b/qcoro/qcorotask.h
@@ -427,9 +427,9 @@ private:
     static auto handleException(ErrorCallback &errCb, const std::exception &exception) -> U;
 
     template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R = cb_invoke_result_t<ThenCallback, T>>
-    static auto thenImpl(TaskT task, ThenCallback &&thenCallback, ErrorCallback &&errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>>;
+    static auto thenImpl(TaskT task, ThenCallback thenCallback, ErrorCallback errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>>;
     template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R = cb_invoke_result_t<ThenCallback, T>>
-    static auto thenImplRef(TaskT &task, ThenCallback &&thenCallback, ErrorCallback &&errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>>;
+    static auto thenImplRef(TaskT &task, ThenCallback thenCallback, ErrorCallback errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>>;
 
 protected:
     std::coroutine_handle<PromiseType> mCoroutine = {};
-- 
2.43.0


From cfd4192399014028add9b4ede3b3e4d31450d355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 15/26] fix: awaiting a LazyTask twice must not resume its
 coroutine prematurely

When a second coroutine awaits a LazyTask that is already running, it must only
be registered for the result, rather than resume the coroutine, which is
suspended waiting for something else.
---
 qcoro/impl/lazytask.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qcoro/impl/lazytask.h b/qcoro/impl/lazytask.h
index d4ed809..d652520 100644
--- a/qcoro/impl/lazytask.h
+++ b/qcoro/impl/lazytask.h
@@ -45,8 +45,10 @@ inline auto LazyTask<T>::operator co_await() const noexcept {
             : detail::TaskAwaiterBase<promise_type>{thisTask} {}
 
         std::coroutine_handle<> await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
+            // Someone else is already awaiting the lazy task, so its coroutine has been started already.
+            const bool started = this->mAwaitedCoroutine && this->mAwaitedCoroutine.promise().hasAwaitingCoroutine();
             detail::TaskAwaiterBase<promise_type>::await_suspend(awaitingCoroutine);
-            if (!this->mAwaitedCoroutine) {
+            if (!this->mAwaitedCoroutine || started) {
                 // There is nothing to resume, same as with a default-constructed Task.
                 return std::noop_coroutine();
             }
-- 
2.43.0


From c30cb0f24afdbb981ebbcab08127aa0f3d3a1000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 16/26] fix: WebSocketServer wait must not consume more
 connections than it delivers

Connections that arrived between the first newConnection() notification and the
resumption of the awaiting coroutine (or after its timeout) were taken from the
server and lost.
---
 qcoro/websockets/qcorowebsocketserver.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/qcoro/websockets/qcorowebsocketserver.cpp b/qcoro/websockets/qcorowebsocketserver.cpp
index 9eef02f..b368648 100644
--- a/qcoro/websockets/qcorowebsocketserver.cpp
+++ b/qcoro/websockets/qcorowebsocketserver.cpp
@@ -5,6 +5,7 @@
 #include "qcorowebsocketserver.h"
 #include "qcorosignal.h"
 
+#include <QPointer>
 #include <QWebSocket>
 #include <QWebSocketServer>
 
@@ -17,15 +18,17 @@ class QCoroWebSocketServerSignalListener : public QObject {
 public:
     QCoroWebSocketServerSignalListener(QWebSocketServer *server) {
         connect(server, &QWebSocketServer::closed, this, [this]() {
-            Q_EMIT ready(nullptr);
+            Q_EMIT ready(false);
         });
-        connect(server, &QWebSocketServer::newConnection, this, [this, server]() {
-            Q_EMIT ready(server->nextPendingConnection());
+        // Only notify about the connection here, it must not be taken from the server until the coroutine is resumed:
+        // more connections can arrive by then and only the first one is going to be delivered.
+        connect(server, &QWebSocketServer::newConnection, this, [this]() {
+            Q_EMIT ready(true);
         });
     }
 
 Q_SIGNALS:
-    void ready(QWebSocket *socket);
+    void ready(bool newConnection);
 };
 
 } // namespace
@@ -36,7 +39,7 @@ QCoroWebSocketServer::QCoroWebSocketServer(QWebSocketServer *server)
 
 QCoro::Task<QWebSocket *> QCoroWebSocketServer::nextPendingConnection(std::chrono::milliseconds timeout)
 {
-    auto * const server = mServer;
+    const QPointer<QWebSocketServer> server = mServer;
     if (!server->isListening()) {
         co_return nullptr;
     }
@@ -45,9 +48,12 @@ QCoro::Task<QWebSocket *> QCoroWebSocketServer::nextPendingConnection(std::chron
         co_return server->nextPendingConnection();
     }
 
-    QCoroWebSocketServerSignalListener listener(server);
+    QCoroWebSocketServerSignalListener listener(server.data());
     const auto result = co_await qCoro(&listener, &QCoroWebSocketServerSignalListener::ready, timeout);
-    co_return result.value_or(nullptr);
+    if (server && result.value_or(false)) {
+        co_return server->nextPendingConnection();
+    }
+    co_return nullptr;
 }
 
 #include "qcorowebsocketserver.moc"
-- 
2.43.0


From 5ddae9249be913ccca23abcce36e1ab2a7072a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 17/26] fix: signal listener lost emissions still queued when
 the emitter was destroyed

The listener considered itself finished as soon as the emitter was gone and
its own queue was empty, although further emissions were still posted to it.
---
 qcoro/core/qcorosignal.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/qcoro/core/qcorosignal.h b/qcoro/core/qcorosignal.h
index b49d568..e7a4fe2 100644
--- a/qcoro/core/qcorosignal.h
+++ b/qcoro/core/qcorosignal.h
@@ -10,6 +10,8 @@
 #include "qcorotask.h"
 #include "qcoroasyncgenerator.h"
 
+#include <QCoreApplication>
+#include <QEvent>
 #include <QObject>
 #include <QPointer>
 #include <QTimer>
@@ -266,6 +268,10 @@ public:
             {}
 
             bool await_ready() const noexcept {
+                if (!mQueue.isValid() && mQueue.empty()) {
+                    // The emitter is gone, but some of its emissions may still be on their way.
+                    mQueue.deliverPending();
+                }
                 return !mQueue.isValid() || !mQueue.empty();
             }
             void await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
@@ -302,6 +308,10 @@ public:
         return result;
     }
 
+    void deliverPending() {
+        QCoreApplication::sendPostedEvents(&mDummyReceiver, QEvent::MetaCall);
+    }
+
     void setAwaiter(std::coroutine_handle<> awaiter) {
         mAwaitingCoroutine = awaiter;
     }
-- 
2.43.0


From c86e373e05bb59e80f7f2d1ac434a7475a6e0946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:39 +0000
Subject: [PATCH 18/26] fix: reading from a device crashed when it was
 destroyed before the coroutine was resumed

---
 qcoro/core/qcoroiodevice.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index 009947e..b1a0b33 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -41,7 +41,7 @@ void QCoroIODevice::ReadOperation::await_suspend(std::coroutine_handle<> awaitin
 }
 
 QByteArray QCoroIODevice::ReadOperation::await_resume() {
-    return mResultCb(mDevice);
+    return mDevice ? mResultCb(mDevice) : QByteArray{};
 }
 
 QCoroIODevice::ReadAllOperation::ReadAllOperation(QIODevice *device)
@@ -56,7 +56,7 @@ QCoroIODevice::QCoroIODevice(QIODevice *device)
 
 QCoro::Task<QByteArray> QCoroIODevice::readAll(std::chrono::milliseconds timeout) {
     const auto device = mDevice;
-    if (!co_await waitForReadyRead(timeout)) {
+    if (!co_await waitForReadyRead(timeout) || !device) {
         co_return QByteArray{};
     }
 
@@ -65,7 +65,7 @@ QCoro::Task<QByteArray> QCoroIODevice::readAll(std::chrono::milliseconds timeout
 
 QCoro::Task<QByteArray> QCoroIODevice::read(qint64 maxSize, std::chrono::milliseconds timeout) {
     const auto device = mDevice;
-    if (!co_await waitForReadyRead(timeout)) {
+    if (!co_await waitForReadyRead(timeout) || !device) {
         co_return QByteArray{};
     }
 
@@ -74,7 +74,7 @@ QCoro::Task<QByteArray> QCoroIODevice::read(qint64 maxSize, std::chrono::millise
 
 QCoro::Task<QByteArray> QCoroIODevice::readLine(qint64 maxSize, std::chrono::milliseconds timeout) {
     const auto device = mDevice;
-    if (!co_await waitForReadyRead(timeout)) {
+    if (!co_await waitForReadyRead(timeout) || !device) {
         co_return QByteArray{};
     }
 
-- 
2.43.0


From 4d5534d8cd51de42fffa3a69891f71cdc3181a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:41 +0000
Subject: [PATCH 19/26] fix: waiting for a TCP connection crashed when the
 server was destroyed before the coroutine was resumed

---
 qcoro/network/qcorotcpserver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/network/qcorotcpserver.cpp b/qcoro/network/qcorotcpserver.cpp
index b23e297..f62c997 100644
--- a/qcoro/network/qcorotcpserver.cpp
+++ b/qcoro/network/qcorotcpserver.cpp
@@ -44,7 +44,7 @@ QCoro::Task<QTcpSocket *> QCoroTcpServer::waitForNewConnection(std::chrono::mill
     }
 
     const auto result = co_await qCoro(server.data(), &QTcpServer::newConnection, timeout);
-    if (result.has_value()) {
+    if (server && result.has_value()) {
         co_return server->nextPendingConnection();
     }
     co_return nullptr;
-- 
2.43.0


From a28a906d31d92d078837320a18028c8e2bb9adaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:26 +0000
Subject: [PATCH 20/26] fix: connecting a local socket waited for the timeout
 when the attempt failed at once

---
 qcoro/network/qcorolocalsocket.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/qcoro/network/qcorolocalsocket.cpp b/qcoro/network/qcorolocalsocket.cpp
index 5cc97e5..ae67fe7 100644
--- a/qcoro/network/qcorolocalsocket.cpp
+++ b/qcoro/network/qcorolocalsocket.cpp
@@ -69,6 +69,14 @@ private:
     QMetaObject::Connection mStateChange;
 };
 
+// Waits for a connection attempt, which may have failed already without anything left to wait for.
+QCoro::Task<bool> waitForStartedConnection(QLocalSocket *socket, std::chrono::milliseconds timeout) {
+    if (socket->state() == QLocalSocket::UnconnectedState) {
+        co_return false;
+    }
+    co_return co_await QCoroLocalSocket(socket).waitForConnected(timeout);
+}
+
 } // namespace
 
 QCoroLocalSocket::QCoroLocalSocket(QLocalSocket *socket)
@@ -122,14 +130,16 @@ QCoro::Task<bool> QCoroLocalSocket::waitForDisconnected(std::chrono::millisecond
 
 QCoro::Task<bool> QCoroLocalSocket::connectToServer(QIODevice::OpenMode openMode,
                                                     std::chrono::milliseconds timeout) {
-    static_cast<QLocalSocket *>(mDevice.data())->connectToServer(openMode);
-    return waitForConnected(timeout);
+    auto *socket = static_cast<QLocalSocket *>(mDevice.data());
+    socket->connectToServer(openMode);
+    return waitForStartedConnection(socket, timeout);
 }
 
 QCoro::Task<bool> QCoroLocalSocket::connectToServer(const QString &name, QIODevice::OpenMode openMode,
                                                     std::chrono::milliseconds timeout) {
-    static_cast<QLocalSocket *>(mDevice.data())->connectToServer(name, openMode);
-    return waitForConnected(timeout);
+    auto *socket = static_cast<QLocalSocket *>(mDevice.data());
+    socket->connectToServer(name, openMode);
+    return waitForStartedConnection(socket, timeout);
 }
 
 #include "qcorolocalsocket.moc"
\ No newline at end of file
-- 
2.43.0


From e1dc1c1eb022d5ad28824f20b76fce31b103c530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:27 +0000
Subject: [PATCH 21/26] fix: opening a WebSocket waited forever when the
 attempt failed at once

---
 qcoro/websockets/qcorowebsocket.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qcoro/websockets/qcorowebsocket.cpp b/qcoro/websockets/qcorowebsocket.cpp
index 75d3bbf..4cbc173 100644
--- a/qcoro/websockets/qcorowebsocket.cpp
+++ b/qcoro/websockets/qcorowebsocket.cpp
@@ -162,8 +162,10 @@ QCoro::Task<bool> QCoroWebSocket::open(const QUrl &url, std::chrono::millisecond
     }
 
     WebSocketStateWatcher watcher(mWebSocket, QAbstractSocket::ConnectedState);
+    // Start waiting first, the attempt may fail immediately.
+    const auto ready = qCoro(&watcher, &WebSocketStateWatcher::ready, timeout);
     mWebSocket->open(url);
-    const auto result = co_await qCoro(&watcher, &WebSocketStateWatcher::ready, timeout);
+    const auto result = co_await ready;
     co_return result.value_or(false);
 }
 
@@ -174,8 +176,10 @@ QCoro::Task<bool> QCoroWebSocket::open(const QNetworkRequest &request, std::chro
     }
 
     WebSocketStateWatcher watcher(mWebSocket, QAbstractSocket::ConnectedState);
+    // Start waiting first, the attempt may fail immediately.
+    const auto ready = qCoro(&watcher, &WebSocketStateWatcher::ready, timeout);
     mWebSocket->open(request);
-    const auto result = co_await qCoro(&watcher, &WebSocketStateWatcher::ready, timeout);
+    const auto result = co_await ready;
     co_return result.value_or(false);
 }
 
@@ -187,8 +191,9 @@ QCoro::Task<std::optional<std::chrono::milliseconds>> QCoroWebSocket::ping(const
     }
 
     WebSocketSignalWatcher watcher(mWebSocket, &QWebSocket::pong);
+    const auto ready = qCoro(&watcher, qOverload<std::optional<std::tuple<qint64, QByteArray>>>(&WebSocketSignalWatcher::ready), timeout);
     mWebSocket->ping(payload);
-    const auto result = co_await qCoro(&watcher, qOverload<std::optional<std::tuple<qint64, QByteArray>>>(&WebSocketSignalWatcher::ready), timeout);
+    const auto result = co_await ready;
     if (result.has_value() && (*result).has_value()) {
         co_return std::chrono::milliseconds{std::get<0>(**result)};
     }
-- 
2.43.0


From 18c8a526411dacfd3bafe7b2ba5c4b0e4348bd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 22/26] fix: using a QmlTask that has copies hit Q_UNREACHABLE

QmlTask::then() and await() accessed the private through the detaching
operator of QSharedDataPointer, so that they cloned it - which it does not
support - as soon as another copy of the QmlTask existed.
---
 qcoro/qml/qcoroqmltask.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/qml/qcoroqmltask.h b/qcoro/qml/qcoroqmltask.h
index 06f8c53..7b7a514 100644
--- a/qcoro/qml/qcoroqmltask.h
+++ b/qcoro/qml/qcoroqmltask.h
@@ -93,7 +93,7 @@ public:
     Q_INVOKABLE QCoro::QmlTaskListener *await(const QVariant &intermediateValue = {});
 
 private:
-    QSharedDataPointer<QmlTaskPrivate> d;
+    QExplicitlySharedDataPointer<QmlTaskPrivate> d;
 };
 
 class QmlTaskListener : public QObject {
-- 
2.43.0


From cebe324f9b93e18e8df631861103547615d1462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:05 +0000
Subject: [PATCH 23/26] fix: do not resume a coroutine that was destroyed while
 awaiting a task

---
 qcoro/impl/lazytask.h         |  1 +
 qcoro/impl/taskawaiterbase.h  |  8 ++++++++
 qcoro/impl/taskbase.h         |  1 +
 qcoro/impl/taskfinalsuspend.h |  1 -
 qcoro/impl/taskpromisebase.h  |  6 ++++++
 qcoro/qcorotask.h             | 16 +++++++++++++++-
 6 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/qcoro/impl/lazytask.h b/qcoro/impl/lazytask.h
index d652520..5f36e31 100644
--- a/qcoro/impl/lazytask.h
+++ b/qcoro/impl/lazytask.h
@@ -58,6 +58,7 @@ inline auto LazyTask<T>::operator co_await() const noexcept {
 
         auto await_resume() {
             Q_ASSERT(this->mAwaitedCoroutine != nullptr);
+            this->mAwaitingCoroutine = nullptr;
             if constexpr (!std::is_void_v<T>) {
                 return std::move(this->mAwaitedCoroutine.promise().result());
             } else {
diff --git a/qcoro/impl/taskawaiterbase.h b/qcoro/impl/taskawaiterbase.h
index 5942f67..c623208 100644
--- a/qcoro/impl/taskawaiterbase.h
+++ b/qcoro/impl/taskawaiterbase.h
@@ -26,9 +26,17 @@ inline void TaskAwaiterBase<Promise>::await_suspend(std::coroutine_handle<> awai
         return;
     }
 
+    mAwaitingCoroutine = awaitingCoroutine;
     mAwaitedCoroutine.promise().addAwaitingCoroutine(awaitingCoroutine);
 }
 
+template<typename Promise>
+inline TaskAwaiterBase<Promise>::~TaskAwaiterBase() {
+    if (mAwaitingCoroutine) {
+        mAwaitedCoroutine.promise().removeAwaitingCoroutine(mAwaitingCoroutine);
+    }
+}
+
 template<typename Promise>
 inline TaskAwaiterBase<Promise>::TaskAwaiterBase(std::coroutine_handle<Promise> awaitedCoroutine)
     : mAwaitedCoroutine(awaitedCoroutine) {}
diff --git a/qcoro/impl/taskbase.h b/qcoro/impl/taskbase.h
index 2cf9b14..2dfa7b9 100644
--- a/qcoro/impl/taskbase.h
+++ b/qcoro/impl/taskbase.h
@@ -65,6 +65,7 @@ inline auto TaskBase<T, TaskImpl, PromiseType>::operator co_await() const noexce
          * value co_returned by the coroutine. */
         auto await_resume() {
             Q_ASSERT(this->mAwaitedCoroutine != nullptr);
+            this->mAwaitingCoroutine = nullptr;
             if constexpr (!std::is_void_v<T>) {
                 return std::move(this->mAwaitedCoroutine.promise().result());
             } else {
diff --git a/qcoro/impl/taskfinalsuspend.h b/qcoro/impl/taskfinalsuspend.h
index e008b4c..3194de1 100644
--- a/qcoro/impl/taskfinalsuspend.h
+++ b/qcoro/impl/taskfinalsuspend.h
@@ -27,7 +27,6 @@ inline void TaskFinalSuspend::await_suspend(std::coroutine_handle<Promise> finis
     for (auto &awaiter : mAwaitingCoroutines) {
         awaiter.resume();
     }
-    mAwaitingCoroutines.clear();
 
     // The handle will be destroyed here only if the associated Task has already been destroyed
     promise.derefCoroutine();
diff --git a/qcoro/impl/taskpromisebase.h b/qcoro/impl/taskpromisebase.h
index 1fb7d4b..7cc8a23 100644
--- a/qcoro/impl/taskpromisebase.h
+++ b/qcoro/impl/taskpromisebase.h
@@ -50,6 +50,12 @@ inline bool TaskPromiseBase::hasAwaitingCoroutine() const {
     return !mAwaitingCoroutines.empty();
 }
 
+inline void TaskPromiseBase::removeAwaitingCoroutine(std::coroutine_handle<> awaitingCoroutine) noexcept {
+    // Keep the list as it is, it may be just being iterated.
+    std::replace(mAwaitingCoroutines.begin(), mAwaitingCoroutines.end(), awaitingCoroutine,
+                 std::coroutine_handle<>{std::noop_coroutine()});
+}
+
 inline void TaskPromiseBase::derefCoroutine() {
     if (--mRefCount == 0) {
         destroyCoroutine();
diff --git a/qcoro/qcorotask.h b/qcoro/qcorotask.h
index 9d6149f..fd13ff5 100644
--- a/qcoro/qcorotask.h
+++ b/qcoro/qcorotask.h
@@ -7,6 +7,7 @@
 #include "coroutine.h"
 #include "concepts_p.h"
 
+#include <algorithm>
 #include <atomic>
 #include <exception>
 #include <variant>
@@ -69,7 +70,8 @@ public:
     constexpr void await_resume() const noexcept;
 
 private:
-    std::vector<std::coroutine_handle<>> mAwaitingCoroutines;
+    //! List owned by the promise, coroutines that are destroyed meanwhile are taken out of it.
+    const std::vector<std::coroutine_handle<>> &mAwaitingCoroutines;
 };
 
 //! Base class for the \c Task<T> promise_type.
@@ -168,6 +170,12 @@ public:
 
     bool hasAwaitingCoroutine() const;
 
+    //! Called by \c TaskAwaiter when the co_awaiting coroutine is destroyed while still waiting.
+    /*!
+     * \param awaitingCoroutine handle of the coroutine that must not be resumed anymore.
+     */
+    void removeAwaitingCoroutine(std::coroutine_handle<> awaitingCoroutine) noexcept;
+
     void derefCoroutine();
     void refCoroutine();
     void destroyCoroutine();
@@ -273,6 +281,9 @@ private:
 template<typename Promise>
 class TaskAwaiterBase {
 public:
+    //! Makes sure the awaited coroutine doesn't resume the awaiting one if it is destroyed while waiting.
+    ~TaskAwaiterBase();
+
     //! Returns whether to co_await
     bool await_ready() const noexcept;
 
@@ -319,6 +330,9 @@ protected:
 
     //! Handle of the coroutine that is being co_awaited by this awaiter
     std::coroutine_handle<Promise> mAwaitedCoroutine = {};
+
+    //! Handle of the coroutine that is waiting, null once it has been resumed
+    std::coroutine_handle<> mAwaitingCoroutine = {};
 };
 
 template<typename T>
-- 
2.43.0


From 5046e5a876b33946bbc5eb3c1dceebc5e91e1e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:55 +0000
Subject: [PATCH 24/26] fix: a thread switch must not touch its awaiter after
 that was destroyed

---
 qcoro/core/qcorothread.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qcoro/core/qcorothread.cpp b/qcoro/core/qcorothread.cpp
index b1c73ee..711a3d4 100644
--- a/qcoro/core/qcorothread.cpp
+++ b/qcoro/core/qcorothread.cpp
@@ -70,9 +70,13 @@ bool ThreadContext::await_ready() const noexcept {
 void ThreadContext::await_suspend(std::coroutine_handle<> awaiter) noexcept {
     d->mContext = std::make_unique<ContextHelper>(awaiter, d->mThread);
     d->mContext->moveToThread(d->mThread);
-    qCoro(d->mThread).waitForStarted().then([this]() {
+    qCoro(d->mThread).waitForStarted().then([context = QPointer<QObject>(d->mContext.get())]() {
+        if (!context) {
+            // The awaiting coroutine has been destroyed meanwhile.
+            return;
+        }
         auto *event = new QEvent(static_cast<QEvent::Type>(detail::ContextHelper::eventType));
-        QCoreApplication::postEvent(d->mContext.get(), event);
+        QCoreApplication::postEvent(context.data(), event);
     });
 }
 
-- 
2.43.0


From dfa8cf8c218438fc45fa7155cdb506101243e05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:35 +0000
Subject: [PATCH 25/26] fix: give waitForReadyRead and waitForBytesWritten
 their documented default timeout

The reference documents waitForReadyRead(int timeout_msecs = 30'000) and
waitForBytesWritten(int timeout_msecs = 30'000), as in QIODevice, but the
declarations had no default, so the documented calls did not compile.
---
 qcoro/core/qcoroiodevice.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qcoro/core/qcoroiodevice.h b/qcoro/core/qcoroiodevice.h
index c382b48..392b312 100644
--- a/qcoro/core/qcoroiodevice.h
+++ b/qcoro/core/qcoroiodevice.h
@@ -172,7 +172,7 @@ public:
      *
      * [qdoc-qiodevice-waitForReadyRead]: https://doc.qt.io/qt-5/qiodevice.html#waitForReadyRead
      */
-    Task<bool> waitForReadyRead(int timeout_msecs);
+    Task<bool> waitForReadyRead(int timeout_msecs = 30'000);
 
     /*!
      * \brief Co_awaitable equivalent to [`QIODevice::waitForBytesWritten`][qdoc-qiodevice-waitForBytesWritten].
@@ -191,7 +191,7 @@ public:
      *
      * [qdoc-qiodevice-waitForBytesWritten]: https://doc.qt.io/qt-5/qiodevice.html#waitForBytesWritten
      */
-    Task<std::optional<qint64>> waitForBytesWritten(int timeout_msecs);
+    Task<std::optional<qint64>> waitForBytesWritten(int timeout_msecs = 30'000);
 
 protected:
     virtual Task<std::optional<bool>> waitForReadyReadImpl(std::chrono::milliseconds timeout);
-- 
2.43.0


From b1c5939c18e77180c656c3cf04e58558497d56d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:30 +0000
Subject: [PATCH 26/26] fix: Only treat types named QPrivateSignal as Qt's
 private signal tag

Signal arguments of other types whose name merely ends in QPrivateSignal were dropped from the result of the wait.
---
 qcoro/core/impl/isqprivatesignal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/core/impl/isqprivatesignal.h b/qcoro/core/impl/isqprivatesignal.h
index ed087d1..221b21d 100644
--- a/qcoro/core/impl/isqprivatesignal.h
+++ b/qcoro/core/impl/isqprivatesignal.h
@@ -32,7 +32,7 @@ namespace QCoro::detail {
 template<typename T>
 struct is_qprivatesignal {
 private:
-    static constexpr std::string_view qprivatesignal = "QPrivateSignal";
+    static constexpr std::string_view qprivatesignal = "::QPrivateSignal";
 
     static constexpr auto functionName() noexcept {
 #if defined(_MSC_VER)
-- 
2.43.0

