From 2e42963c3549de9b06f8f975b4bb500dead916d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 01/48] fix: do not resume a running LazyTask when another
 coroutine awaits it

Awaiting a LazyTask transferred control to it unconditionally, so a second
awaiter resumed the coroutine in the middle of whatever it was waiting for (and
awaiting a default-constructed LazyTask resumed a null handle). Only the first
awaiter starts the coroutine.
---
 qcoro/impl/lazytask.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qcoro/impl/lazytask.h b/qcoro/impl/lazytask.h
index d69db6b..64ad7a0 100644
--- a/qcoro/impl/lazytask.h
+++ b/qcoro/impl/lazytask.h
@@ -44,8 +44,14 @@ inline auto LazyTask<T>::operator co_await() const noexcept {
         TaskAwaiter(std::coroutine_handle<promise_type> thisTask)
             : detail::TaskAwaiterBase<promise_type>{thisTask} {}
 
-        auto await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
+        std::coroutine_handle<> await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
+            // Only the first awaiter starts the coroutine: if there already is one, then the coroutine has been
+            // started and is suspended on something else.
+            const bool start = this->mAwaitedCoroutine && !this->mAwaitedCoroutine.promise().hasAwaitingCoroutine();
             detail::TaskAwaiterBase<promise_type>::await_suspend(awaitingCoroutine);
+            if (!start) {
+                return std::noop_coroutine();
+            }
             // Return handle to the lazy task, so that it gets automatically resumed.
             return this->mAwaitedCoroutine;
         }
-- 
2.43.0


From 292b61ba55ff408becb1bddaf9f80e0f842a913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 02/48] fix: destroy the coroutine of a LazyTask that was never
 started

A lazy coroutine only drops its own reference at its final suspend point, which
a coroutine that was never started does not reach, so its frame and arguments
were leaked. Take that reference when the coroutine is started.
---
 qcoro/impl/lazytask.h | 17 +++++++++++++++--
 qcoro/qcorolazytask.h |  2 +-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/qcoro/impl/lazytask.h b/qcoro/impl/lazytask.h
index 64ad7a0..97ad16f 100644
--- a/qcoro/impl/lazytask.h
+++ b/qcoro/impl/lazytask.h
@@ -21,8 +21,21 @@ inline LazyTask<T> LazyTaskPromise<T>::get_return_object() noexcept {
 }
 
 template<typename T>
-inline std::suspend_always LazyTaskPromise<T>::initial_suspend() const noexcept {
-    return {};
+inline auto LazyTaskPromise<T>::initial_suspend() noexcept {
+    //! Makes the coroutine hold a reference to itself (released in final suspend) only once it has been started.
+    /*
+     * A coroutine that is never started is owned just by its LazyTask and is destroyed with it. */
+    class LazyInitialSuspend : public std::suspend_always {
+    public:
+        explicit LazyInitialSuspend(LazyTaskPromise &promise) : mPromise(promise) {}
+        void await_resume() const noexcept { mPromise.refCoroutine(); }
+
+    private:
+        LazyTaskPromise &mPromise;
+    };
+
+    this->derefCoroutine();
+    return LazyInitialSuspend{*this};
 }
 
 } // namespace detail
diff --git a/qcoro/qcorolazytask.h b/qcoro/qcorolazytask.h
index 93635c9..48c9bd4 100644
--- a/qcoro/qcorolazytask.h
+++ b/qcoro/qcorolazytask.h
@@ -29,7 +29,7 @@ public:
 
     LazyTask<T> get_return_object() noexcept;
 
-    std::suspend_always initial_suspend() const noexcept;
+    auto initial_suspend() noexcept;
 };
 
 } // namespace detail
-- 
2.43.0


From 93b6d99ad3db8b4161393b0889bfaa75c1e767da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 03/48] fix: keep then() callbacks in the coroutine that
 invokes them

The coroutine behind then() took the callbacks by reference. When it is lazy, its
body only starts when it is awaited, when temporary callbacks are long gone.
---
 qcoro/impl/taskbase.h | 4 ++--
 qcoro/qcorotask.h     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qcoro/impl/taskbase.h b/qcoro/impl/taskbase.h
index 9a62449..2cf9b14 100644
--- a/qcoro/impl/taskbase.h
+++ b/qcoro/impl/taskbase.h
@@ -132,7 +132,7 @@ inline auto TaskBase<T, TaskImpl, PromiseType>::handleException(ErrorCallback &e
 
 template<typename T, template<typename> class TaskImpl, typename PromiseType>
 template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R>
-inline auto TaskBase<T, TaskImpl, PromiseType>::thenImpl(TaskT task_, ThenCallback &&thenCallback, ErrorCallback &&errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>> {
+inline auto TaskBase<T, TaskImpl, PromiseType>::thenImpl(TaskT task_, ThenCallback thenCallback, ErrorCallback errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>> {
     auto thenCb = std::forward<ThenCallback>(thenCallback);
     auto errCb = std::forward<ErrorCallback>(errorCallback);
     const auto &task = static_cast<const TaskImpl<T> &>(task_);
@@ -165,7 +165,7 @@ inline auto TaskBase<T, TaskImpl, PromiseType>::thenImpl(TaskT task_, ThenCallba
 
 template<typename T, template<typename> class TaskImpl, typename PromiseType>
 template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R>
-inline auto TaskBase<T, TaskImpl, PromiseType>::thenImplRef(TaskT &task_, ThenCallback &&thenCallback, ErrorCallback &&errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>> {
+inline auto TaskBase<T, TaskImpl, PromiseType>::thenImplRef(TaskT &task_, ThenCallback thenCallback, ErrorCallback errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>> {
     auto thenCb = std::forward<ThenCallback>(thenCallback);
     auto errCb = std::forward<ErrorCallback>(errorCallback);
     const auto &task = static_cast<const TaskImpl<T> &>(task_);
diff --git a/qcoro/qcorotask.h b/qcoro/qcorotask.h
index 0f1bd8f..9d6149f 100644
--- a/qcoro/qcorotask.h
+++ b/qcoro/qcorotask.h
@@ -427,9 +427,9 @@ private:
     static auto handleException(ErrorCallback &errCb, const std::exception &exception) -> U;
 
     template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R = cb_invoke_result_t<ThenCallback, T>>
-    static auto thenImpl(TaskT task, ThenCallback &&thenCallback, ErrorCallback &&errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>>;
+    static auto thenImpl(TaskT task, ThenCallback thenCallback, ErrorCallback errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>>;
     template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R = cb_invoke_result_t<ThenCallback, T>>
-    static auto thenImplRef(TaskT &task, ThenCallback &&thenCallback, ErrorCallback &&errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>>;
+    static auto thenImplRef(TaskT &task, ThenCallback thenCallback, ErrorCallback errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>>;
 
 protected:
     std::coroutine_handle<PromiseType> mCoroutine = {};
-- 
2.43.0


From 73d3ce43f770cc011422e1602b16c41219f4a0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 04/48] fix: destroy the generator that is being move-assigned
 to

---
 qcoro/qcorogenerator.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qcoro/qcorogenerator.h b/qcoro/qcorogenerator.h
index a325463..12fc20e 100644
--- a/qcoro/qcorogenerator.h
+++ b/qcoro/qcorogenerator.h
@@ -242,9 +242,14 @@ public:
     }
     Generator(const Generator &) = delete;
     Generator &operator=(Generator &&other) noexcept {
+        if (std::addressof(other) != this) {
+            if (mGeneratorCoroutine.address() != nullptr) {
+                mGeneratorCoroutine.destroy();
+            }
             mGeneratorCoroutine = other.mGeneratorCoroutine;
             other.mGeneratorCoroutine = std::coroutine_handle<promise_type>::from_address(nullptr);
-            return *this;
+        }
+        return *this;
     };
     Generator &operator=(const Generator &) = delete;
     /**
-- 
2.43.0


From ced1f854444ae7a199ed0cf9d880d08164c0cd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 05/48] fix: destroy the asynchronous generator that is being
 move-assigned to

---
 qcoro/qcoroasyncgenerator.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/qcoro/qcoroasyncgenerator.h b/qcoro/qcoroasyncgenerator.h
index b976dbd..bc12d1e 100644
--- a/qcoro/qcoroasyncgenerator.h
+++ b/qcoro/qcoroasyncgenerator.h
@@ -303,8 +303,13 @@ public:
 
     /// Move-assignment operator.
     AsyncGenerator& operator=(AsyncGenerator &&other) noexcept {
-        m_coroutine = other.m_coroutine;
-        other.m_coroutine = nullptr;
+        if (std::addressof(other) != this) {
+            if (m_coroutine) {
+                m_coroutine.destroy();
+            }
+            m_coroutine = other.m_coroutine;
+            other.m_coroutine = nullptr;
+        }
         return *this;
     }
 
-- 
2.43.0


From 4bad0b74945eeec5db9d6f679259f24f011e6ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 06/48] fix: only strip arguments that are a class's
 QPrivateSignal

The detection matched any type whose name ends in "QPrivateSignal", and
dropped such ordinary arguments from the result of awaiting a signal.
---
 qcoro/core/impl/isqprivatesignal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/core/impl/isqprivatesignal.h b/qcoro/core/impl/isqprivatesignal.h
index ed087d1..221b21d 100644
--- a/qcoro/core/impl/isqprivatesignal.h
+++ b/qcoro/core/impl/isqprivatesignal.h
@@ -32,7 +32,7 @@ namespace QCoro::detail {
 template<typename T>
 struct is_qprivatesignal {
 private:
-    static constexpr std::string_view qprivatesignal = "QPrivateSignal";
+    static constexpr std::string_view qprivatesignal = "::QPrivateSignal";
 
     static constexpr auto functionName() noexcept {
 #if defined(_MSC_VER)
-- 
2.43.0


From 5eb8acf19cd616ded605601fbad106d37d20079c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 07/48] fix: do not resume a signal listener's consumer that
 waits for something else

The queue kept the handle of the coroutine that awaited it last, and resumed
it again on every later emission, although it was suspended elsewhere.
---
 qcoro/core/qcorosignal.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qcoro/core/qcorosignal.h b/qcoro/core/qcorosignal.h
index d68586c..eee2dd6 100644
--- a/qcoro/core/qcorosignal.h
+++ b/qcoro/core/qcorosignal.h
@@ -271,6 +271,7 @@ public:
                 mQueue.setAwaiter(awaitingCoroutine);
             }
             result_type await_resume() {
+                mQueue.setAwaiter(nullptr);
                 return mQueue.dequeue();
             }
 
-- 
2.43.0


From 2243caa8882defd738f680724c3c5b48c51dc727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 08/48] fix: resume a signal listener once when its timeout
 expires

Each wait added one more connection to the timeout, so that the coroutine was
resumed as many times as it had waited.
---
 qcoro/core/qcorosignal.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qcoro/core/qcorosignal.h b/qcoro/core/qcorosignal.h
index eee2dd6..fc6d714 100644
--- a/qcoro/core/qcorosignal.h
+++ b/qcoro/core/qcorosignal.h
@@ -110,7 +110,8 @@ public:
 
     void handleTimeout(std::coroutine_handle<> awaitingCoroutine) {
         if (mTimeoutTimer) {
-            QObject::connect(mTimeoutTimer.get(), &QTimer::timeout, mObj,
+            QObject::disconnect(mTimeoutConn);
+            mTimeoutConn = QObject::connect(mTimeoutTimer.get(), &QTimer::timeout, mObj,
                 [this, awaitingCoroutine]() {
                     QObject::disconnect(mConn);
                     awaitingCoroutine.resume();
@@ -160,6 +161,7 @@ protected:
     QPointer<T> mObj;
     FuncPtr mFuncPtr;
     QMetaObject::Connection mConn;
+    QMetaObject::Connection mTimeoutConn;
     std::unique_ptr<QTimer> mTimeoutTimer;
 };
 
-- 
2.43.0


From 30d7b4833685d2d7ceee77a97db7106b9f1fe831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 09/48] fix: let the wait for a signal time out after its
 object was destroyed

The object was the context of the connection to the timeout, which vanished
together with it, so that the coroutine was never resumed.
---
 qcoro/core/qcorosignal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/core/qcorosignal.h b/qcoro/core/qcorosignal.h
index fc6d714..a8ca5e0 100644
--- a/qcoro/core/qcorosignal.h
+++ b/qcoro/core/qcorosignal.h
@@ -111,7 +111,7 @@ public:
     void handleTimeout(std::coroutine_handle<> awaitingCoroutine) {
         if (mTimeoutTimer) {
             QObject::disconnect(mTimeoutConn);
-            mTimeoutConn = QObject::connect(mTimeoutTimer.get(), &QTimer::timeout, mObj,
+            mTimeoutConn = QObject::connect(mTimeoutTimer.get(), &QTimer::timeout, mTimeoutTimer.get(),
                 [this, awaitingCoroutine]() {
                     QObject::disconnect(mConn);
                     awaitingCoroutine.resume();
-- 
2.43.0


From 04fcad3a15391983a27ec9047717cedb18f738e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 10/48] fix: sleep until the given time on the given clock, and
 not shorter

sleepUntil() measured time points of any clock against the steady clock, and
sleepFor() cut off fractions of a millisecond, so that it woke up too early.
---
 qcoro/core/qcorotimer.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qcoro/core/qcorotimer.h b/qcoro/core/qcorotimer.h
index 833c8f0..457b97b 100644
--- a/qcoro/core/qcorotimer.h
+++ b/qcoro/core/qcorotimer.h
@@ -59,15 +59,14 @@ template<typename Rep, typename Period>
 QCoro::Task<> sleepFor(const std::chrono::duration<Rep, Period> &timeout) {
     QTimer timer;
     timer.setSingleShot(true);
-    timer.start(std::chrono::duration_cast<std::chrono::milliseconds>(timeout));
+    timer.start(std::chrono::ceil<std::chrono::milliseconds>(timeout));
     co_await timer;
 }
 
 //! A coroutine that suspends until the specified time.
 template<typename Clock, typename Duration>
 QCoro::Task<> sleepUntil(const std::chrono::time_point<Clock, Duration> &when) {
-    const auto tp = when.time_since_epoch() - std::chrono::steady_clock::now().time_since_epoch();
-    return sleepFor(tp);
+    return sleepFor(when - Clock::now());
 }
 
 } // namespace QCoro
-- 
2.43.0


From 722da74c7ba604dc04fcef906d118b46539ea17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 11/48] fix: do not suspend forever when sleeping until a time
 in the past

---
 qcoro/core/qcorotimer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qcoro/core/qcorotimer.h b/qcoro/core/qcorotimer.h
index 457b97b..0007be2 100644
--- a/qcoro/core/qcorotimer.h
+++ b/qcoro/core/qcorotimer.h
@@ -11,6 +11,9 @@
 #include <QPointer>
 #include <QTimer>
 
+#include <algorithm>
+#include <chrono>
+
 /*! \cond internal */
 
 namespace QCoro::detail {
@@ -59,7 +62,8 @@ template<typename Rep, typename Period>
 QCoro::Task<> sleepFor(const std::chrono::duration<Rep, Period> &timeout) {
     QTimer timer;
     timer.setSingleShot(true);
-    timer.start(std::chrono::ceil<std::chrono::milliseconds>(timeout));
+    // QTimer does not start with a negative interval, yet claims to be active.
+    timer.start(std::max(std::chrono::ceil<std::chrono::milliseconds>(timeout), std::chrono::milliseconds::zero()));
     co_await timer;
 }
 
-- 
2.43.0


From e32a666bd175575103c1b27b1f28ee3ea4aea9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 12/48] fix: suspend on a future that was canceled but is still
 running

Awaiting it asked for its result at once, which blocked the thread and its
event loop until the future finished, or forever if the same thread was to
finish it.
---
 qcoro/core/qcorofuture.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/core/qcorofuture.h b/qcoro/core/qcorofuture.h
index 0e028d8..23f563b 100644
--- a/qcoro/core/qcorofuture.h
+++ b/qcoro/core/qcorofuture.h
@@ -28,7 +28,7 @@ private:
         QCORO_DEFAULT_MOVE(WaitForFinishedOperationBase)
 
         bool await_ready() const noexcept {
-            return mFuture.isFinished() || mFuture.isCanceled();
+            return mFuture.isFinished();
         }
 
         void await_suspend(std::coroutine_handle<> awaitingCoroutine) {
-- 
2.43.0


From b4cd81a9c381c4e15e90a32840cc6d693f1cf753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 13/48] fix: do not miss the start or end of a thread

A thread that started or finished after QCoroThread had looked at its state
but before the signal was connected left the coroutine suspended forever, and
waitForFinished() could report false for a thread that had just finished.
---
 qcoro/core/qcorothread.cpp | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/qcoro/core/qcorothread.cpp b/qcoro/core/qcorothread.cpp
index b1c73ee..360c30c 100644
--- a/qcoro/core/qcorothread.cpp
+++ b/qcoro/core/qcorothread.cpp
@@ -51,6 +51,30 @@ public:
     std::unique_ptr<ContextHelper> mContext;
 };
 
+using ThreadSignalPtr = decltype(&QThread::finished);
+
+//! Waits for QThread::started(), unless it was emitted before it could be connected to.
+class StartedSignal : public QCoroSignal<QThread, ThreadSignalPtr> {
+public:
+    using QCoroSignal<QThread, ThreadSignalPtr>::QCoroSignal;
+
+    bool await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
+        QCoroSignal<QThread, ThreadSignalPtr>::await_suspend(awaitingCoroutine);
+        return !this->mObj->isRunning() && !this->mObj->isFinished();
+    }
+};
+
+//! Waits for QThread::finished(), unless it was emitted before it could be connected to.
+class FinishedSignal : public QCoroSignal<QThread, ThreadSignalPtr> {
+public:
+    using QCoroSignal<QThread, ThreadSignalPtr>::QCoroSignal;
+
+    bool await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
+        QCoroSignal<QThread, ThreadSignalPtr>::await_suspend(awaitingCoroutine);
+        return !this->mObj->isFinished();
+    }
+};
+
 } // namespace QCoro::detail
 
 ThreadContext::ThreadContext(QThread *thread)
@@ -95,20 +119,17 @@ QCoro::Task<bool> QCoroThread::waitForStarted(std::chrono::milliseconds timeout)
         co_return false;
     }
 
-    const auto result = co_await qCoro(mThread.data(), &QThread::started, timeout);
-    co_return result.has_value();
+    const auto result = co_await StartedSignal(mThread.data(), &QThread::started, timeout);
+    co_return result.has_value() || (mThread && (mThread->isRunning() || mThread->isFinished()));
 }
 
 QCoro::Task<bool> QCoroThread::waitForFinished(std::chrono::milliseconds timeout) {
-    if (mThread->isFinished()) {
-        co_return true;
-    }
     if (!mThread->isRunning()) {
-        co_return false;
+        co_return mThread->isFinished();
     }
 
-    const auto result = co_await qCoro(mThread.data(), &QThread::finished, timeout);
-    co_return result.has_value();
+    const auto result = co_await FinishedSignal(mThread.data(), &QThread::finished, timeout);
+    co_return result.has_value() || (mThread && mThread->isFinished());
 }
 
 #include "qcorothread.moc"
-- 
2.43.0


From 142468df3a1dd126b4d51748dd7db9680b63ac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 14/48] fix: synchronise awaiting a task with its finishing in
 another thread

A coroutine that moves to another thread may finish there while the coroutine
that called it is about to await it: the list of awaiting coroutines was
modified from both threads, and the awaiting coroutine was never resumed.
---
 qcoro/impl/lazytask.h         |  7 +++++--
 qcoro/impl/taskawaiterbase.h  |  8 ++++----
 qcoro/impl/taskbase.h         |  2 +-
 qcoro/impl/taskfinalsuspend.h |  6 +-----
 qcoro/impl/taskpromisebase.h  | 20 ++++++++++++++++++--
 qcoro/qcorotask.h             | 31 +++++++++++++++++++------------
 6 files changed, 48 insertions(+), 26 deletions(-)

diff --git a/qcoro/impl/lazytask.h b/qcoro/impl/lazytask.h
index 97ad16f..520db5f 100644
--- a/qcoro/impl/lazytask.h
+++ b/qcoro/impl/lazytask.h
@@ -43,7 +43,7 @@ inline auto LazyTaskPromise<T>::initial_suspend() noexcept {
 template<typename T>
 inline LazyTask<T>::~LazyTask() {
     #ifndef NDEBUG
-    if (this->mCoroutine && !this->mCoroutine.done()) {
+    if (this->mCoroutine && !this->mCoroutine.promise().isFinished()) {
         qWarning() << "QCoro::LazyTask destroyed before it was awaited!";
     }
     #endif
@@ -61,7 +61,10 @@ inline auto LazyTask<T>::operator co_await() const noexcept {
             // Only the first awaiter starts the coroutine: if there already is one, then the coroutine has been
             // started and is suspended on something else.
             const bool start = this->mAwaitedCoroutine && !this->mAwaitedCoroutine.promise().hasAwaitingCoroutine();
-            detail::TaskAwaiterBase<promise_type>::await_suspend(awaitingCoroutine);
+            const bool suspended = detail::TaskAwaiterBase<promise_type>::await_suspend(awaitingCoroutine);
+            if (!suspended) {
+                return awaitingCoroutine;
+            }
             if (!start) {
                 return std::noop_coroutine();
             }
diff --git a/qcoro/impl/taskawaiterbase.h b/qcoro/impl/taskawaiterbase.h
index 5942f67..db02e74 100644
--- a/qcoro/impl/taskawaiterbase.h
+++ b/qcoro/impl/taskawaiterbase.h
@@ -16,17 +16,17 @@ namespace QCoro::detail
 
 template<typename Promise>
 inline bool TaskAwaiterBase<Promise>::await_ready() const noexcept {
-    return mAwaitedCoroutine && mAwaitedCoroutine.done();
+    return mAwaitedCoroutine && mAwaitedCoroutine.promise().isFinished();
 }
 
 template<typename Promise>
-inline void TaskAwaiterBase<Promise>::await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
+inline bool TaskAwaiterBase<Promise>::await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
     if (!mAwaitedCoroutine) {
         qWarning() << "QCoro::Task: Awaiting a default-constructed or a moved-from QCoro::Task<> - this will hang forever!";
-        return;
+        return true;
     }
 
-    mAwaitedCoroutine.promise().addAwaitingCoroutine(awaitingCoroutine);
+    return mAwaitedCoroutine.promise().addAwaitingCoroutine(awaitingCoroutine);
 }
 
 template<typename Promise>
diff --git a/qcoro/impl/taskbase.h b/qcoro/impl/taskbase.h
index 2cf9b14..c293975 100644
--- a/qcoro/impl/taskbase.h
+++ b/qcoro/impl/taskbase.h
@@ -48,7 +48,7 @@ inline TaskBase<T, TaskImpl, PromiseType>::~TaskBase() {
 
 template<typename T, template<typename> class TaskImpl, typename PromiseType>
 inline bool TaskBase<T, TaskImpl, PromiseType>::isReady() const {
-    return !mCoroutine || mCoroutine.done();
+    return !mCoroutine || mCoroutine.promise().isFinished();
 }
 
 template<typename T, template<typename> class TaskImpl, typename PromiseType>
diff --git a/qcoro/impl/taskfinalsuspend.h b/qcoro/impl/taskfinalsuspend.h
index e008b4c..e743287 100644
--- a/qcoro/impl/taskfinalsuspend.h
+++ b/qcoro/impl/taskfinalsuspend.h
@@ -13,9 +13,6 @@
 namespace QCoro::detail
 {
 
-inline TaskFinalSuspend::TaskFinalSuspend(const std::vector<std::coroutine_handle<>> &awaitingCoroutines)
-    : mAwaitingCoroutines(awaitingCoroutines) {}
-
 inline bool TaskFinalSuspend::await_ready() const noexcept {
     return false;
 }
@@ -24,10 +21,9 @@ template<typename Promise>
 inline void TaskFinalSuspend::await_suspend(std::coroutine_handle<Promise> finishedCoroutine) noexcept {
     auto &promise = finishedCoroutine.promise();
 
-    for (auto &awaiter : mAwaitingCoroutines) {
+    for (auto &awaiter : promise.finish()) {
         awaiter.resume();
     }
-    mAwaitingCoroutines.clear();
 
     // The handle will be destroyed here only if the associated Task has already been destroyed
     promise.derefCoroutine();
diff --git a/qcoro/impl/taskpromisebase.h b/qcoro/impl/taskpromisebase.h
index 1fb7d4b..f0e549a 100644
--- a/qcoro/impl/taskpromisebase.h
+++ b/qcoro/impl/taskpromisebase.h
@@ -24,7 +24,7 @@ inline std::suspend_never TaskPromiseBase::initial_suspend() const noexcept {
 }
 
 inline auto TaskPromiseBase::final_suspend() const noexcept {
-    return TaskFinalSuspend{mAwaitingCoroutines};
+    return TaskFinalSuspend{};
 }
 
 template<typename T, typename Awaiter>
@@ -42,11 +42,27 @@ inline auto &TaskPromiseBase::await_transform(T &awaitable) {
     return awaitable;
 }
 
-inline void TaskPromiseBase::addAwaitingCoroutine(std::coroutine_handle<> awaitingCoroutine) {
+inline bool TaskPromiseBase::addAwaitingCoroutine(std::coroutine_handle<> awaitingCoroutine) {
+    std::lock_guard lock(mMutex);
+    if (mFinished) {
+        return false;
+    }
     mAwaitingCoroutines.push_back(awaitingCoroutine);
+    return true;
+}
+
+inline std::vector<std::coroutine_handle<>> TaskPromiseBase::finish() noexcept {
+    std::lock_guard lock(mMutex);
+    mFinished = true;
+    return std::move(mAwaitingCoroutines);
+}
+
+inline bool TaskPromiseBase::isFinished() const noexcept {
+    return mFinished;
 }
 
 inline bool TaskPromiseBase::hasAwaitingCoroutine() const {
+    std::lock_guard lock(mMutex);
     return !mAwaitingCoroutines.empty();
 }
 
diff --git a/qcoro/qcorotask.h b/qcoro/qcorotask.h
index 9d6149f..e77c26d 100644
--- a/qcoro/qcorotask.h
+++ b/qcoro/qcorotask.h
@@ -11,6 +11,7 @@
 #include <exception>
 #include <variant>
 #include <memory>
+#include <mutex>
 #include <type_traits>
 #include <vector>
 
@@ -32,13 +33,6 @@ using awaiter_type_t = typename awaiter_type<T>::type;
 //! Continuation that resumes a coroutine co_awaiting on currently finished coroutine.
 class TaskFinalSuspend {
 public:
-    //! Constructs the awaitable, passing it a handle to the co_awaiting coroutine
-    /*!
-     * \param[in] awaitingCoroutine handle of the coroutine that is co_awaiting the current
-     * coroutine (continuation).
-     */
-    explicit TaskFinalSuspend(const std::vector<std::coroutine_handle<>> &awaitingCoroutines);
-
     //! Returns whether the just finishing coroutine should do final suspend or not
     /*!
      * If the coroutine is not being co_awaited by another coroutine, then don't
@@ -67,9 +61,6 @@ public:
      * In any case, this method does nothing.
      * */
     constexpr void await_resume() const noexcept;
-
-private:
-    std::vector<std::coroutine_handle<>> mAwaitingCoroutines;
 };
 
 //! Base class for the \c Task<T> promise_type.
@@ -163,8 +154,18 @@ public:
      * \param awaitingCoroutine handle for the coroutine that is co_awaiting on a coroutine that
      *                          represented by this promise. When our coroutine finishes, it's
      *                          our job to resume the awaiting coroutine.
+     *
+     * \return whether the coroutine has been added and will be resumed when our coroutine
+     *         finishes. Returns \c false when our coroutine has already finished (which it may
+     *         do in another thread at any time).
      */
-    void addAwaitingCoroutine(std::coroutine_handle<> awaitingCoroutine);
+    bool addAwaitingCoroutine(std::coroutine_handle<> awaitingCoroutine);
+
+    //! Marks the coroutine as finished and returns the coroutines to be resumed.
+    std::vector<std::coroutine_handle<>> finish() noexcept;
+
+    //! Returns whether the coroutine has finished.
+    bool isFinished() const noexcept;
 
     bool hasAwaitingCoroutine() const;
 
@@ -178,9 +179,15 @@ protected:
 private:
     friend class TaskFinalSuspend;
 
+    //! Protects mAwaitingCoroutines, and mFinished from changing together with it
+    mutable std::mutex mMutex;
+
     //! Handle of the coroutine that is currently co_awaiting this Awaitable
     std::vector<std::coroutine_handle<>> mAwaitingCoroutines;
 
+    //! Indicates whether the coroutine has finished
+    std::atomic<bool> mFinished{false};
+
     //! Indicates whether we can destroy the coroutine handle
     std::atomic<uint32_t> mRefCount{0};
 };
@@ -308,7 +315,7 @@ public:
      * co_awaited coroutine has finished synchronously and the co_awaiting coroutine doesn't
      * have to suspend.
      */
-    void await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept;
+    bool await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept;
 
 protected:
     //! Constucts a new Awaiter object.
-- 
2.43.0


From bfab13c539fc5af6ec73de8ddb74a0359bc0d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 15/48] fix: do not claim that a closed device is ready for
 reading

waitForReadyRead() returned true when it was woken up because the device was
being closed, and reading from a device that was closed and destroyed in its
destructor accessed the device.
---
 qcoro/core/qcoroiodevice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index 0d457b8..92795e1 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -110,7 +110,7 @@ QCoro::Task<bool> QCoroIODevice::waitForReadyRead(std::chrono::milliseconds time
     }
 
     const auto result = co_await waitForReadyReadImpl(timeout);
-    co_return result.has_value();
+    co_return result.value_or(false);
 }
 
 QCoro::Task<std::optional<qint64>> QCoroIODevice::waitForBytesWritten(int timeout_msecs) {
-- 
2.43.0


From 07dd969ca92dfb885f9d36c220f49c12bfd151fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 16/48] fix: do not read from an awaited device that has been
 destroyed

The coroutine awaiting the device is resumed a moment after the device was
closed, for instance by its destructor.
---
 qcoro/core/qcoroiodevice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index 92795e1..8059949 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -41,7 +41,7 @@ void QCoroIODevice::ReadOperation::await_suspend(std::coroutine_handle<> awaitin
 }
 
 QByteArray QCoroIODevice::ReadOperation::await_resume() {
-    return mResultCb(mDevice);
+    return mDevice ? mResultCb(mDevice) : QByteArray{};
 }
 
 QCoroIODevice::ReadAllOperation::ReadAllOperation(QIODevice *device)
-- 
2.43.0


From 19edfe7faded01418de1c6dd83d8e8e6c5ec43f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 17/48] fix: wait in write() for exactly the data that were
 written

Writing to an unbuffered device, or one that reported several writes at once,
ended in an endless loop, and data of other writers were taken for the
coroutine's own, so that it was resumed early and reported a wrong number.
---
 qcoro/core/qcoroiodevice.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index 8059949..419760e 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -10,6 +10,8 @@
 #include <QIODevice>
 #include <QTimer>
 
+#include <algorithm>
+
 using namespace QCoro::detail;
 
 QCoroIODevice::OperationBase::OperationBase(QIODevice *device)
@@ -82,19 +84,32 @@ QCoro::Task<QByteArray> QCoroIODevice::readLine(qint64 maxSize, std::chrono::mil
 }
 
 QCoro::Task<qint64> QCoroIODevice::write(const QByteArray &buffer) {
-    const auto bytesWritten = mDevice->write(buffer);
-    qint64 bytesConfirmed = 0;
-    while (bytesConfirmed < bytesWritten) {
+    const auto device = mDevice;
+    const auto bytesWritten = device->write(buffer);
+    if (bytesWritten <= 0) {
+        co_return 0;
+    }
+
+    // Our data follow whatever else was still waiting to be written, and nothing has to be
+    // waited for if the device is not buffered.
+    qint64 bytesPending = device->bytesToWrite();
+    QObject context;
+    QObject::connect(device, &QIODevice::bytesWritten, &context, [&bytesPending](qint64 bytes) {
+        bytesPending -= bytes;
+    });
+    while (bytesPending > 0 && device && device->bytesToWrite() > 0) {
         const auto flushed = co_await waitForBytesWritten(-1);
         if (!flushed.has_value()) {
             // There was an intermediate error and we don't know how much was actually
             // written, so we report only what we know for sure was written.
             break;
         }
-        bytesConfirmed += *flushed;
     }
 
-    co_return bytesConfirmed;
+    if (device && device->isOpen() && device->bytesToWrite() == 0) {
+        co_return bytesWritten;
+    }
+    co_return std::clamp<qint64>(bytesWritten - bytesPending, 0, bytesWritten);
 }
 
 QCoro::Task<bool> QCoroIODevice::waitForReadyRead(int timeout_msecs) {
-- 
2.43.0


From 94007c0887c4728360204d603d08e5ab1e0a0bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 18/48] fix: report nothing instead of zero bytes when a device
 closes while writing

waitForBytesWritten() is documented to return an empty optional when the device
will never be able to write any data.
---
 qcoro/core/qcoroiodevice.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index 419760e..5ad327c 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -141,6 +141,10 @@ QCoro::Task<std::optional<qint64>> QCoroIODevice::waitForBytesWritten(std::chron
     }
 
     const auto result = co_await waitForBytesWrittenImpl(timeout);
+    if (result == 0) {
+        // The device was closed or failed before anything was written
+        co_return std::nullopt;
+    }
     co_return result;
 }
 
-- 
2.43.0


From 2b0d86d955451c9bbfbf2108cf90b86ebdee1d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 19/48] fix: do not read from a device destroyed after it
 became ready for reading

---
 qcoro/core/qcoroiodevice.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index 5ad327c..d1cfd69 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -58,7 +58,7 @@ QCoroIODevice::QCoroIODevice(QIODevice *device)
 
 QCoro::Task<QByteArray> QCoroIODevice::readAll(std::chrono::milliseconds timeout) {
     const auto device = mDevice;
-    if (!co_await waitForReadyRead(timeout)) {
+    if (!co_await waitForReadyRead(timeout) || !device) {
         co_return QByteArray{};
     }
 
@@ -67,7 +67,7 @@ QCoro::Task<QByteArray> QCoroIODevice::readAll(std::chrono::milliseconds timeout
 
 QCoro::Task<QByteArray> QCoroIODevice::read(qint64 maxSize, std::chrono::milliseconds timeout) {
     const auto device = mDevice;
-    if (!co_await waitForReadyRead(timeout)) {
+    if (!co_await waitForReadyRead(timeout) || !device) {
         co_return QByteArray{};
     }
 
@@ -76,7 +76,7 @@ QCoro::Task<QByteArray> QCoroIODevice::read(qint64 maxSize, std::chrono::millise
 
 QCoro::Task<QByteArray> QCoroIODevice::readLine(qint64 maxSize, std::chrono::milliseconds timeout) {
     const auto device = mDevice;
-    if (!co_await waitForReadyRead(timeout)) {
+    if (!co_await waitForReadyRead(timeout) || !device) {
         co_return QByteArray{};
     }
 
-- 
2.43.0


From 0fc641c20dd0a6e3735a4e8cad62517f2e2e5e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 20/48] fix: do not wait for a process that has failed to start

---
 qcoro/core/qcoroprocess.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qcoro/core/qcoroprocess.cpp b/qcoro/core/qcoroprocess.cpp
index 6b0a03e..e0dcc15 100644
--- a/qcoro/core/qcoroprocess.cpp
+++ b/qcoro/core/qcoroprocess.cpp
@@ -24,8 +24,9 @@ QCoro::Task<bool> QCoroProcess::waitForStarted(int timeout_msecs) {
 QCoro::Task<bool> QCoroProcess::waitForStarted(std::chrono::milliseconds timeout) {
     const auto *process = qobject_cast<QProcess *>(mDevice.data());
     if (process->state() == QProcess::Starting) {
-        const auto started = co_await qCoro(process, &QProcess::started, timeout);
-        co_return started.has_value();
+        // Either it runs, or it has failed to start
+        const auto state = co_await qCoro(process, &QProcess::stateChanged, timeout);
+        co_return state.has_value() && *state == QProcess::Running;
     }
 
     co_return process->state() == QProcess::Running;
-- 
2.43.0


From 35e2ffda100a4d20ea7d2e7b63826ef495a6550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 21/48] fix: do not wait for a process to finish that has
 failed to start

---
 qcoro/core/qcoroprocess.cpp | 39 +++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/qcoro/core/qcoroprocess.cpp b/qcoro/core/qcoroprocess.cpp
index e0dcc15..0a633b1 100644
--- a/qcoro/core/qcoroprocess.cpp
+++ b/qcoro/core/qcoroprocess.cpp
@@ -13,6 +13,38 @@
 
 using namespace QCoro::detail;
 
+namespace {
+
+// Waits for a process to finish, which it never does if it fails to start.
+class ProcessFinishedHelper : public QObject {
+    Q_OBJECT
+public:
+    explicit ProcessFinishedHelper(const QProcess *process)
+        : mFinished(connect(process, qOverload<int, QProcess::ExitStatus>(&QProcess::finished), this,
+                            [this]() { emitReady(true); }))
+        , mError(connect(process, &QProcess::errorOccurred, this, [this](QProcess::ProcessError error) {
+            if (error == QProcess::FailedToStart) {
+                emitReady(false);
+            }
+        }))
+    {}
+
+Q_SIGNALS:
+    void ready(bool result);
+
+private:
+    void emitReady(bool result) {
+        disconnect(mFinished);
+        disconnect(mError);
+        Q_EMIT ready(result);
+    }
+
+    QMetaObject::Connection mFinished;
+    QMetaObject::Connection mError;
+};
+
+} // namespace
+
 QCoroProcess::QCoroProcess(QProcess *process)
     : QCoroIODevice(process)
 {}
@@ -42,8 +74,9 @@ QCoro::Task<bool> QCoroProcess::waitForFinished(std::chrono::milliseconds timeou
         co_return false;
     }
 
-    const auto finished = co_await qCoro(process, qOverload<int, QProcess::ExitStatus>(&QProcess::finished), timeout);
-    co_return finished.has_value();
+    ProcessFinishedHelper helper(process);
+    const auto finished = co_await qCoro(&helper, &ProcessFinishedHelper::ready, timeout);
+    co_return finished.value_or(false);
 }
 
 QCoro::Task<bool> QCoroProcess::start(QIODevice::OpenMode mode, std::chrono::milliseconds timeout) {
@@ -57,4 +90,6 @@ QCoro::Task<bool> QCoroProcess::start(const QString &program, const QStringList
     return waitForStarted(timeout);
 }
 
+#include "qcoroprocess.moc"
+
 #endif // QT_CONFIG(process)
-- 
2.43.0


From 02ec62c3c8f196e0612cc2f97d6ebe4d4fedb514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 22/48] fix: end reading from and writing to a process when it
 ends

---
 qcoro/core/qcoroprocess.cpp | 52 +++++++++++++++++++++++++++++++++++++
 qcoro/core/qcoroprocess.h   |  4 +++
 2 files changed, 56 insertions(+)

diff --git a/qcoro/core/qcoroprocess.cpp b/qcoro/core/qcoroprocess.cpp
index 0a633b1..e95d851 100644
--- a/qcoro/core/qcoroprocess.cpp
+++ b/qcoro/core/qcoroprocess.cpp
@@ -7,6 +7,7 @@
 #if QT_CONFIG(process)
 
 #include "qcoroprocess.h"
+#include "qcoroiodevice_p.h"
 #include "qcorosignal.h"
 
 #include <QProcess>
@@ -43,12 +44,63 @@ private:
     QMetaObject::Connection mError;
 };
 
+// Waits for a process to be ready for reading or to have read what was written to it, which
+// does not happen any more once it has stopped running.
+class ProcessReadySignalHelper : public WaitSignalHelper {
+    Q_OBJECT
+public:
+    explicit ProcessReadySignalHelper(const QProcess *process, void(QIODevice::*signal)())
+        : WaitSignalHelper(process, signal)
+        , mStateChanged(connect(process, &QProcess::stateChanged, this, [this, process](QProcess::ProcessState state) {
+            handleStateChange(state, process->bytesAvailable() > 0);
+        }))
+    {}
+
+    explicit ProcessReadySignalHelper(const QProcess *process, void(QIODevice::*signal)(qint64))
+        : WaitSignalHelper(process, signal)
+        , mStateChanged(connect(process, &QProcess::stateChanged, this, [this](QProcess::ProcessState state) {
+            handleStateChange(state, static_cast<qint64>(0));
+        }))
+    {}
+
+private:
+    template<typename T>
+    void handleStateChange(QProcess::ProcessState state, T result) {
+        if (state == QProcess::NotRunning) {
+            disconnect(mStateChanged);
+            emitReady(result);
+        }
+    }
+
+    QMetaObject::Connection mStateChanged;
+};
+
 } // namespace
 
 QCoroProcess::QCoroProcess(QProcess *process)
     : QCoroIODevice(process)
 {}
 
+QCoro::Task<std::optional<bool>> QCoroProcess::waitForReadyReadImpl(std::chrono::milliseconds timeout) {
+    const auto *process = qobject_cast<QProcess *>(mDevice.data());
+    if (process->state() == QProcess::NotRunning) {
+        co_return false;
+    }
+
+    ProcessReadySignalHelper helper(process, &QIODevice::readyRead);
+    co_return co_await qCoro(&helper, qOverload<bool>(&WaitSignalHelper::ready), timeout);
+}
+
+QCoro::Task<std::optional<qint64>> QCoroProcess::waitForBytesWrittenImpl(std::chrono::milliseconds timeout) {
+    const auto *process = qobject_cast<QProcess *>(mDevice.data());
+    if (process->state() == QProcess::NotRunning) {
+        co_return std::nullopt;
+    }
+
+    ProcessReadySignalHelper helper(process, &QIODevice::bytesWritten);
+    co_return co_await qCoro(&helper, qOverload<qint64>(&WaitSignalHelper::ready), timeout);
+}
+
 QCoro::Task<bool> QCoroProcess::waitForStarted(int timeout_msecs) {
     return waitForStarted(std::chrono::milliseconds{timeout_msecs});
 }
diff --git a/qcoro/core/qcoroprocess.h b/qcoro/core/qcoroprocess.h
index 5f443f8..93914c5 100644
--- a/qcoro/core/qcoroprocess.h
+++ b/qcoro/core/qcoroprocess.h
@@ -109,6 +109,10 @@ public:
     Task<bool> start(const QString &program, const QStringList &arguments,
                      QIODevice::OpenMode mode = QIODevice::ReadWrite,
                      std::chrono::milliseconds timeout = std::chrono::seconds(30));
+
+private:
+    Task<std::optional<bool>> waitForReadyReadImpl(std::chrono::milliseconds timeout) override;
+    Task<std::optional<qint64>> waitForBytesWrittenImpl(std::chrono::milliseconds timeout) override;
 };
 
 } // namespace QCoro::detail
-- 
2.43.0


From e9bf1aa00ec5a438348efca0c1c9f882b8518ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 23/48] fix: do not wait for a TCP connection that has failed

---
 qcoro/network/qcoroabstractsocket.cpp | 50 +++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/qcoro/network/qcoroabstractsocket.cpp b/qcoro/network/qcoroabstractsocket.cpp
index 56fde6b..fdcfcfd 100644
--- a/qcoro/network/qcoroabstractsocket.cpp
+++ b/qcoro/network/qcoroabstractsocket.cpp
@@ -40,6 +40,33 @@ private:
     QMetaObject::Connection mStateChanged;
 };
 
+class AbstractSocketConnectedHelper : public QObject {
+    Q_OBJECT
+public:
+    explicit AbstractSocketConnectedHelper(const QAbstractSocket *socket)
+        : mConnected(connect(socket, &QAbstractSocket::connected, this, [this]() { emitReady(true); }))
+        , mStateChanged(connect(socket, &QAbstractSocket::stateChanged, this,
+                        [this](QAbstractSocket::SocketState state) {
+                            if (state == QAbstractSocket::UnconnectedState) {
+                                emitReady(false);
+                            }
+                        }))
+    {}
+
+Q_SIGNALS:
+    void ready(bool result);
+
+private:
+    void emitReady(bool result) {
+        disconnect(mConnected);
+        disconnect(mStateChanged);
+        Q_EMIT ready(result);
+    }
+
+    QMetaObject::Connection mConnected;
+    QMetaObject::Connection mStateChanged;
+};
+
 } // namespace
 
 QCoroAbstractSocket::QCoroAbstractSocket(QAbstractSocket *socket)
@@ -75,8 +102,9 @@ QCoro::Task<bool> QCoroAbstractSocket::waitForConnected(std::chrono::millisecond
         co_return true;
     }
 
-    const auto result = co_await qCoro(socket, &QAbstractSocket::connected, timeout);
-    co_return result.has_value();
+    AbstractSocketConnectedHelper helper(socket);
+    const auto result = co_await qCoro(&helper, &AbstractSocketConnectedHelper::ready, timeout);
+    co_return result.value_or(false);
 }
 
 QCoro::Task<bool> QCoroAbstractSocket::waitForDisconnected(int timeout_msecs) {
@@ -96,14 +124,22 @@ QCoro::Task<bool> QCoroAbstractSocket::waitForDisconnected(std::chrono::millisec
 QCoro::Task<bool> QCoroAbstractSocket::connectToHost(const QString &hostName, quint16 port,
                                                      QIODevice::OpenMode openMode, QAbstractSocket::NetworkLayerProtocol protocol,
                                                      std::chrono::milliseconds timeout) {
-    static_cast<QAbstractSocket *>(mDevice.data())->connectToHost(hostName, port, openMode, protocol);
-    return waitForConnected(timeout);
+    auto *socket = static_cast<QAbstractSocket *>(mDevice.data());
+    socket->connectToHost(hostName, port, openMode, protocol);
+    if (socket->state() == QAbstractSocket::UnconnectedState) {
+        co_return false; // failed already
+    }
+    co_return co_await waitForConnected(timeout);
 }
 
 QCoro::Task<bool> QCoroAbstractSocket::connectToHost(const QHostAddress &address, quint16 port,
                                                      QIODevice::OpenMode openMode, std::chrono::milliseconds timeout) {
-    static_cast<QAbstractSocket *>(mDevice.data())->connectToHost(address, port, openMode);
-    return waitForConnected(timeout);
+    auto *socket = static_cast<QAbstractSocket *>(mDevice.data());
+    socket->connectToHost(address, port, openMode);
+    if (socket->state() == QAbstractSocket::UnconnectedState) {
+        co_return false; // failed already
+    }
+    co_return co_await waitForConnected(timeout);
 }
 
-#include "qcoroabstractsocket.moc"
\ No newline at end of file
+#include "qcoroabstractsocket.moc"
-- 
2.43.0


From 408a63068e99f7b34c4102f1120438a13b368b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 24/48] fix: do not wait for a local connection that has failed
 already

---
 qcoro/network/qcorolocalsocket.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/qcoro/network/qcorolocalsocket.cpp b/qcoro/network/qcorolocalsocket.cpp
index 5cc97e5..b3a3faf 100644
--- a/qcoro/network/qcorolocalsocket.cpp
+++ b/qcoro/network/qcorolocalsocket.cpp
@@ -122,14 +122,22 @@ QCoro::Task<bool> QCoroLocalSocket::waitForDisconnected(std::chrono::millisecond
 
 QCoro::Task<bool> QCoroLocalSocket::connectToServer(QIODevice::OpenMode openMode,
                                                     std::chrono::milliseconds timeout) {
-    static_cast<QLocalSocket *>(mDevice.data())->connectToServer(openMode);
-    return waitForConnected(timeout);
+    auto *socket = static_cast<QLocalSocket *>(mDevice.data());
+    socket->connectToServer(openMode);
+    if (socket->state() == QLocalSocket::UnconnectedState) {
+        co_return false; // failed already
+    }
+    co_return co_await waitForConnected(timeout);
 }
 
 QCoro::Task<bool> QCoroLocalSocket::connectToServer(const QString &name, QIODevice::OpenMode openMode,
                                                     std::chrono::milliseconds timeout) {
-    static_cast<QLocalSocket *>(mDevice.data())->connectToServer(name, openMode);
-    return waitForConnected(timeout);
+    auto *socket = static_cast<QLocalSocket *>(mDevice.data());
+    socket->connectToServer(name, openMode);
+    if (socket->state() == QLocalSocket::UnconnectedState) {
+        co_return false; // failed already
+    }
+    co_return co_await waitForConnected(timeout);
 }
 
-#include "qcorolocalsocket.moc"
\ No newline at end of file
+#include "qcorolocalsocket.moc"
-- 
2.43.0


From 616ed74903335b73f79a2602b1d07adba743eb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 25/48] fix: do not wait for the end of a connection that has
 failed to come about

---
 qcoro/network/qcoroabstractsocket.cpp | 36 ++++++++++++++++++++++++--
 qcoro/network/qcorolocalsocket.cpp    | 37 +++++++++++++++++++++++++--
 2 files changed, 69 insertions(+), 4 deletions(-)

diff --git a/qcoro/network/qcoroabstractsocket.cpp b/qcoro/network/qcoroabstractsocket.cpp
index fdcfcfd..6258b54 100644
--- a/qcoro/network/qcoroabstractsocket.cpp
+++ b/qcoro/network/qcoroabstractsocket.cpp
@@ -67,6 +67,37 @@ private:
     QMetaObject::Connection mStateChanged;
 };
 
+// Waits for a connection to end, including one that does not even come about.
+class AbstractSocketDisconnectedHelper : public QObject {
+    Q_OBJECT
+public:
+    explicit AbstractSocketDisconnectedHelper(const QAbstractSocket *socket)
+        : mConnected(isConnected(socket->state()))
+        , mStateChanged(connect(socket, &QAbstractSocket::stateChanged, this,
+                        [this](QAbstractSocket::SocketState state) { handleStateChange(state); }))
+    {}
+
+Q_SIGNALS:
+    void ready(bool result);
+
+private:
+    static bool isConnected(QAbstractSocket::SocketState state) {
+        return state == QAbstractSocket::ConnectedState || state == QAbstractSocket::ClosingState;
+    }
+
+    void handleStateChange(QAbstractSocket::SocketState state) {
+        if (state == QAbstractSocket::UnconnectedState) {
+            disconnect(mStateChanged);
+            Q_EMIT ready(mConnected);
+        } else {
+            mConnected = isConnected(state);
+        }
+    }
+
+    bool mConnected;
+    QMetaObject::Connection mStateChanged;
+};
+
 } // namespace
 
 QCoroAbstractSocket::QCoroAbstractSocket(QAbstractSocket *socket)
@@ -117,8 +148,9 @@ QCoro::Task<bool> QCoroAbstractSocket::waitForDisconnected(std::chrono::millisec
         co_return false;
     }
 
-    const auto result = co_await qCoro(socket, &QAbstractSocket::disconnected, timeout);
-    co_return result.has_value();
+    AbstractSocketDisconnectedHelper helper(socket);
+    const auto result = co_await qCoro(&helper, &AbstractSocketDisconnectedHelper::ready, timeout);
+    co_return result.value_or(false);
 }
 
 QCoro::Task<bool> QCoroAbstractSocket::connectToHost(const QString &hostName, quint16 port,
diff --git a/qcoro/network/qcorolocalsocket.cpp b/qcoro/network/qcorolocalsocket.cpp
index b3a3faf..a1a8192 100644
--- a/qcoro/network/qcorolocalsocket.cpp
+++ b/qcoro/network/qcorolocalsocket.cpp
@@ -42,6 +42,38 @@ private:
     QMetaObject::Connection mStateChange;
 };
 
+// Waits for a connection to end, including one that does not even come about.
+class SocketDisconnectedHelper : public QObject {
+    Q_OBJECT
+public:
+    explicit SocketDisconnectedHelper(const QLocalSocket *socket)
+        : QObject()
+        , mConnected(isConnected(socket->state()))
+        , mStateChange(connect(socket, &QLocalSocket::stateChanged, this,
+                               [this](auto state) { stateChanged(state); }))
+    {}
+
+Q_SIGNALS:
+    void ready(bool result);
+
+private:
+    static bool isConnected(QLocalSocket::LocalSocketState state) {
+        return state == QLocalSocket::ConnectedState || state == QLocalSocket::ClosingState;
+    }
+
+    void stateChanged(QLocalSocket::LocalSocketState state) {
+        if (state == QLocalSocket::UnconnectedState) {
+            disconnect(mStateChange);
+            Q_EMIT ready(mConnected);
+        } else {
+            mConnected = isConnected(state);
+        }
+    }
+
+    bool mConnected;
+    QMetaObject::Connection mStateChange;
+};
+
 class LocalSocketReadySignalHelper : public WaitSignalHelper {
     Q_OBJECT
 public:
@@ -116,8 +148,9 @@ QCoro::Task<bool> QCoroLocalSocket::waitForDisconnected(std::chrono::millisecond
     if (socket->state() == QLocalSocket::UnconnectedState) {
         co_return false;
     }
-    const auto result = co_await qCoro(socket, &QLocalSocket::disconnected, timeout);
-    co_return result.has_value();
+    SocketDisconnectedHelper helper(socket);
+    const auto result = co_await qCoro(&helper, &SocketDisconnectedHelper::ready, timeout);
+    co_return result.value_or(false);
 }
 
 QCoro::Task<bool> QCoroLocalSocket::connectToServer(QIODevice::OpenMode openMode,
-- 
2.43.0


From 84f0f826d1968f2397aeab3a2bbbcd9093a58f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 26/48] fix: keep waiting when someone else took the new
 connection

---
 qcoro/network/qcorotcpserver.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/qcoro/network/qcorotcpserver.cpp b/qcoro/network/qcorotcpserver.cpp
index b23e297..fff404c 100644
--- a/qcoro/network/qcorotcpserver.cpp
+++ b/qcoro/network/qcorotcpserver.cpp
@@ -6,6 +6,7 @@
 #include "qcorosignal.h"
 
 #include <QTcpServer>
+#include <QTimer>
 
 using namespace QCoro::detail;
 
@@ -43,9 +44,18 @@ QCoro::Task<QTcpSocket *> QCoroTcpServer::waitForNewConnection(std::chrono::mill
         co_return server->nextPendingConnection();
     }
 
-    const auto result = co_await qCoro(server.data(), &QTcpServer::newConnection, timeout);
-    if (result.has_value()) {
-        co_return server->nextPendingConnection();
+    QTimer timer;
+    timer.setSingleShot(true);
+    if (timeout.count() >= 0) {
+        timer.start(timeout);
+    }
+    // Someone else may take the new connection before this coroutine is resumed
+    while (server && server->isListening() && !server->hasPendingConnections()) {
+        if (timeout.count() >= 0 && !timer.isActive()) {
+            break;
+        }
+        co_await qCoro(server.data(), &QTcpServer::newConnection,
+                       timer.isActive() ? timer.remainingTimeAsDuration() : timeout);
     }
-    co_return nullptr;
+    co_return server ? server->nextPendingConnection() : nullptr;
 }
-- 
2.43.0


From c59e386488ba0e579d37c2bdab5a0270a46fa346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 27/48] fix: leave web socket connections with the server until
 they are handed out

A wait that had ended left a dangling connection to newConnection() behind; with more than one
connection or wait, or when a wait timed out, connections were lost or a wait ended with none.
---
 qcoro/websockets/qcorowebsocketserver.cpp | 38 ++++++++++++++++++-----
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/qcoro/websockets/qcorowebsocketserver.cpp b/qcoro/websockets/qcorowebsocketserver.cpp
index c2c6056..d2ca378 100644
--- a/qcoro/websockets/qcorowebsocketserver.cpp
+++ b/qcoro/websockets/qcorowebsocketserver.cpp
@@ -5,6 +5,8 @@
 #include "qcorowebsocketserver.h"
 #include "qcorosignal.h"
 
+#include <QPointer>
+#include <QTimer>
 #include <QWebSocket>
 #include <QWebSocketServer>
 
@@ -17,15 +19,22 @@ class QCoroWebSocketServerSignalListener : public QObject {
 public:
     QCoroWebSocketServerSignalListener(QWebSocketServer *server) {
         connect(server, &QWebSocketServer::closed, this, [this]() {
-            Q_EMIT ready(nullptr);
-        });
-        connect(server, &QWebSocketServer::newConnection, [this, server]() {
-            Q_EMIT ready(server->nextPendingConnection());
+            mClosed = true;
+            Q_EMIT ready();
         });
+        connect(server, &QWebSocketServer::newConnection,
+                this, &QCoroWebSocketServerSignalListener::ready);
+    }
+
+    bool isClosed() const {
+        return mClosed;
     }
 
 Q_SIGNALS:
-    void ready(QWebSocket *socket);
+    void ready();
+
+private:
+    bool mClosed = false;
 };
 
 } // namespace
@@ -36,7 +45,7 @@ QCoroWebSocketServer::QCoroWebSocketServer(QWebSocketServer *server)
 
 QCoro::Task<QWebSocket *> QCoroWebSocketServer::nextPendingConnection(std::chrono::milliseconds timeout)
 {
-    auto * const server = mServer;
+    const QPointer<QWebSocketServer> server = mServer;
     if (!server->isListening()) {
         co_return nullptr;
     }
@@ -45,9 +54,22 @@ QCoro::Task<QWebSocket *> QCoroWebSocketServer::nextPendingConnection(std::chron
         co_return server->nextPendingConnection();
     }
 
+    QTimer timer;
+    timer.setSingleShot(true);
+    if (timeout.count() >= 0) {
+        timer.start(timeout);
+    }
     QCoroWebSocketServerSignalListener listener(server);
-    const auto result = co_await qCoro(&listener, &QCoroWebSocketServerSignalListener::ready, timeout);
-    co_return result.value_or(nullptr);
+    // The connection stays with the server until this coroutine is resumed, someone else may
+    // have taken it by then.
+    while (server && !listener.isClosed() && !server->hasPendingConnections()) {
+        if (timeout.count() >= 0 && !timer.isActive()) {
+            break;
+        }
+        co_await qCoro(&listener, &QCoroWebSocketServerSignalListener::ready,
+                       timer.isActive() ? timer.remainingTimeAsDuration() : timeout);
+    }
+    co_return server && !listener.isClosed() ? server->nextPendingConnection() : nullptr;
 }
 
 #include "qcorowebsocketserver.moc"
-- 
2.43.0


From e2f00908cb754b7fc47f9aefd6bbd418a2db5604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:01 +0000
Subject: [PATCH 28/48] fix: do not wait for a web socket that cannot be opened

open() may fail before the coroutine starts to listen for its result, and a socket that is closed
while it is being opened reports no error.
---
 qcoro/websockets/qcorowebsocket.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/qcoro/websockets/qcorowebsocket.cpp b/qcoro/websockets/qcorowebsocket.cpp
index c686d14..2b46805 100644
--- a/qcoro/websockets/qcorowebsocket.cpp
+++ b/qcoro/websockets/qcorowebsocket.cpp
@@ -30,6 +30,8 @@ public:
         : mState(connect(socket, &QWebSocket::stateChanged, this, [this, desiredState](auto newState) {
             if (newState == desiredState) {
                 emitReady(true);
+            } else if (newState == QAbstractSocket::UnconnectedState) {
+                emitReady(false);
             }
         }))
         , mError(connect(socket, qOverload<QAbstractSocket::SocketError>(
@@ -44,11 +46,17 @@ public:
         }))
     {}
 
+    //! The result, if it is known already
+    std::optional<bool> result() const {
+        return mResult;
+    }
+
 Q_SIGNALS:
     void ready(bool result);
 
 private:
     void emitReady(bool result) {
+        mResult = result;
         disconnect(mState);
         disconnect(mError);
         Q_EMIT ready(result);
@@ -56,6 +64,7 @@ private:
 
     QMetaObject::Connection mState;
     QMetaObject::Connection mError;
+    std::optional<bool> mResult;
 };
 
 template<typename>
@@ -153,6 +162,9 @@ QCoro::Task<bool> QCoroWebSocket::open(const QUrl &url, std::chrono::millisecond
 
     WebSocketStateWatcher watcher(mWebSocket, QAbstractSocket::ConnectedState);
     mWebSocket->open(url);
+    if (watcher.result().has_value()) { // open() has failed right away
+        co_return *watcher.result();
+    }
     const auto result = co_await qCoro(&watcher, &WebSocketStateWatcher::ready, timeout);
     co_return result.value_or(false);
 }
@@ -165,6 +177,9 @@ QCoro::Task<bool> QCoroWebSocket::open(const QNetworkRequest &request, std::chro
 
     WebSocketStateWatcher watcher(mWebSocket, QAbstractSocket::ConnectedState);
     mWebSocket->open(request);
+    if (watcher.result().has_value()) { // open() has failed right away
+        co_return *watcher.result();
+    }
     const auto result = co_await qCoro(&watcher, &WebSocketStateWatcher::ready, timeout);
     co_return result.value_or(false);
 }
-- 
2.43.0


From bb1f93173fef2e125842efe8ca932e175042e83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 29/48] fix: start watching for web socket messages when the
 generator is made

What arrives before the generator is started, including the end of the connection, was lost.
---
 qcoro/websockets/qcorowebsocket.cpp | 65 +++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 17 deletions(-)

diff --git a/qcoro/websockets/qcorowebsocket.cpp b/qcoro/websockets/qcorowebsocket.cpp
index 2b46805..23f7a6e 100644
--- a/qcoro/websockets/qcorowebsocket.cpp
+++ b/qcoro/websockets/qcorowebsocket.cpp
@@ -8,6 +8,9 @@
 
 #include <QWebSocket>
 #include <QDebug>
+#include <QPointer>
+
+#include <memory>
 
 using namespace QCoro::detail;
 
@@ -98,7 +101,10 @@ class WebSocketSignalWatcher : public QObject {
     Q_OBJECT
 public:
     template<typename Signal>
-    WebSocketSignalWatcher(QWebSocket *socket, Signal signal) {
+    WebSocketSignalWatcher(QWebSocket *socket, Signal signal)
+        : mSocket(socket)
+        , mWasConnected(socket->state() == QAbstractSocket::ConnectedState)
+    {
         qRegisterMetaType<std::optional<std::tuple<qint64, QByteArray>>>();
         qRegisterMetaType<std::optional<std::tuple<QByteArray, bool>>>();
         qRegisterMetaType<std::optional<std::tuple<QByteArray>>>();
@@ -109,42 +115,67 @@ public:
             Q_EMIT this->ready(std::make_optional(std::make_tuple(std::forward<decltype(args)>(args) ...)));
         });
         connect(socket, &QWebSocket::stateChanged, this, [this](auto state) {
-            // In theory, WebSocketSignalWatcher should never be used on
-            // unconnected socket, so maybe the check is redundant
-            if (state != QAbstractSocket::ConnectedState) {
+            // Ignore connecting for the first time.
+            if (state == QAbstractSocket::ConnectedState) {
+                mWasConnected = true;
+            } else if (mWasConnected || (mStarted && state == QAbstractSocket::UnconnectedState)) {
                 Q_EMIT this->ready(std::optional<signal_args_t<Signal>>{});
             }
         });
     }
 
+    //! Returns whether there is, was or will be a connection to wait for.
+    bool start() {
+        mStarted = true;
+        return mWasConnected || (mSocket && mSocket->state() != QAbstractSocket::UnconnectedState);
+    }
+
 Q_SIGNALS:
     void ready(std::optional<std::tuple<qint64, QByteArray>>); // ping
     void ready(std::optional<std::tuple<QByteArray, bool>>); // binary frames
     void ready(std::optional<std::tuple<QByteArray>>); // binary messages
     void ready(std::optional<std::tuple<QString, bool>>); // text frames
     void ready(std::optional<std::tuple<QString>>); // text messages
+
+private:
+    QPointer<QWebSocket> mSocket;
+    bool mWasConnected = false;
+    bool mStarted = false;
 };
 
 template<typename Signal>
 auto watcherGenerator(QWebSocket *ws, Signal signal, std::chrono::milliseconds timeout) ->
     QCoro::AsyncGenerator<unwrapped_signal_args_t<signal_args_t<Signal>>>
 {
-    WebSocketSignalWatcher watcher(ws, signal);
     using signalType = std::optional<signal_args_t<Signal>>;
-    auto signalListener = qCoroSignalListener(&watcher, qOverload<signalType>(&WebSocketSignalWatcher::ready), timeout);
-    auto it = co_await signalListener.begin();
-    while (it != signalListener.end()) {
-        if (!(*it).has_value()) {
-            break;
+
+    // The watcher and the listener are created here, so that nothing that arrives before the
+    // (initially suspended) generator is started gets lost.
+    auto watcher = std::make_unique<WebSocketSignalWatcher>(ws, signal);
+    auto listener = qCoroSignalListener(watcher.get(), qOverload<signalType>(&WebSocketSignalWatcher::ready), timeout);
+
+    constexpr auto innerGenerator = [](std::unique_ptr<WebSocketSignalWatcher> watcher, decltype(listener) signalListener) ->
+        QCoro::AsyncGenerator<unwrapped_signal_args_t<signal_args_t<Signal>>>
+    {
+        if (!watcher->start()) {
+            co_return;
         }
-        // If the signal is a single-value tuple, we unwrap it from the tuple, otherwise we yield the whole tuple.
-        if constexpr (std::tuple_size_v<typename signalType::value_type> == 1) {
-            co_yield std::get<0>(**it);
-        } else {
-            co_yield **it;
+        auto it = co_await signalListener.begin();
+        while (it != signalListener.end()) {
+            if (!(*it).has_value()) {
+                break;
+            }
+            // If the signal is a single-value tuple, we unwrap it from the tuple, otherwise we yield the whole tuple.
+            if constexpr (std::tuple_size_v<typename signalType::value_type> == 1) {
+                co_yield std::get<0>(**it);
+            } else {
+                co_yield **it;
+            }
+            co_await ++it;
         }
-        co_await ++it;
-    }
+    };
+
+    return innerGenerator(std::move(watcher), std::move(listener));
 }
 
 
-- 
2.43.0


From 5f55cebab6a653bc6f8e8a0d3b7e303a10f2db8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:58 +0000
Subject: [PATCH 30/48] fix: keep the D-Bus call that is being awaited

The wrapper and the awaiter held a reference to a call that may be a temporary, or be assigned
another call while the coroutine waits.
---
 qcoro/dbus/qcorodbuspendingcall.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qcoro/dbus/qcorodbuspendingcall.h b/qcoro/dbus/qcorodbuspendingcall.h
index b56ff19..80a9e49 100644
--- a/qcoro/dbus/qcorodbuspendingcall.h
+++ b/qcoro/dbus/qcorodbuspendingcall.h
@@ -7,10 +7,10 @@
 #include "qcorotask.h"
 #include "qcorodbus_export.h"
 
+#include <QDBusPendingCall>
 #include <QDBusPendingCallWatcher>
 
 class QDBusMessage;
-class QDBusPendingCall;
 
 /*! \cond internal */
 
@@ -26,10 +26,10 @@ private:
         void await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept;
         QDBusMessage await_resume() const;
     private:
-        const QDBusPendingCall &mCall;
+        QDBusPendingCall mCall;
     };
 
-    const QDBusPendingCall &mCall;
+    QDBusPendingCall mCall;
 
     friend struct awaiter_type<QDBusPendingCall>;
 public:
-- 
2.43.0


From 745bb8bc7d543d52e13a0904c7ec0718c67c7283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:33 +0000
Subject: [PATCH 31/48] fix: do not wait for a D-Bus call that has finished in
 the meantime

A watcher made for a finished call that had been watched before is never notified.
---
 qcoro/dbus/qcorodbuspendingcall.cpp | 17 +++++++++++++----
 qcoro/dbus/qcorodbuspendingcall.h   |  2 +-
 qcoro/dbus/qcorodbuspendingreply.h  | 17 +++++++++++++----
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/qcoro/dbus/qcorodbuspendingcall.cpp b/qcoro/dbus/qcorodbuspendingcall.cpp
index af7098e..2a5b939 100644
--- a/qcoro/dbus/qcorodbuspendingcall.cpp
+++ b/qcoro/dbus/qcorodbuspendingcall.cpp
@@ -7,6 +7,8 @@
 
 #include <QDBusPendingCall>
 
+#include <memory>
+
 using namespace QCoro::detail;
 
 QCoroDBusPendingCall::WaitForFinishedOperation::WaitForFinishedOperation(const QDBusPendingCall &call)
@@ -17,13 +19,18 @@ bool QCoroDBusPendingCall::WaitForFinishedOperation::await_ready() const noexcep
     return mCall.isFinished();
 }
 
-void QCoroDBusPendingCall::WaitForFinishedOperation::await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
-auto *watcher = new QDBusPendingCallWatcher{mCall};
-    QObject::connect(watcher, &QDBusPendingCallWatcher::finished,
+bool QCoroDBusPendingCall::WaitForFinishedOperation::await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
+    auto watcher = std::make_unique<QDBusPendingCallWatcher>(mCall);
+    // The call may finish in the D-Bus thread, a watcher that comes too late is not notified.
+    if (watcher->isFinished()) {
+        return false;
+    }
+    QObject::connect(watcher.release(), &QDBusPendingCallWatcher::finished,
                      [awaitingCoroutine](auto *watcher) mutable {
                          awaitingCoroutine.resume();
                          watcher->deleteLater();
                      });
+    return true;
 }
 
 QDBusMessage QCoroDBusPendingCall::WaitForFinishedOperation::await_resume() const {
@@ -37,7 +44,9 @@ QCoroDBusPendingCall::QCoroDBusPendingCall(const QDBusPendingCall &call)
 
 QCoro::Task<QDBusMessage> QCoroDBusPendingCall::waitForFinished() {
     QDBusPendingCallWatcher watcher{mCall};
-    co_await qCoro(&watcher, &QDBusPendingCallWatcher::finished);
+    if (!watcher.isFinished()) {
+        co_await qCoro(&watcher, &QDBusPendingCallWatcher::finished);
+    }
     co_return watcher.reply();
 }
 
diff --git a/qcoro/dbus/qcorodbuspendingcall.h b/qcoro/dbus/qcorodbuspendingcall.h
index 80a9e49..6c5cb14 100644
--- a/qcoro/dbus/qcorodbuspendingcall.h
+++ b/qcoro/dbus/qcorodbuspendingcall.h
@@ -23,7 +23,7 @@ private:
         explicit WaitForFinishedOperation(const QDBusPendingCall &call);
 
         bool await_ready() const noexcept;
-        void await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept;
+        bool await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept;
         QDBusMessage await_resume() const;
     private:
         QDBusPendingCall mCall;
diff --git a/qcoro/dbus/qcorodbuspendingreply.h b/qcoro/dbus/qcorodbuspendingreply.h
index 40154f5..ef6bcae 100644
--- a/qcoro/dbus/qcorodbuspendingreply.h
+++ b/qcoro/dbus/qcorodbuspendingreply.h
@@ -10,6 +10,8 @@
 #include <qglobal.h>
 #include <QDBusPendingReply>
 
+#include <memory>
+
 class QDBusMessage;
 
 /*! \cond internal */
@@ -36,13 +38,18 @@ private:
             return mReply.isFinished();
         }
 
-        void await_suspend(std::coroutine_handle<> awaitingCoroutine) {
-            auto *watcher = new QDBusPendingCallWatcher{mReply};
-            QObject::connect(watcher, &QDBusPendingCallWatcher::finished,
+        bool await_suspend(std::coroutine_handle<> awaitingCoroutine) {
+            auto watcher = std::make_unique<QDBusPendingCallWatcher>(mReply);
+            // The call may finish in the D-Bus thread, a watcher that comes too late is not notified.
+            if (watcher->isFinished()) {
+                return false;
+            }
+            QObject::connect(watcher.release(), &QDBusPendingCallWatcher::finished,
                              [awaitingCoroutine](auto *watcher) mutable {
                                  awaitingCoroutine.resume();
                                  watcher->deleteLater();
                              });
+            return true;
         }
 
         QDBusPendingReply<Args ...> await_resume() const {
@@ -110,7 +117,9 @@ public:
     Task<QDBusPendingReply<Args ...>> waitForFinished() {
         if (!mReply.isFinished()) {
             QDBusPendingCallWatcher watcher{mReply};
-            co_await qCoro(&watcher, &QDBusPendingCallWatcher::finished);
+            if (!watcher.isFinished()) {
+                co_await qCoro(&watcher, &QDBusPendingCallWatcher::finished);
+            }
             co_return watcher.reply();
         }
         co_return mReply;
-- 
2.43.0


From 8ad32a442ee1fd08e2051723edd83c28cd3add35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:17 +0000
Subject: [PATCH 32/48] fix: let copies of a QmlTask share the task

QSharedDataPointer detaches, which QmlTaskPrivate does not support, when then() or await() is
called on a QmlTask that has been copied.
---
 qcoro/qml/qcoroqmltask.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/qml/qcoroqmltask.h b/qcoro/qml/qcoroqmltask.h
index 06f8c53..7b7a514 100644
--- a/qcoro/qml/qcoroqmltask.h
+++ b/qcoro/qml/qcoroqmltask.h
@@ -93,7 +93,7 @@ public:
     Q_INVOKABLE QCoro::QmlTaskListener *await(const QVariant &intermediateValue = {});
 
 private:
-    QSharedDataPointer<QmlTaskPrivate> d;
+    QExplicitlySharedDataPointer<QmlTaskPrivate> d;
 };
 
 class QmlTaskListener : public QObject {
-- 
2.43.0


From 8dc6bea44a7f3c4288fb7793160eccb186aa1e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:22 +0000
Subject: [PATCH 33/48] fix: do not call into a QML engine that has been
 destroyed

---
 qcoro/qml/qcoroqmltask.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/qcoro/qml/qcoroqmltask.cpp b/qcoro/qml/qcoroqmltask.cpp
index 8523aeb..e81d62e 100644
--- a/qcoro/qml/qcoroqmltask.cpp
+++ b/qcoro/qml/qcoroqmltask.cpp
@@ -37,7 +37,8 @@ inline QJSEngine *getEngineForValue(const QJSValue &val) {
     return val.engine();
     QT_WARNING_POP
 #else
-    return QJSValuePrivate::engine(&val)->jsEngine();
+    auto *engine = QJSValuePrivate::engine(&val);
+    return engine ? engine->jsEngine() : nullptr;
 #endif
 }
 
@@ -68,7 +69,11 @@ void QmlTask::then(QJSValue func) {
     }
 
     d->task->then([func = std::move(func)](const QVariant &result) mutable -> void {
-        auto jsval = getEngineForValue(func)->toScriptValue(result);
+        auto *engine = getEngineForValue(func);
+        if (!engine) { // has been destroyed in the meantime, and the function with it
+            return;
+        }
+        auto jsval = engine->toScriptValue(result);
         func.call({jsval});
     });
 }
-- 
2.43.0


From 7acdbcfebdbfb45ec96d629d4968461ca4d5a5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:22 +0000
Subject: [PATCH 34/48] fix: handle awaiting a QmlTask that has no coroutine

---
 qcoro/qml/qcoroqmltask.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qcoro/qml/qcoroqmltask.cpp b/qcoro/qml/qcoroqmltask.cpp
index e81d62e..c92485a 100644
--- a/qcoro/qml/qcoroqmltask.cpp
+++ b/qcoro/qml/qcoroqmltask.cpp
@@ -84,6 +84,11 @@ QmlTaskListener *QmlTask::await(const QVariant &intermediateValue)
     if (!intermediateValue.isNull()) {
         listener->setValue(QVariant(intermediateValue));
     }
+    if (!d->task) {
+        qCWarning(qcoroqml, ".await called on a QmlTask that is not connected to any coroutine. "
+                            "Make sure you don't default-construct QmlTask in your code");
+        return listener;
+    }
     d->task->then([listener](auto &&value) {
         if (listener) {
             listener->setValue(std::move(value));
-- 
2.43.0


From 2181793191bf292dc923f12aa73c6d3ed2a048b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:22 +0000
Subject: [PATCH 35/48] fix: keep the result of a QmlTask for everyone who
 awaits it

---
 qcoro/qml/qcoroqmltask.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/qcoro/qml/qcoroqmltask.cpp b/qcoro/qml/qcoroqmltask.cpp
index c92485a..2ab2d55 100644
--- a/qcoro/qml/qcoroqmltask.cpp
+++ b/qcoro/qml/qcoroqmltask.cpp
@@ -20,8 +20,17 @@ Q_LOGGING_CATEGORY(qcoroqml, "qcoro.qml")
 
 namespace QCoro {
 
+// The task can be awaited many times, so its result must not be moved out of it.
+struct QmlTaskResult {
+    explicit QmlTaskResult(const QVariant &value = {}) : value(value) {}
+    QmlTaskResult(const QmlTaskResult &) = default;
+    QmlTaskResult &operator=(const QmlTaskResult &) = default;
+
+    QVariant value;
+};
+
 struct QmlTaskPrivate : public QSharedData {
-    std::optional<QCoro::Task<QVariant>> task;
+    std::optional<QCoro::Task<QmlTaskResult>> task;
 
     QmlTaskPrivate() = default;
     QmlTaskPrivate(const QmlTaskPrivate &) : QSharedData() {
@@ -49,7 +58,9 @@ QmlTask::QmlTask() noexcept : d(new QmlTaskPrivate())
 QmlTask::QmlTask(QCoro::Task<QVariant> &&task)
     : d(new QmlTaskPrivate())
 {
-    d->task = std::move(task);
+    d->task = std::move(task).then([](QVariant &&result) {
+        return QmlTaskResult(result);
+    });
 }
 
 QmlTask &QmlTask::operator=(const QmlTask &other) = default;
@@ -68,12 +79,12 @@ void QmlTask::then(QJSValue func) {
         return;
     }
 
-    d->task->then([func = std::move(func)](const QVariant &result) mutable -> void {
+    d->task->then([func = std::move(func)](const QmlTaskResult &result) mutable -> void {
         auto *engine = getEngineForValue(func);
         if (!engine) { // has been destroyed in the meantime, and the function with it
             return;
         }
-        auto jsval = engine->toScriptValue(result);
+        auto jsval = engine->toScriptValue(result.value);
         func.call({jsval});
     });
 }
@@ -89,9 +100,9 @@ QmlTaskListener *QmlTask::await(const QVariant &intermediateValue)
                             "Make sure you don't default-construct QmlTask in your code");
         return listener;
     }
-    d->task->then([listener](auto &&value) {
+    d->task->then([listener](const QmlTaskResult &result) {
         if (listener) {
-            listener->setValue(std::move(value));
+            listener->setValue(QVariant(result.value));
         }
     });
     return listener;
-- 
2.43.0


From a5bbb396758611990dde12a5adcad1bd168b1531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 36/48] fix: do not move from an object that outlives the
 coroutine when it is co_returned

---
 qcoro/impl/taskpromise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/impl/taskpromise.h b/qcoro/impl/taskpromise.h
index 2baf671..5913bff 100644
--- a/qcoro/impl/taskpromise.h
+++ b/qcoro/impl/taskpromise.h
@@ -38,7 +38,7 @@ inline void TaskPromise<T>::return_value(const T &value) noexcept {
 template<typename T>
 template<typename U> requires QCoro::concepts::constructible_from<T, U>
 inline void TaskPromise<T>::return_value(U &&value) noexcept {
-    mValue = std::move(value);
+    mValue = std::forward<U>(value);
 }
 
 template<typename T>
-- 
2.43.0


From bb32b045df9440406dbac6462dc2a3d56d1667b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 37/48] fix: image responses destroyed before their coroutine
 finishes

---
 qcoro/quick/qcoroimageprovider.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/qcoro/quick/qcoroimageprovider.cpp b/qcoro/quick/qcoroimageprovider.cpp
index 72361c7..7d7db85 100644
--- a/qcoro/quick/qcoroimageprovider.cpp
+++ b/qcoro/quick/qcoroimageprovider.cpp
@@ -4,6 +4,8 @@
 
 #include "qcoroimageprovider.h"
 
+#include <QPointer>
+
 namespace QCoro {
 
 // Internal implementation of the QQuickImageResponse interface
@@ -25,8 +27,11 @@ QQuickImageResponse *ImageProvider::requestImageResponse(const QString &id, cons
 
     auto *response = new QCoroImageResponse();
 
-    task.then([response](QImage &&image) {
-        response->reportFinished(std::move(image));
+    // The response may be destroyed before the coroutine finishes
+    task.then([response = QPointer(response)](QImage &&image) {
+        if (response) {
+            response->reportFinished(std::move(image));
+        }
     });
 
     return response;
-- 
2.43.0


From a1db09cf832db3dbca2946e8bea6de56b11f4d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:49 +0000
Subject: [PATCH 38/48] fix: finish image responses whose coroutine fails

---
 qcoro/quick/qcoroimageprovider.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/qcoro/quick/qcoroimageprovider.cpp b/qcoro/quick/qcoroimageprovider.cpp
index 7d7db85..0904437 100644
--- a/qcoro/quick/qcoroimageprovider.cpp
+++ b/qcoro/quick/qcoroimageprovider.cpp
@@ -13,10 +13,13 @@ class QCoroImageResponse : public QQuickImageResponse {
 
 public:
     QQuickTextureFactory *textureFactory() const override;
+    QString errorString() const override;
     void reportFinished(QImage &&image);
+    void reportError(const QString &errorString);
 
 private:
     QImage m_image;
+    QString m_errorString;
 };
 
 
@@ -32,6 +35,11 @@ QQuickImageResponse *ImageProvider::requestImageResponse(const QString &id, cons
         if (response) {
             response->reportFinished(std::move(image));
         }
+    }, [response = QPointer(response)](const std::exception &e) {
+        // Qt waits for the response to finish, even if there will be no image
+        if (response) {
+            response->reportError(QString::fromUtf8(e.what()));
+        }
     });
 
     return response;
@@ -41,6 +49,15 @@ QQuickTextureFactory *QCoroImageResponse::textureFactory() const {
     return QQuickTextureFactory::textureFactoryForImage(m_image);
 }
 
+QString QCoroImageResponse::errorString() const {
+    return m_errorString;
+}
+
+void QCoroImageResponse::reportError(const QString &errorString) {
+    m_errorString = errorString;
+    Q_EMIT finished();
+}
+
 void QCoroImageResponse::reportFinished(QImage &&image) {
     m_image = image;
     Q_EMIT finished();
-- 
2.43.0


From f35f56a62df03dfe8618d185a8176d7b704dd88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:42 +0000
Subject: [PATCH 39/48] fix: waitFor() a task that finishes in another thread

The wait was ended from the thread in which the coroutine finished: a data
race on WaitContext, a wake-up lost when the waiting thread was just about
to enter the event loop, and a use of the context after waitFor() returned.
---
 qcoro/impl/waitfor.h | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/qcoro/impl/waitfor.h b/qcoro/impl/waitfor.h
index 40a5993..a7f3bcd 100644
--- a/qcoro/impl/waitfor.h
+++ b/qcoro/impl/waitfor.h
@@ -11,6 +11,8 @@
 #include "../qcorotask.h"
 
 #include <QEventLoop>
+#include <QMetaObject>
+#include <QThread>
 
 #include <optional>
 
@@ -30,6 +32,21 @@ struct WaitContext {
     QEventLoop loop;
     bool coroutineFinished = false;
     std::exception_ptr exception;
+
+    void finish() {
+        coroutineFinished = true;
+        loop.quit();
+    }
+
+    //! Ends the wait. Must be the last access to the context from the coroutine.
+    void finishFromCoroutine() {
+        if (QThread::currentThread() == loop.thread()) {
+            finish();
+        } else {
+            // The waiting thread may be just about to enter the loop or to return.
+            QMetaObject::invokeMethod(&loop, [this]() { finish(); }, Qt::QueuedConnection);
+        }
+    }
 };
 
 //! Helper class to run a coroutine in a nested event loop.
@@ -48,8 +65,7 @@ Task<> runCoroutine(WaitContext &context, Awaitable &&awaitable) {
     } catch (...) {
         context.exception = std::current_exception();
     }
-    context.coroutineFinished = true;
-    context.loop.quit();
+    context.finishFromCoroutine();
 }
 
 template<typename T, Awaitable Awaitable>
@@ -59,8 +75,7 @@ Task<> runCoroutine(WaitContext &context, std::optional<T> &result, Awaitable &&
     } catch (...) {
         context.exception = std::current_exception();
     }
-    context.coroutineFinished = true;
-    context.loop.quit();
+    context.finishFromCoroutine();
 }
 
 template<typename T, Awaitable Awaitable>
-- 
2.43.0


From 759094af6d84d551eee46535256fd063b351cafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:43 +0000
Subject: [PATCH 40/48] fix: wait for data and for written bytes of sockets
 that are connecting or bound

QCoroAbstractSocket gave up at once in every state but ConnectedState: write() on a
connecting socket reported 0 bytes although the socket had taken all of them and
sent them later, and reads ended without data.
---
 qcoro/network/qcoroabstractsocket.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qcoro/network/qcoroabstractsocket.cpp b/qcoro/network/qcoroabstractsocket.cpp
index 6258b54..9a7e9ce 100644
--- a/qcoro/network/qcoroabstractsocket.cpp
+++ b/qcoro/network/qcoroabstractsocket.cpp
@@ -105,7 +105,7 @@ QCoroAbstractSocket::QCoroAbstractSocket(QAbstractSocket *socket)
 
 QCoro::Task<std::optional<bool>> QCoroAbstractSocket::waitForReadyReadImpl(std::chrono::milliseconds timeout) {
     const auto *socket = static_cast<QAbstractSocket *>(mDevice.data());
-    if (socket->state() != QAbstractSocket::ConnectedState) {
+    if (socket->state() == QAbstractSocket::UnconnectedState || socket->state() == QAbstractSocket::ClosingState) {
         co_return false;
     }
 
@@ -115,7 +115,7 @@ QCoro::Task<std::optional<bool>> QCoroAbstractSocket::waitForReadyReadImpl(std::
 
 QCoro::Task<std::optional<qint64>> QCoroAbstractSocket::waitForBytesWrittenImpl(std::chrono::milliseconds timeout) {
     const auto *socket = static_cast<QAbstractSocket *>(mDevice.data());
-    if (socket->state() != QAbstractSocket::ConnectedState) {
+    if (socket->state() == QAbstractSocket::UnconnectedState || socket->state() == QAbstractSocket::ClosingState) {
         co_return std::nullopt;
     }
 
-- 
2.43.0


From 51d90432c5af5906cf437384a63faeaa37ed32ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 41/48] fix: finish image responses whose coroutine throws
 something that is not a std::exception

The error callback of then() is called with std::exceptions only, so the response
never finished and Qt Quick waited for it forever.
---
 qcoro/quick/qcoroimageprovider.cpp | 36 +++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/qcoro/quick/qcoroimageprovider.cpp b/qcoro/quick/qcoroimageprovider.cpp
index 0904437..1390633 100644
--- a/qcoro/quick/qcoroimageprovider.cpp
+++ b/qcoro/quick/qcoroimageprovider.cpp
@@ -6,6 +6,8 @@
 
 #include <QPointer>
 
+#include <optional>
+
 namespace QCoro {
 
 // Internal implementation of the QQuickImageResponse interface
@@ -22,6 +24,28 @@ private:
     QString m_errorString;
 };
 
+// The response may be destroyed before the coroutine finishes
+static Task<> reportResult(Task<QImage> task, QPointer<QCoroImageResponse> response) {
+    QImage image;
+    std::optional<QString> error;
+    try {
+        image = co_await task;
+    } catch (const std::exception &e) {
+        error = QString::fromUtf8(e.what());
+    } catch (...) {
+        error = QStringLiteral("Unknown exception");
+    }
+
+    if (!response) {
+        co_return;
+    }
+    if (error) {
+        // Qt waits for the response to finish, even if there will be no image
+        response->reportError(*error);
+    } else {
+        response->reportFinished(std::move(image));
+    }
+}
 
 ImageProvider::ImageProvider() = default;
 
@@ -30,17 +54,7 @@ QQuickImageResponse *ImageProvider::requestImageResponse(const QString &id, cons
 
     auto *response = new QCoroImageResponse();
 
-    // The response may be destroyed before the coroutine finishes
-    task.then([response = QPointer(response)](QImage &&image) {
-        if (response) {
-            response->reportFinished(std::move(image));
-        }
-    }, [response = QPointer(response)](const std::exception &e) {
-        // Qt waits for the response to finish, even if there will be no image
-        if (response) {
-            response->reportError(QString::fromUtf8(e.what()));
-        }
-    });
+    reportResult(std::move(task), response);
 
     return response;
 }
-- 
2.43.0


From f3e914f1d5f7d01a344ee633504726954a414b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:37 +0000
Subject: [PATCH 42/48] fix: let waitFor() wait for the coroutine even when the
 application is told to quit

---
 qcoro/impl/waitfor.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/qcoro/impl/waitfor.h b/qcoro/impl/waitfor.h
index a7f3bcd..ea2c7bf 100644
--- a/qcoro/impl/waitfor.h
+++ b/qcoro/impl/waitfor.h
@@ -38,6 +38,18 @@ struct WaitContext {
         loop.quit();
     }
 
+    //! Returns once the coroutine has finished.
+    void wait() {
+        if (!coroutineFinished) {
+            loop.exec();
+        }
+        // The loop also ends when the application (or the thread) is told to quit, but the coroutine still refers
+        // to this context, and there is no result to return yet.
+        while (!coroutineFinished) {
+            loop.processEvents(QEventLoop::WaitForMoreEvents);
+        }
+    }
+
     //! Ends the wait. Must be the last access to the context from the coroutine.
     void finishFromCoroutine() {
         if (QThread::currentThread() == loop.thread()) {
@@ -83,18 +95,14 @@ T waitFor(Awaitable &&awaitable) {
     WaitContext context;
     if constexpr (std::is_void_v<T>) {
         runCoroutine(context, std::forward<Awaitable>(awaitable));
-        if (!context.coroutineFinished) {
-            context.loop.exec();
-        }
+        context.wait();
         if (context.exception) {
             std::rethrow_exception(context.exception);
         }
     } else {
         std::optional<T> result;
         runCoroutine(context, result, std::forward<Awaitable>(awaitable));
-        if (!context.coroutineFinished) {
-            context.loop.exec();
-        }
+        context.wait();
         if (context.exception) {
             std::rethrow_exception(context.exception);
         }
-- 
2.43.0


From 2733a0e5b4d00f6fdd764ed4e8caf0d019849cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:37 +0000
Subject: [PATCH 43/48] fix: deliver exceptions thrown while a coroutine stores
 its result

---
 qcoro/impl/taskpromise.h |  8 ++++----
 qcoro/qcorotask.h        | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/qcoro/impl/taskpromise.h b/qcoro/impl/taskpromise.h
index 5913bff..738c72b 100644
--- a/qcoro/impl/taskpromise.h
+++ b/qcoro/impl/taskpromise.h
@@ -26,24 +26,24 @@ inline void TaskPromise<T>::unhandled_exception() {
 }
 
 template<typename T>
-inline void TaskPromise<T>::return_value(T &&value) noexcept {
+inline void TaskPromise<T>::return_value(T &&value) {
     mValue.template emplace<T>(std::forward<T>(value));
 }
 
 template<typename T>
-inline void TaskPromise<T>::return_value(const T &value) noexcept {
+inline void TaskPromise<T>::return_value(const T &value) {
     mValue = value;
 }
 
 template<typename T>
 template<typename U> requires QCoro::concepts::constructible_from<T, U>
-inline void TaskPromise<T>::return_value(U &&value) noexcept {
+inline void TaskPromise<T>::return_value(U &&value) {
     mValue = std::forward<U>(value);
 }
 
 template<typename T>
 template<typename U> requires QCoro::concepts::constructible_from<T, U>
-inline void TaskPromise<T>::return_value(const U &value) noexcept {
+inline void TaskPromise<T>::return_value(const U &value) {
     mValue = value;
 }
 
diff --git a/qcoro/qcorotask.h b/qcoro/qcorotask.h
index e77c26d..646532d 100644
--- a/qcoro/qcorotask.h
+++ b/qcoro/qcorotask.h
@@ -219,16 +219,16 @@ public:
      * \param[in] value the value returned by the coroutine. It is stored in the
      *            promise, later can be retrieved by the calling coroutine.
      */
-    void return_value(T &&value) noexcept;
+    void return_value(T &&value);
 
-    //! \copydoc template<typename T> TaskPromise::return_value(T &&value) noexcept
-    void return_value(const T &value) noexcept;
+    //! \copydoc template<typename T> TaskPromise::return_value(T &&value)
+    void return_value(const T &value);
 
     template<typename U> requires QCoro::concepts::constructible_from<T, U>
-    void return_value(U &&value) noexcept;
+    void return_value(U &&value);
 
     template<typename U> requires QCoro::concepts::constructible_from<T, U>
-    void return_value(const U &value) noexcept;
+    void return_value(const U &value);
 
     //! Retrieves the result of the coroutine.
     /*!
-- 
2.43.0


From 229d6b38ea8b0f7414c83908dfe5a55c2ee25945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:37 +0000
Subject: [PATCH 44/48] fix: let sleepFor() sleep for longer than an int of
 milliseconds

---
 qcoro/core/qcorotimer.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/qcoro/core/qcorotimer.h b/qcoro/core/qcorotimer.h
index 0007be2..a91782f 100644
--- a/qcoro/core/qcorotimer.h
+++ b/qcoro/core/qcorotimer.h
@@ -13,6 +13,7 @@
 
 #include <algorithm>
 #include <chrono>
+#include <limits>
 
 /*! \cond internal */
 
@@ -62,9 +63,14 @@ template<typename Rep, typename Period>
 QCoro::Task<> sleepFor(const std::chrono::duration<Rep, Period> &timeout) {
     QTimer timer;
     timer.setSingleShot(true);
-    // QTimer does not start with a negative interval, yet claims to be active.
-    timer.start(std::max(std::chrono::ceil<std::chrono::milliseconds>(timeout), std::chrono::milliseconds::zero()));
-    co_await timer;
+    // QTimer does not start with a negative interval, yet claims to be active, and its interval is an int.
+    auto remaining = std::max(std::chrono::ceil<std::chrono::milliseconds>(timeout), std::chrono::milliseconds::zero());
+    do {
+        const auto interval = std::min(remaining, std::chrono::milliseconds{std::numeric_limits<int>::max()});
+        timer.start(interval);
+        co_await timer;
+        remaining -= interval;
+    } while (remaining > std::chrono::milliseconds::zero());
 }
 
 //! A coroutine that suspends until the specified time.
-- 
2.43.0


From 6cf05167ab1a870fd1311c7052e9dc2ee8333203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:37 +0000
Subject: [PATCH 45/48] fix: wait for signals for longer than an int of
 milliseconds

---
 qcoro/core/qcorosignal.h | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/qcoro/core/qcorosignal.h b/qcoro/core/qcorosignal.h
index a8ca5e0..5c9beac 100644
--- a/qcoro/core/qcorosignal.h
+++ b/qcoro/core/qcorosignal.h
@@ -14,7 +14,10 @@
 #include <QPointer>
 #include <QTimer>
 
+#include <algorithm>
 #include <cassert>
+#include <chrono>
+#include <limits>
 #include <optional>
 #include <deque>
 #include <tuple>
@@ -113,19 +116,23 @@ public:
             QObject::disconnect(mTimeoutConn);
             mTimeoutConn = QObject::connect(mTimeoutTimer.get(), &QTimer::timeout, mTimeoutTimer.get(),
                 [this, awaitingCoroutine]() {
+                    if (mRemainingTimeout > std::chrono::milliseconds::zero()) {
+                        startTimeoutTimer();
+                        return;
+                    }
                     QObject::disconnect(mConn);
                     awaitingCoroutine.resume();
                 }, Qt::DirectConnection); // force coro to be resumed on our thread, not mObj's thread
-            mTimeoutTimer->start();
+            mRemainingTimeout = mTimeout;
+            startTimeoutTimer();
         }
     }
 
 protected:
     QCoroSignalBase(T *obj, FuncPtr &&funcPtr, std::chrono::milliseconds timeout)
-        : mObj(obj), mFuncPtr(std::forward<FuncPtr>(funcPtr)) {
+        : mObj(obj), mFuncPtr(std::forward<FuncPtr>(funcPtr)), mTimeout(timeout) {
         if (timeout.count() > -1) {
             mTimeoutTimer = std::make_unique<QTimer>();
-            mTimeoutTimer->setInterval(timeout);
             mTimeoutTimer->setSingleShot(true);
         }
     }
@@ -163,6 +170,17 @@ protected:
     QMetaObject::Connection mConn;
     QMetaObject::Connection mTimeoutConn;
     std::unique_ptr<QTimer> mTimeoutTimer;
+
+private:
+    void startTimeoutTimer() {
+        // The interval of a QTimer is an int
+        const auto interval = std::min(mRemainingTimeout, std::chrono::milliseconds{std::numeric_limits<int>::max()});
+        mRemainingTimeout -= interval;
+        mTimeoutTimer->start(interval);
+    }
+
+    std::chrono::milliseconds mTimeout;
+    std::chrono::milliseconds mRemainingTimeout{0};
 };
 
 template<concepts::QObject T, typename FuncPtr>
-- 
2.43.0


From b70f7c544664427c9afae690a1cf534faa36e8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:38 +0000
Subject: [PATCH 46/48] fix: wait for connections for longer than an int of
 milliseconds

---
 qcoro/network/qcorotcpserver.cpp          | 17 +++++++++++++++--
 qcoro/websockets/qcorowebsocketserver.cpp | 17 +++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/qcoro/network/qcorotcpserver.cpp b/qcoro/network/qcorotcpserver.cpp
index fff404c..7a9b6d4 100644
--- a/qcoro/network/qcorotcpserver.cpp
+++ b/qcoro/network/qcorotcpserver.cpp
@@ -8,6 +8,9 @@
 #include <QTcpServer>
 #include <QTimer>
 
+#include <algorithm>
+#include <limits>
+
 using namespace QCoro::detail;
 
 QCoroTcpServer::WaitForNewConnectionOperation::WaitForNewConnectionOperation(QTcpServer *server, int timeout_msecs)
@@ -46,13 +49,23 @@ QCoro::Task<QTcpSocket *> QCoroTcpServer::waitForNewConnection(std::chrono::mill
 
     QTimer timer;
     timer.setSingleShot(true);
+    auto remaining = timeout;
+    const auto startTimer = [&timer, &remaining]() {
+        // The interval of a QTimer is an int
+        const auto interval = std::min(remaining, std::chrono::milliseconds{std::numeric_limits<int>::max()});
+        remaining -= interval;
+        timer.start(interval);
+    };
     if (timeout.count() >= 0) {
-        timer.start(timeout);
+        startTimer();
     }
     // Someone else may take the new connection before this coroutine is resumed
     while (server && server->isListening() && !server->hasPendingConnections()) {
         if (timeout.count() >= 0 && !timer.isActive()) {
-            break;
+            if (remaining.count() == 0) {
+                break;
+            }
+            startTimer();
         }
         co_await qCoro(server.data(), &QTcpServer::newConnection,
                        timer.isActive() ? timer.remainingTimeAsDuration() : timeout);
diff --git a/qcoro/websockets/qcorowebsocketserver.cpp b/qcoro/websockets/qcorowebsocketserver.cpp
index d2ca378..c831149 100644
--- a/qcoro/websockets/qcorowebsocketserver.cpp
+++ b/qcoro/websockets/qcorowebsocketserver.cpp
@@ -10,6 +10,9 @@
 #include <QWebSocket>
 #include <QWebSocketServer>
 
+#include <algorithm>
+#include <limits>
+
 using namespace QCoro::detail;
 
 namespace {
@@ -56,15 +59,25 @@ QCoro::Task<QWebSocket *> QCoroWebSocketServer::nextPendingConnection(std::chron
 
     QTimer timer;
     timer.setSingleShot(true);
+    auto remaining = timeout;
+    const auto startTimer = [&timer, &remaining]() {
+        // The interval of a QTimer is an int
+        const auto interval = std::min(remaining, std::chrono::milliseconds{std::numeric_limits<int>::max()});
+        remaining -= interval;
+        timer.start(interval);
+    };
     if (timeout.count() >= 0) {
-        timer.start(timeout);
+        startTimer();
     }
     QCoroWebSocketServerSignalListener listener(server);
     // The connection stays with the server until this coroutine is resumed, someone else may
     // have taken it by then.
     while (server && !listener.isClosed() && !server->hasPendingConnections()) {
         if (timeout.count() >= 0 && !timer.isActive()) {
-            break;
+            if (remaining.count() == 0) {
+                break;
+            }
+            startTimer();
         }
         co_await qCoro(&listener, &QCoroWebSocketServerSignalListener::ready,
                        timer.isActive() ? timer.remainingTimeAsDuration() : timeout);
-- 
2.43.0


From d7b5ac068acd0025329f43a0ab7c3fdb441c02b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:57 +0000
Subject: [PATCH 47/48] fix: do not report data as written that a socket
 dropped when its connection ended

The peer's end of a connection (or an error) empties the write buffer of a socket, which stays open. write() took
that for everything having been sent.
---
 qcoro/core/qcoroiodevice.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index d1cfd69..3db7f6d 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -106,9 +106,6 @@ QCoro::Task<qint64> QCoroIODevice::write(const QByteArray &buffer) {
         }
     }
 
-    if (device && device->isOpen() && device->bytesToWrite() == 0) {
-        co_return bytesWritten;
-    }
     co_return std::clamp<qint64>(bytesWritten - bytesPending, 0, bytesWritten);
 }
 
-- 
2.43.0


From a8a94fba0cb899000f79efc0154150abf5b491bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:46 +0000
Subject: [PATCH 48/48] fix: do not end sleeps early because of coarse timers

---
 qcoro/core/qcorotimer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qcoro/core/qcorotimer.h b/qcoro/core/qcorotimer.h
index a91782f..7eb5a50 100644
--- a/qcoro/core/qcorotimer.h
+++ b/qcoro/core/qcorotimer.h
@@ -63,6 +63,8 @@ template<typename Rep, typename Period>
 QCoro::Task<> sleepFor(const std::chrono::duration<Rep, Period> &timeout) {
     QTimer timer;
     timer.setSingleShot(true);
+    // A coarse timer may time out before its interval has passed, but a sleep must not end early.
+    timer.setTimerType(Qt::PreciseTimer);
     // QTimer does not start with a negative interval, yet claims to be active, and its interval is an int.
     auto remaining = std::max(std::chrono::ceil<std::chrono::milliseconds>(timeout), std::chrono::milliseconds::zero());
     do {
-- 
2.43.0

