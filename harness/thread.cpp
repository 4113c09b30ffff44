// C13: waiting for threads, and moving coroutines between threads.
#include "vh.h"
#include <chrono>
#include <thread>
#include <qcorosignal.h>
#include <qcorotask.h>
#include <qcorothread.h>
#include <qcorotimer.h>

using namespace vh;
using QCoro::Task;
using std::chrono::milliseconds;

static void spin(int n) { for (volatile int i = 0; i < n; i = i + 1) {} }

struct Thr : QThread {
    int id; bool loop; int work; // loop: runs an event loop
    std::atomic<bool> began{false}, ending{false};
    bool asked = false, startCalled = false, endSeen = false, quitCalled = false;
    Thr(int i, bool l, int w) : id(i), loop(l), work(w) {}
    void run() override { began = true; if (loop) exec(); else spin(work); ending = true; }
    // all that follows from the start (the end) has been posted
    bool beganForSure() { return began; }
    bool endedForSure() { if (!endSeen && startCalled && ending && wait(QDeadlineTimer(0))) endSeen = true; return endSeen; }
};
struct Rec { int id; Thr *thr; bool forFinish; qint64 due = -1; bool over = false; int n = 0; bool late = false; };
struct Hop { int id; std::atomic<int> segments{0}; std::atomic<bool> done{false}; std::atomic<bool> stuckOk{false}; };
struct World { std::vector<std::unique_ptr<Thr>> thrs; std::vector<std::unique_ptr<Rec>> recs; std::vector<std::unique_ptr<Hop>> hops; };
static World *W;
static QThread *mainThread;
static std::atomic<qint64> vnow{0};

static Task<> waiter(Rec *r, uint64_t seed) {
    Rng g(seed);
    Tracked local(1);
    auto *d = VDispatcher::instance();
    Thr *t = r->thr;
    int timeout = g.chance(1, 2) ? -1 : g.below(30);
    bool immediate = false, result;
    long e0;
    // what is known about the thread now; what is not known may be either
    bool ended = t->endedForSure(), notStarted = !t->startCalled, running = t->startCalled && t->loop && !t->quitCalled;
    ev("wait %d for the %s of %d, timeout %d", r->id, r->forFinish ? "end" : "start", t->id, timeout);
    if (timeout >= 0) r->due = d->now + timeout;
    {
        auto q = g.chance(1, 2) ? qCoro(t) : qCoro(*t);
        e0 = run().counters["events"];
        int spinFor = g.chance(1, 2) ? 0 : g.below(400);
        spin(spinFor);
        const long steps = d->steps;
        if (g.chance(1, 4)) {
            auto w = r->forFinish ? q.waitForFinished(milliseconds(timeout)) : q.waitForStarted(milliseconds(timeout));
            immediate = w.isReady();
            if (g.chance(1, 3)) { r->late = true; co_await QCoro::sleepFor(milliseconds(g.below(10))); }
            result = co_await w;
        } else {
            if (timeout < 0 && g.chance(1, 3)) { if (r->forFinish) result = co_await q.waitForFinished(); else result = co_await q.waitForStarted(); }
            else if (r->forFinish) result = co_await q.waitForFinished(milliseconds(timeout));
            else result = co_await q.waitForStarted(milliseconds(timeout));
            immediate = steps == d->steps;
        }
    }
    (void)e0;
    ++r->n; r->over = true;
    ev("wait %d ends: %d", r->id, result);
    count("thread_waits");
    VH_CHECK("C13", "resumed-twice", r->n == 1, "wait %d was resumed %d times", r->id, r->n);
    VH_CHECK("C13", "interfered", t->asked || !t->isInterruptionRequested(), "thread %d has been asked to stop by nobody when wait %d ended", t->id, r->id);
    VH_CHECK("C13", "wrong-thread", QThread::currentThread() == mainThread, "wait %d was resumed in another thread", r->id);
    if (r->forFinish) {
        if (result) VH_CHECK("C13", "not-finished", t->startCalled && t->ending && t->isFinished(), "wait %d says that thread %d has finished", r->id, t->id);
        else VH_CHECK("C13", "false-without-timeout", !ended && (notStarted || (timeout >= 0 && d->now >= r->due)), "wait %d for the end of thread %d (%s) failed at %lld, %s %lld", r->id, t->id, ended ? "finished" : "started", (long long)d->now, timeout >= 0 ? "due at" : "without a timeout", (long long)r->due);
        if (ended || notStarted) VH_CHECK("C13", "needless-suspension", immediate, "wait %d for the end of thread %d, which %s, gave up control", r->id, t->id, ended ? "has ended" : "is not running");
    } else {
        if (result) VH_CHECK("C13", "not-started", t->startCalled, "wait %d says that thread %d has started", r->id, t->id);
        else VH_CHECK("C13", "false-without-timeout", (!notStarted && !running) || (timeout >= 0 && d->now >= r->due), "wait %d for the start of thread %d failed at %lld, %s %lld", r->id, t->id, (long long)d->now, timeout >= 0 ? "due at" : "without a timeout", (long long)r->due);
        if (ended || running) VH_CHECK("C13", "needless-suspension", immediate, "wait %d for the start of thread %d, which %s, gave up control", r->id, t->id, ended ? "has ended" : "is running");
        if (running && !ended) VH_CHECK("C13", "running-not-seen", result, "wait %d says that the running thread %d has not started", r->id, t->id);
        if (ended) VH_CHECK("C13", "finished-taken-for-started", !result, "wait %d says that the finished thread %d has been started", r->id, t->id);
    }
    local.check();
}

#define HERE(target, what) do { VH_CHECK("C13", "wrong-thread", QThread::currentThread() == (target), "coroutine %d is in the wrong thread %s", h->id, what); } while (0)
static Task<int> innerHop(Hop *h, QThread *from, QThread *to, int v) {
    Tracked a(v);
    HERE(from, "at the start of a nested coroutine");
    co_await QCoro::moveToThread(to);
    HERE(to, "after moving a nested coroutine");
    a.check();
    co_return a.value;
}
struct Failure { int value; };
static Task<> throwingHop(Hop *h, QThread *from, QThread *to, int v) {
    Tracked a(v);
    HERE(from, "at the start of a nested coroutine");
    co_await QCoro::moveToThread(to);
    HERE(to, "after moving a nested coroutine");
    a.check();
    throw Failure{v};
}
static Task<> hopper(Hop *h, uint64_t seed, std::vector<QThread *> targets) {
    Rng g(seed);
    Tracked a(17), b(23);
    QByteArray data = g.bytes(100);
    const auto sum = qHash(data);
    QThread *cur = QThread::currentThread();
    int n = g.range(1, 6), done = 0;
    for (int i = 0; i < n; ++i) {
        QThread *to = g.pick(targets);
        int how = g.below(9);
        if (how == 8) { // an exception crosses from thread to thread with the coroutine
            ev("hop %d throws", h->id);
            int caught = -1;
            try { co_await throwingHop(h, cur, to, i); } catch (const Failure &f) { caught = f.value; }
            VH_CHECK("C13", "state-lost", caught == i, "coroutine %d caught %d instead of %d from a nested coroutine that moved", h->id, caught, i);
            HERE(QThread::currentThread() == cur ? cur : to, "after a nested coroutine moved and failed");
            cur = QThread::currentThread();
        } else if (how < 4) {
            ev("hop %d", h->id);
            if (how == 3) { // kept, and moved, before it is awaited
                auto first = QCoro::moveToThread(to);
                QCoro::ThreadContext kept(std::move(first));
                co_await kept;
            } else co_await QCoro::moveToThread(to);
            cur = to;
        } else if (how == 4) {
            ev("hop %d nested", h->id);
            int v = co_await innerHop(h, cur, to, i);
            VH_CHECK("C13", "state-lost", v == i, "coroutine %d got %d instead of %d from a nested coroutine", h->id, v, i);
            // resumed by the nested coroutine, or never suspended, if that was faster in its thread
            HERE(QThread::currentThread() == cur ? cur : to, "after a nested coroutine moved");
            cur = QThread::currentThread();
        } else if (how == 5) {
            co_await QCoro::sleepFor(milliseconds(g.below(3)));
        } else if (how == 6) {
            QTimer t;
            t.start(g.below(3));
            co_await qCoro(&t, &QTimer::timeout);
        } else {
            QTimer t;
            t.setSingleShot(true);
            t.start(g.below(3));
            co_await t;
        }
        HERE(cur, how <= 4 || how == 8 ? "after moving" : "after awaiting something there");
        a.check(); b.check();
        VH_CHECK("C13", "state-lost", a.value == 17 && b.value == 23 && qHash(data) == sum && done == i, "coroutine %d lost its state", h->id);
        ++done;
        count("segments");
        ++h->segments;
    }
    bool was = h->done.exchange(true);
    VH_CHECK("C13", "resumed-twice", !was, "coroutine %d ended twice", h->id);
}
static void quiet() {
    auto *d = VDispatcher::instance();
    std::vector<bool> began, ended;
    for (auto &t : W->thrs) { began.push_back(t->beganForSure()); ended.push_back(t->endedForSure()); }
    d->settle();
    for (auto &r : W->recs) {
        if (r->over || r->late) continue;
        size_t i = size_t(r->thr->id);
        if (r->forFinish ? ended[i] : began[i]) violation("C13", "not-resumed", "wait %d was not resumed although thread %d has %s", r->id, r->thr->id, r->forFinish ? "finished" : "started");
        else if (r->due >= 0 && r->due <= d->now) violation("C13", "timeout-missing", "wait %d was not resumed although its timeout was due at %lld (now %lld)", r->id, (long long)r->due, (long long)d->now);
    }
    count("quiet_checks");
}
static void poll(int n) { auto *d = VDispatcher::instance(); while (n--) { d->settle(); usleep(30); } }
static void startThr(Thr *t) { if (t->startCalled) return; ev("start %d", t->id); t->startCalled = true; t->start(); }

static void caseC13(Rng &g) {
    auto *d = VDispatcher::instance();
    d->reset(&g);
    const long live0 = Tracked::live;
    {
        World w;
        W = &w;
        int nt = g.range(1, 3);
        std::vector<QThread *> targets{mainThread};
        for (int i = 0; i < nt; ++i) {
            w.thrs.push_back(std::make_unique<Thr>(i, g.chance(1, 2), g.chance(1, 2) ? 0 : g.below(20000)));
            if (w.thrs.back()->loop) targets.push_back(w.thrs.back().get());
        }
        auto newWait = [&](Thr *t) {
            auto r = std::make_unique<Rec>();
            r->id = int(w.recs.size()); r->thr = t; r->forFinish = g.chance(1, 2);
            Rec *p = r.get();
            w.recs.push_back(std::move(r));
            waiter(p, g.next());
        };
        int rounds = g.range(4, 16);
        for (int i = 0; i < rounds; ++i) {
            Thr *t = w.thrs[size_t(g.below(nt))].get();
            switch (g.below(8)) {
            case 7: // what a program may tell a thread without any effect on its coroutines
                if (!t->startCalled) break;
                if (g.chance(2, 3)) { ev("ask %d to stop", t->id); t->asked = true; t->requestInterruption(); }
                else if (t->isRunning()) t->setPriority(g.chance(1, 2) ? QThread::LowPriority : QThread::NormalPriority);
                break;
            case 0: case 1: if (w.recs.size() < 16) newWait(t); break;
            case 2: if (!t->startCalled) { startThr(t); if (g.chance(1, 2)) newWait(t); } break;
            case 3: if (targets.size() > 1 && w.hops.size() < 4) {
                auto h = std::make_unique<Hop>();
                h->id = int(w.hops.size());
                Hop *p = h.get();
                w.hops.push_back(std::move(h));
                hopper(p, g.next(), targets);
                break;
            }
            break;
            case 4: d->step(); break;
            case 5: poll(g.range(1, 5)); quiet(); break;
            default: ev("advance"); d->advanceBy(g.below(20)); quiet();
            }
        }
        ev("closing");
        for (auto &t : w.thrs) startThr(t.get());
        // every coroutine reaches its end, in real time
        auto end = std::chrono::steady_clock::now() + std::chrono::seconds(30);
        for (auto &h : w.hops) while (!h->done) {
            d->settle();
            if (!d->timers.empty()) d->advanceBy(1);
            usleep(20);
            if (std::chrono::steady_clock::now() > end) fatalViolation("C13", "not-resumed", fmt("coroutine %d was not resumed within 30 s after it moved or awaited (after %d segments)", h->id, int(h->segments)));
        }
        for (auto &t : w.thrs) if (t->loop) { if (g.chance(1, 2)) newWait(t.get()); ev("quit %d", t->id); t->quitCalled = true; t->quit(); if (g.chance(1, 2)) { spin(g.below(3000)); newWait(t.get()); } }
        for (auto &t : w.thrs) t->wait();
        quiet();
        d->advanceBy(60);
        quiet();
        for (auto &t : w.thrs) newWait(t.get());
        d->advanceBy(60);
        d->settle();
        if (g.chance(1, 3)) { // threads can be started again
            for (auto &t : w.thrs) {
                ev("start %d again", t->id);
                t->began = t->ending = false; t->endSeen = t->quitCalled = t->startCalled = false;
                startThr(t.get());
                if (g.chance(1, 2)) newWait(t.get());
            }
            std::vector<Hop *> again;
            if (targets.size() > 1) for (int n = g.below(3); n--;) {
                w.hops.push_back(std::make_unique<Hop>());
                again.push_back(w.hops.back().get());
                again.back()->id = int(w.hops.size()) - 1;
                hopper(again.back(), g.next(), targets);
            }
            const auto until = std::chrono::steady_clock::now() + std::chrono::seconds(30);
            for (auto *h : again) while (!h->done) {
                d->settle();
                if (!d->timers.empty()) d->advanceBy(1);
                usleep(20);
                if (std::chrono::steady_clock::now() > until) fatalViolation("C13", "not-resumed", fmt("coroutine %d was not resumed within 30 s after it moved or awaited in threads started again (after %d segments)", h->id, int(h->segments)));
            }
            for (auto &t : w.thrs) if (t->loop) { t->quitCalled = true; if (g.chance(1, 2)) t->quit(); else t->exit(3); if (g.chance(1, 2)) newWait(t.get()); }
            for (auto &t : w.thrs) t->wait();
            quiet();
            d->advanceBy(60);
            for (auto &t : w.thrs) newWait(t.get());
            d->advanceBy(60);
            d->settle();
            count("restarts");
        }
        bool stuck = false;
        for (auto &r : w.recs) {
            // (a thread that ended before the wait for its start began looks as if it had never started)
            VH_CHECK("C13", "not-resumed", r->over, "wait %d for the %s of thread %d is not over at the end", r->id, r->forFinish ? "end" : "start", r->thr->id);
            stuck |= !r->over;
        }
        if (w.recs.size() + w.hops.size() >= 2) nontrivial();
        if (stuck) for (auto &t : w.thrs) (void)t.release(); // their waits refer to them
    }
    flushDeferredDeletes();
    d->drain(1000);
    VH_CHECK("C13", "leaked", Tracked::live == live0, "%ld objects of waiting or moving coroutines are still alive", long(Tracked::live - live0));
}

int main(int argc, char **argv) {
    vh::parse(argc, argv);
    return monitorMain(argc, argv, [] {
    mainThread = QThread::currentThread();
    Options o;
    o.leakEvery = 32;
    return runCases(caseC13, o);
    });
}
