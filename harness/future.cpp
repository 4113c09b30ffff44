// C12: awaiting futures, fulfilled in this thread and in others.
#include "vh.h"
#include <QException>
#include <QFuture>
#include <QPromise>
#include <QString>
#include <QtConcurrentRun>
#include <QThreadPool>
#include <thread>
#include <qcorofuture.h>
#include <qcorotask.h>
#include <qcorotimer.h>

using namespace vh;
using QCoro::Task;
using std::chrono::milliseconds;

struct Oops : QException { int id; explicit Oops(int i) : id(i) {} void raise() const override { throw *this; } Oops *clone() const override { return new Oops(*this); } };
struct Plain : std::runtime_error { int id; explicit Plain(int i) : std::runtime_error("plain"), id(i) {} };

using Mo = std::unique_ptr<Tracked>;
template<typename T> static T make(int v) {
    if constexpr (std::is_same_v<T, int>) return v;
    else if constexpr (std::is_same_v<T, QString>) return QStringLiteral("result-number-%1-which-is-not-short").arg(v);
    else if constexpr (std::is_same_v<T, Tracked>) return Tracked(v);
    else return std::make_unique<Tracked>(v);
}
static int val(int v) { return v; }
static int val(const QString &s) { return s.section(QLatin1Char('-'), 2, 2).toInt(); }
static int val(const Tracked &t) { t.check(); return t.movedFrom ? -2 : t.value; }
static int val(const Mo &m) { if (!m) return -3; m->check(); return m->value; }

static std::atomic<int> outstanding{0};
// QFutureWatcher::setFuture() of Qt 6.4 misreads a future whose exception has been set and which
// has not finished yet (it takes the exception for the result store). Other threads therefore
// fail only while this thread does not begin to wait, which is while it is in letFail().
static std::mutex failGate;
static std::vector<std::function<bool()>> failing;
static void letFail() {
    if (failing.empty()) return;
    failGate.unlock();
    for (auto &f : failing) while (!f()) std::this_thread::yield();
    failing.clear();
    failGate.lock();
}
static thread_local int inThread = 0;

struct Rec { int id; int fut; const char *form; bool over = false; int n = 0; bool late = false; };
struct FutBase {
    int id; bool take = false; int waits = 0;
    std::atomic<bool> ready{false}; // finished, and everything that follows from it has been posted
    // what is to be expected once it has finished
    bool isVoid = false; int value = 0; int exc = 0; bool cancelled = false; bool hasValue = false, promised = false;
    virtual ~FutBase() = default;
    virtual void sawEnd() = 0;
    virtual bool finished() = 0;
    virtual bool unfinished() = 0; // known not to have finished
    virtual void act(Rng &g) = 0;   // something happens to the promise
    virtual void close(Rng &g) = 0; // brings it to an end
    virtual void wait(Rec *r, uint64_t seed) = 0;
    virtual void drop() = 0;
};
struct World { Rng &g; std::vector<std::unique_ptr<FutBase>> futs; std::vector<std::unique_ptr<Rec>> recs; std::vector<std::thread> threads; int nextValue = 1; explicit World(Rng &g_) : g(g_) {} };
static World *W;

static void outcome(FutBase *f, Rec *r, bool finished, bool threw, int v) {
    ++r->n; r->over = true;
    if (f->take) f->sawEnd();
    ev("wait %d ends: %s %d", r->id, threw ? "exception" : "value", v);
    count("results");
    VH_CHECK("C12", "resumed-twice", r->n == 1, "wait %d was resumed %d times", r->id, r->n);
    VH_CHECK("C12", "not-finished", finished, "wait %d (%s) was resumed although future %d has not finished", r->id, r->form, f->id);
    VH_CHECK("C12", "wrong-thread", inThread == 1, "wait %d was resumed in another thread", r->id);
    if (f->exc) VH_CHECK("C12", "wrong-exception", threw && v == f->exc, "wait %d (%s) got %s %d instead of exception %d", r->id, r->form, threw ? "exception" : "value", v, f->exc);
    else VH_CHECK("C12", "wrong-value", !threw && (f->isVoid || v == f->value), "wait %d (%s) got %s %d instead of value %d", r->id, r->form, threw ? "exception" : "value", v, f->value);
}
template<typename T> struct Fut : FutBase {
    QFuture<T> future;
    std::optional<QPromise<T>> promise;
    static constexpr bool V = std::is_void_v<T>;
    Fut() { isVoid = V; }
    // Taking the result clears the state, so it is remembered.
    bool doneSeen = false;
    bool finished() override { if (future.isFinished()) doneSeen = true; return doneSeen; }
    bool ended = false;
    bool unfinished() override { return promised && !ended; }
    void sawEnd() override { doneSeen = true; }
    void drop() override { promise.reset(); future = QFuture<T>(); }

    // The waiters keep the future themselves: this object may give it up.
    static Task<> waiter(FutBase *f, QFuture<T> fut, Rec *r, uint64_t seed) {
        Rng g(seed);
        Tracked local(1);
        int form = g.below(6);
        static const char *forms[] = {"co_await future", "result()", "waitForFinished()", "kept task", "temporary", "takeResult()"};
        if (f->take) form = 5; else if (form == 5) form = 0;
        r->form = forms[form];
        bool before = fut.isFinished();
        ev("wait %d for %d: %s%s", r->id, f->id, r->form, before ? " (finished)" : "");
        long e0 = run().counters["events"];
        bool threw = false, late = false; int v = 0;
        auto copy = [&] { return fut; };
        try {
            if constexpr (V) {
                if (form == 0) co_await fut;
                else if (form == 1) co_await qCoro(fut).result();
                else if (form == 2) co_await qCoro(fut).waitForFinished();
                else if (form == 3) { auto t = qCoro(fut).result(); if (g.chance(1, 2)) { late = r->late = true; co_await QCoro::sleepFor(milliseconds(g.below(20))); } co_await t; }
                else co_await copy();
            } else {
                if constexpr (!std::is_same_v<T, Mo>) {
                    if (form == 0) { T x = co_await fut; v = val(x); }
                    else if (form == 1) { T x = co_await qCoro(fut).result(); v = val(x); }
                    else if (form == 2) { T x = co_await qCoro(fut).waitForFinished(); v = val(x); }
                    else if (form == 3) { auto t = qCoro(fut).result(); if (g.chance(1, 2)) { late = r->late = true; co_await QCoro::sleepFor(milliseconds(g.below(20))); } T x = co_await t; v = val(x); }
                    else if (form == 4) { const T x = co_await copy(); v = val(x); }
                }
                if (form == 5) { T x = co_await qCoro(fut).takeResult(); v = val(x); }
            }
        } catch (const Oops &e) { threw = true; v = e.id; }
        catch (const Plain &e) { threw = true; v = e.id; }
        catch (...) { threw = true; v = -9; }
        long e1 = run().counters["events"];
        if (before && !late) VH_CHECK("C12", "finished-suspended", e1 == e0, "wait %d for the finished future %d gave up control", r->id, f->id);
        local.check();
        outcome(f, r, f->take ? !f->unfinished() : fut.isFinished(), threw, v);
        if (g.chance(1, 4) && !f->take) { // waits again
            auto n = std::make_unique<Rec>();
            n->id = int(W->recs.size()); n->fut = f->id;
            Rec *p = n.get();
            W->recs.push_back(std::move(n));
            waiter(f, fut, p, g.next());
        }
    }
    void wait(Rec *r, uint64_t seed) override { ++waits; waiter(this, future, r, seed); }

    // Qt keeps the end of a suspended future from its watchers
    void goOn() { if (future.isSuspending()) future.setSuspended(false); }
    void addFirst() { if constexpr (!V) { int v = ++W->nextValue; ev("fut %d result %d", id, v); if (promise->addResult(make<T>(v), 0)) { value = v; hasValue = true; } } }
    void finish_() { goOn(); ev("fut %d finish", id); ended = true; promise->finish(); }
    void throw_(Rng &g) {
        int v = ++W->nextValue;
        goOn();
        ev("fut %d throws %d", id, v);
        if (!cancelled && !finished()) exc = v;
        if (g.chance(1, 2)) ended = true, promise->setException(Oops(v)); else ended = true, promise->setException(std::make_exception_ptr(Plain(v)));
        finish_();
    }
    void act(Rng &g) override {
        if (!promise || finished()) return;
        switch (g.below(8)) {
        case 7: { bool on = !future.isSuspending(); ev("fut %d %s", id, on ? "suspended" : "goes on"); future.setSuspended(on); break; }
        case 0: if (!hasValue) addFirst(); break;
        case 1: if constexpr (!V) if (!take) { int i = g.range(1, 4), v = ++W->nextValue; ev("fut %d result %d at %d", id, v, i); promise->addResult(make<T>(v), i); } break;
        case 2: ev("fut %d progress", id); promise->setProgressRange(0, 10); promise->setProgressValue(g.below(10)); break;
        case 3: if ((V || hasValue) && !take) { ev("fut %d cancel", id); cancelled = true; if (g.chance(1, 2)) future.cancel(); else { QFuture<T> c = future; c.cancel(); } } break;
        case 4: if (!cancelled && !exc) throw_(g); break;
        default: if (g.chance(1, 2)) close(g);
        }
    }
    void close(Rng &g) override {
        if (!promise || finished()) return;
        if (!V && !hasValue) { if (cancelled) return; addFirst(); }
        if ((V || hasValue) && !take && g.chance(1, 5)) { goOn(); ev("fut %d promise destroyed", id); cancelled = true; ended = true; promise.reset(); }
        else finish_();
    }
    void init(Rng &g) {
        int v = ++W->nextValue;
        int how = g.below(10);
        if (how < 5) { promised = true; promise.emplace(); future = promise->future(); if (g.chance(5, 6)) promise->start(); else promise->start(); ev("fut %d promise", id); return; }
        if (how == 5) { // finished from the beginning
            if (g.chance(1, 3)) { exc = v; future = QtFuture::makeExceptionalFuture<T>(Oops(v)); ev("fut %d exceptional", id); }
            else if constexpr (V) { future = QtFuture::makeReadyFuture(); ev("fut %d ready", id); }
            else { value = v; future = QtFuture::makeReadyFuture<T>(make<T>(v)); ev("fut %d ready", id); }
            return;
        }
        bool fail = g.chance(1, 4);
        int us = g.chance(1, 2) ? 0 : g.below(300);
        (fail ? exc : value) = v;
        if (how == 6) { // a continuation of another future
            auto p = std::make_shared<QPromise<int>>();
            p->start();
            auto c = p->future().then([v, fail](int) -> T { if (fail) throw Plain(v); if constexpr (!V) return make<T>(v); });
            future = c;
            auto *t = new QTimer;
            t->setSingleShot(true);
            QObject::connect(t, &QTimer::timeout, [p, t] { p->addResult(1); p->finish(); t->deleteLater(); });
            t->start(g.range(0, 30));
            ev("fut %d continuation", id);
            return;
        }
        ++outstanding;
        if (how == 7) {
            ev("fut %d concurrent", id);
            future = QtConcurrent::run([v, fail, us]() -> T {
                if (us) usleep(useconds_t(us));
                if (fail) std::lock_guard wait(failGate);
                struct Done { ~Done() { --outstanding; } } d; // what follows is over once the future says so
                if (fail) throw Oops(v);
                if constexpr (!V) return make<T>(v);
            });
            if (fail) failing.push_back([f = QFuture<void>(future)] { return f.isFinished(); });
            return;
        }
        ev("fut %d thread", id);
        auto p = std::make_shared<QPromise<T>>();
        future = p->future();
        p->start();
        W->threads.emplace_back([p, v, fail, us, extra = g.below(3)]() mutable {
            if (us) usleep(useconds_t(us));
            if constexpr (!V) for (int i = 1; i <= extra; ++i) if constexpr (!std::is_same_v<T, Mo>) p->addResult(make<T>(-v), i);
            std::unique_lock<std::mutex> gate;
            if (fail) { gate = std::unique_lock(failGate); p->setException(std::make_exception_ptr(Plain(v))); }
            else if constexpr (!V) p->addResult(make<T>(v), 0);
            if (us & 1) std::this_thread::yield();
            p->finish();
            if (fail) gate.unlock();
            p.reset();
            --outstanding;
        });
        if (fail) failing.push_back([f = QFuture<void>(future)] { return f.isFinished(); });
    }
};
// Lets everything happen that is going to happen now, in other threads too.
static void calm() {
    auto *d = VDispatcher::instance();
    letFail();
    for (int i = 0;; ++i) {
        d->settle();
        if (!outstanding) break;
        usleep(20);
        if (i > 500000) fatalViolation("C12", "harness", "a worker does not end");
    }
    QThreadPool::globalInstance()->waitForDone();
    d->settle();
}
static void quiet() {
    for (auto &r : W->recs) {
        auto &f = *W->futs[size_t(r->fut)];
        if (!r->over && !r->late && f.finished()) violation("C12", "not-resumed", "wait %d (%s) was not resumed although future %d has finished", r->id, r->form, f.id);
    }
    count("quiet_checks");
}
template<typename T> static void addFut(Rng &g, bool take) {
    auto f = std::make_unique<Fut<T>>();
    f->id = int(W->futs.size()); f->take = take;
    auto *p = f.get();
    W->futs.push_back(std::move(f));
    p->init(g);
}
static void newFut(Rng &g) {
    switch (g.below(6)) {
    case 0: case 1: addFut<void>(g, false); break;
    case 2: addFut<int>(g, g.chance(1, 4)); break;
    case 3: addFut<QString>(g, g.chance(1, 4)); break;
    case 4: addFut<Tracked>(g, g.chance(1, 3)); break;
    default: addFut<Mo>(g, true);
    }
}
static void caseC12(Rng &g) {
    auto *d = VDispatcher::instance();
    d->reset(&g);
    const long live0 = Tracked::live;
    {
        World w(g);
        W = &w;
        w.recs.reserve(64);
        int nf = g.range(1, 5);
        for (int i = 0; i < nf; ++i) newFut(g);
        int rounds = g.range(4, 20);
        for (int i = 0; i < rounds; ++i) {
            auto &f = *w.futs[size_t(g.below(nf))];
            switch (g.below(6)) {
            case 0: case 1: case 2:
                if (w.recs.size() < 20 && !(f.take && f.waits)) {
                    auto r = std::make_unique<Rec>();
                    r->id = int(w.recs.size()); r->fut = f.id; r->form = "";
                    Rec *p = r.get();
                    w.recs.push_back(std::move(r));
                    f.wait(p, g.next());
                }
                break;
            case 3: case 4: f.act(g); break;
            default:
                if (g.chance(1, 3)) letFail();
                if (g.chance(1, 2)) { d->step(); break; }
                ev("advance");
                d->advanceBy(g.below(20));
                calm();
                quiet();
            }
        }
        ev("closing");
        for (int k = 0; k < 4; ++k) {
            for (auto &f : w.futs) f->close(g);
            d->advanceBy(60);
            calm();
            quiet();
        }
        for (auto &r : w.recs) {
            auto &f = *w.futs[size_t(r->fut)];
            if (f.finished()) VH_CHECK("C12", "not-resumed", r->over, "wait %d (%s) is not over at the end", r->id, r->form);
        }
        if (w.recs.size() >= 2) nontrivial();
        letFail();
        for (auto &t : w.threads) t.join();
        for (auto &f : w.futs) { VH_CHECK("C12", "harness", f->finished(), "future %d has not finished", f->id); f->drop(); }
        calm();
    }
    flushDeferredDeletes();
    d->drain(1000);
    flushDeferredDeletes();
    VH_CHECK("C12", "leaked", Tracked::live == live0, "%ld objects of waiting coroutines or results are still alive", long(Tracked::live - live0));
}

int main(int argc, char **argv) {
    vh::parse(argc, argv);
    return monitorMain(argc, argv, [] {
    inThread = 1;
    failGate.lock();
    QThreadPool::globalInstance()->setExpiryTimeout(-1);
    Options o;
    o.leakEvery = 16;
    return runCases(caseC12, o);
    });
}
