// C09: awaiting one emission of a signal; C10: signal listeners; C11: timers and sleeps.
#include "vh.h"
#include <chrono>
#include <tuple>
#include <QString>
#include <qcorosignal.h>
#include <qcorotask.h>
#include <qcorotimer.h>
#include <qcoroasyncgenerator.h>

using namespace vh;
using QCoro::Task;
using std::chrono::milliseconds;

struct Payload { Tracked t; Payload() : t(-1) {} explicit Payload(int v) : t(v) {} };
struct NotAQPrivateSignal { int v = 0; }; // an ordinary argument type with an unfortunate name

class Emitter : public QObject {
    Q_OBJECT
public:
    static constexpr int N = 9;
    void fire(int s, int v);
Q_SIGNALS:
    void s0();
    void s1(int);
    void s2(int, const QString &);
    void s3(const Payload &);
    void sp(int, QPrivateSignal);
    void sp0(QPrivateSignal);
    void so(int);
    void so(const QString &, int);
    void sn(int, NotAQPrivateSignal);
};
static QString str(int v) { return QStringLiteral("text-of-%1-which-is-not-short").arg(v); }
void Emitter::fire(int s, int v) {
    switch (s) {
    case 0: Q_EMIT s0(); break;
    case 1: Q_EMIT s1(v); break;
    case 2: Q_EMIT s2(v, str(v)); break;
    case 3: Q_EMIT s3(Payload(v)); break;
    case 4: Q_EMIT sp(v, QPrivateSignal()); break;
    case 5: Q_EMIT sp0(QPrivateSignal()); break;
    case 6: Q_EMIT so(v); break;
    case 7: Q_EMIT so(str(v), v); break;
    default: Q_EMIT sn(v, NotAQPrivateSignal{v});
    }
}
template<int S> constexpr auto sigPtr() {
    if constexpr (S == 0) return &Emitter::s0; else if constexpr (S == 1) return &Emitter::s1; else if constexpr (S == 2) return &Emitter::s2;
    else if constexpr (S == 3) return &Emitter::s3; else if constexpr (S == 4) return &Emitter::sp; else if constexpr (S == 5) return &Emitter::sp0;
    else if constexpr (S == 6) return qOverload<int>(&Emitter::so); else if constexpr (S == 7) return qOverload<const QString &, int>(&Emitter::so);
    else return &Emitter::sn;
}
// the value that the result carries (-1: no argument, -2: inconsistent)
static int val(const std::tuple<> &) { return -1; }
static int val(int v) { return v; }
static int val(const std::tuple<int, QString> &t) { return std::get<1>(t) == str(std::get<0>(t)) ? std::get<0>(t) : -2; }
static int val(const std::tuple<QString, int> &t) { return std::get<0>(t) == str(std::get<1>(t)) ? std::get<1>(t) : -2; }
static int val(const Payload &p) { p.t.check(); return p.t.movedFrom ? -2 : p.t.value; }
static int val(const std::tuple<int, NotAQPrivateSignal> &t) { return std::get<0>(t) == std::get<1>(t).v ? std::get<0>(t) : -2; }
static int val(const QString &) { return -3; }
template<typename T> requires (!std::is_arithmetic_v<T>) static int val(const T &) { return -3; } // not a type that any of the signals yields
template<int S> struct ResultOf { using type = int; };
template<> struct ResultOf<0> { using type = std::tuple<>; };
template<> struct ResultOf<2> { using type = std::tuple<int, QString>; };
template<> struct ResultOf<3> { using type = Payload; };
template<> struct ResultOf<5> { using type = std::tuple<>; };
template<> struct ResultOf<7> { using type = std::tuple<QString, int>; };
template<> struct ResultOf<8> { using type = std::tuple<int, NotAQPrivateSignal>; };
static int seen(int s, int v) { return (s == 0 || s == 5) ? -1 : v; }

struct Emission { int v; qint64 at; };
struct Source { Emitter *obj = nullptr; std::vector<Emission> log[Emitter::N]; bool gone = false; };
struct Gate {
    bool open = false;
    std::vector<std::coroutine_handle<>> w;
    void release() { open = true; auto x = std::move(w); w.clear(); for (auto h : x) h.resume(); }
    bool await_ready() const noexcept { return open; }
    void await_suspend(std::coroutine_handle<> h) { w.push_back(h); }
    void await_resume() const noexcept {}
};
static qint64 someTimeout(Rng &g, int from, int to) { return g.chance(1, 25) ? longTime(g) : g.chance(1, 2) ? g.range(from, to - 1) : -1; }
struct Wait {
    int id, src, sig; qint64 timeout; qint64 start = 0, due = -1; size_t from = 0; bool over = false; int resumed = 0; bool abandoned = false; bool late = false;
};
struct Lst {
    int id, src, sig; qint64 timeout; size_t next = 0; bool waiting = false; qint64 waitStart = 0; bool done = false, ended = false; bool made = false; int limit; bool orphan = false;
};
struct World {
    Rng &g; VDispatcher *d;
    std::vector<Source> src;
    std::vector<std::unique_ptr<Wait>> waits;
    std::vector<std::unique_ptr<Lst>> lsts;
    std::vector<std::unique_ptr<Gate>> gates;
    int nextValue = 1, budget = 14, depth = 0;
    World(Rng &g_, VDispatcher *d_) : g(g_), d(d_) {}
    void emit_(int s, int sig) {
        Source &x = src[size_t(s)];
        if (!x.obj) return;
        int v = ++nextValue;
        ev("emit %d.%d %d", s, sig, v);
        x.log[sig].push_back({v, d->now});
        count("emissions");
        x.obj->fire(sig, v);
    }
};
static World *W;
static void startWait(Rng &g);

// ------------------------------------------------------------------------------------- C09
static void endWait(Wait *w, bool has, int v) {
    ++w->resumed;
    VH_CHECK("C09", "resumed-twice", w->resumed == 1, "wait %d resumed %d times", w->id, w->resumed);
    Source &x = W->src[size_t(w->src)];
    auto &log = x.log[w->sig];
    const Emission *first = log.size() > w->from ? &log[w->from] : nullptr;
    ev("wait %d ends: %s %d", w->id, has ? "value" : "nothing", v);
    if (has) {
        count("results");
        VH_CHECK("C09", "resumed-without-emission", first, "wait %d got %d although the signal was not emitted", w->id, v);
        if (first) VH_CHECK("C09", "wrong-arguments", v == seen(w->sig, first->v), "wait %d got %d instead of the first emission (%d)", w->id, v, seen(w->sig, first->v));
    } else {
        count("timeouts");
        VH_CHECK("C09", "empty-without-timeout", w->due >= 0, "wait %d without a timeout ended without a result", w->id);
        if (w->due >= 0) {
            VH_CHECK("C09", "timeout-early", W->d->now >= w->due, "wait %d timed out at %lld, due at %lld", w->id, (long long)W->d->now, (long long)w->due);
            VH_CHECK("C09", "emission-lost", !first || first->at >= w->due, "wait %d timed out although the signal was emitted at %lld, before the timeout at %lld", w->id, first ? (long long)first->at : 0, (long long)w->due);
        }
    }
    w->over = true;
}
template<int S> static Task<> waiter(Wait *w, uint64_t seed) {
    Rng g(seed);
    Tracked local(1);
    int repeat = g.range(1, 2);
    Wait *cur = w;
    while (repeat--) {
        Source &x = W->src[size_t(cur->src)];
        if (!x.obj) { cur->abandoned = true; co_return; }
        cur->start = W->d->now;
        cur->from = x.log[S].size();
        if (cur->timeout >= 0) cur->due = cur->start + cur->timeout;
        ev("wait %d for %d.%d timeout %lld", cur->id, cur->src, S, (long long)cur->timeout);
        VH_CHECK("C09", "wrong-type", (std::is_same_v<decltype(qCoro(std::declval<Emitter *>(), sigPtr<S>())), Task<typename ResultOf<S>::type>>), "awaiting signal %d does not yield its arguments but something else", S);
        if (cur->timeout >= 0) {
            if (g.chance(1, 3)) {
                auto t = qCoro(x.obj, sigPtr<S>(), milliseconds(cur->timeout));
                if (g.chance(1, 2)) { cur->late = true; co_await QCoro::sleepFor(milliseconds(g.below(8))); }
                auto r = co_await t;
                endWait(cur, r.has_value(), r ? val(*r) : 0);
            } else {
                auto r = co_await qCoro(x.obj, sigPtr<S>(), milliseconds(cur->timeout));
                endWait(cur, r.has_value(), r ? val(*r) : 0);
            }
        } else if (g.chance(1, 3)) {
            auto t = qCoro(x.obj, sigPtr<S>());
            if (g.chance(1, 2)) { cur->late = true; co_await QCoro::sleepFor(milliseconds(g.below(8))); }
            auto r = co_await t;
            endWait(cur, true, val(r));
        } else {
            auto r = co_await qCoro(x.obj, sigPtr<S>());
            endWait(cur, true, val(r));
        }
        local.check();
        if (g.chance(1, 5) && W->depth < 3) { ++W->depth; W->emit_(cur->src, g.chance(2, 3) ? S : g.below(Emitter::N)); --W->depth; }
        if (g.chance(1, 6)) startWait(g);
        if (repeat) {
            auto n = std::make_unique<Wait>(*cur);
            n->id = int(W->waits.size()); n->resumed = 0; n->over = false; n->due = -1; n->late = false;
            n->timeout = someTimeout(g, 0, 30);
            cur = n.get();
            W->waits.push_back(std::move(n));
        }
    }
}
static void startWait(Rng &g) {
    if (--W->budget < 0) return;
    auto w = std::make_unique<Wait>();
    w->id = int(W->waits.size());
    w->src = g.below(int(W->src.size()));
    if (!W->src[size_t(w->src)].obj) return;
    w->sig = g.below(Emitter::N);
    if (g.chance(1, 2)) w->sig = 1;
    w->timeout = someTimeout(g, 0, 30);
    Wait *p = w.get();
    W->waits.push_back(std::move(w));
    uint64_t s = g.next();
    switch (p->sig) {
    case 0: waiter<0>(p, s); break; case 1: waiter<1>(p, s); break; case 2: waiter<2>(p, s); break; case 3: waiter<3>(p, s); break; case 4: waiter<4>(p, s); break;
    case 5: waiter<5>(p, s); break; case 6: waiter<6>(p, s); break; case 7: waiter<7>(p, s); break; default: waiter<8>(p, s);
    }
}
// Called when nothing is pending at the current time.
static void quiet09(bool final_) {
    auto &w = *W;
    for (auto &p : w.waits) {
        Wait &x = *p;
        if (x.over || x.abandoned || (x.late && !final_)) continue;
        Source &s = w.src[size_t(x.src)];
        bool got = s.log[x.sig].size() > x.from;
        if (got) violation("C09", "not-resumed", "wait %d was not resumed although the signal was emitted", x.id);
        else if (x.due >= 0 && x.due <= w.d->now) violation("C09", "timeout-missing", "wait %d was not resumed although its timeout was due at %lld (now %lld)%s", x.id, (long long)x.due, (long long)w.d->now, s.gone ? "; the object is gone" : "");
        else if (s.gone && x.due < 0) x.abandoned = true; // documented: never resumed
    }
    count("quiet_checks");
}
static void caseC09(Rng &g) {
    auto *d = VDispatcher::instance();
    d->reset(&g);
    const long live0 = Tracked::live;
    bool abandoned = false;
    {
        World w(g, d);
        W = &w;
        w.src.resize(size_t(g.range(1, 2)));
        w.waits.reserve(64);
        for (auto &s : w.src) s.obj = new Emitter;
        bool kill = g.chance(1, 6);
        std::vector<std::unique_ptr<QTimer>> timers;
        int nt = g.below(4);
        for (int i = 0; i < nt; ++i) { // emissions from timer handlers, which race the timeouts
            auto t = std::make_unique<QTimer>();
            int s = g.below(int(w.src.size())), sig = g.chance(1, 2) ? 1 : g.below(Emitter::N), n = g.range(1, 2);
            t->setSingleShot(g.chance(1, 2));
            QObject::connect(t.get(), &QTimer::timeout, [&w, s, sig, n] { for (int k = 0; k < n; ++k) w.emit_(s, sig); });
            t->start(g.range(1, 30));
            timers.push_back(std::move(t));
        }
        int rounds = g.range(4, 18);
        for (int r = 0; r < rounds; ++r) {
            switch (g.below(6)) {
            case 0: case 1: startWait(g); break;
            case 2: { int s = g.below(int(w.src.size())); int n = g.range(1, 3); int sig = g.chance(1, 2) ? 1 : g.below(Emitter::N); while (n--) w.emit_(s, sig); break; }
            case 3: d->step(); break;
            case 4: { int ms = g.below(20); ev("advance %d", ms); d->advanceBy(ms); quiet09(false); break; }
            default: if (kill && g.chance(1, 2)) {
                int s = g.below(int(w.src.size()));
                if (w.src[size_t(s)].obj) { ev("destroy %d", s); d->settle(); quiet09(false); delete w.src[size_t(s)].obj; w.src[size_t(s)].obj = nullptr; w.src[size_t(s)].gone = true; }
            }
            }
        }
        ev("closing");
        timers.clear();
        d->advanceBy(g.chance(1, 2) ? 100 : VeryLong);
        quiet09(true);
        w.budget = 0;
        for (int k = 0; k < 3 || (k < 40 && std::any_of(w.waits.begin(), w.waits.end(), [](auto &x) { return !x->over && !x->abandoned; })); ++k) { for (size_t s = 0; s < w.src.size(); ++s) for (int i = 0; i < Emitter::N; ++i) w.emit_(int(s), i); d->advanceBy(100); quiet09(true); }
        if (std::any_of(w.waits.begin(), w.waits.end(), [](auto &x) { return !x->over && !x->abandoned && x->due >= 0; })) d->advanceBy(VeryLong);
        for (auto &x : w.waits) {
            if (x->abandoned) { abandoned = true; run().leaves = true; }
            else VH_CHECK("C09", "not-resumed", x->over, "wait %d is not over at the end", x->id);
        }
        if (w.waits.size() >= 2) nontrivial();
        for (auto &s : w.src) delete s.obj;
    }
    if (!abandoned) VH_CHECK("C09", "leaked", Tracked::live == live0, "%ld objects of waiting coroutines are still alive", long(Tracked::live - live0));
    flushDeferredDeletes();
}

// ------------------------------------------------------------------------------------- C10
static void gotValue(Lst *l, int v) {
    l->waiting = false;
    auto &log = W->src[size_t(l->src)].log[l->sig];
    ev("listener %d gets %d", l->id, v);
    VH_CHECK("C10", "value-from-nowhere", l->next < log.size(), "listener %d yields %d although only %zu emissions happened and all were delivered", l->id, v, log.size());
    if (l->next < log.size()) VH_CHECK("C10", "wrong-value", v == seen(l->sig, log[l->next].v), "listener %d yields %d instead of emission %d", l->id, v, seen(l->sig, log[l->next].v));
    ++l->next;
    count("delivered");
}
static void gotEnd(Lst *l) {
    l->waiting = false;
    l->ended = true;
    ev("listener %d ends", l->id);
    Source &s = W->src[size_t(l->src)];
    auto &log = s.log[l->sig];
    if (s.gone) return; // not specified any more
    VH_CHECK("C10", "ended-without-timeout", l->timeout >= 0, "listener %d without a timeout ended", l->id);
    if (l->timeout < 0) return;
    qint64 due = l->waitStart + l->timeout;
    VH_CHECK("C10", "ended-early", W->d->now >= due, "listener %d ended at %lld although the wait that began at %lld times out at %lld", l->id, (long long)W->d->now, (long long)l->waitStart, (long long)due);
    VH_CHECK("C10", "emission-lost", l->next >= log.size() || log[l->next].at >= due, "listener %d ended at %lld although the signal was emitted at %lld", l->id, (long long)W->d->now, l->next < log.size() ? (long long)log[l->next].at : 0);
    count("ended");
}
#define ELSEWHERE(g, l)                                                                                      \
    switch ((g).below(4)) {                                                                                  \
    case 0: { int ms = (g).below(25); qint64 until = W->d->now + ms; ev("listener %d busy for %d", (l)->id, ms); co_await QCoro::sleepFor(milliseconds(ms)); \
        ev("listener %d continues", (l)->id); VH_CHECK("C10", "spurious-resumption", W->d->now >= until, "the consumer of listener %d was resumed from an unrelated wait", (l)->id); break; } \
    case 1: { Gate *ga = W->gates[size_t((g).below(3))].get(); ev("listener %d waits for a gate", (l)->id); co_await *ga; \
        VH_CHECK("C10", "spurious-resumption", ga->open, "the consumer of listener %d was resumed from an unrelated wait", (l)->id); break; } \
    default: break;                                                                                          \
    }
template<int S> static Task<> listen(Lst *l, uint64_t seed) {
    Rng g(seed);
    Tracked local(1);
    Source &x = W->src[size_t(l->src)];
    auto gen = qCoroSignalListener(x.obj, sigPtr<S>(), milliseconds(l->timeout));
    l->next = x.log[S].size();
    l->made = true;
    ev("listener %d on %d.%d timeout %lld", l->id, l->src, S, (long long)l->timeout);
    ELSEWHERE(g, l)
    l->waiting = true; l->waitStart = W->d->now;
    auto it = co_await gen.begin();
    int n = 0;
    while (true) {
        local.check();
        if (it == gen.end()) { gotEnd(l); break; }
        gotValue(l, val(*it));
        if (++n >= l->limit) break;
        ELSEWHERE(g, l)
        if (g.chance(1, 5) && W->depth < 3) { ++W->depth; W->emit_(l->src, S); --W->depth; }
        ELSEWHERE(g, l)
        l->waiting = true; l->waitStart = W->d->now;
        ev("listener %d waits", l->id);
        co_await ++it;
    }
    // keeps the finished or unfinished generator for a while
    ELSEWHERE(g, l)
    ELSEWHERE(g, l)
    ev("listener %d done", l->id);
    l->done = true;
}
static Task<> listenForeach(Lst *l, uint64_t seed) {
    Rng g(seed);
    Source &x = W->src[size_t(l->src)];
    ev("listener %d on %d.2 timeout %lld (foreach)", l->id, l->src, (long long)l->timeout);
    l->next = x.log[2].size();
    l->made = true;
    int n = 0;
    l->waiting = true; l->waitStart = W->d->now;
    bool broke = false;
    QCORO_FOREACH(auto &&r, qCoroSignalListener(x.obj, &Emitter::s2, milliseconds(l->timeout))) {
        gotValue(l, val(r));
        if (++n >= l->limit) { broke = true; break; }
        ELSEWHERE(g, l)
        l->waiting = true; l->waitStart = W->d->now;
    }
    if (!broke) gotEnd(l);
    ELSEWHERE(g, l)
    ev("listener %d done", l->id);
    l->done = true;
}
static void quiet10() {
    auto &w = *W;
    for (auto &p : w.lsts) {
        Lst &l = *p;
        if (l.done || !l.waiting) continue;
        Source &s = w.src[size_t(l.src)];
        if (s.log[l.sig].size() > l.next) violation("C10", "not-delivered", "listener %d waits although emission %d has not been delivered", l.id, s.log[l.sig][l.next].v);
        else if (l.timeout >= 0 && l.waitStart + l.timeout <= w.d->now) violation("C10", "timeout-missing", "listener %d still waits at %lld although it has waited since %lld and times out after %lld%s", l.id, (long long)w.d->now, (long long)l.waitStart, (long long)l.timeout, s.gone ? "; the object is gone" : "");
    }
    count("quiet_checks");
}
static void caseC10(Rng &g) {
    auto *d = VDispatcher::instance();
    d->reset(&g);
    const long live0 = Tracked::live;
    {
        World w(g, d);
        W = &w;
        w.src.resize(size_t(g.range(1, 2)));
        for (auto &s : w.src) s.obj = new Emitter;
        for (int i = 0; i < 3; ++i) w.gates.push_back(std::make_unique<Gate>());
        const bool flood = g.chance(1, 60); // a great many emissions for one listener
        bool kill = g.chance(1, 8);
        std::vector<std::unique_ptr<QTimer>> timers;
        int nt = g.below(4);
        for (int i = 0; i < nt; ++i) {
            auto t = std::make_unique<QTimer>();
            int s = g.below(int(w.src.size())), sig = g.chance(2, 3) ? g.range(1, 2) : g.below(Emitter::N), n = g.range(1, 2);
            t->setSingleShot(g.chance(1, 2));
            QObject::connect(t.get(), &QTimer::timeout, [&w, s, sig, n] { for (int k = 0; k < n; ++k) w.emit_(s, sig); });
            t->start(g.range(1, 30));
            timers.push_back(std::move(t));
        }
        int rounds = g.range(5, 20), nl = 0;
        for (int r = 0; r < rounds; ++r) {
            switch (r == 0 ? 0 : g.below(7)) {
            case 0: if (nl < 3) {
                auto l = std::make_unique<Lst>();
                l->id = nl++; l->src = g.below(int(w.src.size())); l->timeout = someTimeout(g, 1, 41); l->limit = flood ? g.range(900, 5000) : g.range(1, 8);
                if (!w.src[size_t(l->src)].obj) break;
                if (kill && l->timeout < 0) l->timeout = 20;
                Lst *p = l.get();
                w.lsts.push_back(std::move(l));
                uint64_t s = g.next();
                switch (g.below(6)) {
                case 0: p->sig = 2; listenForeach(p, s); break;
                case 1: p->sig = 0; listen<0>(p, s); break;
                case 2: p->sig = 2; listen<2>(p, s); break;
                case 3: p->sig = g.chance(1, 2) ? 3 : 4; if (p->sig == 3) listen<3>(p, s); else listen<4>(p, s); break;
                default: p->sig = 1; listen<1>(p, s);
                }
                break;
            }
            break;
            case 1: case 2: { int s = g.below(int(w.src.size())); int n = flood && g.chance(1, 3) ? g.range(800, 3000) : g.range(1, 4); int sig = g.chance(2, 3) ? g.range(1, 2) : g.below(5); if (n > 500) count("floods"); while (n--) w.emit_(s, sig); break; }
            case 3: d->step(); break;
            case 4: case 5: { int ms = g.below(20); ev("advance %d", ms); d->advanceBy(ms); quiet10(); break; }
            default:
                if (g.chance(1, 2)) { auto *ga = w.gates[size_t(g.below(3))].get(); if (!ga->open) { ev("open"); ga->release(); } }
                else if (kill && g.chance(1, 2)) {
                    int s = g.below(int(w.src.size()));
                    if (w.src[size_t(s)].obj) { ev("destroy %d", s); d->settle(); quiet10(); delete w.src[size_t(s)].obj; w.src[size_t(s)].obj = nullptr; w.src[size_t(s)].gone = true; }
                }
            }
        }
        ev("closing");
        for (auto &x : w.gates) x->release();
        timers.clear();
        if (g.chance(1, 4)) { d->advanceBy(VeryLong); quiet10(); }
        for (int k = 0; k < 10; ++k) {
            bool all = true;
            for (auto &l : w.lsts) { all &= l->done; for (int j = l->limit / 8; j >= 0 && !l->done && !l->ended; --j) w.emit_(l->src, l->sig); }
            d->advanceBy(k < 8 ? 200 : VeryLong);
            quiet10();
            if (all) break;
        }
        for (auto &l : w.lsts) VH_CHECK("C10", "consumer-stuck", l->done, "the consumer of listener %d is stuck", l->id);
        long n = 0;
        for (auto &s : w.src) for (auto &l : s.log) n += long(l.size());
        if (n >= 2 && !w.lsts.empty()) nontrivial();
        for (auto &s : w.src) delete s.obj;
        d->settle();
    }
    VH_CHECK("C10", "leaked", Tracked::live == live0, "%ld objects of listeners and their consumers are still alive", long(Tracked::live - live0));
    flushDeferredDeletes();
}

// ------------------------------------------------------------------------------------- C11
struct VClock { // the dispatcher's clock, as a C++ clock
    using duration = std::chrono::microseconds; using rep = duration::rep; using period = duration::period; using time_point = std::chrono::time_point<VClock>;
    static constexpr bool is_steady = true;
    static qint64 offsetMs;
    static time_point now() { return time_point(milliseconds(VDispatcher::instance()->now + offsetMs)); }
};
qint64 VClock::offsetMs = 0;
struct Sleep { int id; double minDue, maxDue; bool over = false; int n = 0; const char *form; };
// A user's timer, and what it was told to do.
struct Tm {
    QTimer *t; int fired = 0; int zero = 0;
    bool running = false, single = false; int iv = 0; Qt::TimerType type = Qt::CoarseTimer; int id = 0;
    void start(int ms = -1) { if (ms >= 0) { iv = ms; t->start(ms); } else t->start(); running = true; }
    void stop() { running = false; t->stop(); }
    void setSingle(bool x) { single = x; t->setSingleShot(x); }
    void setInterval(int ms) { iv = ms; t->setInterval(ms); }
    void check() const {
        if (!t) return;
        VH_CHECK("C11", "timer-changed", t->isActive() == running && t->isSingleShot() == single && t->interval() == iv && t->timerType() == type,
            "timer %d is %s, %s, interval %d, but was last %s, %s, interval %d", id, t->isActive() ? "active" : "inactive", t->isSingleShot() ? "single" : "repeating", t->interval(), running ? "active" : "inactive", single ? "single" : "repeating", iv);
    }
};
static int interval11(Rng &g) { return g.chance(1, 6) ? 0 : g.range(1, 40); }
struct TWait { int id; int tm; int from; bool active; bool over = false; int n = 0; bool queued; int form; };
struct TWorld { std::vector<std::unique_ptr<Sleep>> sleeps; std::vector<std::unique_ptr<Tm>> tms; std::vector<std::unique_ptr<TWait>> waits; int depth = 0; };
static TWorld *T;

static void endSleep(Sleep *s) {
    ++s->n; s->over = true;
    double now = double(VDispatcher::instance()->now);
    ev("sleep %d over", s->id);
    count("sleeps");
    VH_CHECK("C11", "resumed-twice", s->n == 1, "sleep %d was resumed %d times", s->id, s->n);
    VH_CHECK("C11", "sleep-early", now >= s->minDue - 1e-6, "sleep %d (%s) is over at %.3f, due at %.3f", s->id, s->form, now, s->minDue);
}
static Task<> sleeper(Sleep *s, uint64_t seed) {
    Rng g(seed);
    Tracked local(1);
    auto *d = VDispatcher::instance();
    const double now = double(d->now);
    switch (g.below(9)) {
    case 0: case 1: { qint64 ms = g.chance(1, 10) ? (g.chance(1, 3) ? longTime(g) : g.range(1000, 2000000)) : g.below(60); s->minDue = s->maxDue = now + ms; s->form = "sleepFor ms"; ev("sleep %d for %lld ms", s->id, (long long)ms); co_await QCoro::sleepFor(milliseconds(ms)); break; }
    case 2: { int us = g.below(30000); s->minDue = now + us / 1000.0; s->maxDue = s->minDue + 1; s->form = "sleepFor us"; ev("sleep %d for %d us", s->id, us); co_await QCoro::sleepFor(std::chrono::microseconds(us)); break; }
    case 3: { int sec = g.below(4); s->minDue = s->maxDue = now + sec * 1000; s->form = "sleepFor s"; ev("sleep %d for %d s", s->id, sec); co_await QCoro::sleepFor(std::chrono::seconds(sec)); break; }
    case 4: { double sec = g.below(3000) / 1000.0 / 16; s->minDue = now + sec * 1000; s->maxDue = s->minDue + 1; s->form = "sleepFor double"; ev("sleep %d for %f s", s->id, sec); co_await QCoro::sleepFor(std::chrono::duration<double>(sec)); break; }
    case 5: { // a clock of our own: exact
        int us = g.range(-20000, 60000);
        s->minDue = us > 0 ? now + us / 1000.0 : now; s->maxDue = s->minDue + 1; s->form = "sleepUntil own clock";
        ev("sleep %d until now%+d us", s->id, us);
        co_await QCoro::sleepUntil(VClock::now() + std::chrono::microseconds(us));
        break; }
    case 6: case 7: { // real clocks: the time that passes between here and the call is real, too
        int ms = g.range(-20, 200);
        bool sys = g.chance(1, 2);
        s->form = sys ? "sleepUntil system_clock" : "sleepUntil steady_clock";
        ev("sleep %d until %s now%+d ms", s->id, sys ? "system" : "steady", ms);
        s->maxDue = now + std::max(0, ms) + 1;
        s->minDue = now; // lowered by the real time that passes: checked below
        std::optional<Task<>> t;
        double real;
        if (sys) { auto n0 = std::chrono::system_clock::now(); t.emplace(QCoro::sleepUntil(n0 + milliseconds(ms))); real = std::chrono::duration<double, std::milli>(std::chrono::system_clock::now() - n0).count(); }
        else { auto n0 = std::chrono::steady_clock::now(); t.emplace(QCoro::sleepUntil(n0 + milliseconds(ms))); real = std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - n0).count(); }
        if (real < 0 || real > 10000) { s->minDue = 0; s->maxDue = 1e18; } // the clock was set
        else s->minDue = now + std::max(0.0, ms - real - 0.001);
        co_await *t;
        break; }
    default: { int ms = -g.below(20); s->minDue = s->maxDue = now; s->form = "sleepFor negative"; ev("sleep %d for %d ms", s->id, ms); co_await QCoro::sleepFor(milliseconds(ms)); }
    }
    local.check();
    endSleep(s);
}
static Task<> timerWait(TWait *w, uint64_t seed) {
    Rng g(seed);
    Tracked local(1);
    Tm *tm = T->tms[size_t(w->tm)].get();
    int rounds = g.range(1, 3);
    for (int i = 0; i < rounds; ++i) {
        if (!tm->t) break;
        w->from = tm->fired; w->active = tm->t->isActive(); w->over = false; w->n = 0;
        w->form = g.below(3); w->queued = w->form == 2;
        long ev0 = run().counters["events"];
        ev("timer-wait %d on %d (%s) form %d", w->id, w->tm, w->active ? "active" : "inactive", w->form);
        long e1 = run().counters["events"]; (void)ev0;
        if (g.chance(1, 20)) { QTimer *none = nullptr; co_await none; VH_CHECK("C11", "inactive-suspended", e1 == run().counters["events"], "awaiting a null timer gave up control"); }
        if (w->form == 0) co_await tm->t;
        else if (w->form == 1) co_await *tm->t;
        else co_await qCoro(tm->t).waitForTimeout();
        ++w->n; w->over = true;
        long e2 = run().counters["events"];
        count("timer_waits");
        if (w->active) VH_CHECK("C11", "timer-early", tm->fired > w->from, "the wait %d for timer %d was resumed although the timer has not fired since it began", w->id, w->tm);
        else VH_CHECK("C11", "inactive-suspended", e1 == e2, "the wait %d for the inactive timer %d gave up control", w->id, w->tm);
        VH_CHECK("C11", "timer-not-next", tm->fired <= w->from + (w->queued ? 2 : 1), "the wait %d for timer %d was resumed %d timeouts later", w->id, w->tm, tm->fired - w->from);
        ev("timer-wait %d over", w->id);
        tm->check();
        local.check();
        if (tm->t) switch (g.below(10)) { // the awaiting coroutine manipulates the timer
        case 0: ev("stop %d", w->tm); tm->stop(); break;
        case 1: ev("restart %d", w->tm); tm->start(interval11(g)); break;
        case 2: tm->setSingle(g.chance(1, 2)); break;
        default: break;
        }
        if (g.chance(1, 3)) co_await QCoro::sleepFor(milliseconds(g.below(20)));
    }
    w->over = true;
}
static void quiet11() {
    double now = double(VDispatcher::instance()->now);
    for (auto &t : T->tms) t->check();
    for (auto &s : T->sleeps) if (!s->over && s->maxDue <= now) violation("C11", "sleep-late", "sleep %d (%s) is not over at %.3f although it was due by %.3f", s->id, s->form, now, s->maxDue);
    for (auto &w : T->waits) {
        Tm &tm = *T->tms[size_t(w->tm)];
        if (!w->over && w->active && tm.t && tm.fired > w->from) violation("C11", "timer-not-resumed", "the wait %d was not resumed although timer %d has fired %d times since it began", w->id, w->tm, tm.fired - w->from);
    }
    count("quiet_checks");
}
// Sleeps of a thread with Qt's own event loop, by the clock of the system.
static void realSleeps(Rng &g) {
    struct S { double ms; bool form; double took = -1; int n = 0; };
    std::vector<S> ss(size_t(g.range(10, 40)));
    for (auto &s : ss) s = {g.chance(1, 4) ? double(g.below(3)) : double(g.range(1, 400)), g.chance(1, 3)};
    QThread th;
    QObject ctx;
    int left = int(ss.size());
    th.start();
    ctx.moveToThread(&th);
    QMetaObject::invokeMethod(&ctx, [&] {
        for (auto &s : ss) [](S &s, int &left) -> Task<> {
            auto t0 = std::chrono::steady_clock::now();
            if (s.form) co_await QCoro::sleepUntil(t0 + std::chrono::duration<double, std::milli>(s.ms));
            else co_await QCoro::sleepFor(std::chrono::duration<double, std::milli>(s.ms));
            s.took = std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - t0).count();
            ++s.n;
            if (--left == 0) QThread::currentThread()->quit();
        }(s, left);
    }, Qt::QueuedConnection);
    VH_CHECK("C11", "sleep-late", th.wait(60000), "%d sleeps of up to 400 ms are not over after a minute", left);
    for (auto &s : ss) {
        VH_CHECK("C11", "resumed-twice", s.n == 1, "a sleep was resumed %d times", s.n);
        // QTimer counts in whole milliseconds: half of one is the clock's own rounding
        VH_CHECK("C11", "sleep-early", s.took >= s.ms - 0.999, "a sleep of %.3f ms took %.3f ms in an event loop of Qt's own", s.ms, s.took);
        count("real_sleeps");
    }
    nontrivial();
}
static void caseC11(Rng &g) {
    if (g.chance(1, 200)) { realSleeps(g); return; }
    auto *d = VDispatcher::instance();
    d->reset(&g);
    d->coarse = g.chance(1, 3);
    VClock::offsetMs = g.below(2) ? 1700000000000ll + g.below(1000000) : g.below(1000);
    const long live0 = Tracked::live;
    {
        TWorld w;
        T = &w;
        int nt = g.range(1, 3);
        for (int i = 0; i < nt; ++i) {
            w.tms.push_back(std::make_unique<Tm>());
            Tm *tm = w.tms.back().get();
            tm->t = new QTimer;
            tm->id = i;
            tm->setSingle(g.chance(1, 2));
            tm->setInterval(interval11(g));
            tm->t->setTimerType(tm->type = Qt::TimerType(g.below(3)));
            QObject::connect(tm->t, &QTimer::timeout, [tm, i] {
                ++tm->fired; ev("timer %d fires", i);
                if (tm->single) tm->running = false;
                // a repeating timer without an interval would keep the loop busy for ever
                if (tm->t->interval() > 0 || tm->t->isSingleShot()) tm->zero = 0;
                else if (++tm->zero >= 3) { tm->zero = 0; tm->setInterval(7); }
            });
        }
        int rounds = g.range(4, 20);
        for (int r = 0; r < rounds; ++r) {
            switch (g.below(9)) {
            case 0: case 1: { auto s = std::make_unique<Sleep>(); s->id = int(w.sleeps.size()); Sleep *p = s.get(); w.sleeps.push_back(std::move(s)); auto t = sleeper(p, g.next()); break; }
            case 2: case 3: { auto x = std::make_unique<TWait>(); x->id = int(w.waits.size()); x->tm = g.below(nt); TWait *p = x.get(); w.waits.push_back(std::move(x)); timerWait(p, g.next()); break; }
            case 4: { Tm &tm = *w.tms[size_t(g.below(nt))]; if (g.chance(2, 3)) { ev("start"); tm.start(); } else { ev("stop"); tm.stop(); } break; }
            case 5: { Tm &tm = *w.tms[size_t(g.below(nt))]; ev("interval"); tm.setInterval(interval11(g)); break; }
            case 6: d->step(); break;
            default: { int ms = g.below(25); ev("advance %d", ms); d->advanceBy(ms); quiet11(); }
            }
        }
        ev("closing");
        for (int k = 0; k < 8; ++k) {
            for (auto &tm : w.tms) { tm->setSingle(true); tm->start(5); }
            d->advanceBy(k == 0 ? 100 : 2100);
            quiet11();
        }
        for (auto &tm : w.tms) tm->stop();
        d->drain(VeryLong);
        quiet11();
        for (auto &s : w.sleeps) VH_CHECK("C11", "sleep-late", s->over, "sleep %d (%s) never ended", s->id, s->form);
        for (auto &x : w.waits) VH_CHECK("C11", "timer-not-resumed", x->over, "timer-wait %d never ended", x->id);
        if (w.sleeps.size() + w.waits.size() >= 2) nontrivial();
        // the timer may go while nobody waits, and waits on a null timer end at once
        for (auto &tm : w.tms) { delete tm->t; tm->t = nullptr; }
        d->drain(10);
    }
    VH_CHECK("C11", "leaked", Tracked::live == live0, "%ld objects of waiting coroutines are still alive", long(Tracked::live - live0));
    flushDeferredDeletes();
}

int main(int argc, char **argv) {
    parse(argc, argv);
    return monitorMain(argc, argv, [] {
    Options o;
    o.leakEvery = 16;
    return runCases(run().prop == "C09" ? caseC09 : run().prop == "C10" ? caseC10 : caseC11, o);
    });
}
#include "signals.moc"
