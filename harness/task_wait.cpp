// C05: waitFor() in every nesting; C06: QCoro::connect() against task completion and context death.
#include "vh.h"
#include <exception>
#include <fcntl.h>
#include <unistd.h>
#include <QSocketNotifier>
#include <stdexcept>
#include <QFuture>
#include <QFutureWatcher>
#include <QPromise>
#include <qcorotask.h>
#include <qcorolazytask.h>
#include <qcorotimer.h>
#include <qcorofuture.h>
#include <qcorosignal.h>

using namespace vh;
using QCoro::LazyTask;
using QCoro::Task;

struct CaseError : std::runtime_error { int k; explicit CaseError(int k_) : std::runtime_error("case"), k(k_) {} };
struct PlainError { int k; };
struct Box { // move-only, no default constructor
    Tracked t;
    explicit Box(int v) : t(v) {}
    Box(Box &&) noexcept = default;
    Box &operator=(Box &&) noexcept = default;
    Box(const Box &) = delete;
    Box &operator=(const Box &) = delete;
};
template<typename T> T mk(int v) { if constexpr (std::is_void_v<T>) return; else return T(v); }
static int rd(int v) { return v; }
static int rd(const Box &b) { b.t.check(); return b.t.movedFrom ? -2000 : b.t.value; }

struct Gate {
    bool open = false;
    std::vector<std::coroutine_handle<>> w;
    void release() { open = true; auto x = std::move(w); w.clear(); for (auto h : x) h.resume(); }
    bool await_ready() const noexcept { return open; }
    void await_suspend(std::coroutine_handle<> h) { w.push_back(h); }
    void await_resume() const noexcept {}
};
struct GateValue : Gate { int v = 0; int await_resume() const noexcept { return v; } };

struct Out { int type = 0, v = 0; };
class Emitter : public QObject {
    Q_OBJECT
public:
    int memberCalls = 0, memberArg = -1; int memberVoidCalls = 0;
    std::function<void(bool, int)> onCall;
    void take(int v) { ++memberCalls; memberArg = v; if (onCall) onCall(true, v); }
    void takeVoid() { ++memberVoidCalls; if (onCall) onCall(false, 0); }
Q_SIGNALS:
    void sig(int);
};

// ------------------------------------------------------------------------------------- C05
struct Work { int id; Out out; int wait; int ms; int gate; qint64 due; bool started = false, done = false; };
struct WWorld {
    Rng &g; VDispatcher *d;
    std::vector<std::unique_ptr<Work>> works;
    std::vector<std::unique_ptr<Gate>> gates;
    int depth = 0, maxDepth, budget;
    std::vector<int> stack; // waits under way, outermost first
    int ticks = 0;
    long background = 0;
    WWorld(Rng &g_, VDispatcher *d_) : g(g_), d(d_) {}
};
static WWorld *W;
static void doWait(Rng &g);

// A body that may itself call waitFor() somewhere in the middle.
template<typename TaskT> TaskT work(Work *w, Tracked arg, uint64_t seed) {
    Rng g(seed);
    w->started = true;
    ev("work %d starts", w->id);
    if (g.chance(1, 4)) { doWait(g); }
    if (w->wait == 1) co_await *W->gates[size_t(w->gate)];
    if (w->wait == 2) co_await QCoro::sleepFor(std::chrono::milliseconds(w->ms));
    if (w->wait == 3) { co_await QCoro::sleepFor(std::chrono::milliseconds(w->ms)); co_await *W->gates[size_t(w->gate)]; co_await QCoro::sleepFor(std::chrono::milliseconds(0)); }
    if (g.chance(1, 5)) { doWait(g); }
    arg.check();
    w->done = true;
    ev("work %d ends (%d,%d)", w->id, w->out.type, w->out.v);
    if (w->out.type == 1) throw CaseError(w->out.v);
    if (w->out.type == 2) throw PlainError{w->out.v};
    using T = typename TaskT::value_type;
    if constexpr (!std::is_void_v<T>) co_return mk<T>(w->out.v);
}
template<typename TaskT> TaskT workV(Work *w, Tracked arg, uint64_t seed) {
    Rng g(seed);
    w->started = true;
    ev("work %d starts", w->id);
    if (g.chance(1, 4)) { doWait(g); }
    if (w->wait == 1) co_await *W->gates[size_t(w->gate)];
    if (w->wait == 2) co_await QCoro::sleepFor(std::chrono::milliseconds(w->ms));
    if (w->wait == 3) { co_await QCoro::sleepFor(std::chrono::milliseconds(w->ms)); co_await *W->gates[size_t(w->gate)]; co_await QCoro::sleepFor(std::chrono::milliseconds(0)); }
    if (g.chance(1, 5)) { doWait(g); }
    arg.check();
    w->done = true;
    ev("work %d ends (%d,%d)", w->id, w->out.type, w->out.v);
    if (w->out.type == 1) throw CaseError(w->out.v);
    if (w->out.type == 2) throw PlainError{w->out.v};
}
template<typename TaskT> TaskT make(Work *w, uint64_t seed) {
    if constexpr (std::is_void_v<typename TaskT::value_type>) return workV<TaskT>(w, Tracked(1), seed);
    else return work<TaskT>(w, Tracked(1), seed);
}

template<typename T, typename F> static void runWait(Work *w, F &&f) {
    Out got;
    long depth = long(W->stack.size());
    W->stack.push_back(w->id);
    ev("waitFor %d at depth %ld%s", w->id, depth, w->done ? " (finished)" : "");
    bool doneBefore = w->done;
    long steps = W->d->steps;
    try {
        if constexpr (std::is_void_v<T>) { f(); }
        else { T r = f(); got.v = rd(r); }
    } catch (const CaseError &e) { got = {1, e.k}; } catch (const PlainError &e) { got = {2, e.k}; }
    VH_CHECK("C05", "returned-early", w->done, "waitFor returned although the operation %d has not finished", w->id);
    VH_CHECK("C05", "wrong-outcome", !w->done || (got.type == w->out.type && got.v == w->out.v), "waitFor(%d) gave (%d,%d) instead of (%d,%d)", w->id, got.type, got.v, w->out.type, w->out.v);
    VH_CHECK("C05", "waited-for-finished", !doneBefore || steps == W->d->steps, "waitFor(%d) ran the event loop although the operation had finished", w->id);
    VH_CHECK("C05", "nesting", !W->stack.empty() && W->stack.back() == w->id && long(W->stack.size()) == depth + 1, "waitFor(%d) returned although an inner waitFor has not", w->id);
    W->stack.pop_back();
    ev("waitFor %d returns (%d,%d)", w->id, got.type, got.v);
    count("waits");
    if (depth > 0) count("nested_waits");
}

static Work *newWork(Rng &g) {
    auto w = std::make_unique<Work>();
    w->id = int(W->works.size());
    w->out.type = g.chance(1, 4) ? (g.chance(1, 3) ? 2 : 1) : 0;
    w->out.v = g.range(1, 100000);
    w->wait = g.below(4);
    w->ms = g.below(30);
    w->gate = g.below(int(W->gates.size()));
    Work *p = w.get();
    W->works.push_back(std::move(w));
    return p;
}

template<typename T> static void doWaitT(Rng &g) {
    Work *w = newWork(g);
    if constexpr (std::is_void_v<T>) if (!w->out.type) w->out.v = 0;
    uint64_t seed = g.next();
    switch (g.below(6)) {
    case 0: { auto t = make<Task<T>>(w, seed); if (g.chance(1, 3)) W->d->advanceBy(g.below(40)); runWait<T>(w, [&] { return QCoro::waitFor(t); }); break; }
    case 1: runWait<T>(w, [&] { return QCoro::waitFor(make<Task<T>>(w, seed)); }); break;
    case 2: runWait<T>(w, [&] { return QCoro::waitFor(make<LazyTask<T>>(w, seed)); }); break;
    case 3: { auto t = make<LazyTask<T>>(w, seed); VH_CHECK("C05", "lazy-started", !w->started, "a lazy task started before waitFor"); runWait<T>(w, [&] { return QCoro::waitFor(t); }); break; }
    case 4: { auto t = make<Task<T>>(w, seed); W->d->advanceBy(g.below(20)); Task<T> u(std::move(t)); runWait<T>(w, [&] { return QCoro::waitFor(std::move(u)); }); break; }
    default:
        // plain awaitable: a gate opened by a timer
        if constexpr (std::is_same_v<T, int>) {
            auto gv = std::make_shared<GateValue>();
            gv->v = w->out.v; w->out.type = 0;
            int ms = g.below(25);
            bool already = g.chance(1, 4);
            if (already) { w->done = true; gv->open = true; }
            else QTimer::singleShot(ms, [gv, w] { w->done = true; ev("awaitable %d opens", w->id); gv->release(); });
            if (g.chance(1, 2)) runWait<int>(w, [&] { return QCoro::waitFor(*gv); });
            else if (already) { GateValue tmp; tmp.v = w->out.v; tmp.open = true; runWait<int>(w, [&] { return QCoro::waitFor(std::move(tmp)); }); }
            else runWait<int>(w, [&] { return QCoro::waitFor(*gv); });
        } else runWait<T>(w, [&] { return QCoro::waitFor(make<Task<T>>(w, seed)); });
    }
}
static void doWait(Rng &g) {
    if (W->budget <= 0 || int(W->stack.size()) >= W->maxDepth) return;
    --W->budget;
    switch (g.below(3)) { case 0: doWaitT<void>(g); break; case 1: doWaitT<int>(g); break; default: doWaitT<Box>(g); }
}
static Task<> background(int i, int n, int ms) {
    for (int k = 0; k < n; ++k) { co_await QCoro::sleepFor(std::chrono::milliseconds(ms)); ++W->background; ev("background %d tick", i); }
}

static void caseC05(Rng &g) {
    auto *d = VDispatcher::instance();
    d->reset(&g);
    const long live0 = Tracked::live;
    {
        WWorld w(g, d);
        W = &w;
        w.maxDepth = g.range(1, 4);
        w.budget = g.range(2, 9);
        for (int i = 0; i < 3; ++i) w.gates.push_back(std::make_unique<Gate>());
        // some gates are opened by way of a socket
        struct Pipe { int fd[2] = {-1, -1}; std::unique_ptr<QSocketNotifier> n; bool sent = false; ~Pipe() { n.reset(); if (fd[0] >= 0) { ::close(fd[0]); ::close(fd[1]); } } };
        Pipe pipes[3];
        for (int i = 0; i < 3; ++i) if (g.chance(1, 3)) {
            if (::pipe2(pipes[i].fd, O_NONBLOCK | O_CLOEXEC)) abort();
            pipes[i].n = std::make_unique<QSocketNotifier>(pipes[i].fd[0], QSocketNotifier::Read);
            QObject::connect(pipes[i].n.get(), &QSocketNotifier::activated, [&w, i, &pipes] { pipes[i].n->setEnabled(false); ev("socket %d", i); count("socket_events"); w.gates[size_t(i)]->release(); });
        }
        auto openGate = [&w, &pipes](int i) {
            if (w.gates[size_t(i)]->open) return;
            if (!pipes[i].n) { w.gates[size_t(i)]->release(); return; }
            if (pipes[i].sent) return;
            pipes[i].sent = true;
            if (::write(pipes[i].fd[1], "x", 1) != 1) abort();
        };
        d->onStuck = [&] {
            for (int i = 0; i < 3; ++i) if (pipes[i].sent && !w.gates[size_t(i)]->open) fatalViolation("C05", "loop-incomplete", fmt("the event loop run by waitFor() does not look at sockets"));
            // Nothing will ever happen by itself any more: open the gates; if they are all open, waitFor is stuck.
            for (int i = 0; i < 3; ++i) if (!w.gates[size_t(i)]->open) { ev("stuck: open a gate"); openGate(i); return; }
            fatalViolation("C05", "waitfor-stuck", w.stack.empty() ? "the event loop is stuck" : fmt("waitFor(%d) is stuck: the operation has %sfinished and nothing is pending", w.stack.back(), w.works[size_t(w.stack.back())]->done ? "" : "not "));
        };
        // timers that open gates, start nested waits, and tick
        std::vector<std::unique_ptr<QTimer>> timers;
        for (int i = 0; i < 3; ++i) if (g.chance(2, 3)) {
            auto t = std::make_unique<QTimer>();
            t->setSingleShot(true);
            QObject::connect(t.get(), &QTimer::timeout, [&w, i, &openGate] { if (!w.gates[size_t(i)]->open) { ev("gate %d opens", i); openGate(i); } });
            t->start(g.below(60));
            timers.push_back(std::move(t));
        }
        int nNested = g.below(4);
        for (int i = 0; i < nNested; ++i) {
            auto t = std::make_unique<QTimer>();
            t->setSingleShot(true);
            uint64_t s = g.next();
            QObject::connect(t.get(), &QTimer::timeout, [s] { Rng g2(s); ev("timer handler"); doWait(g2); });
            t->start(g.below(40));
            timers.push_back(std::move(t));
        }
        // the application is asked to quit, possibly while a waitFor() is under way
        const bool quits = g.chance(1, 5);
        if (quits) {
            auto t = std::make_unique<QTimer>();
            t->setSingleShot(true);
            QObject::connect(t.get(), &QTimer::timeout, [&w] { ev("quit"); if (!w.stack.empty()) count("quits_while_waiting"); QCoreApplication::exit(0); });
            t->start(g.below(30));
            timers.push_back(std::move(t));
        }
        std::vector<Task<>> bg;
        for (int i = 0; i < 2; ++i) if (g.chance(1, 2)) bg.push_back(background(i, g.range(1, 4), g.below(20)));
        int n = g.range(1, 3);
        for (int i = 0; i < n; ++i) { doWait(g); if (g.chance(1, 3)) d->advanceBy(g.below(30)); }
        ev("closing");
        for (auto &x : w.gates) x->release();
        d->drain();
        for (auto &t : bg) VH_CHECK("C05", "background-stuck", t.isReady(), "a coroutine in the background did not finish");
        if (w.works.size() >= 2) nontrivial();
        VH_CHECK("C05", "waits-left", w.stack.empty(), "waitFor calls are still under way");
        if (quits) { QTimer::singleShot(0, [] { QCoreApplication::exit(0); }); QCoreApplication::exec(); } // forgets about quitting
    }
    VH_CHECK("C05", "leaked", Tracked::live == live0, "%ld objects are still alive after waitFor", long(Tracked::live - live0));
    flushDeferredDeletes();
}

// ------------------------------------------------------------------------------------- C06
struct Conn {
    int id; Out out; bool done = false, ctxAliveAtDone = false; int calls = 0; bool wantsArg; int ctx; bool dead = false;
};
struct CWorld {
    std::vector<std::unique_ptr<Conn>> conns;
    std::vector<Emitter *> ctx;
    std::vector<std::unique_ptr<Gate>> gates;
};
static CWorld *C;
static void connDone(Conn *c) {
    c->done = true;
    c->ctxAliveAtDone = C->ctx[size_t(c->ctx)] != nullptr;
    ev("operation %d ends (%d,%d), context %s", c->id, c->out.type, c->out.v, c->ctxAliveAtDone ? "alive" : "gone");
}
static void connCall(Conn *c, bool arg, int v) {
    ++c->calls;
    ev("callback of %d", c->id);
    count("callbacks");
    VH_CHECK("C06", "called-too-often", c->calls == 1, "the callback of connection %d was called %d times", c->id, c->calls);
    VH_CHECK("C06", "called-early", c->done, "the callback of connection %d was called before the task finished", c->id);
    VH_CHECK("C06", "called-after-exception", c->out.type == 0, "the callback of connection %d was called although the task threw", c->id);
    VH_CHECK("C06", "called-without-context", C->ctx[size_t(c->ctx)] != nullptr, "the callback of connection %d was called after its context was destroyed", c->id);
    if (arg) VH_CHECK("C06", "wrong-argument", v == c->out.v, "the callback of connection %d got %d instead of %d", c->id, v, c->out.v);
}
template<typename T> static Task<T> op(Conn *c, int wait, Gate *gate, int ms, Tracked arg) {
    if (wait == 1) co_await *gate;
    if (wait == 2) co_await QCoro::sleepFor(std::chrono::milliseconds(ms));
    arg.check();
    connDone(c);
    if (c->out.type == 1) throw CaseError(c->out.v);
    if (c->out.type == 2) throw PlainError{c->out.v};
    if constexpr (!std::is_void_v<T>) co_return mk<T>(c->out.v);
}
static Task<> opV(Conn *c, int wait, Gate *gate, int ms, Tracked arg) {
    if (wait == 1) co_await *gate;
    if (wait == 2) co_await QCoro::sleepFor(std::chrono::milliseconds(ms));
    arg.check();
    connDone(c);
    if (c->out.type == 1) throw CaseError(c->out.v);
    if (c->out.type == 2) throw PlainError{c->out.v};
}
static Emitter *theCtx(int i) { return C->ctx[size_t(i)]; }

static void caseC06(Rng &g) {
    auto *d = VDispatcher::instance();
    d->reset(&g);
    const long live0 = Tracked::live;
    {
        CWorld w;
        C = &w;
        for (int i = 0; i < 3; ++i) w.gates.push_back(std::make_unique<Gate>());
        const int nctx = g.range(1, 3);
        for (int i = 0; i < nctx; ++i) w.ctx.push_back(new Emitter);
        std::vector<std::unique_ptr<QPromise<int>>> promises;
        std::vector<std::pair<QPromise<int> *, Conn *>> open;
        const int rounds = g.range(3, 16);
        int deadCtx = 0;
        for (int r = 0; r < rounds; ++r) {
            switch (g.below(8)) {
            case 0: case 1: case 2: case 3: {
                auto cp = std::make_unique<Conn>();
                Conn *c = cp.get();
                c->id = int(w.conns.size());
                c->ctx = g.below(nctx);
                if (!theCtx(c->ctx)) break;
                c->out = {g.chance(1, 5) ? (g.chance(1, 3) ? 2 : 1) : 0, g.range(1, 100000)};
                w.conns.push_back(std::move(cp));
                Emitter *ctx = theCtx(c->ctx);
                Gate *gate = w.gates[size_t(g.below(3))].get();
                int wait = g.below(3), ms = g.below(20);
                int form = g.below(9);
                ev("connect %d ctx=%d form=%d wait=%d out=(%d,%d)", c->id, c->ctx, form, wait, c->out.type, c->out.v);
                Tracked cap(5);
                // A callback may destroy its own context, or connect again.
                bool suicide = g.chance(1, 10);
                auto after = [c, suicide] { if (suicide) { ev("callback %d deletes context %d", c->id, c->ctx); auto *x = C->ctx[size_t(c->ctx)]; C->ctx[size_t(c->ctx)] = nullptr; delete x; } };
                switch (form) {
                case 0: QCoro::connect(op<int>(c, wait, gate, ms, Tracked(1)), ctx, [c, cap, after](int v) { cap.check(); connCall(c, true, v); after(); }); break;
                case 1: QCoro::connect(op<int>(c, wait, gate, ms, Tracked(1)), ctx, [c, cap, after]() { cap.check(); connCall(c, false, 0); after(); }); break;
                case 2: c->out.v = c->out.type ? c->out.v : 0; QCoro::connect(opV(c, wait, gate, ms, Tracked(1)), ctx, [c, cap, after]() { cap.check(); connCall(c, false, 0); after(); }); break;
                case 3: QCoro::connect(op<Box>(c, wait, gate, ms, Tracked(1)), ctx, [c, cap, after](Box b) { cap.check(); connCall(c, true, rd(b)); after(); }); break;
                case 4: QCoro::connect(op<Box>(c, wait, gate, ms, Tracked(1)), ctx, [c, cap](Box &&b) { cap.check(); connCall(c, true, rd(b)); }); break;
                case 5: { // a member function, on a context of its own, so that calls can be told apart
                    auto *e = new Emitter;
                    w.ctx.push_back(e); c->ctx = int(w.ctx.size()) - 1;
                    e->onCall = [c](bool a, int v) { connCall(c, a, v); };
                    if (g.chance(1, 3)) QCoro::connect(op<int>(c, wait, gate, ms, Tracked(1)), e, &Emitter::takeVoid);
                    else if (g.chance(1, 2)) QCoro::connect(op<int>(c, wait, gate, ms, Tracked(1)), e, &Emitter::take);
                    else { c->out.v = c->out.type ? c->out.v : 0; QCoro::connect(opV(c, wait, gate, ms, Tracked(1)), e, &Emitter::takeVoid); }
                    break;
                }
                case 6: QCoro::connect(op<int>(c, wait, gate, ms, Tracked(1)), ctx, [c, cap](const int &v) { cap.check(); connCall(c, true, v); }); break;
                case 7: { // a future
                    c->out.type = 0;
                    promises.push_back(std::make_unique<QPromise<int>>());
                    auto *p = promises.back().get();
                    p->start();
                    bool early = g.chance(1, 3);
                    if (early) { connDone(c); p->addResult(c->out.v); p->finish(); }
                    QCoro::connect(p->future(), ctx, [c, cap](int v) { cap.check(); connCall(c, true, v); });
                    if (!early) open.push_back({p, c});
                    break;
                }
                default: { // a task that is kept on being started by somebody else and moved around
                    auto t = op<int>(c, wait, gate, ms, Tracked(1));
                    auto u = std::move(t);
                    QCoro::connect(std::move(u), ctx, [c, cap, after](int v) { cap.check(); connCall(c, true, v); after(); });
                }
                }
                break;
            }
            case 4: { int i = g.below(int(w.ctx.size())); if (w.ctx[size_t(i)] && g.chance(1, 2)) { ev("delete context %d", i); ++deadCtx; auto *x = w.ctx[size_t(i)]; w.ctx[size_t(i)] = nullptr; delete x; } break; }
            case 5: { int i = g.below(3); if (!w.gates[size_t(i)]->open) { ev("open %d", i); w.gates[size_t(i)]->release(); } break; }
            case 6: { int ms = g.below(20); ev("advance %d", ms); d->advanceBy(ms); break; }
            default: if (!open.empty()) { auto [p, c] = open.back(); open.pop_back(); ev("finish future of %d", c->id); connDone(c); c->ctxAliveAtDone = false; p->addResult(c->out.v); p->finish(); } else d->step();
            }
        }
        ev("closing");
        for (auto [p, c] : open) { connDone(c); p->addResult(c->out.v); p->finish(); }
        for (auto &x : w.gates) x->release();
        d->drain();
        if (w.conns.size() >= 2) nontrivial();
        for (auto &c : w.conns) {
            bool must = c->done && c->out.type == 0 && c->ctxAliveAtDone;
            if (!c->done) violation("C06", "operation-stuck", "operation %d did not finish", c->id);
            // futures hand over through the event loop; there the context may die in between
            if (must && theCtx(c->ctx)) VH_CHECK("C06", "callback-missing", c->calls == 1, "the callback of connection %d was called %d times", c->id, c->calls);
            if (!must && c->out.type) VH_CHECK("C06", "called-after-exception", c->calls == 0, "the callback of connection %d was called %d times", c->id, c->calls);
        }
        for (auto *x : w.ctx) delete x;
        w.ctx.assign(w.ctx.size(), nullptr);
        promises.clear();
        d->drain();
    }
    VH_CHECK("C06", "leaked", Tracked::live == live0, "%ld captured objects or arguments are still alive", long(Tracked::live - live0));
    flushDeferredDeletes();
}

int main(int argc, char **argv) {
    parse(argc, argv);
    return monitorMain(argc, argv, [] {
    Options o;
    o.leakEvery = 16;
    return runCases(run().prop == "C06" ? caseC06 : caseC05, o);
    });
}
#include "task_wait.moc"
