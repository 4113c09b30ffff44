// C01 / C02 / C03: random coroutine programs over Task<T> and LazyTask<T>.
//
// A case is a set of coroutines that spawn, keep, move, drop and await each other, wait for
// gates (custom awaitables of every supported form), for timers and for posted events, and
// return or throw. The driver opens gates, lets virtual time pass and drops handles in random
// order. Monitors watch every start, await, resumption, completion and frame destruction.
#include "vh.h"
#include <QString>
#include <memory>
#include <exception>
#include <stdexcept>
#include <qcorotask.h>
#include <qcorolazytask.h>
#include <qcorotimer.h>
#include <qcorosignal.h>

using namespace vh;
using QCoro::LazyTask;
using QCoro::Task;

struct CaseError : std::runtime_error { int k; explicit CaseError(int k_) : std::runtime_error("case"), k(k_) {} };
struct PlainError { int k; };

// A move-only result without a default constructor.
struct MoveOnly {
    Tracked t;
    explicit MoveOnly(int v) : t(v) {}
    MoveOnly(MoveOnly &&) noexcept = default;
    MoveOnly &operator=(MoveOnly &&) noexcept = default;
    MoveOnly(const MoveOnly &) = delete;
    MoveOnly &operator=(const MoveOnly &) = delete;
};
// A result that coroutines produce through an implicit conversion.
struct Wrapped {
    Tracked t;
    int poison = 0; // if not 0: throws when it is copied
    struct Source { Tracked t; int poison = 0; };
    Wrapped() : t(-7) {}
    Wrapped(int v) : t(v) {}
    Wrapped(const Source &s) : t(checked(s.t, s.poison)) {}
    Wrapped(Source &&s) : t(std::move(checked(s.t, s.poison))) {}
    Wrapped(const Wrapped &o) : t(checked(o.t, o.poison)) {}
    Wrapped(Wrapped &&) noexcept = default;
    Wrapped &operator=(const Wrapped &o) { t = checked(o.t, o.poison); poison = 0; return *this; }
    Wrapped &operator=(Wrapped &&) noexcept = default;
    static Wrapped poisoned(int v, int p) { Wrapped w(v); w.poison = p; return w; }
    template<typename U> static U &checked(U &u, int poison) { if (poison) throw CaseError(poison); return u; }
};
// Something that a coroutine returns although it outlives the coroutine.
template<typename F> struct Outlives {
    int id; F check;
    ~Outlives() { VH_CHECK("C01", "moved-from", check(), "coroutine %d has moved from an object that it returned and that outlives it", id); }
};
template<typename F> Outlives(int, F) -> Outlives<F>;

template<typename T> struct Val;
template<> struct Val<int> { static int make(int v) { return v; } static int read(const int &v) { return v; } };
template<> struct Val<QString> { static QString make(int v) { return QStringLiteral("value-%1-padding-to-defeat-sso").arg(v); } static int read(const QString &v) { return v.startsWith(QLatin1String("value-")) ? v.mid(6).section(QLatin1Char('-'), 0, 0).toInt() : -1000; } };
template<> struct Val<MoveOnly> { static MoveOnly make(int v) { return MoveOnly(v); } static int read(const MoveOnly &v) { v.t.check(); return v.t.movedFrom ? -2000 : v.t.value; } };
template<> struct Val<Wrapped> { static int make(int v) { return v; } static int read(const Wrapped &v) { v.t.check(); return v.t.movedFrom ? -2000 : v.t.value; } };

enum Kind { KVoid, KInt, KString, KMove, KWrap, NKinds };
static const char *kindName[] = {"void", "int", "QString", "MoveOnly", "Wrapped"};

struct World;
static World *W = nullptr;

// ---- custom awaitables: every form the library accepts
struct Gate {
    bool open = false;
    std::vector<std::coroutine_handle<>> waiters;
    void release() {
        open = true;
        auto w = std::move(waiters);
        waiters.clear();
        for (auto h : w) h.resume();
    }
};
struct GateAwaiter {
    Gate *g;
    int tag;
    bool await_ready() const noexcept { return g->open; }
    void await_suspend(std::coroutine_handle<> h) { g->waiters.push_back(h); }
    int await_resume() const noexcept { return tag; }
};
struct GateMember {
    Gate *g; int tag;
    GateMember(Gate *g_, int t) : g(g_), tag(t) {}
    GateMember(const GateMember &) = delete;
    auto operator co_await() { return GateAwaiter{g, tag}; }
};
struct GateFree { Gate *g; int tag; GateFree(Gate *g_, int t) : g(g_), tag(t) {} GateFree(const GateFree &) = delete; };
inline auto operator co_await(const GateFree &f) { return GateAwaiter{f.g, f.tag}; }
struct GateDirect : GateAwaiter {
    GateDirect(Gate *g_, int t) : GateAwaiter{g_, t} {}
    GateDirect(const GateDirect &) = delete;
};
// Resumes by symmetric transfer / by refusing to suspend.
struct NoSuspend { bool await_ready() const noexcept { return false; } bool await_suspend(std::coroutine_handle<>) const noexcept { return false; } int await_resume() const noexcept { return 5; } };
struct PostedHop : QObject {
    std::coroutine_handle<> h;
    bool await_ready() const noexcept { return false; }
    void await_suspend(std::coroutine_handle<> c) { h = c; QMetaObject::invokeMethod(this, [this] { auto x = h; x.resume(); }, Qt::QueuedConnection); }
    void await_resume() const noexcept {}
};

enum class St { Created, Running, Done };
struct Outcome { int type = 0; int v = 0; }; // type 0 value, 1 std::exception, 2 other exception
struct Node {
    int id; Kind kind; bool lazy; int parent;
    St st = St::Created;
    int starts = 0;
    Outcome out;
    int handles = 0;
    bool frame = false, localsLive = false;
    int destroys = 0;
    int consumed = 0;
    int waiting = 0; // coroutines suspended on it
    bool everAwaited = false;
    int waitsOn = -1; // the coroutine it is suspended on
};
struct Await { int awaiter, awaited; bool doneBefore; int resumed = 0; };

struct World {
    Rng &g;
    VDispatcher *d;
    std::vector<Node> nodes;
    std::vector<Await> awaits;
    std::vector<Gate> gates;
    int maxNodes, maxDepth = 4;
    int spawning = -1;
    bool spawnStarted = false;
    bool closing = false;
    int depth = 0;

    World(Rng &g_, VDispatcher *d_) : g(g_), d(d_) {}

    int newNode(Kind k, bool lazy, int parent) {
        Node n; n.id = int(nodes.size()); n.kind = k; n.lazy = lazy; n.parent = parent;
        nodes.push_back(n);
        ev("spawn %d %s %s parent=%d", n.id, kindName[k], lazy ? "lazy" : "eager", parent);
        count(lazy ? "lazy_coroutines" : "eager_coroutines");
        return n.id;
    }
    void onStart(int id) {
        Node &n = nodes[size_t(id)];
        ev("start %d", id);
        ++n.starts;
        VH_CHECK("C03", "body-started-twice", n.starts == 1, "coroutine %d: body started %d times", id, n.starts);
        VH_CHECK("C03", "lazy-started-unawaited", !n.lazy || n.everAwaited, "lazy coroutine %d runs although nothing awaited it", id);
        n.st = St::Running;
        n.localsLive = true;
    }
    void onDone(int id, int type, int v) {
        Node &n = nodes[size_t(id)];
        ev("finish %d %s %d", id, type == 0 ? "value" : type == 1 ? "exception" : "plain-exception", v);
        VH_CHECK("C03", "body-finished-twice", n.st == St::Running, "coroutine %d finishes in state %d", id, int(n.st));
        n.st = St::Done;
        n.out = {type, v};
        count("completions");
    }
    void onLocalsGone(int id) {
        Node &n = nodes[size_t(id)];
        VH_CHECK("C02", "locals-destroyed-early", n.st == St::Done, "coroutine %d: local variables destroyed before its body finished", id);
        n.localsLive = false;
    }
    void onFrame(int id) { nodes[size_t(id)].frame = true; }
    void onFrameGone(int id) {
        Node &n = nodes[size_t(id)];
        ev("frame-destroyed %d", id);
        ++n.destroys;
        n.frame = false;
        count("frames_destroyed");
        VH_CHECK("C02", "frame-destroyed-twice", n.destroys == 1, "coroutine %d: arguments destroyed %d times", id, n.destroys);
        VH_CHECK("C02", "frame-destroyed-unfinished", n.st == St::Done || (n.st == St::Created && n.lazy && n.handles == 0), "coroutine %d: frame destroyed while its body has not finished (state %d)", id, int(n.st));
        VH_CHECK("C02", "frame-destroyed-while-held", n.handles == 0, "coroutine %d: frame destroyed while %d Task objects refer to it", id, n.handles);
    }
    int beforeAwait(int awaiter, int awaited) {
        Node &b = nodes[size_t(awaited)];
        awaits.push_back({awaiter, awaited, b.st == St::Done, 0});
        ev("await %d -> %d%s", awaiter, awaited, b.st == St::Done ? " (finished)" : b.waiting ? " (also awaited by others)" : "");
        if (b.waiting) count("concurrent_awaiters");
        if (b.st == St::Done) count("awaits_of_finished"); else count("awaits_suspending");
        b.everAwaited = true;
        ++b.waiting;
        ++b.consumed;
        if (awaiter >= 0) nodes[size_t(awaiter)].waitsOn = awaited;
        return int(awaits.size()) - 1;
    }
    size_t traceMark() const { return size_t(run().counters["events"]); }
    void afterAwait(int aw, size_t mark, int type, int v) {
        Await &a = awaits[size_t(aw)];
        bool doneBefore = a.doneBefore;
        size_t cur = traceMark();
        ++a.resumed;
        Node &b = nodes[size_t(a.awaited)];
        --b.waiting;
        if (a.awaiter >= 0) nodes[size_t(a.awaiter)].waitsOn = -1;
        VH_CHECK("C01", "resumed-twice", a.resumed == 1, "await #%d (%d -> %d) completed %d times", aw, a.awaiter, a.awaited, a.resumed);
        VH_CHECK("C01", "resumed-early", b.st == St::Done, "coroutine %d resumed from awaiting %d, which has not finished", a.awaiter, a.awaited);
        VH_CHECK("C01", "suspended-on-finished", !doneBefore || mark == cur, "coroutine %d awaited the finished %d and yet gave up control", a.awaiter, a.awaited);
        VH_CHECK("C01", "wrong-outcome", b.st != St::Done || (b.out.type == type && b.out.v == v), "coroutine %d awaited %d, which ended with (%d,%d); the await gave (%d,%d)", a.awaiter, a.awaited, b.out.type, b.out.v, type, v);
        ev("resume %d <- %d (%d,%d)", a.awaiter, a.awaited, type, v);
        count("resumptions");
    }
    // Invariants that hold whenever control is back in the driver and nothing is pending.
    void checkQuiet() {
        for (size_t i = 0; i < awaits.size(); ++i) {
            Await &a = awaits[i];
            Node &b = nodes[size_t(a.awaited)];
            if (b.st == St::Done && a.resumed == 0)
                violation("C01", "lost-resumption", "coroutine %d awaits %d, which has finished, but was not resumed", a.awaiter, a.awaited);
        }
        for (auto &n : nodes) {
            if (!n.lazy && n.starts == 0) violation("C03", "eager-not-started", "eager coroutine %d did not start", n.id);
            if (n.lazy && n.starts == 0 && n.everAwaited) violation("C03", "lazy-not-started", "lazy coroutine %d was awaited and did not start", n.id);
            if (n.frame && n.handles == 0 && n.waiting == 0 && (n.st == St::Done || (n.st == St::Created && n.lazy)))
                violation("C02", n.st == St::Done ? "frame-leaked" : "lazy-frame-leaked", "coroutine %d: %s, no Task object refers to it, but its frame was not destroyed", n.id, n.st == St::Done ? "finished" : "never started");
        }
        count("quiet_checks");
    }
};

struct FrameGuard { // a local variable of the coroutine
    int id;
    Tracked t;
    explicit FrameGuard(int i) : id(i), t(i) { W->onStart(i); }
    ~FrameGuard() { W->onLocalsGone(id); }
};
struct ParamGuard { // an argument: lives as long as the frame
    int id;
    Tracked t;
    explicit ParamGuard(int i) : id(i), t(i) { W->onFrame(i); }
    ParamGuard(ParamGuard &&o) noexcept : id(o.id), t(std::move(o.t)) { o.id = -1; }
    ~ParamGuard() { if (id >= 0) W->onFrameGone(id); }
};

template<typename T> struct Slots {
    static constexpr int N = 3;
    Task<T> t[N]; int tn[N] = {-1, -1, -1};
    std::unique_ptr<LazyTask<T>> l[N]; int ln[N] = {-1, -1, -1};
};
static Slots<void> *SV; static Slots<int> *SI; static Slots<QString> *SS; static Slots<MoveOnly> *SM; static Slots<Wrapped> *SW;
template<typename T> Slots<T> &slots_();
template<> Slots<void> &slots_<void>() { return *SV; }
template<> Slots<int> &slots_<int>() { return *SI; }
template<> Slots<QString> &slots_<QString>() { return *SS; }
template<> Slots<MoveOnly> &slots_<MoveOnly>() { return *SM; }
template<> Slots<Wrapped> &slots_<Wrapped>() { return *SW; }
template<typename T> constexpr Kind kindOf() {
    if constexpr (std::is_void_v<T>) return KVoid; else if constexpr (std::is_same_v<T, int>) return KInt;
    else if constexpr (std::is_same_v<T, QString>) return KString; else if constexpr (std::is_same_v<T, MoveOnly>) return KMove; else return KWrap;
}
template<typename F> void withKind(Kind k, F &&f) {
    switch (k) {
    case KVoid: f(std::type_identity<void>{}); break;
    case KInt: f(std::type_identity<int>{}); break;
    case KString: f(std::type_identity<QString>{}); break;
    case KMove: f(std::type_identity<MoveOnly>{}); break;
    default: f(std::type_identity<Wrapped>{}); break;
    }
}

template<typename TaskT> TaskT body(int id, ParamGuard pg, uint64_t seed, int depth);

// Checks around a call that creates a coroutine.
template<typename T> Task<T> spawnEager(int id, Rng &g, int depth) {
    auto t = body<Task<T>>(id, ParamGuard(id), g.next(), depth);
    Node &n = W->nodes[size_t(id)];
    VH_CHECK("C03", "eager-not-started", n.starts == 1, "eager coroutine %d: body not started when the call returned", id);
    VH_CHECK("C03", "isready-wrong", t.isReady() == (n.st == St::Done), "coroutine %d: isReady()=%d although state is %d", id, t.isReady(), int(n.st));
    return t;
}
template<typename T> std::unique_ptr<LazyTask<T>> spawnLazy(int id, Rng &g, int depth) {
    std::unique_ptr<LazyTask<T>> t(new LazyTask<T>(body<LazyTask<T>>(id, ParamGuard(id), g.next(), depth)));
    VH_CHECK("C03", "lazy-started-unawaited", W->nodes[size_t(id)].starts == 0, "lazy coroutine %d: body started by the call", id);
    VH_CHECK("C03", "isready-wrong", !t->isReady(), "lazy coroutine %d: isReady() before it was started", id);
    return t;
}
template<typename T> void putEager(int slot, int id, Task<T> &&t) {
    auto &s = slots_<T>();
    // handles counts Task objects; the count is lowered before the object goes, so that the
    // frame monitor sees the state the user sees.
    int old = s.tn[slot];
    if (old >= 0) --W->nodes[size_t(old)].handles;
    s.tn[slot] = id;
    if (id >= 0) ++W->nodes[size_t(id)].handles;
    s.t[slot] = std::move(t);
}
template<typename T> void dropEager(int slot) {
    auto &s = slots_<T>();
    int old = s.tn[slot];
    if (old < 0) return;
    ev("drop %d", old);
    --W->nodes[size_t(old)].handles;
    s.tn[slot] = -1;
    if (W->nodes[size_t(old)].st == St::Running) count("drops_while_running");
    s.t[slot] = Task<T>();
}
template<typename T> void dropLazy(int slot) {
    auto &s = slots_<T>();
    int old = s.ln[slot];
    if (old < 0 || W->nodes[size_t(old)].waiting) return;
    ev("drop-lazy %d", old);
    if (W->nodes[size_t(old)].st == St::Created) count("lazy_dropped_unstarted");
    --W->nodes[size_t(old)].handles;
    s.ln[slot] = -1;
    auto p = std::move(s.l[slot]);
    p.reset();
}
template<typename T> void moveSlot(int a, int b, bool construct) {
    auto &s = slots_<T>();
    ev("move %s slot %d(%d) -> %d(%d)%s", kindName[kindOf<T>()], a, s.tn[a], b, s.tn[b], construct ? " via temporary" : "");
    count("moves");
    if (a == b) { auto &x = s.t[a]; s.t[a] = std::move(x); return; }
    int old = s.tn[b], in = s.tn[a];
    if (old >= 0) --W->nodes[size_t(old)].handles;
    s.tn[b] = in; s.tn[a] = -1;
    if (construct) {
        Task<T> tmp(std::move(s.t[a]));
        s.t[b] = std::move(tmp);
    } else {
        s.t[b] = std::move(s.t[a]);
    }
    VH_CHECK("C03", "isready-wrong", s.t[a].isReady(), "a moved-from Task is not ready");
    if (in >= 0) VH_CHECK("C03", "isready-wrong", s.t[b].isReady() == (W->nodes[size_t(in)].st == St::Done), "isReady() wrong after a move (%d)", in);
}
template<typename T> void swapSlots(int a, int b) {
    if (a == b) return;
    auto &s = slots_<T>();
    ev("swap %s %d %d", kindName[kindOf<T>()], a, b);
    std::swap(s.tn[a], s.tn[b]);
    std::swap(s.t[a], s.t[b]);
}

// May `awaiter` await `b`? Not if that closes a cycle; and a result that is not freely copyable
// has one consumer.
static bool mayAwait(int awaiter, int b) {
    if (b < 0 || b == awaiter) return false;
    Node &n = W->nodes[size_t(b)];
    for (int x = b, i = 0; x >= 0 && i < 100; x = W->nodes[size_t(x)].waitsOn, ++i) if (x == awaiter) return false;
    if (n.kind != KVoid && n.kind != KInt && n.consumed) return false;
    return true;
}
struct Cand { Kind k; bool lazy; int slot; int id; };
// The tasks held in slots that satisfy `f`; those whose body is under way are listed more often.
template<typename F> static std::vector<Cand> candidates(F &&f) {
    std::vector<Cand> c;
    for (int k = 0; k < NKinds; ++k) withKind(Kind(k), [&]<typename TI>(TI) {
        auto &s = slots_<typename TI::type>();
        for (int i = 0; i < 3; ++i) for (int l = 0; l < 2; ++l) {
            int id = l ? s.ln[i] : s.tn[i];
            if (id < 0 || !f(id)) continue;
            int weight = W->nodes[size_t(id)].st == St::Running ? (W->nodes[size_t(id)].waiting ? 6 : 3) : 1;
            while (weight--) c.push_back({Kind(k), bool(l), i, id});
        }
    });
    return c;
}

#define STORE_VOID(T, expr) co_await expr;
#define STORE_VALUE(T, expr) auto res = co_await expr; v = Val<T>::read(res);
#define AWAIT_EXPR(STORE, T, expr, self, other)                                                              \
    {                                                                                                 \
        int aw = W->beforeAwait(self, other);                                                         \
        size_t mark = W->traceMark();                                                                 \
        int type = 0, v = 0;                                                                          \
        try {                                                                                         \
            STORE(T, expr)                                                                            \
        } catch (const CaseError &e) { type = 1; v = e.k; }                                           \
        catch (const PlainError &e) { type = 2; v = e.k; }                                            \
        W->afterAwait(aw, mark, type, v);                                                             \
        if (type && g.chance(1, 3)) { rethrow = type; rethrowV = v; }                                  \
    }

#define AWAIT_KIND(STORE, T)                                                                                 \
    case kindOf<T>(): {                                                                               \
        auto &s = slots_<T>();                                                                        \
        switch (form) {                                                                               \
        case 0: if (mayAwait(id, s.tn[slot])) { int o = s.tn[slot]; AWAIT_EXPR(STORE, T, s.t[slot], id, o) } break; \
        case 1: if (mayAwait(id, s.ln[slot])) { int o = s.ln[slot]; AWAIT_EXPR(STORE, T, (*s.l[slot]), id, o) } break; \
        case 2: if (int(W->nodes.size()) < W->maxNodes && depth < W->maxDepth) {                      \
            int o = W->newNode(k, false, id); W->nodes[size_t(id)].waitsOn = o; \
            Task<T> tmp = spawnEager<T>(o, g, depth + 1);                                             \
            ++W->nodes[size_t(o)].handles;                                                            \
            HandleScope hs(o);                                                                        \
            Task<T> mine(std::move(tmp));                                                             \
            AWAIT_EXPR(STORE, T, mine, id, o)                                                                \
            hs.release();                                                                             \
        } break;                                                                                      \
        case 3: if (int(W->nodes.size()) < W->maxNodes && depth < W->maxDepth) {                      \
            int o = W->newNode(k, true, id); W->nodes[size_t(id)].waitsOn = o; \
            auto mine = spawnLazy<T>(o, g, depth + 1);                                                \
            ++W->nodes[size_t(o)].handles;                                                            \
            HandleScope hs(o);                                                                        \
            AWAIT_EXPR(STORE, T, (*mine), id, o)                                                             \
            hs.release();                                                                             \
        } break;                                                                                      \
        case 4: if (int(W->nodes.size()) < W->maxNodes && depth < W->maxDepth) {                      \
            int o = W->newNode(k, false, id); W->nodes[size_t(id)].waitsOn = o; \
            AWAIT_EXPR(STORE, T, body<Task<T>>(o, ParamGuard(o), g.next(), depth + 1), id, o)                \
        } break;                                                                                      \
        default: if (int(W->nodes.size()) < W->maxNodes && depth < W->maxDepth) {                     \
            int o = W->newNode(k, true, id); W->nodes[size_t(id)].waitsOn = o; \
            AWAIT_EXPR(STORE, T, body<LazyTask<T>>(o, ParamGuard(o), g.next(), depth + 1), id, o)            \
        } break;                                                                                      \
        }                                                                                             \
        break;                                                                                        \
    }

struct HandleScope {
    int o;
    explicit HandleScope(int o_) : o(o_) {}
    void release() { if (o >= 0) { --W->nodes[size_t(o)].handles; o = -1; } }
    ~HandleScope() { release(); }
};

static void sharedOp(Rng &g, int self, int depth) {
    switch (g.below(7)) {
    case 0: case 1: {
        if (int(W->nodes.size()) >= W->maxNodes || depth >= W->maxDepth) break;
        Kind k = Kind(g.below(NKinds));
        bool lazy = g.chance(2, 5);
        int slot = g.below(3);
        withKind(k, [&]<typename TI>(TI) {
            using T = typename TI::type;
            if (lazy) {
                if (slots_<T>().ln[slot] >= 0) { if (W->nodes[size_t(slots_<T>().ln[slot])].waiting) return; dropLazy<T>(slot); }
                int o = W->newNode(k, true, self);
                auto p = spawnLazy<T>(o, g, depth + 1);
                ++W->nodes[size_t(o)].handles;
                slots_<T>().ln[slot] = o;
                slots_<T>().l[slot] = std::move(p);
            } else {
                int o = W->newNode(k, false, self);
                auto t = spawnEager<T>(o, g, depth + 1);
                putEager<T>(slot, o, std::move(t));
            }
        });
        break;
    }
    case 2: case 3: {
        if (g.chance(1, 3)) break;
        auto c = candidates([](int) { return true; });
        if (c.empty()) break;
        auto x = g.pick(c);
        withKind(x.k, [&]<typename TI>(TI) { if (x.lazy) dropLazy<typename TI::type>(x.slot); else dropEager<typename TI::type>(x.slot); });
        break;
    }
    case 4: withKind(Kind(g.below(NKinds)), [&]<typename TI>(TI) { int a = g.below(3), b = g.below(3); bool c = g.chance(1, 2); moveSlot<typename TI::type>(a, b, c); }); break;
    case 5: withKind(Kind(g.below(NKinds)), [&]<typename TI>(TI) { int a = g.below(3), b = g.below(3); swapSlots<typename TI::type>(a, b); }); break;
    default: {
        if (g.chance(1, 2)) break;
        int i = g.below(int(W->gates.size()));
        if (!W->gates[size_t(i)].open && W->depth < 6) { ev("open gate %d", i); ++W->depth; W->gates[size_t(i)].release(); --W->depth; }
    }
    }
}

template<typename TaskT>
TaskT body(int id, ParamGuard pg, uint64_t seed, int depth) {
    using R = typename TaskT::value_type;
    FrameGuard fg(id);
    Rng g(seed);
    int rethrow = 0, rethrowV = 0;
    const int nops = g.below(6);
    for (int i = 0; i < nops && !rethrow; ++i) {
        pg.t.check();
        fg.t.check();
        switch (g.below(12)) {
        case 0: case 10: {
            Gate *gate = &W->gates[size_t(g.below(int(W->gates.size())))];
            int tag = g.range(100, 999), got = tag;
            switch (g.below(5)) {
            case 0: got = co_await GateMember(gate, tag); break;
            case 1: got = co_await GateFree(gate, tag); break;
            case 2: got = co_await GateDirect(gate, tag); break;
            case 3: { GateMember gm(gate, tag); got = co_await gm; break; }
            default: { GateDirect gd(gate, tag); got = co_await gd; break; }
            }
            VH_CHECK("C01", "awaitable-result", got == tag, "a custom awaitable gave %d instead of %d", got, tag);
            VH_CHECK("C01", "gate-closed", gate->open, "coroutine %d resumed although the awaitable it waits for did not resume it", id);
            break;
        }
        case 1: {
            int ms = g.below(20);
            qint64 until = W->d->now + ms;
            co_await QCoro::sleepFor(std::chrono::milliseconds(ms));
            VH_CHECK("C01", "resumed-early", W->d->now >= until, "coroutine %d resumed from a sleep at %lld, due at %lld", id, (long long)W->d->now, (long long)until);
            break;
        }
        case 2: {
            PostedHop hop;
            co_await hop;
            break;
        }
        case 3: {
            int r = co_await NoSuspend{};
            VH_CHECK("C01", "awaitable-result", r == 5, "an awaitable that did not suspend gave %d", r);
            break;
        }
        case 4: case 5: sharedOp(g, id, depth); break;
        default: {
            Kind k = Kind(g.below(NKinds));
            int form = g.range(2, 5), slot = 0;
            if (g.chance(3, 5)) {
                auto c = candidates([id](int x) { return mayAwait(id, x); });
                if (!c.empty()) { auto &x = g.pick(c); k = x.k; slot = x.slot; form = x.lazy ? 1 : 0; }
            }
            switch (k) {
            AWAIT_KIND(STORE_VOID, void)
            AWAIT_KIND(STORE_VALUE, int)
            AWAIT_KIND(STORE_VALUE, QString)
            AWAIT_KIND(STORE_VALUE, MoveOnly)
            AWAIT_KIND(STORE_VALUE, Wrapped)
            default: break;
            }
        }
        }
    }
    if (!rethrow && g.chance(1, 5)) { rethrow = g.chance(1, 4) ? 2 : 1; rethrowV = id * 100 + g.below(100); }
    if constexpr (std::is_same_v<R, Wrapped>) if (rethrow == 1 && g.chance(1, 3)) {
        // fails when its result is converted to the result type or copied
        count("failed_result");
        W->onDone(id, 1, rethrowV);
        const int how = g.below(4);
        Wrapped::Source bad{Tracked(id * 1000), rethrowV};
        const Wrapped fixed = Wrapped::poisoned(id * 1000, rethrowV);
        if (how == 0) co_return bad;
        else if (how == 1) co_return std::move(bad);
        else if (how == 2) co_return std::as_const(bad);
        else co_return fixed;
    }
    if (rethrow == 1) {
        W->onDone(id, 1, rethrowV);
        if (g.chance(1, 2)) throw CaseError(rethrowV);
        // fails while the scope is left, after its result has been stored
        struct Bomb { int v; ~Bomb() noexcept(false) { throw CaseError(v); } } bomb{rethrowV};
        count("failed_after_return");
        if constexpr (std::is_void_v<R>) co_return;
        else co_return Val<R>::make(id * 1000);
    }
    if (rethrow == 2) { W->onDone(id, 2, rethrowV); throw PlainError{rethrowV}; }
    if constexpr (std::is_void_v<R>) {
        W->onDone(id, 0, 0);
        co_return;
    } else {
        int v = id * 1000 + g.below(1000);
        W->onDone(id, 0, v);
        const int how = g.below(6);
        if constexpr (!std::is_same_v<R, MoveOnly>) if (how == 4) {
            const R fixed = Val<R>::make(v);
            co_return fixed;
        }
        if constexpr (std::is_same_v<R, Wrapped>) if (how == 5) {
            const Wrapped::Source fixed{Tracked(v)};
            co_return fixed;
        }
        if (how == 0) {
            co_return Val<R>::make(v);
        }
        if constexpr (!std::is_same_v<R, MoveOnly>) if (how == 1) {
            count("outlives");
            auto owner = std::make_unique<R>(Val<R>::make(v));
            R &ref = *owner;
            Outlives o{id, [&ref, v] { return Val<R>::read(ref) == v; }};
            co_return ref;
        }
        if constexpr (std::is_same_v<R, Wrapped>) if (how == 2) {
            count("outlives");
            auto owner = std::make_unique<Wrapped::Source>(Tracked(v));
            Wrapped::Source &ref = *owner;
            Outlives o{id, [&ref, v] { return ref.t.value == v && !ref.t.movedFrom; }};
            co_return ref;
        }
        {
            auto local = Val<R>::make(v);
            if constexpr (std::is_same_v<R, MoveOnly>) co_return std::move(local);
            else co_return local;
        }
    }
}

static void oneCase(Rng &g) {
    auto *d = VDispatcher::instance();
    d->reset(&g);
    World w(g, d);
    W = &w;
    w.maxNodes = g.range(2, 18);
    w.nodes.reserve(64);
    w.gates.resize(size_t(g.range(1, 4)));
    Slots<void> sv; Slots<int> si; Slots<QString> ss; Slots<MoveOnly> sm; Slots<Wrapped> sw;
    SV = &sv; SI = &si; SS = &ss; SM = &sm; SW = &sw;
    long live0 = Tracked::live;

    const int rounds = g.range(3, 20);
    for (int i = 0; i < rounds; ++i) {
        switch (g.below(8)) {
        case 0: case 1: case 6: case 7: sharedOp(g, -1, 0); break;
        case 2: {
            // a root that nobody keeps
            if (int(w.nodes.size()) < w.maxNodes) {
                Kind k = Kind(g.below(NKinds));
                withKind(k, [&]<typename TI>(TI) { using T = typename TI::type; int o = w.newNode(k, false, -1); (void)spawnEager<T>(o, g, 1); });
            }
            break;
        }
        case 3: d->step(); break;
        case 4: { int ms = g.below(25); ev("advance %d", ms); d->advanceBy(ms); break; }
        default: {
            size_t x = size_t(g.below(int(w.gates.size())));
            if (!w.gates[x].open) { ev("open gate %zu", x); w.gates[x].release(); }
        }
        }
        w.checkQuiet();
    }
    ev("closing");
    for (size_t i = 0; i < w.gates.size(); ++i) if (!w.gates[i].open) { w.gates[i].release(); d->settle(); }
    d->drain();
    w.checkQuiet();
    // Everything that was started can finish now.
    for (auto &n : w.nodes) {
        if (n.starts && n.st != St::Done) violation("C01", "never-finished", "coroutine %d: everything it waits for has happened, but it did not finish", n.id);
    }
    for (size_t i = 0; i < w.awaits.size(); ++i)
        if (w.awaits[i].resumed != 1) violation("C01", "lost-resumption", "await #%zu (%d -> %d) completed %d times", i, w.awaits[i].awaiter, w.awaits[i].awaited, w.awaits[i].resumed);
    for (int k = 0; k < NKinds; ++k) withKind(Kind(k), [&]<typename TI>(TI) { for (int s = 0; s < 3; ++s) { dropEager<typename TI::type>(s); dropLazy<typename TI::type>(s); } });
    d->drain();
    w.checkQuiet();
    if (w.nodes.size() >= 2 && w.awaits.size() >= 1) nontrivial();
    for (auto &n : w.nodes) {
        VH_CHECK("C02", n.starts ? "frame-leaked" : "lazy-frame-leaked", n.destroys == 1, "coroutine %d (%s): frame destroyed %d times by the end", n.id, n.lazy ? "lazy" : "eager", n.destroys);
    }
    VH_CHECK("C02", "object-leaked", Tracked::live == live0, "%ld arguments, locals or results are still alive at the end", long(Tracked::live - live0));
    flushDeferredDeletes();
}

// Two coroutines await one task whose result owns something.
template<typename T> static Task<T> yields(T v, bool later) { if (later) co_await QCoro::sleepFor(std::chrono::milliseconds(1)); co_return std::move(v); }
template<typename T> static Task<> takes(const Task<T> &t, std::optional<T> &out) { out = co_await t; }
template<typename T> static void takeTwice(const T &v, int mode, int &moved, int &wrong) {
    Task<T> t = yields<T>(v, mode != 0);
    std::optional<T> a, b;
    Task<> one = takes<T>(t, a);
    if (mode == 2) QCoro::waitFor(one); // else both wait at the same time
    Task<> two = takes<T>(t, b);
    QCoro::waitFor(one); QCoro::waitFor(two);
    if (!a || *a != v || !b) ++wrong;
    else if (*b != v) { if (*b == T()) ++moved; else ++wrong; }
}
static void sharedResult() {
    int moved = 0, wrong = 0;
    for (int mode = 0; mode < 3; ++mode) {
        takeTwice<QString>(QStringLiteral("text that is long enough"), mode, moved, wrong);
        takeTwice<std::vector<int>>({1, 2, 3}, mode, moved, wrong);
        int movedInts = 0;
        takeTwice<int>(42, mode, movedInts, wrong);
        wrong += movedInts;
    }
    VH_CHECK("C01", "shared-result-wrong", wrong == 0, "%d of 9 pairs of coroutines that await the same task receive a wrong result", wrong);
    VH_CHECK("C01", "shared-result", moved == 0, "%d of 6 times the second coroutine that awaits a task receives a moved-from object", moved);
}

// A crowd of coroutines that await one task, and long chains of tasks that await each other.
struct Crowd { std::vector<int> resumed; int outcome, ended = 0, bodies = 0; bool wrong = false; Tracked t{7}; };
template<typename TaskT> static TaskT crowdBody(Crowd *c, int ms, std::shared_ptr<Tracked> arg) {
    ++c->bodies;
    if (ms > 0) co_await QCoro::sleepFor(std::chrono::milliseconds(ms));
    arg->check();
    if (c->outcome == 1) throw CaseError(4711);
    ++c->ended;
    if constexpr (!std::is_void_v<typename TaskT::value_type>) co_return 4711;
}
template<typename Who, typename TaskT> static Who member(Crowd *c, const TaskT &t, size_t i, std::shared_ptr<Tracked> arg) {
    int got = 0;
    try {
        if constexpr (std::is_void_v<typename TaskT::value_type>) { co_await t; got = 4711; }
        else got = co_await t;
    } catch (const CaseError &e) { got = -e.k; }
    arg->check();
    ++c->resumed[i];
    if (got != (c->outcome == 1 ? -4711 : 4711)) c->wrong = true;
    if (c->outcome == 0 && c->ended != 1) c->wrong = true;
}
template<typename TaskT> static void crowd(Rng &g, VDispatcher *d) {
    const int n = g.chance(1, 3) ? g.range(2, 40) : g.range(40, 700);
    ev("crowd of %d", n);
    Crowd c;
    c.resumed.assign(size_t(n), 0);
    c.outcome = g.below(2);
    auto arg = std::make_shared<Tracked>(1);
    std::weak_ptr<Tracked> alive = arg;
    {
        TaskT t = crowdBody<TaskT>(&c, g.range(0, 20), arg);
        std::vector<Task<>> tasks; std::vector<std::unique_ptr<QCoro::LazyTask<>>> lazy;
        for (size_t i = 0; i < size_t(n); ++i) {
            if (g.chance(1, 5)) { lazy.emplace_back(new QCoro::LazyTask<>(member<QCoro::LazyTask<>>(&c, t, i, arg))); }
            else if (g.chance(1, 3)) member<Task<>>(&c, t, i, arg);
            else tasks.push_back(member<Task<>>(&c, t, i, arg));
            if (g.chance(1, 60)) d->advanceBy(g.below(3));
            if constexpr (std::is_move_constructible_v<TaskT>) if (g.chance(1, 20)) { TaskT m = std::move(t); t = std::move(m); }
        }
        arg.reset();
        std::vector<Task<>> run;
        for (auto &l : lazy) run.push_back([](QCoro::LazyTask<> &x) -> Task<> { co_await x; }(*l));
        d->advanceBy(40);
        for (size_t i = 0; i < size_t(n); ++i) VH_CHECK("C01", c.resumed[i] ? "resumed-twice" : "lost-resumption", c.resumed[i] == 1, "coroutine %zu of %d that await one task was resumed %d times", i, n, c.resumed[i]);
        VH_CHECK("C01", "wrong-outcome", !c.wrong, "one of %d coroutines that await one task got something else, or too early", n);
        VH_CHECK("C03", "runs-twice", c.bodies == 1, "the body ran %d times", c.bodies);
        VH_CHECK("C03", "isready-wrong", t.isReady(), "isReady() is false after the task has finished");
        for (auto &x : tasks) VH_CHECK("C03", "isready-wrong", x.isReady(), "isReady() is false after the task has finished");
    }
    VH_CHECK("C02", "object-leaked", alive.expired(), "an argument of %d coroutines is still alive", n);
    count("crowd_awaits", n);
    if (n >= 2) nontrivial();
}
template<typename TaskT> static TaskT link(Crowd *c, int left, uint64_t seed) {
    ++c->bodies;
    Tracked local(left);
    if (left > 0) {
        if (seed % 3 == 0) { auto next = link<TaskT>(c, left - 1, seed / 3 + 7); if (seed % 2) co_await QCoro::sleepFor(std::chrono::milliseconds(seed % 4)); co_await next; }
        else co_await link<TaskT>(c, left - 1, seed * 5 + 1);
    } else {
        co_await QCoro::sleepFor(std::chrono::milliseconds(3));
        if (c->outcome == 1) throw CaseError(4711);
    }
    local.check();
    ++c->ended;
}
template<typename TaskT> static void chain(Rng &g, VDispatcher *d) {
    const int n = g.range(2, 400);
    ev("chain of %d", n);
    Crowd c;
    c.outcome = g.below(2);
    const long live = Tracked::live;
    {
        auto t = link<TaskT>(&c, n, g.next() >> 8);
        int got = 0;
        auto w = [](TaskT &t, int &got) -> Task<> { try { co_await t; got = 1; } catch (const CaseError &) { got = 2; } }(t, got);
        d->advanceBy(5 * n + 100);
        VH_CHECK("C01", "lost-resumption", got != 0, "a chain of %d tasks did not end", n);
        VH_CHECK("C01", "wrong-outcome", got == c.outcome + 1, "a chain of %d tasks ended with %d instead of %d", n, got, c.outcome + 1);
        VH_CHECK("C01", "wrong-outcome", c.ended == (c.outcome ? 0 : n + 1), "%d of %d tasks ended", c.ended, n + 1);
        VH_CHECK("C03", "runs-twice", c.bodies == n + 1, "%d bodies ran instead of %d", c.bodies, n + 1);
    }
    VH_CHECK("C02", "object-leaked", Tracked::live == live, "%ld locals of a chain of %d tasks are still alive", long(Tracked::live - live), n);
    count("chain_links", n);
    nontrivial();
}
static void crowds(Rng &g) {
    auto *d = VDispatcher::instance();
    d->reset(&g);
    const bool many = g.chance(2, 3);
    switch (g.below(4)) {
    case 0: if (many) crowd<Task<int>>(g, d); else chain<Task<>>(g, d); break;
    case 1: if (many) crowd<Task<>>(g, d); else chain<Task<>>(g, d); break;
    case 2: if (many) crowd<QCoro::LazyTask<int>>(g, d); else chain<QCoro::LazyTask<>>(g, d); break;
    default: if (many) crowd<QCoro::LazyTask<>>(g, d); else chain<QCoro::LazyTask<>>(g, d); break;
    }
    d->drain();
    flushDeferredDeletes();
}

int main(int argc, char **argv) {
    parse(argc, argv);
    return monitorMain(argc, argv, [] {
    Options o;
    o.leakEvery = 16;
    if (run().prop != "C02") o.leakEvery = 0;
    o.scenarios.emplace_back("shared-result", sharedResult);
    return runCases([](Rng &g) { if (g.chance(1, 120)) crowds(g); else oneCase(g); }, o);
    });
}
