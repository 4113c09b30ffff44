// C04: chains of then() continuations over Task and LazyTask.
//
// A case builds a chain link by link, with every mix of callback arity, result (void, int,
// move-only), plain / Task / LazyTask callback, error callback, kept or temporary task; the
// outcome of the source and of each callback is decided beforehand, so that a model knows what
// each callback must see and what the chain must end with. Gates and timers decide when the
// source and the tasks returned by callbacks finish.
#include "vh.h"
#include <exception>
#include <stdexcept>
#include <qcorotask.h>
#include <qcorolazytask.h>
#include <qcorotimer.h>

using namespace vh;
using QCoro::LazyTask;
using QCoro::Task;

struct CaseError : std::runtime_error { int k; explicit CaseError(int k_) : std::runtime_error("case " + std::to_string(k_)), k(k_) {} };
struct PlainError { int k; };

struct Box { // move-only
    Tracked t;
    Box() : t(-7) {}
    explicit Box(int v) : t(v) {}
    Box(Box &&) noexcept = default;
    Box &operator=(Box &&) noexcept = default;
    Box(const Box &) = delete;
    Box &operator=(const Box &) = delete;
};
template<typename T> T mk(int v) { if constexpr (std::is_void_v<T>) return; else return T(v); }
static int rd(int v) { return v; }
static int rd(const Box &b) { b.t.check(); return b.t.movedFrom ? -2000 : b.t.value; }
template<typename T> constexpr int defVal() { if constexpr (std::is_void_v<T>) return 0; else if constexpr (std::is_same_v<T, int>) return 0; else return -7; }

struct Gate {
    bool open = false;
    std::vector<std::coroutine_handle<>> w;
    void release() { open = true; auto x = std::move(w); w.clear(); for (auto h : x) h.resume(); }
    bool await_ready() const noexcept { return open; }
    void await_suspend(std::coroutine_handle<> h) { w.push_back(h); }
    void await_resume() const noexcept {}
};

struct Out { int type = 0, v = 0; };
struct Link {
    int id; int up; bool lazy; // up: the link before (-1: the source)
    Out out;           // what the callback does
    int wait = 0;      // how the task it returns waits: 0 not, 1 gate, 2 timer
    int gate = 0, ms = 0;
    bool hasErr = false, arg = false, isTask = false;
    bool expectCall = false, expectErr = false; Out in;
    Out result;        // what the link's task ends with
    bool active = false, finished = false;
    int called = 0, errCalled = 0;
};
struct World {
    Rng &g; VDispatcher *d;
    std::vector<std::unique_ptr<Link>> links;
    std::vector<std::unique_ptr<Gate>> gates;
    // the source
    Out src; int srcWait = 0, srcGate = 0, srcMs = 0; bool srcLazy = false; int srcStarts = 0; bool srcDone = false; bool srcActive = false;
    std::vector<std::function<void()>> keep; // holders that live to the end
    std::vector<std::shared_ptr<void>> held;
    World(Rng &g_, VDispatcher *d_) : g(g_), d(d_) {}
    bool upstreamDone(const Link &l) const { return l.up < 0 ? srcDone : true; }
};
static World *W;

static void driverOps(Rng &g) {
    int n = g.below(3);
    while (n--) switch (g.below(4)) {
        case 0: W->d->step(); break;
        case 1: { int ms = g.below(15); ev("advance %d", ms); W->d->advanceBy(ms); break; }
        default: { int i = g.below(int(W->gates.size())); if (!W->gates[size_t(i)]->open) { ev("open %d", i); W->gates[size_t(i)]->release(); } }
    }
}

template<typename TaskT> TaskT pause_(int wait, int gate, int ms) {
    if (wait == 1) co_await *W->gates[size_t(gate)];
    if (wait == 2) co_await QCoro::sleepFor(std::chrono::milliseconds(ms));
}
template<typename TaskT> TaskT source(Tracked arg) {
    using T = typename TaskT::value_type;
    ++W->srcStarts;
    ev("source starts");
    VH_CHECK("C04", "lazy-started-unawaited", !W->srcLazy || W->srcActive, "the lazy source of the chain runs although nothing awaits it");
    if (W->srcWait == 1) co_await *W->gates[size_t(W->srcGate)];
    if (W->srcWait == 2) co_await QCoro::sleepFor(std::chrono::milliseconds(W->srcMs));
    arg.check();
    W->srcDone = true;
    ev("source ends (%d,%d)", W->src.type, W->src.v);
    if (W->src.type == 1) throw CaseError(W->src.v);
    if (W->src.type == 2) throw PlainError{W->src.v};
    co_return mk<T>(W->src.v);
}
template<typename TaskT> TaskT sourceVoid(Tracked arg) {
    ++W->srcStarts;
    ev("source starts");
    VH_CHECK("C04", "lazy-started-unawaited", !W->srcLazy || W->srcActive, "the lazy source of the chain runs although nothing awaits it");
    if (W->srcWait == 1) co_await *W->gates[size_t(W->srcGate)];
    if (W->srcWait == 2) co_await QCoro::sleepFor(std::chrono::milliseconds(W->srcMs));
    arg.check();
    W->srcDone = true;
    ev("source ends (%d,%d)", W->src.type, W->src.v);
    if (W->src.type == 1) throw CaseError(W->src.v);
    if (W->src.type == 2) throw PlainError{W->src.v};
}

static void onCall(Link *l, bool withArg, int v) {
    ++l->called;
    ev("callback %d %s%d", l->id, withArg ? "arg=" : "no-arg ", v);
    count("callbacks");
    VH_CHECK("C04", "callback-too-often", l->called == 1, "callback %d was called %d times", l->id, l->called);
    VH_CHECK("C04", "callback-unexpected", l->expectCall, "callback %d was called although its task ends with (%d,%d)", l->id, l->in.type, l->in.v);
    VH_CHECK("C04", "callback-inactive", l->active, "callback %d of a lazy chain was called although nothing awaits the chain", l->id);
    VH_CHECK("C04", "callback-early", l->up < 0 ? W->srcDone : W->links[size_t(l->up)]->finished, "callback %d was called before its task finished", l->id);
    if (withArg) VH_CHECK("C04", "callback-argument", v == l->in.v, "callback %d got %d instead of %d", l->id, v, l->in.v);
}
static void onFinish(Link *l) { l->finished = true; }
static void raise(const Out &o) {
    if (o.type == 1) throw CaseError(o.v);
    if (o.type == 2) throw PlainError{o.v};
}

// Ret: what the callback returns. Captures a tracked object which it uses to the end.
template<typename Ret, bool Task_> struct RetInfo { using value = Ret; };
template<typename Ret> struct RetInfo<Ret, true> { using value = typename Ret::value_type; };

template<typename Ret> Ret cbBody(Link *l, const Tracked &cap) {
    if constexpr (QCoro::detail::isTask_v<Ret>) {
        using U = typename Ret::value_type;
        if (l->wait == 1) co_await *W->gates[size_t(l->gate)];
        if (l->wait == 2) co_await QCoro::sleepFor(std::chrono::milliseconds(l->ms));
        cap.check();
        onFinish(l);
        raise(l->out);
        if constexpr (!std::is_void_v<U>) co_return mk<U>(l->out.v);
    }
}
template<typename Ret> Ret cbPlain(Link *l, const Tracked &cap) {
    cap.check();
    onFinish(l);
    raise(l->out);
    if constexpr (!std::is_void_v<Ret>) return mk<Ret>(l->out.v);
}
template<typename Ret> Ret cbRun(Link *l, const Tracked &cap) {
    if constexpr (QCoro::detail::isTask_v<Ret>) return cbBody<Ret>(l, cap);
    else return cbPlain<Ret>(l, cap);
}
template<typename Ret> struct Cb0 {
    Link *l; Tracked cap{1};
    Ret operator()() { onCall(l, false, 0); return cbRun<Ret>(l, cap); }
};
template<typename Ret, typename T> struct Cb1 {
    Link *l; Tracked cap{1};
    Ret operator()(T v) { onCall(l, true, rd(v)); return cbRun<Ret>(l, cap); }
};
template<typename Ret, typename T> struct CbRef {
    Link *l; Tracked cap{1};
    Ret operator()(const T &v) { onCall(l, true, rd(v)); return cbRun<Ret>(l, cap); }
};
struct ErrCb {
    Link *l; Tracked cap{2};
    void operator()(const std::exception &e) {
        cap.check();
        ++l->errCalled;
        auto *c = dynamic_cast<const CaseError *>(&e);
        ev("error-callback %d %d", l->id, c ? c->k : -1);
        count("error_callbacks");
        VH_CHECK("C04", "errcb-too-often", l->errCalled == 1, "error callback %d was called %d times", l->id, l->errCalled);
        VH_CHECK("C04", "errcb-unexpected", l->expectErr, "error callback %d was called although its task ends with (%d,%d)", l->id, l->in.type, l->in.v);
        VH_CHECK("C04", "errcb-argument", c && c->k == l->in.v, "error callback %d got exception %d instead of %d", l->id, c ? c->k : -1, l->in.v);
        VH_CHECK("C04", "callback-inactive", l->active, "error callback %d of a lazy chain was called although nothing awaits the chain", l->id);
        onFinish(l);
    }
};

static void activate(int id) {
    for (; id >= 0; id = W->links[size_t(id)]->up) W->links[size_t(id)]->active = true;
    W->srcActive = true;
}

struct Terminal { bool ended = false; int n = 0; Out out; };
template<typename K> Task<> terminal(K &t, std::shared_ptr<Terminal> r) {
    using T = typename K::value_type;
    Out o;
    try {
        if constexpr (std::is_void_v<T>) co_await t;
        else { auto x = co_await t; o.v = rd(x); }
    } catch (const CaseError &e) { o = {1, e.k}; } catch (const PlainError &e) { o = {2, e.k}; }
    r->out = o;
    ++r->n;
    r->ended = true;
    ev("chain ends (%d,%d)", o.type, o.v);
}

struct End { int last; Out out; std::shared_ptr<Terminal> term; bool lazy; };
static std::vector<End> *ends;

template<template<typename> class K, typename T> void grow(std::shared_ptr<K<T>> t, int up, Out cur, int remaining, bool shared);

template<template<typename> class K, typename T, typename Ret, typename F>
void attach(std::shared_ptr<K<T>> &t, Link *l, F cb, int remaining, bool shared) {
    Rng &g = W->g;
    constexpr bool retTask = QCoro::detail::isTask_v<Ret>;
    using KR = std::conditional_t<retTask, Ret, K<Ret>>;
    using U = typename KR::value_type;
    constexpr bool lazyOut = std::is_same_v<KR, LazyTask<U>>;
    l->lazy = lazyOut;
    l->isTask = retTask;
    Out &cur = l->in;
    if (cur.type == 0) { l->expectCall = true; l->result = l->out; if constexpr (std::is_void_v<U>) if (!l->out.type) l->result.v = 0; }
    else if (cur.type == 1 && l->hasErr) { l->expectErr = true; l->result = {0, defVal<U>()}; }
    else l->result = cur;
    if (cur.type == 0 && std::is_void_v<U> && l->out.type == 0) l->result.v = 0;
    const bool temp = !shared && g.chance(1, 2);
    const bool lvalueCb = g.chance(1, 4);
    ev("then %d on %d %s%s%s cb:%s wait=%d out=(%d,%d) -> expect (%d,%d)", l->id, l->up, temp ? "temporary" : "kept", l->hasErr ? " +err" : "", lvalueCb ? " lvalue-callback" : "",
       retTask ? (lazyOut ? "lazy" : "task") : "plain", l->wait, l->out.type, l->out.v, l->result.type, l->result.v);
    count("links");
    if (!lazyOut) activate(l->id);
    std::shared_ptr<KR> next;
    if (temp) {
        if (l->hasErr) {
            if (lvalueCb) { ErrCb e{l}; next = std::shared_ptr<KR>(new KR(std::move(*t).then(cb, e))); }
            else next = std::shared_ptr<KR>(new KR(std::move(*t).then(std::move(cb), ErrCb{l})));
        } else next = std::shared_ptr<KR>(new KR(std::move(*t).then(std::move(cb))));
        t.reset();
    } else {
        if (l->hasErr) next = std::shared_ptr<KR>(new KR(t->then(std::move(cb), ErrCb{l})));
        else if (lvalueCb) next = std::shared_ptr<KR>(new KR(t->then(cb)));
        else next = std::shared_ptr<KR>(new KR(t->then(std::move(cb))));
        if constexpr (std::is_same_v<K<T>, LazyTask<T>> || lazyOut) W->held.push_back(t); // the lazy continuation refers to it
        else if (g.chance(1, 2)) W->held.push_back(t);
        // another branch on the same task
        if constexpr (!std::is_same_v<T, Box>) {
            if (g.chance(1, 6) && remaining > 0) { W->held.push_back(t); driverOps(g); grow<K, T>(t, l->up, cur, remaining - 1, true); count("branches"); }
        }
        t.reset();
    }
    driverOps(g);
    const Out res = l->result;
    const int id = l->id;
    if constexpr (lazyOut) grow<LazyTask, U>(next, id, res, remaining - 1, false);
    else grow<Task, U>(next, id, res, remaining - 1, false);
}

template<template<typename> class K, typename T, typename Ret> void attachArity(std::shared_ptr<K<T>> &t, Link *l, int remaining, bool shared) {
    if constexpr (std::is_void_v<T>) attach<K, T, Ret>(t, l, Cb0<Ret>{l}, remaining, shared);
    else {
        int a = W->g.below(3);
        l->arg = a != 0;
        if (a == 0) attach<K, T, Ret>(t, l, Cb0<Ret>{l}, remaining, shared);
        else if constexpr (std::is_same_v<Ret, int>) {
            if (a == 1) attach<K, T, Ret>(t, l, CbRef<Ret, T>{l}, remaining, shared);
            else attach<K, T, Ret>(t, l, Cb1<Ret, T>{l}, remaining, shared);
        } else attach<K, T, Ret>(t, l, Cb1<Ret, T>{l}, remaining, shared);
    }
}

template<template<typename> class K, typename T> void grow(std::shared_ptr<K<T>> t, int up, Out cur, int remaining, bool shared) {
    Rng &g = W->g;
    constexpr bool lazyIn = std::is_same_v<K<T>, LazyTask<T>>;
    if (remaining <= 0) {
        End e{up, cur, nullptr, lazyIn};
        if (g.chance(3, 4)) {
            if (g.chance(1, 3)) { driverOps(g); driverOps(g); }
            e.term = std::make_shared<Terminal>();
            activate(up);
            ev("await the chain after link %d", up);
            W->held.push_back(t);
            terminal<K<T>>(*t, e.term);
        } else {
            ev("drop the chain after link %d", up);
        }
        ends->push_back(e);
        return;
    }
    auto l = std::make_unique<Link>();
    Link *p = l.get();
    p->id = int(W->links.size());
    p->up = up;
    p->in = cur;
    p->hasErr = g.chance(1, 3);
    p->out.type = g.chance(1, 5) ? (g.chance(1, 3) ? 2 : 1) : 0;
    p->out.v = g.range(1, 100000);
    p->wait = g.below(3);
    p->gate = g.below(int(W->gates.size()));
    p->ms = g.below(20);
    W->links.push_back(std::move(l));
    switch (g.below(lazyIn ? 6 : 7)) {
    case 0: attachArity<K, T, void>(t, p, remaining, shared); break;
    case 1: attachArity<K, T, int>(t, p, remaining, shared); break;
    case 2: attachArity<K, T, Box>(t, p, remaining, shared); break;
    case 3: attachArity<K, T, K<int>>(t, p, remaining, shared); break;
    case 4: attachArity<K, T, K<void>>(t, p, remaining, shared); break;
    case 5: attachArity<K, T, K<Box>>(t, p, remaining, shared); break;
    default: attachArity<K, T, std::conditional_t<lazyIn, Task<int>, LazyTask<int>>>(t, p, remaining, shared); break;
    }
}

template<template<typename> class K, typename T> void begin(int len) {
    std::shared_ptr<K<T>> t;
    if constexpr (std::is_void_v<T>) t.reset(new K<T>(sourceVoid<K<T>>(Tracked(3))));
    else t.reset(new K<T>(source<K<T>>(Tracked(3))));
    driverOps(W->g);
    if constexpr (std::is_same_v<K<T>, LazyTask<T>>) VH_CHECK("C04", "lazy-started-unawaited", W->srcStarts == 0, "a lazy source started by itself");
    grow<K, T>(std::move(t), -1, W->src, len, false);
}

static void oneCase(Rng &g) {
    auto *d = VDispatcher::instance();
    d->reset(&g);
    const long live0 = Tracked::live;
    {
        World w(g, d);
        W = &w;
        std::vector<End> es;
        ends = &es;
        for (int i = 0; i < 3; ++i) w.gates.push_back(std::make_unique<Gate>());
        w.src.type = g.chance(1, 3) ? (g.chance(1, 4) ? 2 : 1) : 0;
        w.src.v = g.range(1, 100000);
        w.srcWait = g.below(3); w.srcGate = g.below(3); w.srcMs = g.below(20);
        w.srcLazy = g.chance(2, 5);
        int len = g.range(1, 6);
        int T = g.below(3);
        if (T == 0 && w.src.type == 0) w.src.v = 0;
        ev("source %s %s wait=%d out=(%d,%d) length=%d", w.srcLazy ? "lazy" : "eager", T == 0 ? "void" : T == 1 ? "int" : "Box", w.srcWait, w.src.type, w.src.v, len);
        if (w.srcLazy) { if (T == 0) begin<LazyTask, void>(len); else if (T == 1) begin<LazyTask, int>(len); else begin<LazyTask, Box>(len); }
        else { w.srcActive = true; if (T == 0) begin<Task, void>(len); else if (T == 1) begin<Task, int>(len); else begin<Task, Box>(len); }
        ev("closing");
        for (auto &x : w.gates) { x->release(); d->settle(); }
        d->drain();
        for (int i = 0; i < 2; ++i) { for (auto &x : w.gates) x->release(); d->drain(); }
        VH_CHECK("C04", "source-starts", w.srcStarts == (w.srcActive ? 1 : 0), "the source of the chain started %d times (expected %d)", w.srcStarts, int(w.srcActive));
        for (auto &lp : w.links) {
            Link &l = *lp;
            VH_CHECK("C04", l.expectCall && l.active ? "callback-missing" : "callback-unexpected", l.called == int(l.expectCall && l.active), "callback %d was called %d times by the end", l.id, l.called);
            VH_CHECK("C04", l.expectErr && l.active ? "errcb-missing" : "errcb-unexpected", l.errCalled == int(l.expectErr && l.active), "error callback %d was called %d times by the end", l.id, l.errCalled);
        }
        for (auto &e : es) if (e.term) {
            VH_CHECK("C04", "chain-never-ends", e.term->ended, "the chain after link %d never ended for its awaiter", e.last);
            VH_CHECK("C04", "chain-outcome", !e.term->ended || (e.term->out.type == e.out.type && e.term->out.v == e.out.v && e.term->n == 1), "the chain after link %d ended with (%d,%d) %d times instead of (%d,%d)", e.last, e.term->out.type, e.term->out.v, e.term->n, e.out.type, e.out.v);
        }
        if (w.links.size() >= 2) nontrivial();
        w.held.clear();
        d->drain();
    }
    VH_CHECK("C04", "captures-leaked", Tracked::live == live0, "%ld captured objects, arguments or results are still alive at the end", long(Tracked::live - live0));
    flushDeferredDeletes();
}

int main(int argc, char **argv) {
    parse(argc, argv);
    return monitorMain(argc, argv, [] {
    Options o;
    o.leakEvery = 16;
    return runCases(oneCase, o);
    });
}
