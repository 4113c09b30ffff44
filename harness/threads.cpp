// C26: coroutines on several threads.
//
// Threads, queues and results are made of std primitives only, and every hand-over between threads
// synchronises nothing but the handed-over job, so that ThreadSanitizer sees exactly the
// synchronisation that the library does itself. Nothing here may take a lock while threads run.
#include "vh.h"
#include <thread>
#include <qcoroasyncgenerator.h>
#include <qcorotask.h>
#include <qcorolazytask.h>
#ifdef QT_MODE
#include <chrono>
#include <dlfcn.h>
#include <sys/mman.h>
#include <QElapsedTimer>
#include <QFuture>
#include <QPromise>
#include <qcorofuture.h>
#include <qcorosignal.h>
#include <qcorothread.h>
#include <qcorotimer.h>
#endif

using namespace vh;
using QCoro::LazyTask;
using QCoro::Task;
constexpr auto RX = std::memory_order_relaxed;
static void spin(int n) { for (volatile int i = 0; i < n; i = i + 1) {} }

struct Obj { // counted without synchronising
    static inline std::atomic<long> live{0}, bad{0};
    uint32_t magic = 0x0bafeed5u;
    Obj() { live.fetch_add(1, RX); }
    Obj(const Obj &o) { o.check(); live.fetch_add(1, RX); }
    Obj &operator=(const Obj &) = default;
    ~Obj() { check(); magic = 0; live.fetch_sub(1, RX); }
    void check() const { if (magic != 0x0bafeed5u) bad.fetch_add(1, RX); }
};
struct Boom : std::exception {};
struct Payload { // move-only
    Obj o; std::unique_ptr<long> v;
    explicit Payload(long x = -1) : v(std::make_unique<long>(x)) {}
    Payload(Payload &&) = default; Payload &operator=(Payload &&) = default;
};
using Job = std::function<void()>;
constexpr int Slots = 1 << 14;
static std::atomic<long> jobs{0};
#ifdef QT_MODE
static std::atomic<long> progress{0};
#ifdef __SANITIZE_THREAD__
// ThreadSanitizer does not see the synchronisation inside Qt's (uninstrumented) libraries. The
// hand-over of posted events between threads is described to it here: QCoreApplication::postEvent()
// is redirected at its entry, deliveries pass through notify().
extern "C" void __tsan_acquire(void *); extern "C" void __tsan_release(void *);
static char endOfEvents;
using PostFn = void (*)(QObject *, QEvent *, int);
static PostFn realPost;
static std::atomic<long> postedEvents{0}, deliveredEvents{0};
static void hookedPost(QObject *o, QEvent *e, int prio) { postedEvents.fetch_add(1, RX); __tsan_release(e); realPost(o, e, prio); }
static bool hookPostEvent() {
    static const unsigned char prologue[] = {0xf3, 0x0f, 0x1e, 0xfa, 0x55, 0x48, 0x89, 0xe5, 0x41, 0x56, 0x41, 0x55, 0x41, 0x54};
    void (*fp)(QObject *, QEvent *, int) = &QCoreApplication::postEvent;
    auto *p = static_cast<unsigned char *>(dlsym(RTLD_DEFAULT, "_ZN16QCoreApplication9postEventEP7QObjectP6QEventi"));
    (void)fp;
    if (!p || memcmp(p, prologue, sizeof prologue)) return false;
    const auto jump = [](unsigned char *at, const void *to) { static const unsigned char op[] = {0xff, 0x25, 0, 0, 0, 0}; memcpy(at, op, 6); memcpy(at + 6, &to, 8); };
    auto *t = static_cast<unsigned char *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (t == MAP_FAILED) return false;
    memcpy(t, prologue, sizeof prologue);
    jump(t + sizeof prologue, p + sizeof prologue);
    realPost = reinterpret_cast<PostFn>(t);
    auto *page = reinterpret_cast<unsigned char *>(reinterpret_cast<uintptr_t>(p) & ~uintptr_t(4095));
    if (mprotect(page, 8192, PROT_READ | PROT_WRITE | PROT_EXEC)) return false;
    jump(p, reinterpret_cast<const void *>(&hookedPost));
    mprotect(page, 8192, PROT_READ | PROT_EXEC);
    return true;
}
class App : public QCoreApplication {
public:
    using QCoreApplication::QCoreApplication;
    bool notify(QObject *o, QEvent *e) override {
        deliveredEvents.fetch_add(1, RX);
        __tsan_acquire(e);
        const bool r = QCoreApplication::notify(o, e);
        __tsan_release(&endOfEvents);
        return r;
    }
};
static void syncAll() { __tsan_acquire(&endOfEvents); }
#else
using App = QCoreApplication;
static bool hookPostEvent() { return true; }
static void syncAll() {}
#endif

struct Worker {
    std::unique_ptr<QThread> thread;
    std::unique_ptr<QObject> ctx;
    std::unique_ptr<Emitter> emitter;
    void start() {
        thread = std::make_unique<QThread>(); ctx = std::make_unique<QObject>(); emitter = std::make_unique<Emitter>();
        ctx->moveToThread(thread.get()); emitter->moveToThread(thread.get());
        thread->start();
    }
    void push(Job j) {
        progress.fetch_add(1, RX);
        QMetaObject::invokeMethod(ctx.get(), [j = std::move(j)]() mutable { j(); }, Qt::QueuedConnection);
    }
    void join() { thread->quit(); thread->wait(); }
    void free() { ctx.reset(); emitter.reset(); thread.reset(); }
};
static std::vector<std::unique_ptr<Worker>> workers;
static int nWorkers;
struct Hop {
    Worker *w;
    auto operator co_await() const { progress.fetch_add(1, RX); return QCoro::moveToThread(w->thread.get()); }
};
#else
struct Worker {
    std::unique_ptr<std::atomic<Job *>[]> slots{new std::atomic<Job *>[Slots]};
    std::atomic<int> tail{0};
    std::atomic<bool> stop{false};
    std::thread thread;
    int head = 0;
    void start() { for (int i = 0; i < Slots; ++i) slots[size_t(i)].store(nullptr, RX); tail = 0; stop = false; head = 0; thread = std::thread([this] { loop(); }); }
    bool push(Job j) {
        jobs.fetch_add(1, RX);
        const int i = tail.fetch_add(1, RX);
        if (i >= Slots) { fprintf(stderr, "too many jobs\n"); _exit(3); }
        slots[size_t(i)].store(new Job(std::move(j)), std::memory_order_release);
        return true;
    }
    void loop() {
        for (int idle = 0;;) {
            Job *j = slots[size_t(head)].load(RX);
            if (!j) { if (stop.load(RX)) return; if (++idle < 200) std::this_thread::yield(); else usleep(20); continue; }
            j = slots[size_t(head)].load(std::memory_order_acquire);
            ++head; idle = 0;
            (*j)();
            delete j;
            jobs.fetch_sub(1, RX);
        }
    }
};
static std::vector<std::unique_ptr<Worker>> workers;
static int nWorkers;
struct Hop {
    Worker *w;
    bool await_ready() const noexcept { return false; }
    void await_suspend(std::coroutine_handle<> h) const { w->push([h]() mutable { h.resume(); }); }
    void await_resume() const noexcept {}
};
#endif
enum RKind { RVoid, RLong, RPayload };
struct Node { std::atomic<int> starts{0}, ends{0}, order{0}; uint64_t seed = 0; bool fails = false; };
struct Awaited { std::atomic<int> resumed{0}; };
constexpr int MaxNodes = 400, MaxAwaits = 4000;
struct World {
    std::unique_ptr<Node[]> nodes{new Node[MaxNodes]};
    std::unique_ptr<Awaited[]> awaits{new Awaited[MaxAwaits]};
    std::atomic<int> nEnds{0}, nNodes{0}, nAwaits{0}, wrong{0}, hops{0}, drops{0}, thens{0}, sharedAwaits{0}, signals_{0}, futures{0}, polls{0}, generated{0};
    std::atomic<int> thenCalls{0}, thenWanted{0};
    std::vector<std::shared_ptr<Task<long>>> shared; std::vector<int> sharedId;
    uint64_t seed; int cap;
};
static World *W;
static long expected(int id) { return id * 7919L + 13; }
static Worker *anyWorker(Rng &g) { return workers[size_t(g.below(nWorkers))].get(); }
static int newNode(uint64_t seed) {
    int id = W->nNodes.fetch_add(1, RX);
    if (id >= MaxNodes) _exit(3);
    W->nodes[size_t(id)].seed = mix(seed + uint64_t(id));
    W->nodes[size_t(id)].fails = W->nodes[size_t(id)].seed % 7 == 0;
    return id;
}
static bool room() { return W->nNodes.load(RX) < W->cap; }
static int beginAwait() { int a = W->nAwaits.fetch_add(1, RX); if (a >= MaxAwaits) _exit(3); return a; }
static void endAwait(int a) { W->awaits[size_t(a)].resumed.fetch_add(1, RX); }
static void wrong() { W->wrong.fetch_add(1, RX); }

template<typename R> static Task<R> eager(int id, uint64_t seed, int depth, Obj arg);
template<typename R> static LazyTask<R> lazy(int id, uint64_t seed, int depth, Obj arg);
static long read(long v) { return v; }
static long read(const Payload &p) { p.o.check(); return p.v ? *p.v : -2; }
// Awaits it; the outcome must be that of node id.
#define AWAIT(R, id, expr) do { \
        const int a_ = beginAwait(); \
        bool threw_ = false; \
        try { \
            if constexpr (std::is_void_v<R>) { co_await expr; } \
            else { auto v_ = co_await expr; if (read(v_) != expected(id)) wrong(); } \
        } catch (const Boom &) { threw_ = true; } \
        endAwait(a_); \
        if (threw_ != W->nodes[size_t(id)].fails) wrong(); \
        if (W->nodes[size_t(id)].ends.load(RX) != 1) wrong(); \
    } while (0)

template<typename R, typename TaskT> static Task<> awaitAndDrop(int id, TaskT *t, uint64_t seed, Obj arg) {
    Rng g(seed);
    Obj local;
    if (g.chance(1, 2)) { W->hops.fetch_add(1, RX); co_await Hop{anyWorker(g)}; }
    AWAIT(R, id, *t);
    if (g.chance(1, 2)) co_await Hop{anyWorker(g)};
    delete t;
    arg.check();
}
static QCoro::AsyncGenerator<long> numbers(int n, uint64_t seed, Obj arg) {
    Rng g(seed);
    Obj local;
    for (long i = 0; i < n; ++i) {
        if (g.chance(1, 2)) co_await Hop{anyWorker(g)};
        co_yield i;
    }
    arg.check();
}
template<typename R> static Task<> child(Rng &g, int depth) {
    const int id = newNode(g.next());
    const uint64_t s = W->nodes[size_t(id)].seed;
    Obj arg;
    switch (g.below(7)) {
    case 0: { auto t = eager<R>(id, s, depth, arg); if (g.chance(1, 2)) co_await Hop{anyWorker(g)}; AWAIT(R, id, t); break; }
    case 1: AWAIT(R, id, eager<R>(id, s, depth, arg)); break;
    case 2: { auto *p = new Task<R>(eager<R>(id, s, depth, arg)); W->drops.fetch_add(1, RX); const int n = g.below(600); anyWorker(g)->push([p, n] { spin(n); delete p; }); break; }
    case 3: { auto *p = new Task<R>(eager<R>(id, s, depth, arg)); const uint64_t s2 = g.next(); anyWorker(g)->push([p, id, s2] { awaitAndDrop<R>(id, p, s2, Obj()); }); break; }
    case 4: { auto t = lazy<R>(id, s, depth, arg); if (g.chance(1, 2)) co_await Hop{anyWorker(g)}; AWAIT(R, id, t); break; }
    case 5: { auto *p = new LazyTask<R>(lazy<R>(id, s, depth, arg)); const uint64_t s2 = g.next(); anyWorker(g)->push([p, id, s2] { awaitAndDrop<R>(id, p, s2, Obj()); }); break; }
    default: { eager<R>(id, s, depth, arg); W->drops.fetch_add(1, RX); } // dropped at once
    }
}
static Task<> someShared(Rng &g) {
    const size_t i = size_t(g.below(int(W->shared.size())));
    const auto sp = W->shared[i].get(); // lives as long as the case
    const int id = W->sharedId[i];
    switch (g.below(4)) {
    case 0: if (sp->isReady() && W->nodes[size_t(id)].ends.load(RX) != 1) wrong(); W->polls.fetch_add(1, RX); break;
    case 1: {
        W->thens.fetch_add(1, RX); W->thenWanted.fetch_add(1, RX);
        sp->then([id, o = Obj()](long v) { o.check(); if (v != expected(id) || W->nodes[size_t(id)].fails) wrong(); W->thenCalls.fetch_add(1, RX); },
                 [id, o = Obj()](const std::exception &) { o.check(); if (!W->nodes[size_t(id)].fails) wrong(); W->thenCalls.fetch_add(1, RX); });
        break;
    }
    default: W->sharedAwaits.fetch_add(1, RX); AWAIT(long, id, *sp);
    }
}
static Task<> count(Rng &g) {
    int n = 0;
    const int want = g.below(5);
    QCORO_FOREACH(long v, numbers(want, g.next(), Obj())) { if (v != n) wrong(); ++n; W->generated.fetch_add(1, RX); }
    if (n != want) wrong();
}
template<typename R> static Task<> work(Rng &g, int id, int depth) {
    Node &n = W->nodes[size_t(id)];
    if (n.starts.fetch_add(1, RX) != 0) wrong();
    for (int k = 0, ops = depth < 0 ? g.range(2, 8) : g.range(1, 7); k < ops; ++k) {
#ifdef QT_MODE
        switch (g.below(10)) {
        case 8: { // a signal of an object in another thread
            Worker *w = anyWorker(g);
            const int n = g.below(1000);
            auto *e = w->emitter.get();
            W->signals_.fetch_add(1, RX);
            auto sig = qCoro(e, &Emitter::ping, std::chrono::milliseconds(10000));
            int got;
            {
                // everyone who waits for this emitter gets every number; ask until one arrives
                w->push([e, n] { Q_EMIT e->ping(n); });
                auto r = co_await sig;
                got = r ? *r : -1;
            }
            if (got < 0) wrong();
            break;
        }
        case 9: { // a future that finishes in another thread
            auto p = std::make_shared<QPromise<int>>();
            p->start();
            auto f = p->future();
            const int n = g.below(1000);
            W->futures.fetch_add(1, RX);
            anyWorker(g)->push([p, n] { spin(n); p->addResult(n); p->finish(); });
            p.reset();
            if (g.chance(1, 3)) co_await QCoro::sleepFor(std::chrono::milliseconds(g.below(2)));
            if (co_await f != n) wrong();
            break;
        }
#else
        switch (g.below(8)) {
#endif
        case 0: case 1: case 2: W->hops.fetch_add(1, RX); co_await Hop{anyWorker(g)}; break;
        case 3: spin(g.below(500)); break;
        case 4: if (depth < 0 || W->shared.empty()) break; co_await someShared(g); break;
        case 5: co_await count(g); break;
        default:
            if (depth <= 0 || !room()) { if (depth >= 0 && !W->shared.empty()) co_await someShared(g); break; }
            switch (g.below(3)) {
            case 0: co_await child<void>(g, depth - 1); break;
            case 1: co_await child<long>(g, depth - 1); break;
            default: co_await child<Payload>(g, depth - 1);
            }
        }
    }
    n.order.store(W->nEnds.fetch_add(1, RX), RX); // tells interleavings apart
    n.ends.fetch_add(1, RX);
    if (n.fails) throw Boom();
}
#define BODY(co) \
    Rng g(seed); Obj local; \
    co_await work<R>(g, id, depth); \
    arg.check(); \
    if constexpr (!std::is_void_v<R>) { co_return R(expected(id)); }
template<typename R> static Task<R> eager(int id, uint64_t seed, int depth, Obj arg) { BODY() }
template<typename R> static LazyTask<R> lazy(int id, uint64_t seed, int depth, Obj arg) { BODY() }

#ifdef QT_MODE
static Task<long> shortTask(Worker *w, long v, int n, bool fail) { co_await Hop{w}; spin(n); if (fail) throw Boom(); co_return v; }
static Task<> shortTask(Worker *w, int n, bool fail) { co_await Hop{w}; spin(n); if (fail) throw Boom(); }
#endif
static void caseC26(Rng &g) {
    World w;
    W = &w;
    w.seed = g.next();
    w.cap = g.range(6, 120);
    jobs = 0;
    const long live0 = Obj::live, bad0 = Obj::bad;
    nWorkers = g.range(2, 4);
    while (int(workers.size()) < nWorkers) workers.push_back(std::make_unique<Worker>());
    const int nShared = g.below(4); [[maybe_unused]] const long sharedObjs = nShared; const int roots = g.range(1, 10);
    ev("%d threads, %d shared tasks, %d roots, seed %llx", nWorkers, nShared, roots, (unsigned long long)w.seed);
    // The shared tasks begin here and go on in the threads.
    w.shared.resize(size_t(nShared));
    for (int i = 0; i < nShared; ++i) w.sharedId.push_back(newNode(w.seed));
    for (int i = 0; i < nWorkers; ++i) workers[size_t(i)]->start();
    for (int i = 0; i < nShared; ++i) w.shared[size_t(i)] = std::make_shared<Task<long>>(eager<long>(w.sharedId[size_t(i)], w.nodes[size_t(w.sharedId[size_t(i)])].seed, -1, Obj()));
    for (int i = 0; i < roots; ++i) {
        const int id = newNode(w.seed);
        const uint64_t s = w.nodes[size_t(id)].seed;
        anyWorker(g)->push([id, s] { eager<void>(id, s, 3, Obj()); });
    }
#ifdef QT_MODE
    int waits = g.below(4), waitedWrong = 0;
    for (int i = 0; i < waits; ++i) {
        const int id = newNode(w.seed);
        const uint64_t s = w.nodes[size_t(id)].seed;
        bool threw = false;
        try {
            if (g.chance(1, 2)) { if (QCoro::waitFor(eager<long>(id, s, 2, Obj())) != expected(id)) ++waitedWrong; }
            else QCoro::waitFor(eager<void>(id, s, 2, Obj()));
        } catch (const Boom &) { threw = true; }
        if (threw != w.nodes[size_t(id)].fails || w.nodes[size_t(id)].ends.load(RX) != 1) ++waitedWrong;
    }
    // Tasks that finish in another thread while the wait begins.
    for (int i = 0, n = g.chance(1, 3) ? g.range(5, 40) : 0; i < n; ++i) {
        const int before = g.below(3) ? g.below(3000) : 0, after = g.below(3) ? g.below(20000) : 0;
        const long v = long(g.below(1000));
        Worker *wk = anyWorker(g);
        const bool fail = g.chance(1, 6);
        try {
            if (g.chance(1, 3)) QCoro::waitFor(shortTask(wk, after, fail));
            else {
                auto t = shortTask(wk, v, after, fail);
                spin(before);
                if (QCoro::waitFor(t) != v) ++waitedWrong;
            }
            if (fail) ++waitedWrong;
        } catch (const Boom &) { if (!fail) ++waitedWrong; }
        vh::count("waited_across_threads");
    }
    VH_CHECK("C26", "wait-for", waitedWrong == 0, "%d calls of waitFor() gave the wrong outcome or returned early", waitedWrong);
    // Until everything has finished, or nothing has happened for very long.
    const auto over = [&] {
        if (Obj::live.load(RX) != live0 + sharedObjs) return false;
        for (int i = 0, n = w.nNodes.load(RX); i < n; ++i) if (w.nodes[size_t(i)].ends.load(RX) != 1) return false;
        return w.thenCalls.load(RX) == w.thenWanted.load(RX);
    };
    long last = -1; qint64 since = 0; QElapsedTimer clock; clock.start();
    while (!over() && clock.elapsed() - since < 15000) {
        QCoreApplication::processEvents(QEventLoop::AllEvents, 2);
        usleep(200);
        const long now = progress.load(RX) * 1000003 + w.nNodes.load(RX) * 7919 + w.nAwaits.load(RX) + Obj::live.load(RX) * 13;
        if (now != last) { last = now; since = clock.elapsed(); }
    }
    for (int i = 0; i < nWorkers; ++i) workers[size_t(i)]->join();
    syncAll();
#else
    while (jobs.load(RX) > 0) usleep(30); // then nothing can happen any more
    for (int i = 0; i < nWorkers; ++i) workers[size_t(i)]->stop.store(true, RX);
    for (int i = 0; i < nWorkers; ++i) workers[size_t(i)]->thread.join();
#endif
    w.shared.clear();
#ifdef QT_MODE
    for (int i = 0; i < nWorkers; ++i) workers[size_t(i)]->free();
    flushDeferredDeletes();
#endif
    for (int i = 0; i < w.nNodes; ++i) { const Node &n = w.nodes[size_t(i)]; ev("coroutine %d: started %d times, ended %d times, as number %d%s", i, int(n.starts), int(n.ends), int(n.order), n.fails ? ", fails" : ""); }
    int stuck = 0, twice = 0, notStarted = 0;
    const int nn = w.nNodes, na = w.nAwaits;
    for (int i = 0; i < nn; ++i) { if (w.nodes[size_t(i)].starts > 1) ++twice; if (w.nodes[size_t(i)].starts == 0) ++notStarted; else if (w.nodes[size_t(i)].ends != 1) ++stuck; }
    int lost = 0, more = 0;
    for (int i = 0; i < na; ++i) { if (w.awaits[size_t(i)].resumed == 0) ++lost; if (w.awaits[size_t(i)].resumed > 1) ++more; }
    VH_CHECK("C26", "stuck", stuck == 0 && lost == 0, "%d of %d coroutines never finish and %d of %d awaits are never resumed although every thread is idle", stuck, nn, lost, na);
    VH_CHECK("C26", "not-started", notStarted == 0, "%d coroutines were not started", notStarted);
    VH_CHECK("C26", "twice", twice == 0 && more == 0, "%d coroutines were started and %d awaits resumed more than once", twice, more);
    VH_CHECK("C26", "wrong-outcome", w.wrong == 0, "%d outcomes are wrong or incomplete", int(w.wrong));
    VH_CHECK("C26", "then", w.thenCalls == w.thenWanted, "%d of %d then() callbacks were called", int(w.thenCalls), int(w.thenWanted));
    VH_CHECK("C26", "destroyed", Obj::bad == bad0, "%ld uses of destroyed objects", long(Obj::bad - bad0));
    if (!run().caseFailed) VH_CHECK("C26", "leaked", Obj::live == live0, "%ld objects of coroutines are alive or were destroyed twice", long(Obj::live - live0));
    vh::count("coroutines", nn); vh::count("signals", w.signals_); vh::count("futures", w.futures); vh::count("awaits", na); vh::count("hops", w.hops); vh::count("drops_while_running", w.drops); vh::count("shared_awaits", w.sharedAwaits); vh::count("then", w.thens); vh::count("polls", w.polls); vh::count("generated", w.generated);
    if (nn > 2 && w.hops > 1) nontrivial();
}
int main(int argc, char **argv) {
    vh::parse(argc, argv);
#ifdef QT_MODE
    App app(argc, argv);
    if (!hookPostEvent()) { fprintf(stderr, "cannot describe posted events to ThreadSanitizer\n"); run().cases = 0; }
#else
    QCoreApplication app(argc, argv);
#endif
    Options o;
    return runCases(caseC26, o);
}

