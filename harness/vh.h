// Common machinery of the monitors: deterministic case generation, event traces, violation
// reporting, leak accounting and a virtual-time event dispatcher.
#pragma once

#include <QAbstractEventDispatcher>
#include <QCoreApplication>
#include <QDebug>
#include <QEvent>
#include <QObject>
#include <QPointer>
#include <QSocketNotifier>
#include <QThread>
#include <QTimer>
#include <QTimerEvent>

#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <functional>
#include <execinfo.h>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <poll.h>
#include <set>
#include <signal.h>
#include <string>
#include <sys/eventfd.h>
#include <sys/resource.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#if defined(__has_feature)
#if __has_feature(address_sanitizer) && !defined(__SANITIZE_ADDRESS__)
#define __SANITIZE_ADDRESS__ 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" void __sanitizer_symbolize_pc(void *pc, const char *format, char *out, size_t size);
#endif

extern "C" __attribute__((used, visibility("default"))) const char *__asan_default_options() {
    return "detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=1:detect_stack_use_after_return=1:"
           "allocator_may_return_null=1:quarantine_size_mb=64:malloc_context_size=12:symbolize=1";
}
extern "C" __attribute__((used, visibility("default"))) const char *__ubsan_default_options() { return "print_stacktrace=1"; }
extern "C" __attribute__((used, visibility("default"))) const char *__tsan_default_options() {
    return "exitcode=99:halt_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0";
}

namespace vh {

// ---------------------------------------------------------------- random numbers
inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    // uniform in [0, n)
    int below(int n) { return n <= 1 ? 0 : int(next() % uint64_t(n)); }
    int range(int lo, int hi) { return lo + below(hi - lo + 1); }
    bool chance(int num, int den) { return below(den) < num; }
    template<typename T> const T &pick(const std::vector<T> &v) { return v[size_t(below(int(v.size())))]; }
    QByteArray bytes(int n) {
        QByteArray b(n, Qt::Uninitialized);
        for (int i = 0; i < n; ++i) b[i] = char(next());
        return b;
    }
};

// ---------------------------------------------------------------- run state
struct Run {
    std::string prop;
    uint64_t seed = 1;
    int shard = 0;
    int cases = 1;
    bool thorough = false;
    bool replay = false;
    uint64_t caseSeed = 0;
    int stateFd = -1;
    int hangSecs = 60; int budget = 0; // seconds; 0: none
    bool aside = false; // run the cases in a thread other than the main one

    std::vector<std::string> trace;
    uint64_t traceHash = 0;
    size_t traceDropped = 0;
    bool nontrivial = false;
    bool leaves = false; // the case leaves coroutines that are never resumed, as documented
    bool caseFailed = false;

    std::map<std::string, long> counters;
    std::unordered_set<uint64_t> hashes;
    std::map<std::string, int> keyCount;
    std::vector<std::string> samples;
    long evaluations = 0;
    long nontrivialCount = 0;
    std::deque<std::string> qtMessages;
    std::recursive_mutex mtx;
};
inline Run &run() { static Run *r = new Run; return *r; }

// An IPv4 loopback address that no other process of the checks uses: a client that is late must not reach the server of
// another process that got the same port meanwhile.
inline quint32 ownHost() { const quint32 p = quint32(getpid()); return 0x7f000000u | (1u << 23) | (p & 0x3fffff) << 1; }
inline std::string ownHostName() { const quint32 a = ownHost(); char b[20]; snprintf(b, sizeof b, "127.%u.%u.%u", a >> 16 & 255, a >> 8 & 255, a & 255); return b; }
inline std::string fmtv(const char *fmt, va_list ap) {
    char buf[1024];
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    return std::string(buf, size_t(std::clamp(n, 0, int(sizeof buf) - 1)));
}
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
    va_list ap; va_start(ap, f); auto s = fmtv(f, ap); va_end(ap); return s;
}
inline std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 0x20 || c > 0x7e) o += fmt("\\u%04x", c);
        else o += char(c);
    }
    return o + "\"";
}
inline void outLine(const std::string &s) {
    std::string l = s + "\n";
    size_t off = 0;
    while (off < l.size()) {
        ssize_t n = ::write(1, l.data() + off, l.size() - off);
        if (n <= 0) break;
        off += size_t(n);
    }
}

// An event of the current case: part of the trace, and of the signature that counts distinct traces.
inline void ev(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline void ev(const char *f, ...) {
    va_list ap; va_start(ap, f); auto s = fmtv(f, ap); va_end(ap);
    auto &r = run();
    std::lock_guard l(r.mtx);
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    r.traceHash = mix(r.traceHash ^ h);
    if (r.trace.size() < 600) r.trace.push_back(std::move(s)); else ++r.traceDropped;
    ++r.counters["events"];
}
// A note in the trace that does not enter the signature (measured times and the like).
inline void note(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline void note(const char *f, ...) {
    va_list ap; va_start(ap, f); auto s = fmtv(f, ap); va_end(ap);
    auto &r = run();
    std::lock_guard l(r.mtx);
    if (r.trace.size() < 600) r.trace.push_back(std::move(s)); else ++r.traceDropped;
}
inline void count(const char *name, long n = 1) { auto &r = run(); std::lock_guard l(r.mtx); r.counters[name] += n; }
inline void nontrivial() { run().nontrivial = true; }

inline std::string traceJson(size_t maxLines = 600) {
    auto &r = run();
    std::string o = "[";
    size_t n = std::min(maxLines, r.trace.size());
    for (size_t i = 0; i < n; ++i) { if (i) o += ","; o += jstr(r.trace[i]); }
    if (r.traceDropped || n < r.trace.size()) { if (n) o += ","; o += jstr(fmt("... %zu more", r.traceDropped + r.trace.size() - n)); }
    return o + "]";
}

// Reports that the property `prop` was seen broken (only counted when this run decides `prop`).
inline void violation(const char *prop, const char *key, const char *f, ...) __attribute__((format(printf, 3, 4)));
inline void violation(const char *prop, const char *key, const char *f, ...) {
    va_list ap; va_start(ap, f); auto s = fmtv(f, ap); va_end(ap);
    auto &r = run();
    std::lock_guard l(r.mtx);
    if (r.prop != prop) { ++r.counters[std::string("other_property_") + prop]; return; }
    r.caseFailed = true;
    if (r.keyCount[key]++ >= 3 && !r.replay) return;
    outLine("{\"t\":\"v\",\"key\":" + jstr(key) + ",\"msg\":" + jstr(s) + ",\"case\":" + jstr(fmt("%llx", (unsigned long long)r.caseSeed))
            + ",\"trace\":" + traceJson() + "}");
}
#define VH_CHECK(prop, key, cond, ...) do { vh::count("oracle_checks"); if (!(cond)) vh::violation(prop, key, __VA_ARGS__); } while (0)

inline void onAlarm(int) {
    auto &r = run();
    // not async-signal-safe in general; the process is stuck and ends here either way
    std::string s = "{\"t\":\"hang\",\"case\":" + jstr(fmt("%llx", (unsigned long long)r.caseSeed)) + ",\"trace\":" + traceJson() + "}";
    outLine(s);
    _exit(14);
}

// Ends the process: nothing can make progress any more although the property says it must.
[[noreturn]] inline void fatalViolation(const char *prop, const char *key, const std::string &msg) {
    violation(prop, key, "%s", msg.c_str());
    outLine("{\"t\":\"fatal\"}");
    fflush(nullptr);
    _exit(10);
}

inline void qtMessage(QtMsgType type, const QMessageLogContext &, const QString &msg) {
    auto &r = run();
    std::lock_guard l(r.mtx);
    r.qtMessages.push_back(msg.toStdString());
    if (r.qtMessages.size() > 64) r.qtMessages.pop_front();
    ++r.counters["qt_messages"];
    if (type == QtFatalMsg || r.replay) fprintf(stderr, "qt: %s\n", msg.toLocal8Bit().constData());
    if (type == QtFatalMsg) { for (auto &l : r.trace) fprintf(stderr, "  %s\n", l.c_str()); abort(); }
}

inline size_t allocatedBytes() {
#if defined(__SANITIZE_ADDRESS__)
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

// ---------------------------------------------------------------- lifetime trackers
// Counts live instances; detects double destruction and use after destruction.
struct Tracked {
    static inline std::atomic<long> live{0};
    static inline std::atomic<long> made{0}, copies{0}, moves{0};
    static constexpr uint32_t Magic = 0x7ac4ed01u;
    uint32_t magic = Magic;
    int value = 0;
    bool movedFrom = false;
    Tracked() : Tracked(0) {}
    explicit Tracked(int v) : value(v) { ++live; ++made; }
    Tracked(const Tracked &o) : value(o.value), movedFrom(o.movedFrom) { o.check(); ++live; ++copies; ++made; }
    Tracked(Tracked &&o) noexcept : value(o.value), movedFrom(o.movedFrom) { o.check(); o.movedFrom = true; ++live; ++moves; ++made; }
    Tracked &operator=(const Tracked &o) { check(); o.check(); value = o.value; movedFrom = o.movedFrom; ++copies; return *this; }
    Tracked &operator=(Tracked &&o) noexcept { check(); o.check(); if (&o != this) { value = o.value; movedFrom = o.movedFrom; o.movedFrom = true; } ++moves; return *this; }
    ~Tracked() { check(); magic = 0xdeadbeef; --live; }
    void check() const { if (magic != Magic) { fprintf(stderr, "Tracked: use of a destroyed object (magic %x)\n", magic); abort(); } }
};

// A time that hardly fits or does not fit into an int of milliseconds.
inline constexpr qint64 VeryLong = 20000000000ll;
inline qint64 longTime(Rng &g) { count("long_timeouts"); return 2147483640ll + (g.chance(1, 2) ? g.below(20) : qint64(g.below(1 << 30)) * g.range(1, 12)); }

// ---------------------------------------------------------------- virtual time
// A single-threaded event dispatcher with a virtual clock. It delivers posted events and fires
// timers exactly as Qt's dispatchers do, but jumps over idle time, lets the harness take one
// step at a time, and knows exactly when nothing can ever happen any more. File descriptors are
// real: they are polled without blocking in every pass, and waitReal() blocks for them.
class VDispatcher : public QAbstractEventDispatcher {
public:
    struct T { int id; qint64 interval; Qt::TimerType type; QObject *obj; qint64 due; uint64_t seq; bool firing = false; };
    std::vector<T> timers;
    qint64 now = 0;
    uint64_t seq = 0;
    std::atomic<bool> wake{false};
    bool interrupted = false;
    Rng *rng = nullptr;      // schedule choices, if set
    int batchChance = 50;    // %: fire every due timer in one pass (as a real dispatcher does after a late wake-up)
    int lateChance = 20;     // %: wake up late, so that several timers are due at once
    int maxLate = 15;
    bool coarse = false;     // timers fire as early as their type allows
    long steps = 0;
    std::function<void()> onStuck;
    std::function<bool()> idleHook; // called before advancing time; true: it did something

    static VDispatcher *instance() { return static_cast<VDispatcher *>(QAbstractEventDispatcher::instance()); }

    std::vector<QSocketNotifier *> notifiers;
    std::atomic<int> wakeFd{-1};
    long activations = 0;
    void registerSocketNotifier(QSocketNotifier *n) override { notifiers.push_back(n); }
    void unregisterSocketNotifier(QSocketNotifier *n) override { std::erase(notifiers, n); }
    // Delivers what the file descriptors have to report, waiting for it for at most realMs.
    bool pollSockets(int realMs) {
        if (notifiers.empty() && realMs <= 0) return false;
        std::vector<pollfd> fds;
        std::vector<QSocketNotifier *> ns = notifiers;
        if (rng) for (size_t i = ns.size(); i > 1; --i) std::swap(ns[i - 1], ns[size_t(rng->below(int(i)))]);
        for (auto *n : ns) fds.push_back({int(n->socket()), short(n->type() == QSocketNotifier::Read ? POLLIN : n->type() == QSocketNotifier::Write ? POLLOUT : POLLPRI), 0});
        if (realMs > 0) {
            if (wakeFd < 0) wakeFd = eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC);
            fds.push_back({wakeFd, POLLIN, 0});
            if (wake) realMs = 0;
        }
        int r = ::poll(fds.data(), nfds_t(fds.size()), std::max(0, realMs));
        if (realMs > 0 && fds.back().revents) { uint64_t x; (void)!::read(wakeFd, &x, sizeof x); }
        if (r <= 0) return wake;
        bool did = false;
        for (size_t i = 0; i < ns.size(); ++i) {
            if (!fds[i].revents || std::find(notifiers.begin(), notifiers.end(), ns[i]) == notifiers.end()) continue;
            ++activations;
            QEvent e(QEvent::SockAct);
            QCoreApplication::sendEvent(ns[i], &e);
            did = true;
            if (rng && rng->chance(1, 3)) break; // the others in the next pass
        }
        return did || wake;
    }
    // Blocks until something happens, for at most realMs; delivers it.
    bool waitReal(int realMs) { ++steps; bool r = pollSockets(realMs); if (wake) step(); return r; }
    void registerTimer(int id, qint64 interval, Qt::TimerType type, QObject *obj) override {
        timers.push_back({id, interval, type, obj, now + interval - early(interval, type), ++seq});
    }
    // Qt: "QTimer may wake up earlier than expected, within the margins: 5 % of the interval for CoarseTimer and 500 ms for VeryCoarseTimer"
    qint64 early(qint64 interval, Qt::TimerType type) {
        if (!coarse || !rng || type == Qt::PreciseTimer || interval <= 0) return 0;
        if (type == Qt::CoarseTimer && interval < 20000) return rng->below(int(interval / 20) + 1);
        return rng->below(int(std::min<qint64>(500, interval)) + 1);
    }
    bool unregisterTimer(int id) override {
        for (size_t i = 0; i < timers.size(); ++i) if (timers[i].id == id) { timers.erase(timers.begin() + long(i)); return true; }
        return false;
    }
    bool unregisterTimers(QObject *o) override {
        auto n = timers.size();
        std::erase_if(timers, [o](const T &t) { return t.obj == o; });
        return n != timers.size();
    }
    QList<TimerInfo> registeredTimers(QObject *o) const override {
        QList<TimerInfo> l;
        for (auto &t : timers) if (t.obj == o) l.append(TimerInfo(t.id, int(t.interval), t.type));
        return l;
    }
    int remainingTime(int id) override {
        for (auto &t : timers) if (t.id == id) return int(std::max<qint64>(0, t.due - now));
        return -1;
    }
    void wakeUp() override { wake = true; if (wakeFd >= 0) { uint64_t x = 1; (void)!::write(wakeFd, &x, sizeof x); } }
    void interrupt() override { interrupted = true; wake = true; }

    bool anyDue() const { for (auto &t : timers) if (t.due <= now) return true; return false; }
    qint64 nextDue() const { qint64 d = -1; for (auto &t : timers) if (d < 0 || t.due < d) d = t.due; return d; }
    bool idle() const { return !wake && timers.empty(); }

    bool fireDue() {
        std::vector<std::pair<std::pair<qint64, uint64_t>, int>> due;
        for (auto &t : timers) if (t.due <= now && !t.firing) due.push_back({{t.due, t.seq}, t.id});
        std::sort(due.begin(), due.end());
        if (due.empty()) return false;
        bool batch = !rng || rng->below(100) < batchChance;
        if (!batch) due.resize(1);
        bool fired = false;
        for (auto &d : due) {
            size_t i = 0;
            while (i < timers.size() && (timers[i].id != d.second || timers[i].seq != d.first.second)) ++i;
            if (i == timers.size()) continue; // stopped by an earlier one
            auto &t = timers[i];
            t.due = (t.interval > 0) ? std::max(t.due + t.interval, now + 1) : now;
            uint64_t oldSeq = t.seq;
            t.seq = ++seq;
            uint64_t mySeq = t.seq; (void)oldSeq;
            QObject *o = t.obj;
            int id = t.id;
            t.firing = true;
            QTimerEvent e(id);
            QCoreApplication::sendEvent(o, &e);
            for (auto &x : timers) if (x.id == id && x.seq == mySeq) x.firing = false;
            fired = true;
            if (interrupted) break;
        }
        return fired;
    }

    bool processEvents(QEventLoop::ProcessEventsFlags flags) override {
        ++steps;
        interrupted = false;
        Q_EMIT awake();
        bool did = wake.exchange(false);
        QCoreApplication::sendPostedEvents();
        if (interrupted) return true;
        if (fireDue()) return true;
        if (!(flags & QEventLoop::ExcludeSocketNotifiers) && pollSockets(0)) return true;
        if (did || wake) return true;
        if (idleHook && idleHook()) return true;
        if (!(flags & QEventLoop::WaitForMoreEvents)) return false;
        Q_EMIT aboutToBlock();
        if (timers.empty()) {
            if (onStuck) onStuck();
            return false;
        }
        advance();
        fireDue();
        return true;
    }
    // Moves the clock to the next timer, or past it.
    void advance() {
        qint64 d = nextDue();
        if (d < 0) return;
        if (d > now) now = d;
        if (rng && rng->below(100) < lateChance) now += rng->below(maxLate + 1);
    }
    // One pass that does not advance the clock.
    bool step() { return processEvents(QEventLoop::AllEvents); }
    // Runs until nothing more is posted or due at the current time.
    void settle(int maxSteps = 100000) {
        auto hook = std::move(idleHook); idleHook = nullptr;
        while (step()) if (--maxSteps < 0) break;
        idleHook = std::move(hook);
    }
    // Runs until no posted event and no timer is left (bounded by virtual time).
    void drain(qint64 horizon = 1000000) {
        qint64 end = now + horizon;
        for (;;) {
            settle();
            if (timers.empty() || nextDue() > end) return;
            advance();
        }
    }
    void advanceBy(qint64 ms) {
        qint64 end = now + ms;
        for (;;) {
            settle();
            qint64 d = nextDue();
            if (d < 0 || d > end) break;
            advance();
        }
        if (now < end) now = end;
        settle();
    }
    void reset(Rng *r) { rng = r; now = 0; seq = 0; timers.clear(); wake = false; interrupted = false; coarse = false; onStuck = nullptr; idleHook = nullptr; }
};

inline void flushDeferredDeletes() {
    for (int i = 0; i < 4; ++i) {
        QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
        QCoreApplication::sendPostedEvents();
    }
}

// ---------------------------------------------------------------- objects
// Qt reports the construction and destruction of every QObject to these hooks (see qhooks_p.h).
extern "C" Q_DECL_IMPORT quintptr qtHookData[];
inline std::atomic<long> objectCount{0};
inline long liveObjects() { return objectCount.load(std::memory_order_relaxed); }
inline std::mutex objectMutex;
struct ObjectOrigin { void *pc[24]; int n; };
inline std::map<QObject *, ObjectOrigin> *objectSet; // only when a case is replayed
inline void rememberObjects() { objectSet = new std::map<QObject *, ObjectOrigin>; }
inline std::string newestObjects() {
    std::map<std::string, int> names;
    std::string o;
    if (!objectSet) return o;
    for (auto &[p, n] : *objectSet) ++names[p->metaObject()->className()];
    for (auto &[c, n] : names) o += fmt(" %s: %d", c.c_str(), n);
#if defined(__SANITIZE_ADDRESS__)
    if (getenv("VH_ORIGINS")) for (auto &[p, a] : *objectSet) {
        fprintf(stderr, "%s\n", p->metaObject()->className());
        for (int i = 2; i < a.n; ++i) { char b[400]; __sanitizer_symbolize_pc(a.pc[i], "    %f %S", b, sizeof b); fprintf(stderr, "%s\n", b); }
    }
#endif
    return o;
}
inline void watchObjects() {
    if (objectSet) {
        qtHookData[3] = quintptr(+[](QObject *o) { std::lock_guard l(objectMutex); auto &a = (*objectSet)[o]; a.n = backtrace(a.pc, 24); objectCount.fetch_add(1, std::memory_order_relaxed); });
        qtHookData[4] = quintptr(+[](QObject *o) { std::lock_guard l(objectMutex); objectSet->erase(o); objectCount.fetch_sub(1, std::memory_order_relaxed); });
        return;
    }
    qtHookData[3] = quintptr(+[](QObject *) { objectCount.fetch_add(1, std::memory_order_relaxed); });
    qtHookData[4] = quintptr(+[](QObject *) { objectCount.fetch_sub(1, std::memory_order_relaxed); });
}

// ---------------------------------------------------------------- main loop
struct Options {
    // runs a case this many times and requires the heap to stop growing (0: off)
    int leakEvery = 0;      // every n-th case
    int leakRepeats = 6;
    const char *leakKey = "heap-growth";
    std::vector<std::pair<std::string, std::function<void()>>> scenarios;
};

using CaseFn = std::function<void(Rng &)>;

inline void beginCase(uint64_t cs) {
    auto &r = run();
    r.caseSeed = cs;
    r.trace.clear(); r.traceHash = 0; r.traceDropped = 0; r.nontrivial = false; r.caseFailed = false; r.leaves = false;
    if (r.stateFd >= 0) { auto s = fmt("%016llx\n", (unsigned long long)cs); (void)!pwrite(r.stateFd, s.data(), s.size(), 0); }
    alarm(unsigned(r.hangSecs));
}
inline void endCase() {
    auto &r = run();
    alarm(0);
    ++r.evaluations;
    if (r.nontrivial) { ++r.nontrivialCount; r.hashes.insert(r.traceHash); }
    if (r.samples.size() < 2 && r.nontrivial && r.trace.size() > 4) r.samples.push_back("{\"case\":" + jstr(fmt("%llx", (unsigned long long)r.caseSeed)) + ",\"trace\":" + traceJson(40) + "}");
}

inline int runCases(const CaseFn &fn, const Options &opt) {
    auto &r = run();
    auto report = [&]() {
        std::string o = "{\"t\":\"s\",\"evaluations\":" + std::to_string(r.evaluations) + ",\"nontrivial\":" + std::to_string(r.nontrivialCount) + ",\"counters\":{";
        bool first = true;
        for (auto &[k, v] : r.counters) { if (!first) o += ","; first = false; o += jstr(k) + ":" + std::to_string(v); }
        o += "},\"hashes\":[";
        first = true;
        for (auto h : r.hashes) { if (!first) o += ","; first = false; o += std::to_string(h); }
        o += "],\"samples\":[";
        first = true;
        for (auto &s : r.samples) { if (!first) o += ","; first = false; o += s; }
        outLine(o + "]}");
    };
    auto scen = [&](const std::string &n) -> bool {
        for (auto &[name, f] : opt.scenarios) if (name == n) { beginCase(0); ev("scenario %s", n.c_str()); nontrivial(); f(); endCase(); return true; }
        return false;
    };
    if (const char *s = getenv("VH_SCENARIO")) {
        if (!scen(s)) { fprintf(stderr, "no scenario %s\n", s); return 2; }
        report();
        return 0;
    }
    // The same case again and again: what it creates and allocates it must release.
    auto again = [&](uint64_t cs, bool objects) {
        std::vector<long> sizes, counts;
        bool leaves = false;
        auto once = [&] {
            beginCase(cs);
            Rng g2(cs);
            fn(g2);
            r.trace.clear(); r.trace.shrink_to_fit();
            r.qtMessages.clear(); r.qtMessages.shrink_to_fit();
            sizes.push_back(long(allocatedBytes()));
            counts.push_back(liveObjects());
            alarm(0);
            leaves = leaves || r.leaves;
        };

        bool grows = opt.leakEvery > 0 && allocatedBytes(), more = true;
        // What is left by other threads or in caches does not grow every time.
        for (int k = 0; k < std::max(opt.leakRepeats, 6) + 24 && (grows || more || k < 3); ++k) {
            once();
            if (k < 2) continue;
            if (sizes[size_t(k)] - sizes[size_t(k) - 1] < 16) grows = false;
            if (counts[size_t(k)] <= counts[size_t(k) - 1]) more = false;
        }
        count(objects ? "object_checks" : "leak_checks");
        if ((grows || more) && !leaves) {
            beginCase(cs);
            Rng g3(cs); fn(g3); alarm(0);
            if (more) violation(r.prop.c_str(), "objects-leaked", "%ld more objects are left each time this case is run;%s", counts.back() - counts[counts.size() - 2], newestObjects().c_str());
            else violation(r.prop.c_str(), opt.leakKey, "the heap grows by %ld bytes each time this case is run (sizes %ld %ld %ld %ld)",
                          sizes.back() - sizes[sizes.size() - 2], sizes[1], sizes[2], sizes[3], sizes.back());
        }
    };
    if (r.replay) rememberObjects();
    watchObjects();
    if (r.replay) {
        uint64_t cs = r.caseSeed;
        const long objects0 = liveObjects();
        beginCase(cs); Rng g(cs); fn(g); endCase();
        if (!r.caseFailed && !r.leaves && (opt.leakEvery || liveObjects() > objects0)) again(cs, liveObjects() > objects0);
        for (auto &l : r.trace) fprintf(stderr, "  %s\n", l.c_str());
        report();
        return 0;
    }
    const auto t0 = std::chrono::steady_clock::now();
    for (int i = 0; i < r.cases; ++i) {
        if (r.budget && std::chrono::steady_clock::now() - t0 >= std::chrono::seconds(r.budget)) break;
        uint64_t cs = mix(mix(r.seed * 1000003ull + uint64_t(r.shard)) + uint64_t(i));
        const long objects0 = liveObjects();
        beginCase(cs);
        Rng g(cs);
        fn(g);
        bool bad = r.caseFailed;
        endCase();
        const bool objects = liveObjects() > objects0;
        if (!bad && !r.leaves && ((opt.leakEvery && i % opt.leakEvery == 0 && allocatedBytes()) || objects)) again(cs, objects);
        if (r.keyCount.size() >= 8) break;
    }
    report();
    return 0;
}

inline void parse(int argc, char **argv) {
    auto &r = run();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> const char * { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(2); } return argv[++i]; };
        if (a == "--prop") r.prop = val();
        else if (a == "--seed") r.seed = strtoull(val(), nullptr, 10);
        else if (a == "--shard") r.shard = atoi(val());
        else if (a == "--cases") r.cases = atoi(val());
        else if (a == "--thorough") r.thorough = true;
        else if (a == "--case") { r.replay = true; r.caseSeed = strtoull(val(), nullptr, 16); }
        else if (a == "--state") r.stateFd = open(val(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        else if (a == "--aside") r.aside = true;
        else if (a == "--budget") r.budget = atoi(val());
        else if (a == "--hang") r.hangSecs = atoi(val());
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); exit(2); }
    }
    signal(SIGALRM, onAlarm);
    signal(SIGPIPE, SIG_IGN);
    struct rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    qInstallMessageHandler(qtMessage);
}

// The cases run in the main thread or in another one; then the main thread handles no events, so that
// what is sent there by mistake never happens.
template<typename App = QCoreApplication, typename Body>
int monitorMain(int argc, char **argv, Body &&body) {
    QCoreApplication::setEventDispatcher(new VDispatcher);
    App app(argc, argv);
    if (!run().aside) return body();
    struct Aside : QThread {
        Body &body; int result = 0;
        explicit Aside(Body &b) : body(b) {}
        void run() override { result = body(); }
    } t(body);
    t.setStackSize(64 << 20);
    t.setEventDispatcher(new VDispatcher);
    t.start();
    t.wait();
    return t.result;
}

} // namespace vh
