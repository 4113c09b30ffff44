// C07: Generator; C08: AsyncGenerator and QCORO_FOREACH.
#include "vh.h"
#include <exception>
#include <stdexcept>
#include <vector>
#include <qcorogenerator.h>
#include <qcoroasyncgenerator.h>
#include <qcorotask.h>
#include <qcorotimer.h>

using namespace vh;
using QCoro::AsyncGenerator;
using QCoro::Generator;
using QCoro::Task;

struct CaseError : std::runtime_error { int k; explicit CaseError(int k_) : std::runtime_error("case"), k(k_) {} };
struct PlainError { int k; };
struct Box { // move-only
    Tracked t;
    explicit Box(int v) : t(v) {}
    Box(Box &&) noexcept = default;
    Box &operator=(Box &&) noexcept = default;
    Box(const Box &) = delete;
    Box &operator=(const Box &) = delete;
};
static int rd(int v) { return v; }
static int rd(const Box &b) { b.t.check(); return b.t.movedFrom ? -2000 : b.t.value; }

// What a generator does: yields these values, then ends as `end` says.
struct Plan {
    int id = 0;
    std::vector<int> values;
    std::vector<char> lvalue; // yield a variable (1) or a temporary (0)
    std::vector<int> nested;  // index of the step at which a nested generator is iterated, with how many values (0: none)
    int endType = 0; int endV = 0; // 0 return, 1 CaseError, 2 PlainError
    // what was observed
    int frames = 0, destroyed = 0;
    bool started = false, done = false;
    int yielded = 0;
    bool asked = false; // the consumer asked for the next value and did not get it yet
    const char *prop = "C07";
};
static void onRun(Plan *p, const char *where) {
    VH_CHECK(p->prop, "ran-unasked", p->asked, "generator %d runs (%s) although nobody asked for a value", p->id, where);
    VH_CHECK(p->prop, "ran-after-end", !p->done, "generator %d runs (%s) although it has ended", p->id, where);
}
struct Arg { // lives as long as the generator's frame
    Plan *p; Tracked t{1};
    explicit Arg(Plan *p_) : p(p_) { ++p->frames; }
    Arg(Arg &&o) noexcept : p(o.p), t(std::move(o.t)) { o.p = nullptr; }
    ~Arg() { if (p) { ++p->destroyed; ev("generator %d destroyed", p->id); VH_CHECK(p->prop, "destroyed-twice", p->destroyed == 1, "the state of generator %d was destroyed %d times", p->id, p->destroyed); } }
};

static Plan *newPlan(Rng &g, std::vector<std::unique_ptr<Plan>> &plans, const char *prop, int maxLen) {
    auto p = std::make_unique<Plan>();
    p->id = int(plans.size());
    p->prop = prop;
    int n = g.chance(1, 6) ? 0 : g.below(maxLen + 1);
    for (int i = 0; i < n; ++i) { p->values.push_back(g.range(-50, 100000)); p->lvalue.push_back(char(g.below(2))); p->nested.push_back(g.chance(1, 8) ? g.range(1, 3) : 0); }
    p->endType = g.chance(1, 3) ? (g.chance(1, 3) ? 2 : 1) : 0;
    p->endV = g.range(1, 1000);
    Plan *r = p.get();
    plans.push_back(std::move(p));
    return r;
}
static void finish(Plan *p) {
    p->done = true;
    ev("generator %d ends (%d,%d)", p->id, p->endType, p->endV);
    if (p->endType == 1) throw CaseError(p->endV);
    if (p->endType == 2) throw PlainError{p->endV};
}

// ------------------------------------------------------------------------------------- C07
static Generator<int> inner(int from, int n) { for (int i = 0; i < n; ++i) co_yield from + i; }

template<typename T> static Generator<T> gen(Plan *p, Arg arg) {
    Tracked local(2);
    p->started = true;
    onRun(p, "start");
    ev("generator %d starts", p->id);
    for (size_t i = 0; i < p->values.size(); ++i) {
        arg.t.check();
        if (p->nested[i]) { int k = 0; for (int x : inner(int(i), p->nested[i])) { VH_CHECK("C07", "wrong-value", x == int(i) + k, "a nested generator gave %d instead of %d", x, int(i) + k); ++k; }
            VH_CHECK("C07", "missing-value", k == p->nested[i], "a nested generator gave %d values instead of %d", k, p->nested[i]); }
        ++p->yielded;
        ev("generator %d yields #%d", p->id, p->yielded);
        if (p->lvalue[i]) { T v = T(p->values[i]); co_yield v; }
        else co_yield T(p->values[i]);
        onRun(p, "resumed");
        local.check();
    }
    finish(p);
}
// yields references to variables of its own
template<typename R> static Generator<R> genRef(Plan *p, Arg arg) {
    Tracked local(2);
    p->started = true;
    onRun(p, "start");
    std::vector<int> own(p->values);
    for (size_t i = 0; i < own.size(); ++i) {
        ++p->yielded;
        co_yield own[i];
        onRun(p, "resumed");
        arg.t.check();
    }
    finish(p);
}

template<typename G> struct IterState {
    Plan *p; G gen; bool begun = false, ended = false, threw = false; int seen = 0;
    std::optional<decltype(std::declval<G &>().begin())> it;
};
// One step of iteration, checked against the plan.
template<typename G> static void stepGen(IterState<G> &s) {
    Plan *p = s.p;

    int exType = 0, exV = 0;
    p->asked = true;
    try {
        if (!s.begun) { s.begun = true; s.it.emplace(s.gen.begin()); }
        else ++*s.it;
    } catch (const CaseError &e) { exType = 1; exV = e.k; } catch (const PlainError &e) { exType = 2; exV = e.k; }
    p->asked = false;
    const int n = int(p->values.size());
    count("steps");
    if (s.seen < n) {
        VH_CHECK("C07", "exception-early", !exType, "generator %d threw (%d,%d) at step %d of %d", p->id, exType, exV, s.seen, n);
        bool atEnd = exType || *s.it == s.gen.end();
        VH_CHECK("C07", "ended-early", !atEnd, "generator %d ended after %d of %d values", p->id, s.seen, n);
        VH_CHECK("C07", "ran-ahead", p->yielded == s.seen + 1, "generator %d has yielded %d values when %d were asked for", p->id, p->yielded, s.seen + 1);
        if (atEnd) { s.ended = true; return; }
        int v = rd(**s.it), v2 = rd(**s.it);
        VH_CHECK("C07", "wrong-value", v == p->values[size_t(s.seen)] && v == v2, "generator %d gave %d (then %d) instead of %d", p->id, v, v2, p->values[size_t(s.seen)]);
        ++s.seen;
        return;
    }
    s.ended = true;
    VH_CHECK("C07", "wrong-exception", exType == p->endType && (!exType || exV == p->endV), "generator %d ended with (%d,%d) instead of (%d,%d)", p->id, exType, exV, p->endType, p->endV);
    VH_CHECK("C07", "not-ended", p->done, "generator %d did not run to its end", p->id);
    if (s.it) {
        VH_CHECK("C07", "end-not-end", *s.it == s.gen.end(), "the iterator of the finished generator %d is not the end", p->id);
        if (p->id % 2 && *s.it == s.gen.end()) { // it stays there
            bool again = false;
            try { ++*s.it; } catch (...) { again = true; }
            VH_CHECK("C07", "end-not-end", !again && *s.it == s.gen.end(), "a step beyond the end of generator %d goes somewhere", p->id);
        }
    }
    ev("generator %d exhausted", p->id);
}
template<typename G> static G makeGen(Plan *p) {
    if constexpr (std::is_same_v<G, Generator<int>>) return gen<int>(p, Arg(p));
    else if constexpr (std::is_same_v<G, Generator<Box>>) return gen<Box>(p, Arg(p));
    else if constexpr (std::is_same_v<G, Generator<int &>>) return genRef<int &>(p, Arg(p));
    else return genRef<const int &>(p, Arg(p));
}
// iterates with range-for, leaving after `limit` values, or by an exception of its own
template<typename G> static void rangeFor(Rng &g, std::vector<std::unique_ptr<Plan>> &plans) {
    Plan *p = newPlan(g, plans, "C07", 6);
    int limit = g.chance(1, 2) ? 1000 : g.range(1, 5), seen = 0;
    bool thrown = g.chance(1, 3), own = false;
    int exType = 0, exV = 0;
    struct Own {};
    ev("range-for over %d (%zu values) limit %d", p->id, p->values.size(), limit);
    try {
        auto ge = makeGen<G>(p);
        VH_CHECK("C07", "ran-unasked", !p->started, "generator %d ran before it was iterated", p->id);
        p->asked = true;
        for (auto &&x : ge) {
            p->asked = false;
            VH_CHECK("C07", "too-many-values", seen < int(p->values.size()), "generator %d gave more than %zu values", p->id, p->values.size());
            if (seen < int(p->values.size())) VH_CHECK("C07", "wrong-value", rd(x) == p->values[size_t(seen)], "generator %d gave %d instead of %d", p->id, rd(x), p->values[size_t(seen)]);
            ++seen;
            VH_CHECK("C07", "ran-ahead", p->yielded == seen, "generator %d has yielded %d values when %d were asked for", p->id, p->yielded, seen);
            if (seen >= limit) { if (thrown) throw Own{}; break; }
            p->asked = true;
        }
        p->asked = false;
    } catch (const CaseError &e) { exType = 1; exV = e.k; } catch (const PlainError &e) { exType = 2; exV = e.k; } catch (Own) { own = true; }
    p->asked = false;
    if (seen >= limit && limit > 0) VH_CHECK("C07", "abandoned-ran", p->yielded == seen && !p->done, "the abandoned generator %d ran on", p->id);
    else {
        VH_CHECK("C07", "missing-value", seen == int(p->values.size()), "generator %d gave %d of %zu values", p->id, seen, p->values.size());
        VH_CHECK("C07", "wrong-exception", exType == p->endType && (!exType || exV == p->endV), "generator %d ended with (%d,%d) instead of (%d,%d)", p->id, exType, exV, p->endType, p->endV);
    }
    VH_CHECK("C07", "leaked", p->destroyed == 1, "the state of generator %d was destroyed %d times after its end of life", p->id, p->destroyed);
    count("range_fors");
}
template<typename G> static void juggle(Rng &g, std::vector<std::unique_ptr<Plan>> &plans) {
    using S = IterState<G>;
    std::vector<std::unique_ptr<S>> live, husks; // husks: moved-from generators that stay around
    std::vector<Plan *> gone;
    auto sweep = [&] {
        for (auto *p : gone) VH_CHECK("C07", "leaked", p->destroyed == 1, "the state of generator %d was destroyed %d times after its object was given up", p->id, p->destroyed);
        for (auto &s : live) VH_CHECK("C07", "destroyed-early", s->p->destroyed == 0, "the state of generator %d was destroyed while its object lives", s->p->id);
    };
    int rounds = g.range(4, 24);
    for (int r = 0; r < rounds; ++r) {
        switch (g.below(10)) {
        case 0: case 1: {
            Plan *p = newPlan(g, plans, "C07", 6);
            ev("make %d (%zu values, end %d)", p->id, p->values.size(), p->endType);
            live.push_back(std::unique_ptr<S>(new S{p, makeGen<G>(p)}));
            VH_CHECK("C07", "ran-unasked", !p->started, "generator %d ran before it was iterated", p->id);
            break;
        }
        case 2: case 3: case 4: case 5: if (!live.empty()) { auto &s = *g.pick(live); if (!s.ended) { ev("step %d", s.p->id); stepGen(s); } } break;
        case 6: if (!live.empty()) { // move-construct in the middle
            auto &s = *g.pick(live);
            ev("move %d", s.p->id);
            std::unique_ptr<S> n(new S{s.p, std::move(s.gen), s.begun, s.ended, s.threw, s.seen, s.it});
            for (auto &x : live) if (x.get() == &s) { if (g.chance(1, 2)) husks.push_back(std::move(x)); x = std::move(n); break; }
            count("moves");
            break;
        }
        case 7: if (live.size() >= 2) { // move-assign over another one: that one is given up
            size_t a = size_t(g.below(int(live.size()))), b = size_t(g.below(int(live.size())));
            if (a == b) { auto &self = live[b]->gen; ev("self-move %d", live[a]->p->id); live[a]->gen = std::move(self); break; }
            ev("move-assign %d over %d", live[a]->p->id, live[b]->p->id);
            gone.push_back(live[b]->p);
            live[b]->gen = std::move(live[a]->gen);
            live[b]->p = live[a]->p; live[b]->begun = live[a]->begun; live[b]->ended = live[a]->ended; live[b]->seen = live[a]->seen; live[b]->it = live[a]->it;
            if (g.chance(1, 2)) husks.push_back(std::move(live[a]));
            live.erase(live.begin() + long(a));
            count("move_assignments");
            break;
        }
        case 8: if (!husks.empty() && !live.empty()) { // a moved-from object is used again
            size_t a = size_t(g.below(int(live.size())));
            auto h = std::move(husks.back()); husks.pop_back();
            ev("move %d into a moved-from generator", live[a]->p->id);
            h->gen = std::move(live[a]->gen);
            h->p = live[a]->p; h->begun = live[a]->begun; h->ended = live[a]->ended; h->seen = live[a]->seen; h->it = live[a]->it;
            std::swap(h, live[a]);
            if (g.chance(1, 2)) husks.push_back(std::move(h));
            count("reused_husks");
            break;
        }
        [[fallthrough]];
        default: if (!live.empty() && g.chance(1, 2)) { size_t a = size_t(g.below(int(live.size()))); ev("drop %d", live[a]->p->id); gone.push_back(live[a]->p); live.erase(live.begin() + long(a)); }
        }
        sweep();
    }
    for (auto &s : live) gone.push_back(s->p);
    live.clear();
    sweep();
}
static void caseC07(Rng &g) {
    VDispatcher::instance()->reset(&g);
    const long live0 = Tracked::live;
    {
        std::vector<std::unique_ptr<Plan>> plans;
        switch (g.below(8)) {
        case 0: rangeFor<Generator<int>>(g, plans); rangeFor<Generator<int>>(g, plans); break;
        case 1: rangeFor<Generator<Box>>(g, plans); rangeFor<Generator<const int &>>(g, plans); break;
        case 2: rangeFor<Generator<int &>>(g, plans); rangeFor<Generator<Box>>(g, plans); break;
        case 3: case 4: juggle<Generator<int>>(g, plans); break;
        case 5: juggle<Generator<int &>>(g, plans); break;
        case 6: juggle<Generator<const int &>>(g, plans); break;
        default: juggle<Generator<Box>>(g, plans);
        }
        long total = 0;
        for (auto &p : plans) { total += p->yielded; VH_CHECK("C07", "leaked", p->destroyed == p->frames, "the state of generator %d was destroyed %d times", p->id, p->destroyed); }
        count("values", total);
        if (total >= 2) nontrivial();
    }
    VH_CHECK("C07", "leaked", Tracked::live == live0, "%ld objects of generators are still alive", long(Tracked::live - live0));
}

// ------------------------------------------------------------------------------------- C08
struct Gate {
    bool open = false;
    std::vector<std::coroutine_handle<>> w;
    void release() { open = true; auto x = std::move(w); w.clear(); for (auto h : x) h.resume(); }
    bool await_ready() const noexcept { return open; }
    void await_suspend(std::coroutine_handle<> h) { w.push_back(h); }
    void await_resume() const noexcept {}
};
struct AWorld { std::vector<std::unique_ptr<Plan>> plans; std::vector<std::unique_ptr<Gate>> gates; int depth = 0; };
static AWorld *A;
static Task<int> helper(int ms, int v) { co_await QCoro::sleepFor(std::chrono::milliseconds(ms)); co_return v; }

template<typename T> AsyncGenerator<T> agen(Plan *p, Arg arg, uint64_t seed, int depth);
template<> AsyncGenerator<int> agen<int>(Plan *p, Arg arg, uint64_t seed, int depth);
#define WAIT_SOMEHOW(g)                                                                  \
    switch ((g).below(6)) {                                                              \
    case 0: co_await QCoro::sleepFor(std::chrono::milliseconds((g).below(12))); break;   \
    case 1: co_await *A->gates[size_t((g).below(3))]; break;                             \
    case 2: { int k = (g).range(1, 99); int r = co_await helper((g).below(5), k); VH_CHECK("C08", "inner-await", r == k, "a task awaited by a generator gave %d instead of %d", r, k); break; } \
    default: break;                                                                      \
    }
#define DEFINE_AGEN(TYPE, YIELD) \
template<> AsyncGenerator<TYPE> agen<TYPE>(Plan *p, Arg arg, uint64_t seed, int depth) { \
    Rng g(seed); \
    Tracked local(2); \
    p->started = true; \
    onRun(p, "start"); \
    ev("generator %d starts", p->id); \
    for (size_t i = 0; i < p->values.size(); ++i) { \
        arg.t.check(); \
        WAIT_SOMEHOW(g) \
        if (p->nested[i] && depth < 2) { \
            Plan *q = newPlan(g, A->plans, "C08", 3); \
            q->endType = 0; \
            q->asked = true; \
            int k = 0; \
            QCORO_FOREACH(int &x, agen<int>(q, Arg(q), g.next(), depth + 1)) { \
                q->asked = false; \
                VH_CHECK("C08", "wrong-value", k < int(q->values.size()) && x == q->values[size_t(k)], "nested generator %d gave %d as value #%d", q->id, x, k); \
                ++k; \
                WAIT_SOMEHOW(g) \
                q->asked = true; \
            } \
            VH_CHECK("C08", "missing-value", k == int(q->values.size()), "nested generator %d gave %d of %zu values", q->id, k, q->values.size()); \
            count("nested_generators"); \
        } \
        onRun(p, "about to yield"); \
        ++p->yielded; \
        ev("generator %d yields #%d", p->id, p->yielded); \
        YIELD \
        onRun(p, "resumed"); \
        local.check(); \
        arg.t.check(); \
    } \
    WAIT_SOMEHOW(g) \
    finish(p); \
}
#define YIELD_REF { int v = p->values[i]; co_yield v; }
#define YIELD_INT if (p->lvalue[i]) { int v = p->values[i]; co_yield v; } else co_yield int(p->values[i]);
#define YIELD_BOX if (p->lvalue[i]) { Box v(p->values[i]); co_yield v; } else co_yield Box(p->values[i]);
DEFINE_AGEN(int, YIELD_INT)
DEFINE_AGEN(int &, YIELD_REF)
DEFINE_AGEN(const int &, YIELD_REF)
DEFINE_AGEN(Box, YIELD_BOX)
struct Consumer { int id; bool done = false; };
struct OwnError {};

// Consumes with QCORO_FOREACH
template<typename T> Task<> consumeForeach(Consumer *c, Plan *p, uint64_t seed);
#define DEFINE_FOREACH(TYPE) \
template<> Task<> consumeForeach<TYPE>(Consumer *c, Plan *p, uint64_t seed) { \
    Rng g(seed); \
    Tracked local(3); \
    int limit = g.chance(1, 2) ? 1000 : g.range(1, 5), seen = 0; \
    bool thrown = g.chance(1, 3); \
    int exType = 0, exV = 0; \
    long events = 0; \
    try { \
        p->asked = true; \
        QCORO_FOREACH(auto &&x, agen<TYPE>(p, Arg(p), g.next(), 0)) { \
            VH_CHECK("C08", "late-delivery", p->yielded == seen + 1, "consumer of generator %d gets value #%d when %d have been yielded", p->id, seen + 1, p->yielded); \
            p->asked = false; \
            VH_CHECK("C08", "wrong-value", seen < int(p->values.size()) && rd(x) == p->values[size_t(seen)], "generator %d gave %d as value #%d", p->id, rd(x), seen); \
            ++seen; \
            ev("consumer %d value #%d", c->id, seen); \
            count("values"); \
            WAIT_SOMEHOW(g) \
            if (!std::is_same_v<TYPE, Box>) VH_CHECK("C08", "value-changed", rd(x) == p->values[size_t(seen - 1)], "the value of generator %d changed while the consumer was suspended", p->id); \
            local.check(); \
            if (seen >= limit) { if (thrown) throw OwnError{}; break; } \
            if (g.chance(1, 8)) { p->asked = true; continue; } \
            p->asked = true; \
        } \
    } catch (const CaseError &e) { exType = 1; exV = e.k; } catch (const PlainError &e) { exType = 2; exV = e.k; } catch (OwnError) { exType = 3; } \
    p->asked = false; \
    if (seen < limit) { \
        VH_CHECK("C08", "missing-value", seen == int(p->values.size()), "generator %d gave %d of %zu values", p->id, seen, p->values.size()); \
        VH_CHECK("C08", "wrong-exception", exType == p->endType && (!exType || exV == p->endV), "generator %d ended with (%d,%d) instead of (%d,%d)", p->id, exType, exV, p->endType, p->endV); \
        VH_CHECK("C08", "not-ended", p->done, "iteration of generator %d ended before it did", p->id); \
    } \
    VH_CHECK("C08", "leaked", p->destroyed == 1, "the state of generator %d was destroyed %d times when the loop was left", p->id, p->destroyed); \
    ev("consumer %d done", c->id); \
    c->done = true; \
}
DEFINE_FOREACH(int)
DEFINE_FOREACH(const int &)
DEFINE_FOREACH(Box)
// Steps on behalf of another coroutine
template<typename G, typename It> static Task<> delegate(G &gen, std::optional<It> &it, bool begin) {
    count("delegated_steps");
    if (begin) it.emplace(co_await gen.begin());
    else co_await ++*it;
}
// Consumes by hand; several generators in turn; moves, swaps and move-assigns them between steps.
template<typename T> static Task<> consumeByHand(Consumer *c, uint64_t seed) {
    using G = AsyncGenerator<T>;
    struct S { Plan *p; G gen; std::optional<decltype(std::declval<G &>().end())> it; bool begun = false, ended = false; int seen = 0; };
    Rng g(seed);
    std::vector<std::unique_ptr<S>> live, husks;
    std::vector<Plan *> gone;
    int rounds = g.range(3, 16);
    for (int r = 0; r < rounds; ++r) {
        switch (g.below(10)) {
        case 0: case 1: {
            Plan *p = newPlan(g, A->plans, "C08", 5);
            ev("consumer %d makes %d (%zu values, end %d)", c->id, p->id, p->values.size(), p->endType);
            std::unique_ptr<S> s(new S{p, agen<T>(p, Arg(p), g.next(), 0)});
            VH_CHECK("C08", "ran-unasked", !p->started, "generator %d ran before it was iterated", p->id);
            live.push_back(std::move(s));
            break;
        }
        case 2: case 3: case 4: case 5: if (!live.empty()) {
            S &s = *g.pick(live);
            if (s.ended) break;
            Plan *p = s.p;
            ev("consumer %d steps %d", c->id, p->id);
            p->asked = true;
            int exType = 0, exV = 0;
            try {
                const bool begin = !s.begun;
                s.begun = true;
                if (g.chance(1, 4)) co_await delegate(s.gen, s.it, begin); // by a coroutine of its own
                else if (begin) s.it.emplace(co_await s.gen.begin());
                else co_await ++*s.it;
            } catch (const CaseError &e) { exType = 1; exV = e.k; } catch (const PlainError &e) { exType = 2; exV = e.k; }
            p->asked = false;
            count("steps");
            if (s.seen < int(p->values.size())) {
                VH_CHECK("C08", "exception-early", !exType, "generator %d threw (%d,%d) at step %d", p->id, exType, exV, s.seen);
                bool atEnd = exType || *s.it == s.gen.end();
                VH_CHECK("C08", "ended-early", !atEnd, "generator %d ended after %d of %zu values", p->id, s.seen, p->values.size());
                if (atEnd) { s.ended = true; break; }
                VH_CHECK("C08", "late-delivery", p->yielded == s.seen + 1, "value #%d of generator %d arrives when %d have been yielded", s.seen + 1, p->id, p->yielded);
                int v = rd(**s.it);
                VH_CHECK("C08", "wrong-value", v == p->values[size_t(s.seen)], "generator %d gave %d instead of %d", p->id, v, p->values[size_t(s.seen)]);
                ++s.seen;
                count("values");
            } else {
                s.ended = true;
                VH_CHECK("C08", "wrong-exception", exType == p->endType && (!exType || exV == p->endV), "generator %d ended with (%d,%d) instead of (%d,%d)", p->id, exType, exV, p->endType, p->endV);
                VH_CHECK("C08", "not-ended", p->done, "iteration of generator %d ended before it did", p->id);
                if (s.it) VH_CHECK("C08", "end-not-end", *s.it == s.gen.end(), "the iterator of the finished generator %d is not the end", p->id);
            }
            break;
        }
        case 6: if (live.size() >= 2) {
            size_t a = size_t(g.below(int(live.size()))), b = size_t(g.below(int(live.size())));
            if (a == b) { auto &self = live[b]->gen; ev("consumer %d self-moves %d", c->id, live[a]->p->id); live[a]->gen = std::move(self); break; }
            if (g.chance(1, 2)) {
                ev("consumer %d move-assigns %d over %d", c->id, live[a]->p->id, live[b]->p->id);
                gone.push_back(live[b]->p);
                live[b]->gen = std::move(live[a]->gen);
                live[b]->p = live[a]->p; live[b]->begun = live[a]->begun; live[b]->ended = live[a]->ended; live[b]->seen = live[a]->seen; live[b]->it = live[a]->it;
                if (g.chance(1, 2)) husks.push_back(std::move(live[a]));
                live.erase(live.begin() + long(a));
                count("move_assignments");
            } else {
                ev("consumer %d swaps %d and %d", c->id, live[a]->p->id, live[b]->p->id);
                if (g.chance(1, 2)) swap(live[a]->gen, live[b]->gen); else live[a]->gen.swap(live[b]->gen);
                std::swap(live[a]->p, live[b]->p); std::swap(live[a]->begun, live[b]->begun); std::swap(live[a]->ended, live[b]->ended); std::swap(live[a]->seen, live[b]->seen); std::swap(live[a]->it, live[b]->it);
                count("swaps");
            }
            break;
        }
        case 7: if (!live.empty()) {
            S &s = *g.pick(live);
            if (g.chance(1, 2)) { // drop
                ev("consumer %d drops %d", c->id, s.p->id);
                gone.push_back(s.p);
                for (size_t i = 0; i < live.size(); ++i) if (live[i].get() == &s) { live.erase(live.begin() + long(i)); break; }
            } else { // move-construct
                ev("consumer %d moves %d", c->id, s.p->id);
                std::unique_ptr<S> n(new S{s.p, std::move(s.gen), s.it, s.begun, s.ended, s.seen});
                for (auto &x : live) if (x.get() == &s) { if (g.chance(1, 2)) husks.push_back(std::move(x)); x = std::move(n); break; }
            }
            break;
        }
        case 8: if (!husks.empty()) { // a moved-from generator is empty, and can be used again
            auto h = std::move(husks.back()); husks.pop_back();
            if (g.chance(1, 2)) {
                auto it = co_await h->gen.begin();
                VH_CHECK("C08", "empty-generator", it == h->gen.end(), "a moved-from generator yields something");
            }
            if (!live.empty()) {
                auto &x = live[size_t(g.below(int(live.size())))];
                ev("consumer %d moves %d into a moved-from generator", c->id, x->p->id);
                h->gen = std::move(x->gen);
                h->p = x->p; h->begun = x->begun; h->ended = x->ended; h->seen = x->seen; h->it = x->it;
                std::swap(h, x);
                count("reused_husks");
            }
            break;
        }
        [[fallthrough]];
        default: WAIT_SOMEHOW(g)
        }
        for (auto *p : gone) VH_CHECK("C08", "leaked", p->destroyed == 1, "the state of generator %d was destroyed %d times after its object was given up", p->id, p->destroyed);
        for (auto &s : live) VH_CHECK("C08", "destroyed-early", s->p->destroyed == 0, "the state of generator %d was destroyed while its object lives", s->p->id);
    }
    // an empty generator ends at once
    if (g.chance(1, 3)) {
        G e;
        auto it = co_await e.begin();
        VH_CHECK("C08", "empty-generator", it == e.end(), "an empty generator yields something");
    }
    c->done = true;
}

static void caseC08(Rng &g) {
    auto *d = VDispatcher::instance();
    d->reset(&g);
    const long live0 = Tracked::live;
    {
        AWorld w;
        A = &w;
        for (int i = 0; i < 3; ++i) w.gates.push_back(std::make_unique<Gate>());
        std::vector<std::unique_ptr<Consumer>> cs;
        std::vector<Task<>> tasks;
        int n = g.range(1, 3);
        for (int i = 0; i < n; ++i) {
            cs.push_back(std::make_unique<Consumer>(Consumer{i}));
            Consumer *c = cs.back().get();
            uint64_t s = g.next();
            switch (g.below(6)) {
            case 0: tasks.push_back(consumeForeach<int>(c, newPlan(g, w.plans, "C08", 6), s)); break;
            case 1: tasks.push_back(consumeForeach<Box>(c, newPlan(g, w.plans, "C08", 6), s)); break;
            case 2: tasks.push_back(consumeForeach<const int &>(c, newPlan(g, w.plans, "C08", 6), s)); break;
            case 3: tasks.push_back(consumeByHand<int>(c, s)); break;
            case 4: tasks.push_back(consumeByHand<int &>(c, s)); break;
            default: tasks.push_back(consumeByHand<Box>(c, s));
            }
            if (g.chance(1, 3)) tasks.pop_back();
            if (g.chance(1, 2)) d->advanceBy(g.below(10));
            if (g.chance(1, 4)) w.gates[size_t(g.below(3))]->release();
        }
        for (int i = 0; i < 12; ++i) {
            if (g.chance(1, 3)) { int k = g.below(3); if (!w.gates[size_t(k)]->open) { ev("open %d", k); w.gates[size_t(k)]->release(); } }
            d->advanceBy(g.below(20));
        }
        for (auto &x : w.gates) x->release();
        d->drain();
        for (auto &c : cs) VH_CHECK("C08", "consumer-stuck", c->done, "consumer %d is still suspended although everything has happened", c->id);
        tasks.clear();
        long total = 0;
        for (auto &p : w.plans) { total += p->yielded; VH_CHECK("C08", "leaked", p->destroyed == p->frames, "the state of generator %d was destroyed %d times by the end", p->id, p->destroyed); }
        if (total >= 2) nontrivial();
    }
    VH_CHECK("C08", "leaked", Tracked::live == live0, "%ld objects of generators and consumers are still alive", long(Tracked::live - live0));
    flushDeferredDeletes();
}

int main(int argc, char **argv) {
    parse(argc, argv);
    return monitorMain(argc, argv, [] {
    Options o;
    o.leakEvery = 16;
    return runCases(run().prop == "C07" ? caseC07 : caseC08, o);
    });
}
