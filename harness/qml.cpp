// C23: QmlTask between coroutines and JavaScript.
#include "vh.h"
#include <chrono>
#include <QDateTime>
#include <QFuture>
#include <QJSEngine>
#include <QPromise>
#include <QQmlEngine>
#include <qcorofuture.h>
#include <qcoroqml.h>
#include <qcoroqmltask.h>
#include <qcorotask.h>
#include <qcorotimer.h>

using namespace vh;
using QCoro::QmlTask;
using QCoro::Task;
using std::chrono::milliseconds;
static VDispatcher *V() { return VDispatcher::instance(); }

struct Engine;
class Host : public QObject { // what the JavaScript functions call
    Q_OBJECT
public:
    int engine;
    explicit Host(int e) : engine(e) {}
    Q_INVOKABLE void rec(int call, const QJSValue &v, int nargs);
};
struct Engine { std::unique_ptr<QJSEngine> js; std::unique_ptr<Host> host; };
enum Outcome { Value, Throws };
struct T { // a task and what is known of it
    int id; int kind = 0; Outcome outcome = Value; QVariant value; bool done = false; qint64 doneAt = -1; bool started = true;
    std::vector<std::shared_ptr<QmlTask>> copies; std::vector<QJSValue> jsCopies;
    std::shared_ptr<QPromise<QString>> promise;
    std::shared_ptr<bool> gate;
};
struct Fn { int id; int task; int engine; int calls = 0; bool engineGone = false; bool before = false; bool throws = false; };
struct Lst { int id; int task; QPointer<QCoro::QmlTaskListener> l; QVariant initial; int changes = 0; bool owned = false; bool dead = false; };
struct World { Rng &g; std::vector<Engine> engines; std::vector<std::unique_ptr<T>> tasks; std::vector<std::unique_ptr<Fn>> fns; std::vector<std::unique_ptr<Lst>> lsts; int depth = 0; };
static World *W;
static bool same(const QVariant &a, const QVariant &b) {
    if (!b.isValid() || b.isNull()) return !a.isValid() || a.isNull();
    if (b.typeId() == QMetaType::QVariantMap || b.typeId() == QMetaType::QVariantList) {
        QVariant x = a;
        if (x.userType() == qMetaTypeId<QJSValue>()) x = x.value<QJSValue>().toVariant();
        return x == b || x.toList() == b.toList() && b.typeId() == QMetaType::QVariantList || x.toMap() == b.toMap() && b.typeId() == QMetaType::QVariantMap;
    }
    return a.isValid() && !a.isNull() && a.toString() == b.toString();
}
static std::string show(const QVariant &v) { return v.isValid() ? fmt("%s %s", v.typeName(), v.toString().left(30).toUtf8().constData()) : "nothing"; }
static void reaction(Rng &g);
static int jsKind(const QJSValue &v) { return v.isUndefined() ? 0 : v.isNull() ? 1 : v.isBool() ? 2 : v.isNumber() ? 3 : v.isString() ? 4 : v.isArray() ? 5 : v.isDate() ? 6 : v.isCallable() ? 7 : v.isObject() ? 8 : v.isVariant() ? 9 : 10; }
void Host::rec(int call, const QJSValue &js, int nargs) {
    if (call < 0) return;
    const QVariant v = js.toVariant();
    Fn &f = *W->fns[size_t(call)];
    T &t = *W->tasks[size_t(f.task)];
    ++f.calls;
    ev("function %d called with %s", f.id, show(v).c_str());
    count("calls");
    VH_CHECK("C23", "called-twice", f.calls == 1, "function %d of task %d was called %d times", f.id, t.id, f.calls);
    VH_CHECK("C23", "called-early", t.done, "function %d was called before task %d had finished", f.id, t.id);
    VH_CHECK("C23", "called-wrong", t.outcome == Value, "function %d was called although task %d failed", f.id, t.id);
    VH_CHECK("C23", "called-wrong", nargs == 1 && same(v, t.value), "function %d of task %d was called with %s in %d arguments; the result is %s", f.id, t.id, show(v).c_str(), nargs, show(t.value).c_str());
    const QJSValue want = W->engines[size_t(f.engine)].js ? W->engines[size_t(f.engine)].js->toScriptValue(t.value) : js;
    VH_CHECK("C23", "called-wrong", jsKind(js) == jsKind(want), "function %d of task %d was called with a JavaScript value of another kind (%d) than the result's (%d)", f.id, t.id, jsKind(js), jsKind(want));
    VH_CHECK("C23", "dead-engine", engine == f.engine && !f.engineGone, "function %d was called in the wrong engine", f.id);
    if (W->g.chance(1, 6) && W->depth < 3) { ++W->depth; reaction(W->g); --W->depth; }
}
static void finished(T *t) { t->done = true; t->doneAt = V()->now; ev("task %d finished", t->id); }
static Task<> gate(T *t, int mode) {
    if (mode == 0) co_return;
    if (mode == 1) { co_await QCoro::sleepFor(milliseconds(W->g.below(25))); co_return; }
    for (auto g = t->gate; !*g;) co_await QCoro::sleepFor(milliseconds(3));
}
struct Failure : std::runtime_error { using std::runtime_error::runtime_error; };
template<typename R> static Task<R> work(T *t, int mode, R r) {
    Tracked local(1);
    co_await gate(t, mode);
    finished(t);
    if (t->outcome == Throws) throw Failure("x");
    co_return std::move(r);
}
static Task<> workVoid(T *t, int mode) {
    Tracked local(1);
    co_await gate(t, mode);
    finished(t);
    if (t->outcome == Throws) throw Failure("x");
}
static QmlTask make(Rng &g, T *t) {
    t->kind = g.below(14);
    t->outcome = g.chance(1, 6) ? Throws : Value;
    t->gate = std::make_shared<bool>(false);
    const int mode = g.below(3);
    const QString s = QStringLiteral("value-%1-%2").arg(t->id).arg(int(g.next() & 0xfff));
    ev("task %d of kind %d%s, mode %d", t->id, t->kind, t->outcome == Throws ? " (fails)" : "", mode);
    switch (t->kind) {
    case 0: t->value = s; return work<QString>(t, mode, s);
    case 1: { const int n = g.chance(1, 3) ? 0 : 17 + t->id; t->value = n; return work<int>(t, mode, n); }
    case 8: { t->value = false; return work<bool>(t, mode, false); }
    case 9: { const QVariant v = g.chance(1, 3) ? QVariant(0) : g.chance(1, 2) ? QVariant(QString(QLatin1String(""))) : QVariant(1.25 + t->id); t->value = v; return work<QVariant>(t, mode, v); }
    case 10: { t->value = QString(QLatin1String("")); return work<QString>(t, mode, QString(QLatin1String(""))); }
    case 11: { const QVariant v = g.chance(1, 2) ? QVariant::fromValue(nullptr) : QVariant(); t->value = v; return work<QVariant>(t, mode, v); }
    case 12: { const QByteArray b = g.chance(1, 3) ? QByteArray() : QByteArray("a\0b", 3) + QByteArray::number(t->id); t->value = b; return work<QByteArray>(t, mode, b); }
    case 13: { const QDateTime d = QDateTime::fromSecsSinceEpoch(1700000000 + t->id); t->value = d; return work<QDateTime>(t, mode, d); }
    case 2: t->value = QVariant(); return workVoid(t, mode);
    case 3: t->value = s; return work<QVariant>(t, mode, QVariant(s));
    case 4: { QVariantMap m{{QStringLiteral("a"), s}, {QStringLiteral("b"), t->id}}; t->value = m; return work<QVariantMap>(t, mode, m); }
    case 5: { QVariantList l{s, t->id}; t->value = l; return work<QVariantList>(t, mode, l); }
    case 6: { t->outcome = Value; t->value = s; t->promise = std::make_shared<QPromise<QString>>(); t->promise->start(); if (mode == 0) { t->promise->addResult(s); t->promise->finish(); finished(t); } return t->promise->future(); }
    default: { t->outcome = Value; t->value = QVariant(); auto *timer = new QTimer; timer->setSingleShot(true); QObject::connect(timer, &QTimer::timeout, [t, timer] { finished(t); timer->deleteLater(); }); timer->start(g.below(20)); return timer; }
    }
}
static int liveEngine(Rng &g) { std::vector<int> l; for (size_t i = 0; i < W->engines.size(); ++i) if (W->engines[i].js) l.push_back(int(i)); return l.empty() ? -1 : g.pick(l); }
static T *anyTask(Rng &g) {
    std::vector<T *> l;
    for (auto &t : W->tasks) if (!t->copies.empty()) l.push_back(t.get());
    return l.empty() ? nullptr : g.pick(l);
}
static void attach(Rng &g, T *t) {
    const int e = liveEngine(g);
    if (e < 0 || !t) return;
    auto up = std::make_unique<Fn>();
    Fn *f = up.get();
    W->fns.push_back(std::move(up));
    f->id = int(W->fns.size()) - 1; f->task = t->id; f->engine = e; f->throws = g.chance(1, 8);
    QJSEngine &js = *W->engines[size_t(e)].js;
    QJSValue func = js.evaluate(QStringLiteral("(function(v) { host.rec(%1, v, arguments.length);%2 })").arg(f->id).arg(f->throws ? QStringLiteral(" throw new Error('x')") : QString()));
    f->before = t->done;
    ev("function %d for task %d in engine %d%s", f->id, t->id, e, t->done ? ", done" : "");
    const auto keep = g.pick(t->copies); QmlTask &q = *keep;
    if (g.chance(1, 2)) q.then(func);
    else { // from JavaScript
        QJSValue call = js.evaluate(QStringLiteral("(function(t, f) { t.then(f); })"));
        QJSValue r = call.call({js.toScriptValue(q), func});
        if (r.isError()) violation("C23", "javascript", "then() from JavaScript fails: %s", qPrintable(r.toString()));
    }
    if (g.chance(1, 10)) { q.then(QJSValue(5)); ev("not a function"); }
}
static void listen(Rng &g, T *t) {
    if (!t) return;
    auto up = std::make_unique<Lst>();
    Lst *l = up.get();
    W->lsts.push_back(std::move(up));
    l->id = int(W->lsts.size()) - 1; l->task = t->id;
    if (g.chance(2, 3)) {
        switch (g.below(9)) { // values that are false in JavaScript are values too
        case 0: l->initial = 0; break;
        case 1: l->initial = false; break;
        case 2: l->initial = QString(QLatin1String("")); break;
        case 3: l->initial = 0.0; break;
        case 4: l->initial = -1; break;
        case 5: l->initial = QVariantList{1, QStringLiteral("two")}; break;
        case 6: l->initial = QVariantMap{{QStringLiteral("k"), 0}}; break;
        default: l->initial = QStringLiteral("loading %1").arg(l->id);
        }
        if (same(l->initial, t->value) || same(t->value, l->initial)) l->initial = QStringLiteral("loading %1").arg(l->id);
    }
    const int e = liveEngine(g);
    ev("listener %d for task %d%s%s", l->id, t->id, t->done ? ", done" : "", l->initial.isNull() ? "" : ", intermediate");
    const auto keep = g.pick(t->copies); QmlTask &q = *keep;
    if (e < 0 || g.chance(1, 2)) {
        l->l = l->initial.isNull() ? q.await() : q.await(l->initial);
        l->owned = true;
    } else { // owned by JavaScript
        QJSEngine &js = *W->engines[size_t(e)].js;
        QJSValue r = js.evaluate(QStringLiteral("(function(t, i) { var l = i === undefined ? t.await() : t.await(i); held.push(l); return l; })")).call({js.toScriptValue(q), js.toScriptValue(l->initial)});
        if (r.isError()) violation("C23", "javascript", "await() from JavaScript fails: %s", qPrintable(r.toString()));
        l->l = qobject_cast<QCoro::QmlTaskListener *>(r.toQObject());
    }
    VH_CHECK("C23", "no-listener", l->l, "await() of task %d yields nothing", t->id);
    if (!l->l) { l->dead = true; return; }
    if (!t->done) VH_CHECK("C23", "listener-value", same(l->l->value(), l->initial), "listener %d is %s before task %d has finished; the intermediate value is %s", l->id, show(l->l->value()).c_str(), t->id, show(l->initial).c_str());
    QObject::connect(l->l.data(), &QCoro::QmlTaskListener::valueChanged, [l, t] {
        ++l->changes;
        ev("listener %d: %s", l->id, show(l->l->value()).c_str());
        VH_CHECK("C23", "listener-early", t->done, "listener %d changes before task %d has finished", l->id, t->id);
        VH_CHECK("C23", "listener-twice", l->changes == 1, "listener %d changes %d times", l->id, l->changes);
        VH_CHECK("C23", "listener-value", same(l->l->value(), t->value), "listener %d is %s; the result of task %d is %s", l->id, show(l->l->value()).c_str(), t->id, show(t->value).c_str());
    });
}
static T *newTask(Rng &g) {
    auto up = std::make_unique<T>();
    T *t = up.get();
    W->tasks.push_back(std::move(up));
    t->id = int(W->tasks.size()) - 1;
    t->copies.push_back(std::make_shared<QmlTask>(make(g, t)));
    return t;
}
static void open(Rng &g, T *t) {
    if (t->done) return;
    if (t->promise && g.chance(1, 2)) { t->promise->addResult(t->value.toString()); finished(t); t->promise->finish(); }
    else *t->gate = true;
}
static void killEngine(Rng &g) {
    const int e = liveEngine(g);
    if (e < 0) return;
    ev("engine %d dies", e);
    for (auto &f : W->fns) if (f->engine == e) f->engineGone = true;
    W->engines[size_t(e)].js.reset();
}
static void reaction(Rng &g) {
    switch (g.below(5)) {
    case 0: attach(g, anyTask(g)); break;
    case 1: listen(g, anyTask(g)); break;
    case 2: if (T *t = anyTask(g)) if (t->copies.size()) { t->copies.pop_back(); ev("drop a copy of %d", t->id); } break;
    case 3: if (T *t = anyTask(g)) open(g, t); break;
    default: newTask(g);
    }
}
static void quiet() {
    for (auto &f : W->fns) {
        T &t = *W->tasks[size_t(f->task)];
        if (f->calls == 0 && t.done && t.outcome == Value && !f->engineGone) violation("C23", "not-called", "function %d was not called although task %d has finished", f->id, t.id);
    }
    for (auto &l : W->lsts) {
        if (l->dead || !l->l) continue;
        T &t = *W->tasks[size_t(l->task)];
        const QVariant want = t.done && t.outcome == Value ? t.value : l->initial;
        if (t.done && t.outcome == Value) VH_CHECK("C23", "listener-value", l->l->value().typeId() == t.value.typeId(), "listener %d is a %s; the result of task %d is a %s", l->id, l->l->value().typeName(), t.id, t.value.typeName());
        VH_CHECK("C23", "listener-value", same(l->l->value(), want), "listener %d is %s; task %d %s and it should be %s", l->id, show(l->l->value()).c_str(), t.id, t.done ? "has finished" : "is running", show(want).c_str());
    }
    count("quiet_checks");
}
static void caseC23(Rng &g) {
    auto *v = V();
    v->reset(&g);
    const long live0 = Tracked::live;
    {
        World w{g, {}, {}, {}, {}};
        W = &w;
        w.fns.reserve(256); w.lsts.reserve(256); w.tasks.reserve(256);
        for (int i = 0, n = g.range(1, 2); i < n; ++i) {
            Engine e;
            e.js = std::make_unique<QJSEngine>();
            e.host = std::make_unique<Host>(i);
            QJSEngine::setObjectOwnership(e.host.get(), QJSEngine::CppOwnership);
            e.js->globalObject().setProperty(QStringLiteral("host"), e.js->newQObject(e.host.get()));
            e.js->globalObject().setProperty(QStringLiteral("held"), e.js->newArray());
            w.engines.push_back(std::move(e));
        }
        newTask(g);
        for (int k = 0, rounds = g.range(8, 30); k < rounds; ++k) {
            switch (g.below(14)) {
            case 0: if (w.tasks.size() < 8) newTask(g); break;
            case 1: case 2: case 3: attach(g, anyTask(g)); break;
            case 4: case 5: listen(g, anyTask(g)); break;
            case 6: if (T *t = anyTask(g)) open(g, t); break;
            case 7: v->step(); break;
            case 8: v->settle(); quiet(); break;
            case 9: ev("advance"); v->advanceBy(g.below(15)); quiet(); break;
            case 10: if (T *t = anyTask(g)) { if (g.chance(1, 2)) { t->copies.push_back(std::make_shared<QmlTask>(*t->copies.back())); ev("copy %d", t->id); } else { QmlTask x(*t->copies.back()); *t->copies.back() = x; } } break;
            case 11: if (T *t = anyTask(g)) { t->copies.pop_back(); ev("drop a copy of %d", t->id); } break;
            case 12: {
                if (!w.lsts.empty() && g.chance(1, 2)) { Lst *l = g.pick(w.lsts).get(); if (l->owned && l->l) { ev("listener %d dies", l->id); delete l->l.data(); } }
                else if (int e = liveEngine(g); e >= 0) { ev("collect"); if (g.chance(1, 2)) w.engines[size_t(e)].js->globalObject().setProperty(QStringLiteral("held"), w.engines[size_t(e)].js->newArray()); w.engines[size_t(e)].js->collectGarbage(); flushDeferredDeletes(); }
                break;
            }
            default: if (g.chance(1, 5)) killEngine(g); else if (g.chance(1, 4)) { // not connected to a task
                QmlTask none;
                if (int e = liveEngine(g); e >= 0) none.then(w.engines[size_t(e)].js->evaluate(QStringLiteral("(function() { host.rec(-1, 0, 0); })")));
                std::unique_ptr<QCoro::QmlTaskListener> l(none.await(QStringLiteral("i")));
                VH_CHECK("C23", "listener-value", l && l->value().toString() == QLatin1String("i"), "the listener of a task that was never made has another value than the intermediate one");
            }
            }
        }
        ev("closing");
        if (g.chance(1, 4)) for (auto &t : w.tasks) t->copies.clear();
        for (int k = 0; k < 20; ++k) { if (k > 10) w.depth = 99; for (size_t i = 0; i < w.tasks.size(); ++i) { T *t = w.tasks[i].get(); *t->gate = true; if (t->promise && !t->done) { t->promise->addResult(t->value.toString()); finished(t); t->promise->finish(); } } v->advanceBy(20); quiet(); }
        for (auto &t : w.tasks) if (!t->done) violation("C23", "stuck", "task %d did not finish", t->id);
        if (w.fns.size() + w.lsts.size() >= 2) nontrivial();
        for (auto &l : w.lsts) if (l->owned && l->l) delete l->l.data();
        for (auto &t : w.tasks) t->copies.clear();
        for (auto &e : w.engines) e.js.reset();
        v->advanceBy(50);
    }
    VH_CHECK("C23", "leaked", Tracked::live == live0, "%ld objects of coroutines are still alive", long(Tracked::live - live0));
    flushDeferredDeletes();
}
int main(int argc, char **argv) {
    vh::parse(argc, argv);
    return monitorMain(argc, argv, [] {
    QCoro::Qml::registerTypes();
    Options o;
    o.leakEvery = 32;
    return runCases(caseC23, o);
    });
}
#include "qml.moc"
