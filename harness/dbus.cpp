// C22: D-Bus calls over a private peer-to-peer connection whose replies are scripted.
#include "vh.h"
#include <chrono>
#include <QDBusAbstractAdaptor>
#include <QDBusConnection>
#include <QDBusError>
#include <QDBusMessage>
#include <QDBusPendingCall>
#include <QDBusPendingReply>
#include <QDBusServer>
#include <QDBusVirtualObject>
#include <QTemporaryDir>
#include <qcorodbuspendingcall.h>
#include <qcorodbuspendingreply.h>
#include <qcorotask.h>
#include <qcorotimer.h>

using namespace vh;
using QCoro::Task;
using std::chrono::milliseconds;
static VDispatcher *V() { return VDispatcher::instance(); }

enum What { Text, TextAndNumber, Empty, Error, Wrong };
struct Call { int id; What what = Text; QString text; int number = 0; int timeout = -1; QDBusPendingCall call; bool answered = false, dropped = false; int typed = 0; QDBusMessage request; };
struct Op { int id; int call; const char *form = ""; bool over = false, late = false; int n = 0, stale = 0; };
struct World { Rng &g; std::vector<std::unique_ptr<Call>> calls; std::vector<std::unique_ptr<Op>> ops; std::vector<Call *> open; bool cut = false; };
static World *W;
class Service : public QDBusVirtualObject {
    Q_OBJECT
public:
    QString introspect(const QString &) const override { return {}; }
    bool handleMessage(const QDBusMessage &m, const QDBusConnection &) override {
        const int id = m.arguments().value(0).toInt();
        ev("call %d arrives", id);
        if (!W || id < 0 || id >= int(W->calls.size())) return true;
        Call *c = W->calls[size_t(id)].get();
        c->request = m;
        W->open.push_back(c);
        m.setDelayedReply(true);
        return true;
    }
};
static QDBusConnection *server, *client;

static void answer(Rng &g) {
    if (W->open.empty()) return;
    const size_t k = g.chance(1, 3) ? 0 : size_t(g.below(int(W->open.size())));
    Call *c = W->open[k];
    W->open.erase(W->open.begin() + long(k));
    if (c->timeout < 0 && g.chance(1, 40)) { ev("no answer to %d yet", c->id); W->open.push_back(c); return; }
    ev("answer %d: %d", c->id, c->what);
    c->answered = true;
    QDBusMessage m;
    switch (c->what) {
    case Text: m = c->request.createReply(c->text); break;
    case TextAndNumber: m = c->request.createReply({c->text, c->number}); break;
    case Empty: m = c->request.createReply(); break;
    case Error: m = c->request.createErrorReply(QStringLiteral("org.vh.E%1").arg(c->id), c->text); if (c->number % 2) m << c->number; break; // errors may carry more than their message
    case Wrong: m = c->request.createReply(QVariant(double(c->number))); break;
    }
    server->send(m);
}
// What `m` must be, given the call.
static void checkMessage(Call *c, Op *o, const QDBusMessage &m) {
    if (c->what == Wrong && c->typed && c->answered && m.errorName() == QLatin1String("org.freedesktop.DBus.Error.InvalidSignature")) return;
    const bool gaveUp = m.type() == QDBusMessage::ErrorMessage && (m.errorName() == QLatin1String("org.freedesktop.DBus.Error.NoReply") || m.errorName() == QLatin1String("org.freedesktop.DBus.Error.Timeout"));
    if (gaveUp && c->timeout >= 0) return;
    if (W->cut && m.type() == QDBusMessage::ErrorMessage && m.errorName().startsWith(QLatin1String("org.freedesktop.DBus.Error."))) return;
    VH_CHECK("C22", "reply-early", c->answered, "wait %d for call %d ends (%s) although the call has not been answered", o->id, c->id, qPrintable(m.errorName()));
    if (c->what == Error) VH_CHECK("C22", "wrong-reply", m.type() == QDBusMessage::ErrorMessage && m.errorName() == QStringLiteral("org.vh.E%1").arg(c->id) && m.errorMessage() == c->text && (!(c->number % 2) || (m.arguments().size() == 2 && m.arguments()[1].toInt() == c->number)), "wait %d for call %d (an error) yields %d %s", o->id, c->id, int(m.type()), qPrintable(m.errorName()));
    else {
        const QVariantList a = m.arguments();
        const bool ok = m.type() == QDBusMessage::ReplyMessage && (c->what == Empty ? a.isEmpty() : c->what == Wrong ? a.size() == 1 && a[0].toDouble() == c->number : a.size() == (c->what == Text ? 1 : 2) && a[0].toString() == c->text && (c->what == Text || a[1].toInt() == c->number));
        VH_CHECK("C22", "wrong-reply", ok, "wait %d for call %d (%d) yields a message of type %d (%s) with %d arguments, the first one %s", o->id, c->id, c->what, int(m.type()), qPrintable(m.errorName()), int(a.size()), a.isEmpty() ? "" : qPrintable(a[0].toString()));
    }
}
template<typename R> static void checkReply(Call *c, Op *o, const R &r) {
    VH_CHECK("C22", "unfinished", r.isFinished(), "wait %d for call %d yields an unfinished reply", o->id, c->id);
    if constexpr (std::is_same_v<R, QDBusPendingReply<QString>>) {
        if (!r.isError()) VH_CHECK("C22", "wrong-reply", c->what == Wrong || (c->what == Text && r.value() == c->text), "wait %d for call %d (%d) yields %s", o->id, c->id, c->what, qPrintable(r.value()));
        else if (c->what == Wrong || c->what == Empty) VH_CHECK("C22", "wrong-reply", c->answered || c->timeout >= 0 || W->cut, "wait %d for call %d yields an error early", o->id, c->id);
        else checkMessage(c, o, r.reply());
    } else if constexpr (std::is_same_v<R, QDBusPendingReply<QString, int>>) {
        if (!r.isError()) VH_CHECK("C22", "wrong-reply", c->what == Wrong || c->what == TextAndNumber && r.template argumentAt<0>() == c->text && r.template argumentAt<1>() == c->number, "wait %d for call %d (%d) yields something else", o->id, c->id, c->what);
        else if (c->what == TextAndNumber || c->what == Error) checkMessage(c, o, r.reply());
        else VH_CHECK("C22", "wrong-reply", c->answered || c->timeout >= 0 || W->cut, "wait %d for call %d yields an error early", o->id, c->id);
    } else checkMessage(c, o, r.reply());
}
static QDBusPendingCall unrelated() { return QDBusPendingCall::fromError(QDBusError(QDBusError::Other, QStringLiteral("unrelated"))); }
static auto makeWrapper(QDBusPendingCall c) { return qCoro(QDBusPendingCall(c)); }
static Task<> awaiter(Call *c, uint64_t seed) {
    Rng g(seed);
    Tracked local(1);
    static const char *names[] = {"co_await call", "co_await call()", "call variable", "qCoro(call)", "kept wrapper", "co_await reply", "qCoro(reply)", "reply of two", "untyped reply", "kept task", "then()"};
    auto up = std::make_unique<Op>();
    Op *o = up.get();
    W->ops.push_back(std::move(up));
    o->id = int(W->ops.size()); o->call = c->id;
    // Qt keeps the expected types of a reply with the call, so all awaiters of a call agree on them.
    int form = g.below(11);
    if (form >= 5 && form <= 7) form = c->typed == 0 ? 8 : c->typed == 1 ? g.range(5, 6) : 7;
    o->form = names[form];
    const bool before = c->call.isFinished();
    ev("op %d %s of %d", o->id, o->form, c->id); // whether it has finished already is up to the D-Bus thread
    note("finished: %d", before);
    const long steps = V()->steps;
    QDBusPendingCall call = c->call;
    auto check = [&] {
        ++o->n; o->over = true;
        ev("op %d over", o->id);
        count("waits");
        VH_CHECK("C22", "resumed-twice", o->n == 1, "wait %d was resumed %d times", o->id, o->n);
        VH_CHECK("C22", "unfinished", c->call.isFinished(), "wait %d was resumed before call %d had finished", o->id, c->id);
        if (before && form != 9 && form != 10) VH_CHECK("C22", "needless-suspension", steps == V()->steps, "wait %d (%s) for a finished call gave up control", o->id, o->form);
    };
    switch (form) {
    case 0: { QDBusMessage m = co_await call; check(); checkMessage(c, o, m); break; }
    case 1: { QDBusMessage m = co_await QDBusPendingCall(call); check(); checkMessage(c, o, m); break; }
    case 2: { // the variable is used for another call while it is being awaited
        auto shared = std::make_shared<QDBusPendingCall>(call);
        if (g.chance(1, 2)) QTimer::singleShot(0, [shared] { *shared = unrelated(); });
        QDBusMessage m = co_await *shared; check(); checkMessage(c, o, m); break;
    }
    case 3: { QDBusMessage m = co_await qCoro(call).waitForFinished(); check(); checkMessage(c, o, m); break; }
    case 4: { auto w = makeWrapper(call); if (g.chance(1, 3)) co_await QCoro::sleepFor(milliseconds(g.below(4))); const bool b = before; (void)b; QDBusMessage m = co_await w.waitForFinished(); ++o->n; o->over = true; ev("op %d over", o->id); count("waits"); checkMessage(c, o, m); break; }
    case 5: { QDBusPendingReply<QString> r = call; auto x = co_await r; check(); checkReply(c, o, x); break; }
    case 6: { QDBusPendingReply<QString> r = call; auto x = co_await qCoro(r).waitForFinished(); check(); checkReply(c, o, x); break; }
    case 7: { QDBusPendingReply<QString, int> r = call; if (g.chance(1, 2)) { auto x = co_await r; check(); checkReply(c, o, x); } else { auto x = co_await qCoro(r).waitForFinished(); check(); checkReply(c, o, x); } break; }
    case 8: { QDBusPendingReply<> r = call; if (g.chance(1, 2)) { auto x = co_await r; check(); checkReply(c, o, x); } else { auto x = co_await qCoro(r).waitForFinished(); check(); checkReply(c, o, x); } break; }
    case 9: { auto t = qCoro(QDBusPendingCall(call)).waitForFinished(); o->late = true; co_await QCoro::sleepFor(milliseconds(g.below(6))); o->late = false; QDBusMessage m = co_await t; check(); checkMessage(c, o, m); break; }
    default: { auto m = co_await qCoro(call).waitForFinished().then([](const QDBusMessage &m) { return m; }); check(); checkMessage(c, o, m); break; }
    }
    if (g.chance(1, 6)) co_await awaiter(c, g.next()); // once more, the call has finished
    local.check();
}
static void stale(int limit) {
    for (auto &p : W->ops) {
        Op &o = *p;
        if (o.over || o.late) continue;
        if (W->calls[size_t(o.call)]->call.isFinished()) {
            if (++o.stale > limit) violation("C22", "not-resumed", "wait %d (%s) was not resumed although call %d has finished", o.id, o.form, o.call);
        } else o.stale = 0;
    }
    count("quiet_checks");
}
static QDBusServer *srv;
static void connectAll() {
    static int n = 0;
    client = new QDBusConnection(QDBusConnection::connectToPeer(srv->address(), QStringLiteral("vh%1").arg(++n)));
    for (int i = 0; i < 1000 && (!server || !server->isConnected()); ++i) V()->waitReal(5);
    if (!client->isConnected() || !server) { fprintf(stderr, "no connection: %s\n", qPrintable(client->lastError().message())); _exit(3); }
}
static void caseC22(Rng &g) {
    auto *v = V();
    v->reset(&g);
    const long live0 = Tracked::live;
    {
        World w{g, {}, {}, {}};
        w.ops.reserve(1024);
        w.calls.reserve(64);
        W = &w;
        auto makeCall = [&]() {
            auto c = std::make_unique<Call>(Call{int(w.calls.size()), Text, {}, 0, -1, unrelated()});
            c->what = What(g.below(5));
            c->typed = c->what == Text ? g.below(2) : c->what == TextAndNumber ? 2 * g.below(2) : c->what == Empty ? 0 : g.below(3);
            c->number = int(g.next() & 0xffff);
            c->text = QStringLiteral("t%1-%2").arg(c->id).arg(c->number);
            if (g.chance(1, 8)) c->timeout = g.range(1, 20);
            QDBusMessage m = QDBusMessage::createMethodCall({}, QStringLiteral("/x"), QStringLiteral("org.vh"), QStringLiteral("call"));
            m << c->id;
            ev("call %d: %d, timeout %d", c->id, c->what, c->timeout);
            c->call = client->asyncCall(m, c->timeout);
            count("calls");
            w.calls.push_back(std::move(c));
        };
        const int rounds = g.range(10, 40);
        const bool cut = g.chance(1, 30);
        for (int k = 0; k < rounds; ++k) {
            switch (k == 0 ? 0 : g.below(12)) {
            case 0: case 1: for (int i = g.chance(1, 4) ? g.range(2, 5) : 1; i > 0 && w.calls.size() < 60; --i) makeCall(); break;
            case 2: case 3: case 4: for (int i = g.chance(1, 3) ? g.range(2, 4) : 1; i > 0; --i) awaiter(w.calls[size_t(g.chance(1, 2) ? w.calls.size() - 1 : size_t(g.below(int(w.calls.size()))))].get(), g.next()); break;
            case 5: case 6: answer(g); break;
            case 7: { // answer, and begin to wait while the answer comes in
                answer(g);
                for (volatile int i = 0, n = g.below(60000); i < n; i = i + 1) {}
                for (int i = g.range(1, 4); i > 0; --i) awaiter(w.calls[size_t(g.below(int(w.calls.size())))].get(), g.next());
                break;
            }
            case 8: v->step(); break;
            case 9: v->settle(); stale(400); break;
            case 10: v->advanceBy(g.below(10)); stale(400); break;
            default: v->waitReal(1); stale(400);
            }
        }
        ev("closing");
        if (cut) { ev("cut"); w.cut = true; QDBusConnection::disconnectFromPeer(client->name()); }
        for (int k = 0; k < 4000 && !run().caseFailed; ++k) {
            bool busy = false;
            for (auto &c : w.calls) if (!c->call.isFinished()) busy = true;
            for (auto &o : w.ops) if (!o->over) busy = true;
            if (!busy) break;
            while (!w.open.empty()) answer(g);
            v->waitReal(2);
            v->advanceBy(5);
            stale(400);
        }
        if (!run().caseFailed) for (auto &o : w.ops) VH_CHECK("C22", "not-resumed", o->over, "wait %d (%s) is not over at the end", o->id, o->form);
        if (w.calls.size() >= 2 && w.ops.size() >= 2) nontrivial();
        if (run().caseFailed) { for (auto &o : w.ops) if (!o->over) { outLine("{\"t\":\"fatal\"}"); _exit(10); } }
        if (w.cut) { run().leaves = true; delete client; delete server; server = nullptr; w.open.clear(); for (auto &c : w.calls) c->request = {}; for (int i = 0; i < 5; ++i) v->waitReal(1); connectAll(); }
        W = nullptr;
    }
    V()->advanceBy(5);
    VH_CHECK("C22", "leaked", Tracked::live == live0, "%ld objects of coroutines are still alive", long(Tracked::live - live0));
    flushDeferredDeletes();
}
int main(int argc, char **argv) {
    vh::parse(argc, argv);
    return monitorMain(argc, argv, [] {
    QTemporaryDir dir;
    QDBusServer s(QStringLiteral("unix:path=%1/s").arg(dir.path()));
    srv = &s;
    Service service;
    QObject::connect(&s, &QDBusServer::newConnection, &s, [&service](const QDBusConnection &c) {
        server = new QDBusConnection(c);
        server->registerVirtualObject(QStringLiteral("/x"), &service);
    });
    connectAll();
    Options o;
    o.leakEvery = 32;
    int r = runCases(caseC22, o);
    delete client; delete server;
    return r;
    });
}
#include "dbus.moc"
