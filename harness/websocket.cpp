// C20: web sockets against a scripted peer; C21: web socket servers. Real connections on the
// loopback interface, polled by the virtual-time dispatcher.
#include "vh.h"
#include <chrono>
#include <QCryptographicHash>
#include <QHostAddress>
#include <QNetworkProxy>
#include <QNetworkRequest>
#include <QTcpServer>
#include <QTcpSocket>
#include <QUrl>
#include <QWebSocket>
#include <QWebSocketCorsAuthenticator>
#include <QWebSocketServer>
#include <qcorotask.h>
#include <qcorotimer.h>
#include <qcorowebsocket.h>
#include <qcorowebsocketserver.h>

using namespace vh;
using QCoro::Task;
using std::chrono::milliseconds;
static QString base(quint16 port) { return QStringLiteral("ws://%1:%2/").arg(QString::fromStdString(ownHostName())).arg(port); }
static VDispatcher *V() { return VDispatcher::instance(); }

// ---------------------------------------------------------------- C21
namespace c21 {
struct Op { int id; qint64 due = -1; bool over = false; int n = 0; int closes = 0; };
struct World {
    QWebSocketServer server{QStringLiteral("s"), QWebSocketServer::NonSecureMode};
    std::vector<int> arrived;   // names of the connections, in the order in which they were completed
    std::vector<int> handed;    // ... and were handed out
    std::vector<std::pair<int, QWebSocket *>> got;
    std::vector<std::unique_ptr<Op>> ops;
    std::vector<std::unique_ptr<QWebSocket>> clients;
    std::vector<std::unique_ptr<QTcpSocket>> raw;
    bool ending = false, meant = false; // meant to be closed
    int closes = 0; size_t lost = 0; // closed while still pending
};
static World *W;
static int nameOf(QWebSocket *s) { bool ok = false; int n = s->requestUrl().path().mid(1).toInt(&ok); return ok ? n : -1; }
static void take(QWebSocket *s, const char *who) {
    const int n = nameOf(s);
    ev("%s got %d", who, n);
    VH_CHECK("C21", "twice", std::find(W->handed.begin(), W->handed.end(), n) == W->handed.end(), "%s got connection %d, which was handed out before", who, n);
    const size_t at = W->handed.size() + W->lost;
    VH_CHECK("C21", "wrong-order", at < W->arrived.size() && W->arrived[at] == n, "%s got connection %d; the next one is %d", who, n, at < W->arrived.size() ? W->arrived[at] : -1);
    W->handed.push_back(n);
    W->got.push_back({n, s});
    count("connections");
}
static Task<> acceptor(uint64_t seed) {
    Rng g(seed);
    Tracked local(1);
    auto up = std::make_unique<Op>();
    Op *o = up.get();
    W->ops.push_back(std::move(up));
    o->id = int(W->ops.size());
    const qint64 timeout = g.chance(1, 20) ? longTime(g) : g.chance(1, 2) ? -1 : g.below(40);
    if (timeout >= 0) o->due = V()->now + timeout;
    o->closes = W->closes;
    const bool listening = W->server.isListening(), pending = W->server.hasPendingConnections();
    ev("wait %d, timeout %lld%s%s", o->id, (long long)timeout, listening ? "" : ", closed", pending ? ", pending" : "");
    const long steps = V()->steps;
    QWebSocket *s;
    if (g.chance(1, 4)) {
        auto t = g.chance(1, 2) ? qCoro(W->server).nextPendingConnection(milliseconds(timeout)) : qCoro(&W->server).nextPendingConnection(milliseconds(timeout));
        s = co_await t;
    } else if (timeout < 0) s = co_await qCoro(W->server).nextPendingConnection();
    else s = co_await qCoro(&W->server).nextPendingConnection(milliseconds(timeout));
    ++o->n; o->over = true;
    count("waits");
    VH_CHECK("C21", "resumed-twice", o->n == 1, "wait %d was resumed %d times", o->id, o->n);
    if ((pending || !listening)) VH_CHECK("C21", "needless-suspension", steps == V()->steps, "wait %d gave up control although %s", o->id, pending ? "a connection was pending" : "the server was closed");
    if (s) {
        take(s, fmt("wait %d", o->id).c_str());
    } else {
        const qint64 now = V()->now;
        ev("wait %d: null", o->id);
        const bool closed = !listening || W->closes > o->closes;
        VH_CHECK("C21", "null-wrong", closed || (o->due >= 0 && now >= o->due), "wait %d yields null at %lld; the server was not closed and the timeout is due at %lld", o->id, (long long)now, (long long)o->due);
        VH_CHECK("C21", "null-wrong", closed || !W->server.hasPendingConnections(), "wait %d yields null although a connection is pending", o->id);
    }
    if (g.chance(1, 4) && !W->ending) { // at once again
        if (g.chance(1, 2)) co_await QCoro::sleepFor(milliseconds(g.below(8)));
        if (!W->ending) acceptor(g.next());
    }
    local.check();
}
static void closeServer() {
    ev("close");
    W->meant = true;
    W->server.close(); // ends the connections that are still pending; closed() is emitted later
    W->lost = W->arrived.size() - W->handed.size();
}
static void quiet() {
    VH_CHECK("C21", "server-closed", W->meant || W->server.isListening(), "the server does not listen any more although nobody has closed it");
    bool anyWaits = false;
    for (auto &p : W->ops) {
        Op &o = *p;
        if (o.over) continue;
        anyWaits = true;
        if (W->closes > o.closes) violation("C21", "not-resumed", "wait %d was not resumed although the server was closed", o.id);
        else if (o.due >= 0 && o.due <= V()->now) violation("C21", "timeout-missing", "wait %d was not resumed although its timeout was due at %lld", o.id, (long long)o.due);
    }
    if (anyWaits && W->server.hasPendingConnections()) violation("C21", "not-resumed", "a connection is pending, but none of the waits was resumed");
    count("quiet_checks");
}
static int nextName;
static void dial(Rng &g) {
    auto s = std::make_unique<QWebSocket>(QStringLiteral("c%1").arg(nextName));
    s->setProxy(QNetworkProxy::NoProxy);
    const int n = nextName++;
    ev("dial %d", n);
    QWebSocket *p = s.get();
    p->open(QUrl(base(W->server.serverPort()) + QString::number(n)));
    if (!W->ending && g.chance(1, 12)) { p->abort(); ev("hang up %d", n); }
    W->clients.push_back(std::move(s));
}
static void caseC21(Rng &g) {
    auto *v = V();
    v->reset(&g);
    const long live0 = Tracked::live;
    nextName = 0;
    {
        World w;
        W = &w;
        // The name of a connection is known when the server asks for its origin, just before it becomes pending.
        int origin = -1;
        QObject::connect(&w.server, &QWebSocketServer::originAuthenticationRequired, [&origin](QWebSocketCorsAuthenticator *a) { origin = a->origin().mid(1).toInt(); });
        QObject::connect(&w.server, &QWebSocketServer::newConnection, [&w, &origin] { w.arrived.push_back(origin); ev("connection %d", origin); });
        QObject::connect(&w.server, &QWebSocketServer::closed, [&w] { ++w.closes; ev("closed"); });
        w.server.setMaxPendingConnections(g.chance(1, 5) ? g.range(1, 3) : 30);
        if (!w.server.listen(QHostAddress(ownHost()))) abort();
        std::vector<std::unique_ptr<QTimer>> timers;
        const int rounds = g.range(8, 36);
        int dialled = 0;
        for (int k = 0; k < rounds; ++k) {
            switch (k == 0 ? 0 : g.below(12)) {
            case 0: case 1: case 2: acceptor(g.next()); break;
            case 3: case 4: if (w.server.isListening()) for (int i = g.chance(1, 4) ? g.range(2, 5) : 1; i > 0; --i) { dial(g); ++dialled; } break;
            case 5: v->step(); break;
            case 6: v->settle(); quiet(); break;
            case 7: ev("advance"); v->advanceBy(g.below(25)); quiet(); break;
            case 8:
                if (g.chance(1, 2) && !w.clients.empty()) { // a client leaves, whether its connection is still pending or has been handed out
                    const size_t i = size_t(g.below(int(w.clients.size())));
                    QWebSocket *c = w.clients[i].get();
                    if (c->state() == QAbstractSocket::ConnectedState) {
                        ev("client %zu leaves", i);
                        count(w.server.hasPendingConnections() ? "left_with_pending" : "left");
                        if (g.chance(1, 2)) c->abort(); else c->close();
                        if (g.chance(1, 2)) { v->waitReal(2); v->settle(); quiet(); }
                    }
                    break;
                }
                if (g.chance(1, 3) && w.server.hasPendingConnections()) { ev("take"); take(w.server.nextPendingConnection(), "the harness"); } break;
            case 9:
                if (g.chance(1, 4)) { closeServer(); v->settle(); quiet(); if (g.chance(1, 2)) { w.meant = false; w.server.listen(QHostAddress(ownHost())); ev("listen"); } }
                else if (g.chance(1, 4)) { auto s = std::make_unique<QTcpSocket>(); s->setProxy(QNetworkProxy::NoProxy); s->connectToHost(QHostAddress(ownHost()), w.server.serverPort()); if (g.chance(1, 2)) s->write("GET /x HTTP/1.1\r\n\r\n"); w.raw.push_back(std::move(s)); ev("no handshake"); }
                break;
            default: v->waitReal(2); break;
            }
        }
        ev("closing");
        for (int k = 0; k < 400; ++k) {
            v->advanceBy(g.below(30));
            quiet();
            bool busy = false;
            for (auto &c : w.clients) if (c->state() == QAbstractSocket::ConnectingState) busy = true;
            if (!busy && k > 3) break;
            if (busy) v->waitReal(2);
        }
        W->ending = true;
        if (g.chance(1, 6)) { v->advanceBy(VeryLong); quiet(); }
        if (!w.server.isListening() || g.chance(1, 2)) closeServer();
        else for (;;) { // enough connections for all who wait
            int waits = 0, all = 0;
            for (auto &o : w.ops) if (!o->over) { ++all; if (o->due < 0 || o->due > v->now + 100000) ++waits; }
            if (!waits) break;
            dial(g);
            for (int k = 0; k < 200; ++k) { int x = 0; for (auto &o : w.ops) if (!o->over) ++x; if (x < all) break; v->waitReal(2); v->settle(); quiet(); if (k == 199) violation("C21", "not-resumed", "a new connection did not resume any of %d waits", waits); }
            if (run().caseFailed) break;
        }
        v->advanceBy(200);
        v->waitReal(1);
        v->advanceBy(200);
        quiet();
        for (auto &o : w.ops) VH_CHECK("C21", "not-resumed", o->over, "wait %d is not over at the end", o->id);
        while (w.server.hasPendingConnections()) take(w.server.nextPendingConnection(), "the harness");
        if (w.ops.size() >= 2 && w.got.size() >= 2) nontrivial();
        if (run().caseFailed) { w.server.close(); v->advanceBy(1000); for (auto &o : w.ops) if (!o->over) { outLine("{\"t\":\"fatal\"}"); _exit(10); } }
        for (auto &[n, s] : w.got) delete s;
        w.clients.clear();
        w.raw.clear();
        v->advanceBy(50);
    }
    VH_CHECK("C21", "leaked", Tracked::live == live0, "%ld objects of coroutines are still alive", long(Tracked::live - live0));
    flushDeferredDeletes();
}
}
// ---------------------------------------------------------------- C20
namespace c20 {
enum Kind { TextMessage, BinaryMessage, TextFrame, BinaryFrame, Pong, State, Error };
static const char *kindNames[] = {"textMessages()", "binaryMessages()", "textFrames()", "binaryFrames()"};
struct Entry { Kind kind; QByteArray data; qint64 n = 0; qint64 at = 0; };
struct Op { int id; const char *form = ""; qint64 due = -1; size_t from = 0; bool over = false, late = false; int n = 0; int what = 0; struct Stream *stream = nullptr; bool fresh = false; };
// Follows one stream: `cursor` is the next event of the log that it has to account for.
struct Stream { int id; Kind kind; size_t cursor; qint64 due = -1; int timeout = -1; bool conn = false, marker = false, dead = false; size_t start = 0; };
struct Peer { QTcpSocket *s = nullptr; QByteArray in, out; bool up = false; QList<QByteArray> pings, got; QByteArray head; bool closed = false, ended = false; };
struct World {
    Rng &g;
    QTcpServer server;
    std::vector<std::unique_ptr<Peer>> peers; // the last one is the current connection's
    std::unique_ptr<QWebSocket> ws;
    std::vector<Entry> log; // everything that the socket emitted
    std::vector<std::unique_ptr<Op>> ops;
    int mode = 0; bool opening = false, autoPong = true, again = false; int streams = 0, ids = 0;
    QList<QByteArray> sentPings; // on the current connection
    bool meant = false; int errors = 0, state = 0; // the harness ends the connection
    int lostFrom = -1, lostTo = 0;
};
static World *W;
static bool connected() { return W->ws->state() == QAbstractSocket::ConnectedState; }
static void leave(bool abort) { W->meant = true; if (abort) W->ws->abort(); else W->ws->close(); }
// No operation of the library ends the connection.
static void stateChanged(int to) {
    const int from = std::exchange(W->state, to);
    if (to == QAbstractSocket::ConnectedState || to == QAbstractSocket::ConnectingState || to == QAbstractSocket::HostLookupState) { if (to != QAbstractSocket::ConnectedState) { W->meant = false; W->errors = 0; W->lostFrom = -1; } return; }
    Peer *p = W->peers.empty() ? nullptr : W->peers.back().get();
    const bool up = from == QAbstractSocket::ConnectedState;
    if (!up && W->mode > 1) return;
    if (!p || W->meant || W->errors || p->ended || p->closed || p->s->state() != QAbstractSocket::ConnectedState) return;
    W->lostFrom = from; W->lostTo = to; // an error may follow
}
static Op *newOp(const char *form, int timeout, int what) {
    auto o = std::make_unique<Op>();
    o->id = int(W->ops.size()); o->form = form; o->what = what;
    if (timeout >= 0) o->due = V()->now + timeout;
    o->from = W->log.size();
    ev("op %d %s, timeout %d%s", o->id, form, timeout, connected() ? "" : ", not connected");
    Op *x = o.get(); W->ops.push_back(std::move(o)); return x;
}
static const Entry *first(size_t from, Kind k, qint64 n = -1) { for (size_t i = from; i < W->log.size(); ++i) if (W->log[i].kind == k && (n < 0 || W->log[i].n == n)) return &W->log[i]; return nullptr; }
// The first sign since `from` that the connection is gone, or could not be made.
static const Entry *firstEnd(size_t from, bool opening) {
    for (size_t i = from; i < W->log.size(); ++i) {
        auto &e = W->log[i];
        if (opening ? (e.kind == Error || (e.kind == State && e.n == QAbstractSocket::UnconnectedState)) : (e.kind == State && e.n != QAbstractSocket::ConnectedState)) return &e;
    }
    return nullptr;
}
static Task<> opener(uint64_t seed) {
    Rng g(seed);
    Tracked local(1);
    const int timeout = g.chance(1, 2) ? -1 : g.below(60);
    const int path = int(W->ops.size());
    QUrl url(base(W->server.serverPort()) + QStringLiteral("o%1").arg(path));
    const int k = g.below(14);
    QNetworkRequest request(url);
    bool header = false;
    if (k == 0) url = QUrl(QStringLiteral("foo://127.0.0.1/"));
    if (k == 1) url = QUrl();
    if (k == 2) url.setPort(1);
    W->mode = g.chance(3, 4) ? 0 : g.below(5);
    Op *o = newOp("open()", timeout, 0);
    ev("mode %d, url %d", W->mode, k);
    const bool before = connected();
    o->fresh = W->ws->state() == QAbstractSocket::UnconnectedState;
    if (!o->fresh) W->meant = true; // Qt begins anew
    if (g.chance(1, 2)) { request.setUrl(url); request.setRawHeader("X-Vh", QByteArray::number(path)); header = true; }
    const long steps = V()->steps;
    W->opening = true;
    bool r;
    if (g.chance(1, 4)) {
        auto t = header ? qCoro(W->ws.get()).open(request, milliseconds(timeout)) : qCoro(W->ws.get()).open(url, milliseconds(timeout));
        if (g.chance(1, 3)) { o->late = true; co_await QCoro::sleepFor(milliseconds(g.below(10))); }
        r = co_await t;
    } else if (header && timeout < 0) r = co_await qCoro(*W->ws).open(request);
    else if (header) r = co_await qCoro(*W->ws).open(request, milliseconds(timeout));
    else if (timeout < 0) r = co_await qCoro(W->ws.get()).open(url);
    else r = co_await qCoro(W->ws.get()).open(url, milliseconds(timeout));
    W->opening = false;
    ++o->n; o->over = true;
    const qint64 now = V()->now;
    ev("op %d: %d", o->id, r);
    count("opens");
    VH_CHECK("C20", "resumed-twice", o->n == 1, "open() %d was resumed %d times", o->id, o->n);
    if (before) { VH_CHECK("C20", "open-wrong", r && (o->late || steps == V()->steps), "open() %d of an open socket yields %d or gives up control", o->id, r); co_return; }
    const Entry *up = first(o->from, State, QAbstractSocket::ConnectedState), *bad = firstEnd(o->from, true);
    if (r) {
        VH_CHECK("C20", "open-wrong", up, "open() %d says true, but the socket has not been connected", o->id);
        if (o->fresh && !W->again) {
            bool asked = false;
            for (auto &p : W->peers) asked = asked || (p->head.startsWith("GET /o" + QByteArray::number(path) + " ") && (!header || p->head.toLower().contains("\r\nx-vh: " + QByteArray::number(path) + "\r\n")));
            VH_CHECK("C20", "open-wrong", asked, "open() %d says true, but the server has not been asked for what it was told to open", o->id);
        }
    } else {
        VH_CHECK("C20", "open-wrong", !o->fresh || first(o->from, State) || first(o->from, Error), "open() %d says false without having tried to connect", o->id);
        VH_CHECK("C20", "open-wrong", bad || (o->due >= 0 && now >= o->due), "open() %d says false at %lld; nothing has failed and the timeout is due at %lld", o->id, (long long)now, (long long)o->due);
        VH_CHECK("C20", "open-wrong", !(up && (!bad || up < bad) && (o->due < 0 || up->at < o->due)), "open() %d says false although the socket was connected at %lld", o->id, (long long)up->at);
    }
    local.check();
}
static Task<> pinger(uint64_t seed) {
    Rng g(seed);
    Tracked local(1);
    const int timeout = g.chance(1, 2) ? -1 : g.below(40);
    Op *o = newOp("ping()", timeout, 1);
    const bool before = connected();
    const long steps = V()->steps;
    const QByteArray payload = QByteArray::number(o->id) + ":" + g.bytes(g.chance(1, 20) ? g.range(90, 140) : g.below(20));
    if (before) W->sentPings.push_back(payload.left(125)); // what fits into a control frame
    std::optional<milliseconds> r;
    if (g.chance(1, 4)) {
        auto t = qCoro(*W->ws).ping(payload, milliseconds(timeout));
        if (g.chance(1, 3)) { o->late = true; co_await QCoro::sleepFor(milliseconds(g.below(10))); }
        r = co_await t;
    } else if (timeout < 0) r = co_await qCoro(W->ws.get()).ping(payload);
    else r = co_await qCoro(W->ws.get()).ping(payload, milliseconds(timeout));
    ++o->n; o->over = true;
    const qint64 now = V()->now;
    ev("op %d: %s", o->id, r ? "answer" : "none");
    count("pings");
    VH_CHECK("C20", "resumed-twice", o->n == 1, "ping() %d was resumed %d times", o->id, o->n);
    if (!before) { VH_CHECK("C20", "ping-wrong", !r && (o->late || steps == V()->steps), "ping() %d of a socket that is not connected yields a time or gives up control", o->id); co_return; }
    const Entry *pong = first(o->from, Pong), *end = firstEnd(o->from, false);
    if (r) VH_CHECK("C20", "ping-wrong", pong && pong->n == r->count(), "ping() %d yields %lld ms, but the socket %s %lld", o->id, (long long)r->count(), pong ? "reported" : "did not report", pong ? (long long)pong->n : 0);
    else {
        VH_CHECK("C20", "ping-wrong", end || (o->due >= 0 && now >= o->due), "ping() %d yields nothing at %lld; the socket is connected and the timeout due at %lld", o->id, (long long)now, (long long)o->due);
        VH_CHECK("C20", "ping-wrong", !(pong && (!end || pong < end) && (o->due < 0 || pong->at < o->due)), "ping() %d yields nothing although the answer arrived at %lld", o->id, (long long)pong->at);
    }
    local.check();
}
static QByteArray bytesOf(const QString &s) { return s.toUtf8(); }
static QByteArray bytesOf(const QByteArray &s) { return s; }
static QByteArray bytesOf(const std::tuple<QString, bool> &t) { return std::get<0>(t).toUtf8() + (std::get<1>(t) ? "\1" : "\0"); }
static QByteArray bytesOf(const std::tuple<QByteArray, bool> &t) { return std::get<0>(t) + (std::get<1>(t) ? "\1" : "\0"); }
// Advances to the next value or to the end of the connection that the stream belongs to.
static bool relevant(Stream &s) {
    for (; s.cursor < W->log.size(); ++s.cursor) {
        auto &e = W->log[s.cursor];
        if (e.kind == s.kind) return true;
        if (e.kind != State) continue;
        if (e.n == QAbstractSocket::ConnectedState) s.conn = true;
        else if (s.conn || (s.cursor >= s.start && e.n == QAbstractSocket::UnconnectedState)) return s.marker = true;
    }
    return false;
}
static void got(Stream &s, const QByteArray &b) {
    count("stream_values");
    if (!relevant(s)) { violation("C20", "stream-extra", "stream %d yields %d bytes that were not received, or were yielded before", s.id, int(b.size())); return; }
    auto &e = W->log[s.cursor++];
    VH_CHECK("C20", "stream-wrong", e.kind == s.kind && e.data == b, "stream %d (%s) yields %d bytes; the next event is of kind %d with %d bytes", s.id, kindNames[s.kind], int(b.size()), e.kind, int(e.data.size()));
}
static void ended(Stream &s) {
    const qint64 now = V()->now;
    if (relevant(s) && !s.marker) {
        auto &e = W->log[s.cursor];
        VH_CHECK("C20", "stream-lost", s.due >= 0 && now >= s.due && e.at >= s.due, "stream %d (%s) ends at %lld although there is more, received at %lld (timeout due at %lld)", s.id, kindNames[s.kind], (long long)now, (long long)e.at, (long long)s.due);
    }
    VH_CHECK("C20", "stream-end", s.dead || s.marker || (s.due >= 0 && now >= s.due), "stream %d (%s) ends at %lld; the socket is connected and the timeout due at %lld", s.id, kindNames[s.kind], (long long)now, (long long)s.due);
}
template<typename Gen> static Task<> follow(Gen gen, Stream s, uint64_t seed) {
    Rng g(seed);
    Tracked local(1);
    ++W->streams;
    if (g.chance(1, 3)) co_await QCoro::sleepFor(milliseconds(g.below(15)));
    const int max = g.chance(1, 5) ? g.below(4) : 1000000;
    if (max > 0) {
        auto step = [&]() { Op *o = newOp(kindNames[s.kind], s.timeout, 2); s.due = o->due; o->from = s.cursor; o->stream = &s; return o; };
        auto over = [&](Op *o) { ++o->n; o->over = true; VH_CHECK("C20", "resumed-twice", o->n == 1, "stream %d was resumed twice", s.id); };
        relevant(s);
        s.start = W->log.size();
        s.dead = !s.conn && W->ws->state() == QAbstractSocket::UnconnectedState;
        Op *o = step();
        auto it = co_await gen.begin();
        over(o);
        int n = 0;
        while (it != gen.end()) {
            const QByteArray b = bytesOf(*it);
            ev("stream %d: %d bytes", s.id, int(b.size()));
            got(s, b);
            if (++n >= max || run().caseFailed) break;
            if (g.chance(1, 5)) co_await QCoro::sleepFor(milliseconds(g.below(12)));
            o = step();
            co_await ++it;
            over(o);
        }
        if (!(it != gen.end())) { ev("stream %d ended", s.id); ended(s); }
    }
    --W->streams;
    local.check();
}
static void stream(Rng &g) {
    const int k = g.below(4), timeout = g.chance(2, 3) ? -1 : g.range(1, 40);
    const milliseconds t(timeout);
    Stream s{0, Kind(k), W->log.size(), -1, timeout, connected()};
    ev("stream %s, timeout %d%s", kindNames[k], timeout, connected() ? "" : ", not connected");
    s.id = ++W->ids;
    const bool d = timeout < 0 && g.chance(1, 2);
    auto q = qCoro(W->ws.get());
    switch (k) {
    case 0: follow(d ? q.textMessages() : q.textMessages(t), s, g.next()); break;
    case 1: follow(d ? q.binaryMessages() : q.binaryMessages(t), s, g.next()); break;
    case 2: follow(d ? q.textFrames() : q.textFrames(t), s, g.next()); break;
    default: follow(d ? q.binaryFrames() : q.binaryFrames(t), s, g.next()); break;
    }
}
static void quiet() {
    if (W->lostFrom >= 0 && !W->errors) violation("C20", "closed-by-wait", "the socket went from state %d to %d although nobody has asked for that and nothing has failed", W->lostFrom, W->lostTo);
    for (auto &p : W->ops) {
        Op &o = *p;
        if (o.over || o.late) continue;
        const char *why = nullptr;
        if (o.due >= 0 && o.due <= V()->now) why = "its timeout was due";
        else if (o.what == 0) { if (first(o.from, State, QAbstractSocket::ConnectedState)) why = "the socket was connected"; else if (firstEnd(o.from, true)) why = "the connection failed"; }
        else if (o.what == 1) { if (first(o.from, Pong)) why = "the answer arrived"; else if (firstEnd(o.from, false)) why = "the connection ended"; }
        else if (relevant(*o.stream)) why = o.stream->marker ? "the connection ended" : "there is something to yield";
        else if (o.stream->dead) why = "there is no connection";
        if (o.what == 0 && o.fresh && !first(o.from, State) && !first(o.from, Error)) { violation("C20", "open-not-started", "open() %d waits, but the socket has not begun to connect", o.id); continue; }
        if (why) violation("C20", o.what == 0 ? "open-not-resumed" : o.what == 1 ? "ping-not-resumed" : "stream-not-resumed", "operation %d (%s) was not resumed although %s", o.id, o.form, why);
    }
    count("quiet_checks");
}
// ---- the scripted peer
static QByteArray frame(int opcode, bool fin, const QByteArray &p) {
    QByteArray f;
    f += char((fin ? 0x80 : 0) | opcode);
    if (p.size() < 126) f += char(p.size());
    else if (p.size() < 65536) { f += char(126); f += char(p.size() >> 8); f += char(p.size()); }
    else { f += char(127); for (int i = 7; i >= 0; --i) f += char(quint64(p.size()) >> (8 * i)); }
    return f + p;
}
static void handle(Peer *p) {
    Rng &g = W->g;
    p->in += p->s->readAll();
    if (!p->up) {
        const int end = int(p->in.indexOf("\r\n\r\n"));
        if (end < 0) return;
        QByteArray head = p->in.left(end);
        p->in.remove(0, end + 4);
        p->head = head + "\r\n";
        switch (W->mode) {
        case 1: return; // silent
        case 2: p->s->write("HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n"); return;
        case 3: p->s->disconnectFromHost(); return;
        }
        const int k = int(head.toLower().indexOf("sec-websocket-key:"));
        QByteArray key = head.mid(k + 18); key = key.left(key.indexOf('\r')).trimmed();
        if (W->mode == 4) key += "x";
        p->out += "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: "
            + QCryptographicHash::hash(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11", QCryptographicHash::Sha1).toBase64() + "\r\n\r\n";
        p->up = true;
        p->s->write(p->out); p->out.clear();
    }
    for (;;) { // frames from the client: masked
        if (p->in.size() < 2) return;
        const int op = p->in[0] & 15; qint64 len = p->in[1] & 127; int at = 2;
        if (len == 126) { if (p->in.size() < 4) return; len = (quint8(p->in[2]) << 8) | quint8(p->in[3]); at = 4; }
        if (p->in.size() < at + 4 + len) return;
        QByteArray mask = p->in.mid(at, 4), body = p->in.mid(at + 4, int(len));
        for (int i = 0; i < body.size(); ++i) body[i] = char(body[i] ^ mask[i % 4]);
        p->in.remove(0, int(at + 4 + len));
        if (op == 9) { p->got.push_back(body); if (W->autoPong && g.chance(2, 3)) p->out += frame(10, true, body); else p->pings += body; }
        if (op == 8) p->ended = true;
        if (op == 8 && !p->closed && g.chance(3, 4)) { p->closed = true; p->out += frame(8, true, body); }
    }
}
static void speak(Rng &g, Peer *p) {
    if (!p->up || p->s->state() != QAbstractSocket::ConnectedState) return;
    const int k = g.below(12);
    if (k < 7) {
        const bool text = g.chance(1, 2);
        const int frames = g.chance(1, 2) ? 1 : g.range(2, 4);
        ev("send %s in %d", text ? "text" : "binary", frames);
        for (int i = 0; i < frames; ++i) {
            QByteArray b = g.bytes(g.chance(1, 12) ? g.range(200, 70000) : g.below(40));
            if (text) for (auto &c : b) c = char('a' + (quint8(c) % 26));
            p->out += frame(i ? 0 : text ? 1 : 2, i == frames - 1, b);
            if (g.chance(1, 8)) p->out += frame(g.chance(1, 2) ? 9 : 10, true, "x");
        }
    } else if (k < 9) { if (!p->pings.isEmpty()) { ev("answer"); p->out += frame(10, true, p->pings.takeFirst()); } else if (g.chance(1, 3)) { ev("pong"); p->out += frame(10, true, "u"); } }
    else if (k == 9 && g.chance(1, 3)) { ev("close frame"); p->ended = true; p->out += frame(8, true, QByteArray("\x03\xe8", 2)); }
    else if (k == 10 && g.chance(1, 4)) { ev("drop"); if (g.chance(1, 2)) p->s->abort(); else p->s->disconnectFromHost(); }
    else if (k == 11 && g.chance(1, 5)) { ev("garbage"); p->ended = true; p->out += g.bytes(8); }
}
static void flush(Rng &g, Peer *p, bool all) {
    if (p->out.isEmpty() || p->s->state() != QAbstractSocket::ConnectedState) return;
    const int n = all ? int(p->out.size()) : g.range(1, int(p->out.size()));
    p->s->write(p->out.left(n));
    p->out.remove(0, n);
}
static void caseC20(Rng &g) {
    auto *v = V();
    v->reset(&g);
    const long live0 = Tracked::live;
    {
        World w{g, {}, {}, {}, {}, {}};
        W = &w;
        w.ops.reserve(1024);
        w.log.reserve(1 << 16);
        w.autoPong = g.chance(3, 4);
        if (!w.server.listen(QHostAddress(ownHost()))) abort();
        QObject::connect(&w.server, &QTcpServer::newConnection, [&w] {
            while (auto *s = w.server.nextPendingConnection()) {
                auto p = std::make_unique<Peer>();
                p->s = s;
                Peer *x = p.get();
                QObject::connect(s, &QIODevice::readyRead, [x] { handle(x); });
                w.peers.push_back(std::move(p));
            }
        });
        w.ws = std::make_unique<QWebSocket>();
        w.ws->setProxy(QNetworkProxy::NoProxy);
        auto add = [&w](Kind k, QByteArray d, qint64 n) { if (w.log.size() + 1 < (1 << 16)) w.log.push_back({k, std::move(d), n, V()->now}); };
        auto *ws = w.ws.get();
        QObject::connect(ws, &QWebSocket::textMessageReceived, [add](const QString &s) { ev("text message"); add(TextMessage, bytesOf(s), 0); });
        QObject::connect(ws, &QWebSocket::binaryMessageReceived, [add](const QByteArray &s) { ev("binary message"); add(BinaryMessage, s, 0); });
        QObject::connect(ws, &QWebSocket::textFrameReceived, [add](const QString &s, bool l) { add(TextFrame, bytesOf(std::make_tuple(s, l)), 0); });
        QObject::connect(ws, &QWebSocket::binaryFrameReceived, [add](const QByteArray &s, bool l) { add(BinaryFrame, bytesOf(std::make_tuple(s, l)), 0); });
        QObject::connect(ws, &QWebSocket::pong, [add](quint64 t, const QByteArray &p) { ev("pong arrived"); add(Pong, p, qint64(t)); });
        QObject::connect(ws, &QWebSocket::stateChanged, [add](QAbstractSocket::SocketState s) { ev("state %d", int(s)); if (s != QAbstractSocket::ConnectedState) W->sentPings.clear(); stateChanged(int(s)); add(State, {}, int(s)); });
        QObject::connect(ws, qOverload<QAbstractSocket::SocketError>(&QWebSocket::error), [add](QAbstractSocket::SocketError e) { ev("error"); ++W->errors; add(Error, {}, int(e)); });
        auto peer = [&w]() { return w.peers.empty() ? nullptr : w.peers.back().get(); };
        auto pump = [&](bool all) { for (auto &p : w.peers) flush(g, p.get(), all); };
        const int rounds = g.range(14, 50);
        for (int k = 0; k < rounds && !run().caseFailed; ++k) {
            if (!connected() && !w.opening && w.ws->state() == QAbstractSocket::UnconnectedState && g.chance(1, 2)) { opener(g.next()); for (int i = g.below(8); i > 0; --i) v->waitReal(1); }
            switch (g.below(14)) {
            case 0: if (!w.opening && g.chance(1, 3)) opener(g.next()); break;
            case 1: case 2: if (w.streams < 4 && (connected() || g.chance(1, 5))) stream(g); break;
            case 3: if (connected() || g.chance(1, 5)) pinger(g.next()); break;
            case 4: case 5: case 6: if (auto *p = peer()) for (int i = g.chance(1, 3) ? g.range(2, 6) : 1; i > 0; --i) { speak(g, p); } break;
            case 7: pump(g.chance(1, 2)); break;
            case 8: v->step(); break;
            case 9: v->settle(); quiet(); break;
            case 10: ev("advance"); v->advanceBy(g.below(25)); quiet(); break;
            case 11: if (g.chance(1, 6)) { if (g.chance(1, 2)) { ev("abort"); leave(true); } else { ev("close"); leave(false); } } else if (connected() && g.chance(1, 3)) w.ws->sendTextMessage(QStringLiteral("hello")); break;
            default: v->waitReal(2);
            }
        }
        ev("closing");
        const bool abort = g.chance(1, 2);
        if (auto *p = peer()) { // the pings have gone out
            auto stays = [&] { return connected() && p->up && !p->ended && p->s->state() == QAbstractSocket::ConnectedState; };
            for (int k = 0; k < 400 && stays() && p->got.size() < w.sentPings.size(); ++k) v->waitReal(5);
            if (stays() && !w.sentPings.isEmpty()) { count("ping_checks"); VH_CHECK("C20", "ping-not-sent", p->got == w.sentPings, "the server has received %d pings instead of the %d that were sent, or others", int(p->got.size()), int(w.sentPings.size())); }
        }
        for (int k = 0; k < 60 && !run().caseFailed; ++k) {
            pump(true);
            v->waitReal(k < 5 ? 1 : 0);
            v->advanceBy(g.below(20));
            quiet();
            if (k == 6) { if (abort) { ev("abort"); leave(true); } else { ev("close"); leave(false); } }
            if (k == 20) { ev("abort"); leave(true); }
            bool busy = false;
            for (auto &o : w.ops) if (!o->over) busy = true;
            // A QWebSocket whose handshake has failed may be stuck in connecting: connect it once more.
            if (k > 25 && k < 45 && busy) { if (k == 26) { ev("connect"); w.mode = 0; w.again = true; w.ws->open(QUrl(base(w.server.serverPort()) + QStringLiteral("x"))); } v->waitReal(connected() ? 0 : 5); }
            if (k == 46 && busy) { ev("abort"); leave(true); }
        }
        if (!run().caseFailed) for (auto &o : w.ops) VH_CHECK("C20", "not-resumed", o->over, "operation %d (%s) is not over at the end", o->id, o->form);
        if (w.ops.size() >= 3 && w.log.size() >= 2) nontrivial();
        if (run().caseFailed) { leave(true); v->advanceBy(1000); if (w.streams || w.opening) { outLine("{\"t\":\"fatal\"}"); _exit(10); } for (auto &o : w.ops) if (!o->over) { outLine("{\"t\":\"fatal\"}"); _exit(10); } }
        w.meant = true;
        w.ws.reset();
        for (auto &p : w.peers) delete p->s;
        w.server.close();
        v->advanceBy(50);
    }
    VH_CHECK("C20", "leaked", Tracked::live == live0, "%ld objects of coroutines are still alive", long(Tracked::live - live0));
    flushDeferredDeletes();
}
}
int main(int argc, char **argv) {
    vh::parse(argc, argv);
    return monitorMain(argc, argv, [] {
    Options o;
    o.leakEvery = 64;
    o.leakRepeats = 8;
    return runCases(run().prop == "C21" ? c21::caseC21 : c20::caseC20, o);
    });
}
