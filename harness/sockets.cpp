// C17: TCP and local sockets; C18: TCP servers. Real sockets on the loopback interface, polled by
// the virtual-time dispatcher.
#include "vh.h"
#include <chrono>
#include <deque>
#include <QHostAddress>
#include <QLocalServer>
#include <QLocalSocket>
#include <QTcpServer>
#include <QTcpSocket>
#include <QTemporaryDir>
#include <QUdpSocket>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <qcoroabstractsocket.h>
#include <qcorolocalsocket.h>
#include <qcorotask.h>
#include <qcorotcpserver.h>
#include <qcorotimer.h>

using namespace vh;
using QCoro::Task;
using std::chrono::milliseconds;

static QTemporaryDir *dir;
static VDispatcher *V() { return VDispatcher::instance(); }

constexpr int byDefault = 30000; // the timeout of calls without one
enum Evt { Connected, Disconnected, Unconnected };
struct Sock {
    int id = 0; bool local = false;
    struct E { Evt e; qint64 at; qint64 n = 0; };
    std::vector<E> log; // what the socket reported
    QByteArray sent; qint64 flushed = 0; std::vector<E> bw; long readies = 0; // written by this side; sent, according to bytesWritten
    qint64 pos = 0;                       // read by this side
    bool reading = false, eof = false; int writing = 0;
    bool closedHere = false, aborted = false;
    int closes = 0, errors = 0;
    Sock *peer = nullptr;
    virtual ~Sock() = default;
    virtual QIODevice *dev() = 0;
    virtual int state() = 0; // 0 unconnected, 1 connecting, 2 connected, 3 closing
    virtual Task<bool> connectTo(int form, milliseconds timeout) = 0;
    virtual Task<bool> waitC(int form, milliseconds timeout) = 0;
    virtual Task<bool> waitD(int form, milliseconds timeout) = 0;
    virtual Task<QByteArray> read(int kind, qint64 max, milliseconds timeout) = 0;
    virtual Task<bool> ready(milliseconds timeout) = 0;
    virtual Task<qint64> write(const QByteArray &d) = 0;
    virtual Task<std::optional<qint64>> flush(int form, milliseconds timeout) = 0;
    virtual void disconnect() = 0;
    virtual void abort() = 0;
    virtual void plainConnect() = 0;
};
static QString target; static QHostAddress host; static quint16 port; // where the client of this case connects to
struct Tcp : Sock {
    std::unique_ptr<QTcpSocket> s;
    explicit Tcp(QTcpSocket *x) : s(x) {
        QObject::connect(x, &QTcpSocket::errorOccurred, [this] { ++errors; });
        QObject::connect(x, &QTcpSocket::connected, [this] { log.push_back({Connected, V()->now}); ev("connected %d", id); });
        QObject::connect(x, &QTcpSocket::disconnected, [this] { log.push_back({Disconnected, V()->now}); ev("disconnected %d", id); });
        QObject::connect(x, &QTcpSocket::stateChanged, [this](QAbstractSocket::SocketState st) { if (st == QAbstractSocket::UnconnectedState) { log.push_back({Unconnected, V()->now}); ev("unconnected %d", id); } });
        QObject::connect(x, &QIODevice::aboutToClose, [this] { ++closes; });
        QObject::connect(x, &QIODevice::readyRead, [this] { ++readies; });
        QObject::connect(x, &QIODevice::bytesWritten, [this](qint64 n) { flushed += n; bw.push_back({Connected, V()->now, n}); });
    }
    QIODevice *dev() override { return s.get(); }
    int state() override { switch (s->state()) { case QAbstractSocket::UnconnectedState: return 0; case QAbstractSocket::ConnectedState: return 2; case QAbstractSocket::ClosingState: return 3; default: return 1; } }
    Task<bool> connectTo(int form, milliseconds t) override {
        if (t.count() == byDefault) { if (form) return qCoro(*s).connectToHost(target, port); return qCoro(s.get()).connectToHost(host, port); }
        if (form == 0) return qCoro(*s).connectToHost(host, port, QIODevice::ReadWrite, t);
        if (form == 1) return qCoro(s.get()).connectToHost(target, port, QIODevice::ReadWrite, QAbstractSocket::IPv4Protocol, t);
        return qCoro(s.get()).connectToHost(host.toString(), port, QIODevice::ReadWrite, QAbstractSocket::AnyIPProtocol, t);
    }
    void plainConnect() override { s->connectToHost(host, port); }
    Task<bool> waitC(int form, milliseconds t) override { if (t.count() == byDefault) return qCoro(*s).waitForConnected(); if (form) return qCoro(*s).waitForConnected(t); return qCoro(s.get()).waitForConnected(int(t.count())); }
    Task<bool> waitD(int form, milliseconds t) override { if (t.count() == byDefault) return qCoro(*s).waitForDisconnected(); if (form) return qCoro(*s).waitForDisconnected(t); return qCoro(s.get()).waitForDisconnected(int(t.count())); }
    Task<QByteArray> read(int kind, qint64 max, milliseconds t) override { auto q = qCoro(*s); if (kind == 0) co_return co_await q.readAll(t); if (kind == 1) co_return co_await q.read(max, t); co_return co_await q.readLine(0, t); }
    Task<bool> ready(milliseconds t) override { co_return co_await qCoro(*s).waitForReadyRead(t); }
    Task<qint64> write(const QByteArray &d) override { auto q = qCoro(s.get()); co_return co_await q.write(d); }
    Task<std::optional<qint64>> flush(int form, milliseconds t) override { auto q = qCoro(s.get()); if (form) co_return co_await q.waitForBytesWritten(int(t.count())); co_return co_await q.waitForBytesWritten(t); }
    void disconnect() override { s->disconnectFromHost(); }
    void abort() override { s->abort(); }
};
struct Local : Sock {
    std::unique_ptr<QLocalSocket> s;
    explicit Local(QLocalSocket *x) : s(x) {
        local = true;
        QObject::connect(x, &QLocalSocket::errorOccurred, [this] { ++errors; });
        QObject::connect(x, &QLocalSocket::connected, [this] { log.push_back({Connected, V()->now}); ev("connected %d", id); });
        QObject::connect(x, &QLocalSocket::disconnected, [this] { log.push_back({Disconnected, V()->now}); ev("disconnected %d", id); });
        QObject::connect(x, &QLocalSocket::stateChanged, [this](QLocalSocket::LocalSocketState st) { if (st == QLocalSocket::UnconnectedState) { log.push_back({Unconnected, V()->now}); ev("unconnected %d", id); } });
        QObject::connect(x, &QIODevice::aboutToClose, [this] { ++closes; });
        QObject::connect(x, &QIODevice::readyRead, [this] { ++readies; });
        QObject::connect(x, &QIODevice::bytesWritten, [this](qint64 n) { flushed += n; bw.push_back({Connected, V()->now, n}); });
    }
    QIODevice *dev() override { return s.get(); }
    int state() override { switch (s->state()) { case QLocalSocket::UnconnectedState: return 0; case QLocalSocket::ConnectedState: return 2; case QLocalSocket::ClosingState: return 3; default: return 1; } }
    Task<bool> connectTo(int form, milliseconds t) override {
        if (t.count() == byDefault) { if (form) return qCoro(*s).connectToServer(target); s->setServerName(target); return qCoro(s.get()).connectToServer(); }
        if (form == 0) return qCoro(*s).connectToServer(target, QIODevice::ReadWrite, t);
        s->setServerName(target);
        if (form == 1) return qCoro(s.get()).connectToServer(QIODevice::ReadWrite, t);
        return qCoro(*s).connectToServer(QIODevice::ReadWrite, t);
    }
    void plainConnect() override { s->connectToServer(target); }
    Task<bool> waitC(int form, milliseconds t) override { if (t.count() == byDefault) return qCoro(*s).waitForConnected(); if (form) return qCoro(*s).waitForConnected(t); return qCoro(s.get()).waitForConnected(int(t.count())); }
    Task<bool> waitD(int form, milliseconds t) override { if (t.count() == byDefault) return qCoro(*s).waitForDisconnected(); if (form) return qCoro(*s).waitForDisconnected(t); return qCoro(s.get()).waitForDisconnected(int(t.count())); }
    Task<QByteArray> read(int kind, qint64 max, milliseconds t) override { auto q = qCoro(*s); if (kind == 0) co_return co_await q.readAll(t); if (kind == 1) co_return co_await q.read(max, t); co_return co_await q.readLine(0, t); }
    Task<bool> ready(milliseconds t) override { co_return co_await qCoro(*s).waitForReadyRead(t); }
    Task<qint64> write(const QByteArray &d) override { auto q = qCoro(s.get()); co_return co_await q.write(d); }
    Task<std::optional<qint64>> flush(int form, milliseconds t) override { auto q = qCoro(s.get()); if (form) co_return co_await q.waitForBytesWritten(int(t.count())); co_return co_await q.waitForBytesWritten(t); }
    void disconnect() override { s->disconnectFromServer(); }
    void abort() override { s->abort(); }
};

enum Kind { WaitC, WaitD, Read, Ready, Write, Flush };
struct Op { int id; Sock *s; Kind kind; const char *form = ""; qint64 due = -1; bool over = false, late = false; int n = 0; size_t log0 = 0, bw0 = 0; int closes0 = 0; int state0 = 0; bool idle = false; };
struct World { Rng &g; std::vector<std::unique_ptr<Sock>> socks; std::vector<std::unique_ptr<Op>> ops; };
static World *W;
static Op *newOp(Sock *s, Kind k, const char *form, int timeout) {
    auto o = std::make_unique<Op>();
    o->id = int(W->ops.size()); o->s = s; o->kind = k; o->form = form; o->log0 = s->log.size(); o->bw0 = s->bw.size(); o->closes0 = s->closes; o->state0 = s->state();
    if (timeout >= 0) o->due = V()->now + timeout;
    ev("op %d %s on %d, timeout %d, state %d", o->id, form, s->id, timeout, o->state0);
    Op *x = o.get(); W->ops.push_back(std::move(o)); return x;
}
// The first thing that ended the wait: 1 what was waited for, 0 failure, -1 nothing yet.
static int ended(const Op *o, qint64 *at) {
    const auto &l = o->s->log;
    for (size_t i = o->log0; i < l.size(); ++i) {
        *at = l[i].at;
        if (o->kind == WaitC) { if (l[i].e == Connected) return 1; if (l[i].e == Unconnected) return 0; }
        else {
            if (l[i].e == Disconnected) return 1;
            // "unconnected" comes before "disconnected" when the connection ends
            if (l[i].e == Unconnected && !(i + 1 < l.size() && l[i + 1].e == Disconnected)) return 0;
        }
    }
    return -1;
}
static void resumed(Op *o, bool result) {
    ++o->n; o->over = true;
    ev("op %d %s: %d", o->id, o->form, result);
    count("waits");
    VH_CHECK("C17", "resumed-twice", o->n == 1, "wait %d was resumed %d times", o->id, o->n);
    qint64 at = 0;
    const int e = ended(o, &at);
    const qint64 now = V()->now;
    const char *what = o->kind == WaitC ? "connected" : "disconnected";
    if (result) VH_CHECK("C17", "true-wrong", e == 1, "wait %d (%s) says true, but the socket %s", o->id, o->form, e < 0 ? "is in the same state as before" : "failed first");
    else {
        VH_CHECK("C17", "false-wrong", e == 0 || (o->due >= 0 && now >= o->due), "wait %d (%s) says false at %lld; the socket has not failed, and the timeout is due at %lld", o->id, o->form, (long long)now, (long long)o->due);
        VH_CHECK("C17", "false-wrong", !(e == 1 && (o->due < 0 || at < o->due)), "wait %d (%s) says false although the socket was %s at %lld, before the timeout at %lld", o->id, o->form, what, (long long)at, (long long)o->due);
    }
}
static Task<> waiter(Sock *s, Kind kind, uint64_t seed) {
    Rng g(seed);
    Tracked local(1);
    const int timeout = g.chance(1, 8) ? byDefault : g.chance(1, 2) ? -1 : g.below(50);
    Op *o = newOp(s, kind, kind == WaitC ? "waitForConnected()" : "waitForDisconnected()", timeout);
    o->idle = o->state0 == 0;
    const bool immediate = kind == WaitC ? o->state0 == 2 : o->state0 == 0;
    const long steps = V()->steps;
    bool r;
    if (g.chance(1, 4)) {
        auto t = kind == WaitC ? s->waitC(g.below(2), milliseconds(timeout)) : s->waitD(g.below(2), milliseconds(timeout));
        if (g.chance(1, 3)) { o->late = true; co_await QCoro::sleepFor(milliseconds(g.below(10))); }
        r = co_await t;
    } else if (kind == WaitC) r = co_await s->waitC(g.below(2), milliseconds(timeout));
    else r = co_await s->waitD(g.below(2), milliseconds(timeout));
    if (immediate) {
        ++o->n; o->over = true;
        ev("op %d: %d", o->id, r);
        count("waits");
        VH_CHECK("C17", "needless-suspension", o->late || steps == V()->steps, "wait %d (%s) gave up control in state %d", o->id, o->form, o->state0);
        VH_CHECK("C17", "wrong-result", r == (kind == WaitC), "wait %d (%s) says %d in state %d", o->id, o->form, r, o->state0);
    } else resumed(o, r);
    local.check();
}
static Task<> connector(Sock *s, uint64_t seed) {
    Rng g(seed);
    Tracked local(1);
    const int timeout = g.chance(1, 8) ? byDefault : g.chance(1, 2) ? -1 : g.below(50);
    Op *o = newOp(s, WaitC, "connectTo...()", timeout);
    bool r;
    if (g.chance(1, 4)) {
        auto t = s->connectTo(g.below(3), milliseconds(timeout));
        if (g.chance(1, 3)) { o->late = true; co_await QCoro::sleepFor(milliseconds(g.below(10))); }
        r = co_await t;
    } else r = co_await s->connectTo(g.below(3), milliseconds(timeout));
    resumed(o, r);
    local.check();
}
static bool endedSince(const Op *o) { for (size_t i = o->log0; i < o->s->log.size(); ++i) if (o->s->log[i].e != Connected) return true; return false; }
static Task<> reader(Sock *s, uint64_t seed) {
    Rng g(seed);
    Tracked local(1);
    s->reading = true;
    for (;;) {
        static const char *names[] = {"readAll()", "read()", "readLine()", "waitForReadyRead()"};
        const int kind = g.below(4);
        const qint64 max = kind == 1 ? g.range(1, 500) : 0;
        const int timeout = g.chance(2, 3) ? -1 : g.range(1, 40);
        Op *o = newOp(s, kind == 3 ? Ready : Read, names[kind], timeout);
        const bool had = s->dev()->bytesAvailable() > 0, readable = s->dev()->isReadable();
        const int closes = s->closes;
        const long steps = V()->steps, readies = s->readies;
        QByteArray b; bool r = false;
        if (kind == 3) r = co_await s->ready(milliseconds(timeout));
        else b = co_await s->read(kind, max, milliseconds(timeout));
        ++o->n; o->over = true;
        const qint64 now = V()->now;
        ev("op %d %s: %d", o->id, o->form, kind == 3 ? int(r) : int(b.size()));
        count("reads"); count("bytes_read", b.size());
        VH_CHECK("C17", "resumed-twice", o->n == 1, "read %d was resumed %d times", o->id, o->n);
        if (had && readable) VH_CHECK("C17", "needless-suspension", steps == V()->steps, "read %d (%s) gave up control although there were data", o->id, o->form);
        const bool none = kind == 3 ? !r : b.isEmpty();
        if (none) {
            VH_CHECK("C17", "empty-read", !readable || s->state() == 0 || s->state() == 3 || endedSince(o) || s->closes > closes || o->state0 == 0 || o->state0 == 3 || (o->due >= 0 && now >= o->due), "read %d (%s) ended without data at %lld; the socket is connected and the timeout due at %lld", o->id, o->form, (long long)now, (long long)o->due);
            VH_CHECK("C17", "empty-read", !(had && readable), "read %d (%s) ended without data although there were some", o->id, o->form);
            if (s->state() == 0 && s->dev()->bytesAvailable() == 0) { s->eof = true; break; }
            if (!s->dev()->isReadable() || s->closes > closes) break;
            if (s->state() != 2) co_await QCoro::sleepFor(milliseconds(5)); // on its way up or down
        } else if (kind == 3) {
            VH_CHECK("C17", "ready-wrong", s->dev()->bytesAvailable() > 0 || s->readies > readies, "wait %d says that there is something to read, but there is not (state %d)", o->id, s->state());
        } else {
            if (kind == 1) VH_CHECK("C17", "too-many-bytes", b.size() <= max, "read %d yields %d bytes, more than %lld", o->id, int(b.size()), (long long)max);
            if (kind == 2) VH_CHECK("C17", "beyond-newline", b.indexOf('\n') < 0 || b.indexOf('\n') == b.size() - 1, "read %d goes beyond a newline", o->id);
            VH_CHECK("C17", "wrong-bytes", s->peer && s->peer->sent.mid(int(s->pos), b.size()) == b, "read %d (%s) yields %d bytes that are not those sent next (from %lld)", o->id, o->form, int(b.size()), (long long)s->pos);
            s->pos += b.size();
        }
        if (g.chance(1, 6)) co_await QCoro::sleepFor(milliseconds(g.below(12)));
    }
    s->reading = false;
    local.check();
}
static Task<> writer(Sock *s, uint64_t seed, int pieces, bool end) {
    Rng g(seed);
    Tracked local(1);
    ++s->writing;
    for (int k = 0; k < pieces; ++k) {
        if (!(s->state() == 2 || (s->state() == 1 && !s->local)) || !s->dev()->isWritable()) break; // (a TCP socket that is connecting takes data)
        if (s->state() == 1) count("writes_while_connecting");
        Op *o = newOp(s, Write, "write()", -1);
        const int size = g.chance(1, 100) ? g.range(1000000, 5000000) : g.chance(1, 8) ? g.range(20000, 400000) : g.range(1, 500);
        QByteArray data(size, 'x');
        for (int j = 0; j < size; ++j) data[j] = g.chance(1, 40) ? '\n' : char(g.next());
        s->sent += data;
        const int closes = s->closes;
        const qint64 ahead = s->flushed + s->dev()->bytesToWrite();
        const qint64 n = co_await s->write(data);
        ++o->n; o->over = true;
        ev("op %d: %lld of %d written", o->id, (long long)n, size);
        count("writes");
        VH_CHECK("C17", "resumed-twice", o->n == 1, "write %d was resumed %d times", o->id, o->n);
        if (!endedSince(o) && s->closes == closes && (s->state() == 2 || s->state() == 1)) {
            VH_CHECK("C17", "wrong-number", n == size, "write %d reports %lld of %d bytes", o->id, (long long)n, size);
            if (s->writing == 1) VH_CHECK("C17", "early", s->dev()->bytesToWrite() == 0, "write %d is over although %lld bytes have not been sent", o->id, (long long)s->dev()->bytesToWrite());
        } else {
            // the socket cannot have sent more than it has reported
            const qint64 mine = std::clamp<qint64>(s->flushed - ahead, 0, size);
            VH_CHECK("C17", "wrong-number", n >= 0 && n <= mine, "write %d reports %lld of %d bytes, but only %lld of them were sent", o->id, (long long)n, size, (long long)mine);
            count("writes_cut_short", mine < size);
            break;
        }
        if (g.chance(1, 4)) co_await QCoro::sleepFor(milliseconds(g.below(12)));
    }
    if (end && s->state() == 2 && s->writing == 1) { ev("disconnect %d", s->id); s->closedHere = true; s->disconnect(); }
    --s->writing;
    local.check();
}
static Task<> flusher(Sock *s, uint64_t seed) {
    Rng g(seed);
    Tracked local(1);
    const int timeout = g.chance(1, 8) ? byDefault : g.chance(1, 2) ? -1 : g.below(40);
    Op *o = newOp(s, Flush, "waitForBytesWritten()", timeout);
    const bool none = s->dev()->isWritable() && s->dev()->bytesToWrite() == 0, writable = s->dev()->isWritable();
    const long steps = V()->steps;
    const auto r = co_await s->flush(g.below(2), milliseconds(timeout));
    ++o->n; o->over = true;
    const qint64 now = V()->now;
    ev("op %d %s: %lld", o->id, o->form, r ? (long long)*r : -1);
    count("flushes");
    VH_CHECK("C17", "resumed-twice", o->n == 1, "wait %d was resumed %d times", o->id, o->n);
    const bool any = s->bw.size() > o->bw0;
    if (none || !writable) VH_CHECK("C17", "flush-wrong", steps == V()->steps && (none ? r == 0 : !r), "wait %d (%s) yields %lld or gives up control although nothing is to be written", o->id, o->form, r ? (long long)*r : -1);
    else if (r) VH_CHECK("C17", "flush-wrong", any && s->bw[o->bw0].n == *r, "wait %d (%s) yields %lld bytes; the socket reported %lld", o->id, o->form, (long long)*r, any ? (long long)s->bw[o->bw0].n : -1);
    else {
        VH_CHECK("C17", "flush-wrong", endedSince(o) || s->state() == 0 || s->state() == 3 || o->state0 == 3 || s->closes > o->closes0 || (o->due >= 0 && now >= o->due), "wait %d (%s) yields nothing at %lld; the socket is connected and the timeout due at %lld", o->id, o->form, (long long)now, (long long)o->due);
    }
    local.check();
}
static void quiet() {
    // A wait that times out leaves the connection alone.
    for (auto &p : W->socks) {
        Sock &s = *p;
        const bool lost = s.state() == 3 || std::any_of(s.log.begin(), s.log.end(), [](auto &e) { return e.e == Unconnected; });
        if (lost && !s.errors && !s.closedHere && !s.aborted) violation("C17", "closed-by-wait", "socket %d has been closed, although nobody has asked for that and nothing has failed", s.id);
        count("lifetimes_checked");
    }
    for (auto &p : W->ops) {
        Op &o = *p;
        if (o.over || o.late) continue;
        qint64 at;
        const int st = o.s->state();
        if (o.due >= 0 && o.due <= V()->now) violation("C17", "timeout-missing", "operation %d (%s) was not resumed although its timeout was due at %lld", o.id, o.form, (long long)o.due);
        else if (o.kind == WaitC || o.kind == WaitD) {
            const int e = ended(&o, &at);
            if (e >= 0) violation("C17", "not-resumed", "wait %d (%s) was not resumed although the socket %s", o.id, o.form, e ? (o.kind == WaitC ? "is connected" : "was disconnected") : "failed");
            else if (st == 0 && !(o.kind == WaitC && o.idle && strcmp(o.form, "connectTo...()"))) violation("C17", "not-resumed", "wait %d (%s) is still waiting although the socket is not connected nor connecting", o.id, o.form);
        } else if (o.kind == Write) { if (st == 0) violation("C17", "not-resumed", "write %d was not resumed although the connection has ended", o.id); else if (st == 2 && o.s->dev()->bytesToWrite() == 0) violation("C17", "not-resumed", "write %d was not resumed although everything was sent", o.id); }
        else if (o.kind == Flush) { if (o.s->bw.size() > o.bw0 || st == 0) violation("C17", "not-resumed", "wait %d (%s) was not resumed although %s", o.id, o.form, st == 0 ? "the connection has ended" : "bytes were written"); }
        else if (st == 0) violation("C17", "not-resumed", "read %d (%s) was not resumed although the connection has ended", o.id, o.form);
        else if (o.s->dev()->bytesAvailable() > 0) violation("C17", "not-resumed", "read %d (%s) was not resumed although there are data", o.id, o.form);
    }
    count("quiet_checks");
}
static int blackHole(std::vector<int> &fds) { // a TCP port that does not answer
    int l = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(ownHost());
    socklen_t n = sizeof a;
    if (bind(l, (sockaddr *)&a, n) || listen(l, 0) || getsockname(l, (sockaddr *)&a, &n)) abort();
    fds.push_back(l);
    for (int i = 0; i < 2; ++i) { int c = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0); (void)connect(c, (sockaddr *)&a, n); fds.push_back(c); }
    return ntohs(a.sin_port);
}
static int caseNo = 0;
static void caseC17(Rng &g) {
    auto *v = V();
    const long steps0 = v->steps;
    v->reset(&g);
    const long live0 = Tracked::live;
    std::vector<int> fds;
    {
        World w{g, {}, {}};
        W = &w;
        w.ops.reserve(512);
        const bool local = g.chance(1, 2);
        const bool oneWay = g.chance(1, 2); // only one side sends (then the other reads everything)
        const bool clientSends = g.chance(1, 2);
        std::unique_ptr<QTcpServer> ts; std::unique_ptr<QLocalServer> ls;
        std::function<void()> accept;
        int how = g.chance(3, 4) ? 0 : g.range(1, 3); // there is a server, refused, no answer, no such host
        if (local && how > 1) how = 1;
        auto adopt = [&](std::unique_ptr<Sock> s) {
            s->id = int(w.socks.size());
            s->dev()->setParent(nullptr);
            ev("accepted %d", s->id);
            // the newest client that has no peer yet
            for (auto &c : w.socks) if (!c->peer && c->id == 0) { c->peer = s.get(); s->peer = c.get(); }
            w.socks.push_back(std::move(s));
        };
        if (local) {
            target = dir->path() + QStringLiteral("/s%1").arg(++caseNo);
            if (how == 0) {
                ls = std::make_unique<QLocalServer>();
                if (!ls->listen(target)) abort();
                QObject::connect(ls.get(), &QLocalServer::newConnection, [&] { while (auto *x = ls->nextPendingConnection()) adopt(std::make_unique<Local>(x)); });
            }
        } else {
            const bool local4 = how == 0 && g.chance(1, 2); // the name is looked up
            host = local4 ? QHostAddress(QHostAddress::LocalHost) : QHostAddress(ownHost());
            target = local4 ? QStringLiteral("localhost") : host.toString();
            ts = std::make_unique<QTcpServer>();
            if (!ts->listen(host)) abort();
            port = ts->serverPort();
            QObject::connect(ts.get(), &QTcpServer::newConnection, [&] { while (auto *x = ts->nextPendingConnection()) adopt(std::make_unique<Tcp>(x)); });
            if (how == 1 || how == 3) ts->close();
            if (how == 2) port = quint16(blackHole(fds));
            if (how == 3) target = QStringLiteral("no-such-host.invalid");
        }
        ev("%s, server %d, %s", local ? "local" : "tcp", how, oneWay ? (clientSends ? "client sends" : "server sends") : "both send");
        {
            std::unique_ptr<Sock> c;
            if (local) c = std::make_unique<Local>(new QLocalSocket); else c = std::make_unique<Tcp>(new QTcpSocket);
            w.socks.push_back(std::move(c));
        }
        Sock *client = w.socks[0].get();
        bool tried = false, reconnected = false;
        auto sends = [&](Sock *s) { return !oneWay || (s == client) == clientSends; };
        const int rounds = g.range(8, 34);
        for (int k = 0; k < rounds; ++k) {
            Sock *s = w.socks[size_t(g.below(int(w.socks.size())))].get();
            switch (k < 2 ? g.below(2) : g.below(14)) {
            case 0:
                if (!tried) { tried = true; if (g.chance(3, 4)) connector(client, g.next()); else { ev("connect"); client->plainConnect(); if (g.chance(1, 2)) waiter(client, WaitC, g.next()); } break; }
                [[fallthrough]];
            case 1: waiter(s, g.chance(1, 2) && (s == client || s->state()) ? WaitC : WaitD, g.next()); break;
            case 2: case 3: if (!s->reading && (s->state() == 2 || (s->state() == 1 && !s->local))) reader(s, g.next()); break;
            case 4: case 5: if ((s->state() == 2 || (s->state() == 1 && !s->local)) && sends(s) && s->writing < 2 && !s->closedHere) writer(s, g.next(), g.range(1, 4), g.chance(1, 4)); break;
            case 6: if ((s->state() == 2 || (s->state() == 1 && !s->local)) && g.chance(1, 2)) flusher(s, g.next()); else v->step(); break;
            case 7: v->step(); break;
            case 8: v->settle(); quiet(); break;
            case 9: ev("advance"); v->advanceBy(g.chance(1, 25) ? g.range(29000, 31000) : g.below(30)); quiet(); break;
            case 10: case 11: v->waitReal(1); if (g.chance(1, 2)) { v->settle(); quiet(); } break;
            default:
                if (g.chance(1, 3) && s->state() > 0) {
                    s->closedHere = true;
                    switch (g.below(4)) {
                    case 0: ev("abort %d", s->id); s->aborted = true; s->abort(); break;
                    case 1: ev("close %d", s->id); s->dev()->close(); break;
                    default: ev("disconnect %d", s->id); s->disconnect();
                    }
                }
            }
        }
        ev("closing");
        if (!tried) client->plainConnect();
        v->advanceBy(100);
        quiet();
        // Everybody reads to the end, and one side ends the connection once it has sent everything.
        const int closer = oneWay ? (clientSends ? 0 : 1) : g.below(2);
        for (int round = 0; round < 3000 && !run().caseFailed; ++round) {
            bool busy = false;
            for (auto &p : w.socks) {
                if (p->state() == 2 && !p->reading && !p->closedHere) reader(p.get(), g.next());
                if (p->state() == 2 && !p->writing && !p->closedHere && (p->id == closer || round > 30 || (p->peer && p->peer->closedHere))) {
                    // the other direction must have been emptied, or closing would reset the connection
                    if (!p->peer || p->pos == p->peer->sent.size() || round > 200) { ev("disconnect %d", p->id); p->closedHere = true; p->disconnect(); }
                }
                if (p->state() == 3 && round > 1500) { p->aborted = true; p->abort(); }
                if (p->state() != 0 || p->reading || p->writing) busy = true;
            }
            for (auto &o : w.ops) if (!o->over) busy = true;
            if (!busy) break;
            if (round % 20 == 5 && client->state() == 1 && how == 2) { ev("give up"); client->aborted = true; client->abort(); }
            if (round >= 10) for (auto &o : w.ops) if (!o->over && o->kind == WaitC && o->idle && client->state() == 0) { // waits for a connection that nobody makes
                ev("connect at last");
                if (!client->peer) client->sent.clear(); // what was written to the connection that failed
                reconnected = true;
                client->plainConnect();
                break;
            }
            v->waitReal(round < 5 ? 1 : 3);
            v->settle();
            quiet();
            v->advanceBy(g.below(60));
            quiet();
        }
        if (getenv("VH_SLOW") && v->steps - steps0 > 3000) { fprintf(stderr, "slow %llx %ld\n", (unsigned long long)run().caseSeed, v->steps - steps0); }
        if (!run().caseFailed) for (auto &o : w.ops) VH_CHECK("C17", "not-resumed", o->over, "operation %d (%s) is not over at the end", o->id, o->form);
        for (auto &p : w.socks) {
            // one side sent, did not abort, and the other read to the end without closing itself
            if (!p->eof || !p->peer || p->closedHere || p->aborted || p->peer->aborted || reconnected || !oneWay || sends(p.get())) continue;
            if (p->peer->closes && !p->peer->closedHere) continue;
            count("complete_streams");
            VH_CHECK("C17", "missing-bytes", p->pos == p->peer->sent.size(), "socket %d read %lld of the %d bytes that were sent before the connection ended", p->id, (long long)p->pos, int(p->peer->sent.size()));
        }
        if (w.ops.size() >= 3) nontrivial();
        if (run().caseFailed) {
            for (auto &s : w.socks) s->abort();
            v->advanceBy(100000);
            for (auto &o : w.ops) if (!o->over) { outLine("{\"t\":\"fatal\"}"); _exit(10); }
        }
        v->advanceBy(100);
    }
    for (int f : fds) ::close(f);
    VH_CHECK("C17", "leaked", Tracked::live == live0, "%ld objects of coroutines are still alive", long(Tracked::live - live0));
    flushDeferredDeletes();
}

// UDP: waiting for datagrams of a socket that is bound (or connected).
struct Udp { QUdpSocket rx; std::deque<QByteArray> sent; bool stop = false, over = false, waiting = false, late = false; qint64 due = -1; int closes = 0; };
static Task<> udpReader(Udp *u, uint64_t seed, bool connected) {
    Rng g(seed);
    Tracked local(1);
    while (!u->stop) {
        const int timeout = g.chance(1, 2) ? -1 : g.below(30);
        u->due = timeout < 0 ? -1 : V()->now + timeout;
        const bool had = u->rx.bytesAvailable() > 0;
        const long steps = V()->steps;
        const int closes = u->closes;
        const int form = g.below(connected ? 3 : 2);
        u->waiting = true;
        ev("wait for datagrams, timeout %d", timeout);
        bool r = false; QByteArray b;
        if (form == 2) { b = co_await qCoro(u->rx).readAll(milliseconds(timeout)); r = !b.isEmpty(); }
        else if (form == 1) { auto t = qCoro(&u->rx).waitForReadyRead(timeout); if (g.chance(1, 2)) { u->late = true; co_await QCoro::sleepFor(milliseconds(g.below(8))); u->late = false; } r = co_await t; }
        else r = co_await qCoro(u->rx).waitForReadyRead(milliseconds(timeout));
        u->waiting = false;
        ev("datagrams: %d", r);
        count("udp_waits");
        if (had && form != 1) VH_CHECK("C17", "needless-suspension", steps == V()->steps, "a wait for datagrams gave up control although there were some");
        if (had) VH_CHECK("C17", "empty-read", r, "a wait for datagrams ended without any although there were some");
        if (!r) {
            VH_CHECK("C17", "empty-read", u->closes > closes || u->stop || (u->due >= 0 && V()->now >= u->due), "a wait for datagrams ended without any at %lld; the timeout is due at %lld", (long long)V()->now, (long long)u->due);
            if (u->closes > closes || !u->rx.isReadable()) break;
            continue;
        }
        if (form != 2) VH_CHECK("C17", "ready-wrong", u->rx.bytesAvailable() > 0 || form == 1, "a wait for datagrams says that there are some, but there are none");
        auto check = [&](const QByteArray &d) {
            VH_CHECK("C17", "wrong-bytes", !u->sent.empty() && u->sent.front() == d, "a datagram of %d bytes is not the one sent next", int(d.size()));
            if (!u->sent.empty()) u->sent.pop_front();
            count("datagrams");
        };
        if (form == 2) { // datagrams may have been put together
            while (!b.isEmpty() && !u->sent.empty() && b.startsWith(u->sent.front())) { b.remove(0, u->sent.front().size()); u->sent.pop_front(); count("datagrams"); }
            VH_CHECK("C17", "wrong-bytes", b.isEmpty(), "%d bytes were read that are not those of the datagram sent next", int(b.size()));
        }
        for (int n = g.chance(1, 3) ? 1 : 1000; n-- && u->rx.hasPendingDatagrams();) {
            QByteArray d(int(u->rx.pendingDatagramSize()), 'x');
            u->rx.readDatagram(d.data(), d.size());
            check(d);
        }
        if (g.chance(1, 4)) { u->late = true; co_await QCoro::sleepFor(milliseconds(g.below(10))); u->late = false; }
    }
    u->over = true;
    local.check();
}
static void caseUdp(Rng &g) {
    auto *v = V();
    v->reset(&g);
    const long live0 = Tracked::live;
    {
        Udp u; QUdpSocket tx;
        QObject::connect(&u.rx, &QIODevice::aboutToClose, [&u] { ++u.closes; });
        if (!u.rx.bind(QHostAddress(ownHost())) || !tx.bind(QHostAddress(ownHost()))) abort();
        const quint16 to = u.rx.localPort();
        const bool connected = g.chance(1, 3);
        if (connected) { u.rx.connectToHost(QHostAddress(ownHost()), tx.localPort()); v->settle(); }
        else u.rx.open(QIODevice::ReadWrite); // bind() does not
        ev("udp, %s, state %d", connected ? "connected" : "bound", int(u.rx.state()));
        auto quietUdp = [&] {
            if (!u.waiting || u.late) return;
            if (u.rx.bytesAvailable() > 0) violation("C17", "not-resumed", "a wait for datagrams was not resumed although there are some");
            else if (u.due >= 0 && u.due <= v->now) violation("C17", "timeout-missing", "a wait for datagrams was not resumed although its timeout was due at %lld", (long long)u.due);
            count("quiet_checks");
        };
        udpReader(&u, g.next(), connected);
        for (int k = g.range(4, 24); k--;) switch (g.below(6)) {
            case 0: case 1: { const QByteArray d = QByteArray("d") + g.bytes(g.range(1, 300)); ev("send %d", int(d.size())); u.sent.push_back(d); if (tx.writeDatagram(d, QHostAddress(ownHost()), to) != d.size()) abort(); break; }
            case 2: v->step(); break;
            case 3: ev("advance"); v->advanceBy(g.below(30)); quietUdp(); break;
            default: v->settle(); quietUdp();
        }
        for (int k = 0; k < 200 && !u.sent.empty() && !run().caseFailed; ++k) { v->waitReal(1); v->settle(); quietUdp(); v->advanceBy(5); }
        VH_CHECK("C17", "missing-bytes", u.sent.empty(), "%d datagrams were not received", int(u.sent.size()));
        u.stop = true;
        ev("close");
        u.rx.close();
        v->advanceBy(60);
        VH_CHECK("C17", "not-resumed", u.over, "a wait for datagrams was not resumed although the socket was closed");
        if (run().caseFailed) { outLine("{\"t\":\"fatal\"}"); _exit(10); }
        nontrivial();
    }
    VH_CHECK("C17", "leaked", Tracked::live == live0, "%ld objects of coroutines are still alive", long(Tracked::live - live0));
    flushDeferredDeletes();
}
// connectToHost() and connectToServer() do to the socket what their plain namesakes do to its twin.
static void caseModes(Rng &g) {
    auto *v = V();
    v->reset(&g);
    static const QIODevice::OpenMode modes[] = {QIODevice::ReadOnly, QIODevice::WriteOnly, QIODevice::ReadWrite, QIODevice::ReadWrite | QIODevice::Unbuffered, QIODevice::ReadOnly | QIODevice::Text};
    const QIODevice::OpenMode mode = modes[g.below(5)];
    const int form = g.below(4);
    const milliseconds timeout(g.chance(1, 2) ? -1 : 5000);
    auto run1 = [&](auto &a, auto &b, auto begin, auto plain) {
        bool over = false, ok = false;
        auto t = [](auto task, bool &over, bool &ok) -> Task<> { ok = co_await task; over = true; }(begin(), over, ok);
        plain();
        ev("mode %d form %d: %d", int(mode), form, int(a.openMode()));
        auto same = [&](const char *when) {
            VH_CHECK("C17", "opened-otherwise", a.openMode() == b.openMode() && a.isReadable() == b.isReadable() && a.isWritable() == b.isWritable(), "%s: the socket is open in mode %d instead of %d", when, int(a.openMode()), int(b.openMode()));
        };
        for (int k = 0; k < 400 && !(over && int(b.state()) == int(a.state())); ++k) v->waitReal(2);
        VH_CHECK("C17", "not-resumed", over, "a connection with mode %d was not made", int(mode));
        VH_CHECK("C17", "false-wrong", ok, "a connection with mode %d is reported as failed", int(mode));
        same("connected");
        count("modes");
    };
    if (g.chance(1, 2)) {
        QTcpServer srv; if (!srv.listen(QHostAddress(ownHost()))) abort();
        QTcpSocket a, b;
        const QHostAddress to(ownHost()); const quint16 port = srv.serverPort();
        run1(a, b, [&]() -> Task<bool> {
            if (form == 0) return qCoro(a).connectToHost(to, port, mode, timeout);
            if (form == 1) return qCoro(&a).connectToHost(to.toString(), port, mode, QAbstractSocket::IPv4Protocol, timeout);
            if (form == 2) return qCoro(a).connectToHost(to.toString(), port, mode, QAbstractSocket::AnyIPProtocol, timeout);
            return qCoro(a).connectToHost(to, port, mode);
        }, [&] { b.connectToHost(to, port, mode); });
        VH_CHECK("C17", "opened-otherwise", a.peerAddress() == b.peerAddress() && a.peerPort() == port, "the socket is connected to %s:%d", qPrintable(a.peerAddress().toString()), int(a.peerPort()));
        a.abort(); b.abort();
    } else {
        QTemporaryDir dir; const QString name = dir.filePath(QStringLiteral("s"));
        QLocalServer srv; if (!srv.listen(name)) abort();
        QLocalSocket a, b;
        run1(a, b, [&]() -> Task<bool> {
            if (form == 0) return qCoro(a).connectToServer(name, mode, timeout);
            if (form == 1) return qCoro(&a).connectToServer(name, mode);
            a.setServerName(name);
            if (form == 2) return qCoro(a).connectToServer(mode, timeout);
            return qCoro(&a).connectToServer(mode);
        }, [&] { b.connectToServer(name, mode); });
        VH_CHECK("C17", "opened-otherwise", a.fullServerName() == b.fullServerName(), "the socket is connected to %s", qPrintable(a.fullServerName()));
        a.abort(); b.abort();
    }
    nontrivial();
    v->settle();
    flushDeferredDeletes();
}
// A local server whose queue is full: the socket keeps trying (Qt polls), until there is room, the server goes away or Qt gives up.
static void caseFull(Rng &g) {
    auto *v = V();
    v->reset(&g);
    const long live0 = Tracked::live;
    {
        World w{g, {}, {}};
        W = &w;
        w.ops.reserve(512);
        target = dir->path() + QStringLiteral("/f%1").arg(++caseNo);
        std::vector<int> fds;
        const int l = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
        sockaddr_un a{}; a.sun_family = AF_UNIX; strncpy(a.sun_path, target.toLocal8Bit().constData(), sizeof a.sun_path - 1);
        if (bind(l, (sockaddr *)&a, sizeof a) || listen(l, 0)) abort();
        for (int i = 0; i < 3; ++i) { int c = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0); (void)connect(c, (sockaddr *)&a, sizeof a); fds.push_back(c); }
        w.socks.push_back(std::make_unique<Local>(new QLocalSocket));
        Sock *c = w.socks[0].get();
        bool open = true;
        for (int k = g.range(6, 24); k > 0 && !run().caseFailed; --k) {
            switch (g.below(9)) {
            case 0: if (c->state() == 0 && c->log.empty()) connector(c, g.next()); break;
            case 1: case 2: if (c->state() == 1) waiter(c, g.chance(2, 3) ? WaitC : WaitD, g.next()); break;
            case 3: if (open && g.chance(1, 4)) { ev("room"); for (;;) { int x = ::accept(l, nullptr, nullptr); if (x < 0) break; fds.push_back(x); } } break;
            case 4: if (open && g.chance(1, 12)) { ev("server gone"); open = false; ::close(l); } break;
            case 5: if (c->state() && g.chance(1, 12)) { ev("abort 0"); c->aborted = true; c->abort(); } break;
            default: v->now += g.chance(1, 20) ? 1000 : g.below(25); ev("advance");
            }
            if (g.chance(2, 3)) { v->settle(20); quiet(); }
        }
        ev("closing");
        if (c->state() == 1) { count("connecting_local"); for (int i = 0; i < 70 && !run().caseFailed; ++i) { v->now += 50; v->settle(20); quiet(); } }
        if (c->state()) { ev("abort 0"); c->aborted = true; c->abort(); }
        v->settle(50);
        quiet();
        v->now += 40000;
        v->settle(50);
        quiet();
        for (auto &o : w.ops) if (!o->over) { VH_CHECK("C17", "not-resumed", false, "operation %d (%s) is not over at the end", o->id, o->form); outLine("{\"t\":\"fatal\"}"); _exit(10); }
        if (w.ops.size() >= 2) nontrivial();
        w.socks.clear();
        if (open) ::close(l);
        for (int f : fds) ::close(f);
        v->advanceBy(100);
    }
    VH_CHECK("C17", "leaked", Tracked::live == live0, "%ld objects of coroutines are still alive", long(Tracked::live - live0));
    flushDeferredDeletes();
}
static void caseSockets(Rng &g) {
    if (g.chance(1, 25)) caseFull(g);
    else if (g.chance(1, 20)) caseModes(g);
    else if (g.chance(1, 10)) caseUdp(g);
    else caseC17(g);
}

// ------------------------------------------------------------------------------------- C18
struct Wait { int id; qint64 due = -1; bool over = false, late = false; int n = 0; size_t arrived0 = 0; };
struct Srv {
    QTcpServer server;
    std::vector<std::unique_ptr<Wait>> waits;
    struct Conn { int fd; quint16 port; qint64 arrived = -1; };
    std::vector<Conn> conns; // in the order of connecting
    size_t arrivals = 0;     // of which the server has reported (at least) this many
    size_t handed = 0;
    std::vector<QTcpSocket *> got;
    int checking = 0, acceptors = 0;
};
static Srv *S;
static Task<> useSocket(QTcpSocket *sock, size_t index) {
    Tracked local(1);
    ++S->checking;
    QByteArray b;
    while (b.size() < 4) { auto r = co_await qCoro(sock).readAll(milliseconds(-1)); if (r.isEmpty()) break; b += r; }
    VH_CHECK("C18", "unusable", b == QByteArray::number(int(1000 + index)), "connection %zu does not deliver what its client sent", index);
    sock->write("ok");
    --S->checking;
    local.check();
}
static Task<> acceptor(uint64_t seed, int limit) {
    Rng g(seed);
    Tracked local(1);
    ++S->acceptors;
    for (int i = 0; i < limit; ++i) {
        auto w = std::make_unique<Wait>();
        Wait *o = w.get();
        o->id = int(S->waits.size());
        S->waits.push_back(std::move(w));
        const qint64 timeout = g.chance(1, 8) ? byDefault : g.chance(1, 15) ? longTime(g) : g.chance(1, 2) ? -1 : g.below(40);
        if (timeout >= 0) o->due = V()->now + timeout;
        const bool listening = S->server.isListening(), pending = S->server.hasPendingConnections();
        ev("wait %d, timeout %lld%s%s", o->id, (long long)timeout, listening ? "" : ", not listening", pending ? ", pending" : "");
        const long steps = V()->steps;
        QTcpSocket *s;
        if (timeout == byDefault) s = co_await qCoro(S->server).waitForNewConnection();
        else if (timeout <= INT_MAX && g.chance(1, 4)) {
            auto t = qCoro(S->server).waitForNewConnection(int(timeout));
            if (listening && pending) VH_CHECK("C18", "needless-suspension", t.isReady(), "wait %d gave up control although a connection was pending", o->id);
            s = co_await t;
        } else if (timeout > INT_MAX || g.chance(1, 2)) s = co_await qCoro(S->server).waitForNewConnection(milliseconds(timeout));
        else s = co_await qCoro(&S->server).waitForNewConnection(int(timeout));
        ++o->n; o->over = true;
        const qint64 now = V()->now;
        count("waits");
        VH_CHECK("C18", "resumed-twice", o->n == 1, "wait %d was resumed %d times", o->id, o->n);
        if (!listening || pending) VH_CHECK("C18", "needless-suspension", steps == V()->steps, "wait %d gave up control although %s", o->id, listening ? "a connection was pending" : "the server does not listen");
        if (!s) {
            ev("wait %d: nothing", o->id);
            VH_CHECK("C18", "null", !listening || (o->due >= 0 && now >= o->due), "wait %d ended without a connection at %lld; its timeout is due at %lld", o->id, (long long)now, (long long)o->due);
            if (listening && S->server.hasPendingConnections() && S->handed < S->conns.size()) VH_CHECK("C18", "null", S->conns[S->handed].arrived >= o->due, "wait %d ended without a connection although one has been pending since %lld", o->id, (long long)S->conns[S->handed].arrived);
        } else {
            const quint16 p = s->peerPort();
            size_t k = 0;
            while (k < S->conns.size() && S->conns[k].port != p) ++k;
            if (!p) { k = size_t(s->peek(4).toInt() - 1000); count("ended_before_handed_out"); } // its client has gone
            ev("wait %d: connection %zu", o->id, k);
            count("connections");
            VH_CHECK("C18", "wrong-order", k == S->handed, "wait %d got connection %zu instead of %zu", o->id, k, S->handed);
            for (auto *x : S->got) VH_CHECK("C18", "handed-out-twice", x != s, "wait %d got a connection that was handed out before", o->id);
            ++S->handed;
            S->got.push_back(s);
            useSocket(s, k);
        }
        local.check();
        if (g.chance(1, 4)) co_await QCoro::sleepFor(milliseconds(g.below(15)));
    }
    --S->acceptors;
}
static void quiet18() {
    for (auto &o : S->waits) {
        if (o->over) continue;
        if (S->server.hasPendingConnections()) violation("C18", "not-resumed", "wait %d was not resumed although a connection is pending", o->id);
        if (o->due >= 0 && o->due <= V()->now) violation("C18", "timeout-missing", "wait %d was not resumed although its timeout was due at %lld", o->id, (long long)o->due);
    }
    count("quiet_checks");
}
static void dial(Rng *g = nullptr) {
    sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(ownHost()); a.sin_port = htons(S->server.serverPort());
    int c = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    if (connect(c, (sockaddr *)&a, sizeof a)) { ::close(c); return; }
    socklen_t n = sizeof a;
    getsockname(c, (sockaddr *)&a, &n);
    ev("connect %zu", S->conns.size());
    const QByteArray id = QByteArray::number(int(1000 + S->conns.size()));
    (void)!::send(c, id.constData(), size_t(id.size()), MSG_NOSIGNAL);
    if (g && g->chance(1, 5)) { // and leaves
        ev("the client leaves");
        count("clients_left");
        if (g->chance(1, 2)) shutdown(c, SHUT_WR); else { ::close(c); c = -1; }
    }
    S->conns.push_back({c, ntohs(a.sin_port)});
}
static void caseC18(Rng &g) {
    auto *v = V();
    v->reset(&g);
    const long live0 = Tracked::live;
    {
        Srv srv;
        S = &srv;
        if (!srv.server.listen(QHostAddress(ownHost()))) abort();
        if (g.chance(1, 4)) srv.server.setMaxPendingConnections(g.range(1, 3));
        QObject::connect(&srv.server, &QTcpServer::pendingConnectionAvailable, [&] { if (srv.arrivals < srv.conns.size()) srv.conns[srv.arrivals].arrived = V()->now; ++srv.arrivals; ev("pending"); });
        const int rounds = g.range(6, 26);
        for (int k = 0; k < rounds; ++k) {
            switch (k == 0 ? 0 : g.below(9)) {
            case 0: case 1: if (srv.waits.size() < 30) acceptor(g.next(), g.range(1, 4)); break;
            case 2: case 3: if (srv.conns.size() < 12) for (int n = g.chance(1, 4) ? 3 : 1; n > 0; --n) dial(&g); break;
            case 4: v->step(); break;
            case 5: v->waitReal(1); break;
            case 6: v->settle(); quiet18(); break;
            default: ev("advance"); v->advanceBy(g.chance(1, 25) ? g.range(29000, 31000) : g.below(25)); quiet18();
            }
        }
        ev("closing");
        v->advanceBy(g.chance(1, 6) ? VeryLong : 60);
        quiet18();
        auto pending = [&] { return std::any_of(srv.waits.begin(), srv.waits.end(), [](auto &o) { return !o->over; }); };
        for (int k = 0; k < 300 && (srv.acceptors || srv.handed < srv.conns.size() || srv.checking) && !run().caseFailed; ++k) {
            if (pending() && srv.handed == srv.conns.size()) dial();
            if (!pending() && srv.handed < srv.conns.size()) acceptor(g.next(), 1);
            v->waitReal(1); v->settle(); quiet18(); v->advanceBy(30); quiet18();
        }
        for (auto &o : srv.waits) VH_CHECK("C18", "not-resumed", o->over, "wait %d is not over at the end", o->id);
        VH_CHECK("C18", "lost", srv.handed == srv.conns.size(), "%zu connections were made but %zu were handed out", srv.conns.size(), srv.handed);
        VH_CHECK("C18", "unusable", srv.checking == 0, "%d of the connections do not deliver what was sent", srv.checking);
        if (g.chance(1, 2)) {
            srv.server.close();
            auto t = qCoro(srv.server).waitForNewConnection(g.chance(1, 2) ? -1 : 10);
            VH_CHECK("C18", "closed", t.isReady(), "waiting for a connection of a closed server gave up control");
            if (!t.isReady()) { outLine("{\"t\":\"fatal\"}"); _exit(10); }
        }
        for (auto &c : srv.conns) if (c.fd >= 0) ::close(c.fd);
        if (srv.conns.size() >= 2 && srv.waits.size() >= 2) nontrivial();
        if (run().caseFailed) { outLine("{\"t\":\"fatal\"}"); _exit(10); }
        for (auto *s : srv.got) delete s;
        v->advanceBy(100);
    }
    VH_CHECK("C18", "leaked", Tracked::live == live0, "%ld objects of coroutines are still alive", long(Tracked::live - live0));
    flushDeferredDeletes();
}

int main(int argc, char **argv) {
    vh::parse(argc, argv);
    return monitorMain(argc, argv, [] {
    QTemporaryDir d;
    dir = &d;
    Options o;
    o.leakEvery = 16;
    return runCases(run().prop == "C17" ? caseSockets : caseC18, o);
    });
}
