// C19: network replies, scripted ones on the virtual clock and real HTTP ones from a scripted
// server on the loopback interface.
#include "vh.h"
#include <chrono>
#include <QNetworkAccessManager>
#include <QNetworkProxy>
#include <QNetworkReply>
#include <QNetworkRequest>
#include <QTcpServer>
#include <QTcpSocket>
#include <qcoronetworkreply.h>
#include <qcorotask.h>
#include <qcorotimer.h>

using namespace vh;
using QCoro::Task;
using std::chrono::milliseconds;
static VDispatcher *V() { return VDispatcher::instance(); }

class Reply : public QNetworkReply {
    Q_OBJECT
public:
    QByteArray in;
    Reply() { open(QIODevice::ReadOnly | QIODevice::Unbuffered); }
    explicit Reply(bool buffered) { open(buffered ? QIODevice::ReadOnly : QIODevice::ReadOnly | QIODevice::Unbuffered); }
    bool isSequential() const override { return true; }
    qint64 bytesAvailable() const override { return in.size() + QIODevice::bytesAvailable(); }
    void abort() override { if (isFinished()) return; fail(QNetworkReply::OperationCanceledError); end(); }
    void arrive(const QByteArray &b, int times) { in += b; while (times--) Q_EMIT readyRead(); }
    void fail(QNetworkReply::NetworkError e) { setError(e, QStringLiteral("failed")); Q_EMIT errorOccurred(e); }
    void end() { setFinished(true); Q_EMIT readChannelFinished(); Q_EMIT finished(); }
protected:
    qint64 readData(char *d, qint64 max) override {
        if (in.isEmpty()) return isFinished() ? -1 : 0;
        qint64 n = std::min<qint64>(max, in.size());
        if (n > 0) memcpy(d, in.constData(), size_t(n)); in.remove(0, int(n)); return n;
    }
};
struct Op { int id; int rep; const char *form = ""; qint64 due = -1; bool over = false, late = false, reads = false; int n = 0, stale = 0; };
struct Rep {
    int id; QPointer<QNetworkReply> r; Reply *scripted = nullptr;
    QByteArray body;    // what has been sent (scripted), or will be (real)
    qint64 pos = 0; int finished = 0, errors = 0, closes = 0; qint64 finishedAt = -1; bool reading = false, eof = false, aborted = false, broken = false, moreFails = false;
};
struct World { Rng &g; std::vector<std::unique_ptr<Rep>> reps; std::vector<std::unique_ptr<Op>> ops; };
static World *W;
static Op *newOp(Rep *r, const char *form, int timeout) {
    auto o = std::make_unique<Op>();
    o->id = int(W->ops.size()); o->rep = r->id; o->form = form;
    if (timeout >= 0) o->due = V()->now + timeout;
    ev("op %d %s for %d, timeout %d%s", o->id, form, r->id, timeout, r->r->isFinished() ? ", finished" : "");
    Op *x = o.get(); W->ops.push_back(std::move(o)); return x;
}
static Task<> waiter(Rep *r, uint64_t seed) {
    Rng g(seed);
    Tracked local(1);
    const bool direct = g.chance(1, 2);
    const int timeout = direct || g.chance(1, 2) ? -1 : g.below(50);
    Op *o = newOp(r, direct ? "co_await reply" : "waitForFinished()", timeout);
    const bool before = r->r->isFinished();
    const long steps = V()->steps;
    bool result = true;
    if (g.chance(1, 10)) { // no reply at all
        QNetworkReply *none = nullptr;
        QNetworkReply *x = co_await none;
        VH_CHECK("C19", "needless-suspension", !x && steps == V()->steps, "awaiting a null pointer gave up control");
    }
    if (direct) {
        QNetworkReply *p = r->r;
        QNetworkReply *x;
        if (g.chance(1, 2)) x = co_await p; else x = co_await static_cast<QNetworkReply *>(r->r);
        VH_CHECK("C19", "wrong-reply", x == p, "wait %d yields another reply", o->id);
    } else if (g.chance(1, 4)) {
        auto t = qCoro(r->r.data()).waitForFinished(milliseconds(timeout));
        if (g.chance(1, 3)) { o->late = true; co_await QCoro::sleepFor(milliseconds(g.below(10))); }
        result = co_await t;
    } else if (timeout < 0) result = co_await qCoro(*r->r).waitForFinished();
    else result = co_await qCoro(r->r.data()).waitForFinished(milliseconds(timeout));
    ++o->n; o->over = true;
    const qint64 now = V()->now;
    ev("op %d: %d", o->id, result);
    count("waits");
    VH_CHECK("C19", "resumed-twice", o->n == 1, "wait %d was resumed %d times", o->id, o->n);
    if (before) VH_CHECK("C19", "needless-suspension", o->late || steps == V()->steps, "wait %d for a finished reply gave up control", o->id);
    if (result) VH_CHECK("C19", "not-finished", r->r->isFinished() && r->finished >= 1, "wait %d (%s) was resumed although the reply has not finished", o->id, o->form);
    else {
        VH_CHECK("C19", "false-wrong", !before && o->due >= 0 && now >= o->due, "wait %d says false at %lld; the timeout is due at %lld", o->id, (long long)now, (long long)o->due);
        VH_CHECK("C19", "false-wrong", !(r->finished && r->finishedAt < o->due), "wait %d says false although the reply finished at %lld, before the timeout at %lld", o->id, (long long)r->finishedAt, (long long)o->due);
        if (!r->finished) VH_CHECK("C19", "stopped", r->r->isRunning() && !r->aborted == (r->r->error() != QNetworkReply::OperationCanceledError), "the timeout of wait %d stopped the reply", o->id);
    }
    local.check();
}
static Task<> reader(Rep *r, uint64_t seed) {
    Rng g(seed);
    Tracked local(1);
    r->reading = true;
    for (;;) {
        static const char *names[] = {"readAll()", "read()", "readLine()", "waitForReadyRead()"};
        const int kind = g.below(4);
        const qint64 max = kind == 1 ? g.range(1, 500) : 0;
        const int timeout = g.chance(2, 3) ? -1 : g.range(1, 40);
        Op *o = newOp(r, names[kind], timeout);
        o->reads = true;
        const bool had = r->r->bytesAvailable() > 0, readable = r->r->isReadable();
        const int errors = r->errors, closes = r->closes;
        const long steps = V()->steps;
        QByteArray b; bool ready = false;
        auto q = qCoro(*r->r);
        if (kind == 3) ready = co_await q.waitForReadyRead(milliseconds(timeout));
        else if (kind == 0) b = co_await q.readAll(milliseconds(timeout));
        else if (kind == 1) b = co_await q.read(max, milliseconds(timeout));
        else b = co_await q.readLine(0, milliseconds(timeout));
        ++o->n; o->over = true;
        const qint64 now = V()->now;
        ev("op %d %s: %d", o->id, o->form, kind == 3 ? int(ready) : int(b.size()));
        count("reads"); count("bytes_read", b.size());
        VH_CHECK("C19", "resumed-twice", o->n == 1, "read %d was resumed %d times", o->id, o->n);
        const bool over = r->r->isFinished() || r->closes > closes;
        if (had && readable) VH_CHECK("C19", "needless-suspension", steps == V()->steps, "read %d (%s) gave up control although there were data", o->id, o->form);
        if (kind == 3 && ready) VH_CHECK("C19", "ready-wrong", r->r->bytesAvailable() > 0 || over, "wait %d says that there is something to read, but there is nothing", o->id);
        if (kind == 3 ? !ready : b.isEmpty()) {
            VH_CHECK("C19", "empty-read", !readable || over || r->errors > errors || (o->due >= 0 && now >= o->due), "read %d (%s) ended without data at %lld; the reply is running and the timeout due at %lld", o->id, o->form, (long long)now, (long long)o->due);
            VH_CHECK("C19", "empty-read", !(had && readable), "read %d (%s) ended without data although there were some", o->id, o->form);
            if (!readable || r->closes > closes) break;
        } else if (kind != 3) {
            if (kind == 1) VH_CHECK("C19", "too-many-bytes", b.size() <= max, "read %d yields %d bytes, more than %lld", o->id, int(b.size()), (long long)max);
            if (kind == 2) VH_CHECK("C19", "beyond-newline", b.indexOf('\n') < 0 || b.indexOf('\n') == b.size() - 1, "read %d goes beyond a newline", o->id);
            VH_CHECK("C19", "wrong-bytes", r->body.mid(int(r->pos), b.size()) == b, "read %d (%s) yields %d bytes that are not those that follow in the body (from %lld)", o->id, o->form, int(b.size()), (long long)r->pos);
            r->pos += b.size();
        }
        if (r->r->isFinished() && r->r->bytesAvailable() == 0) { r->eof = true; break; }
        if (r->errors) co_await QCoro::sleepFor(milliseconds(3)); // an error is reported again until the reply finishes
        if (g.chance(1, 6)) co_await QCoro::sleepFor(milliseconds(g.below(12)));
    }
    // nothing can be written to a reply
    if (g.chance(1, 4)) { auto t = qCoro(*r->r).waitForBytesWritten(g.chance(1, 2) ? -1 : 5); VH_CHECK("C19", "writable", t.isReady() && !co_await t, "waiting for bytes to be written by a reply does not end at once without a number"); }
    r->reading = false;
    local.check();
}
static void quiet() {
    for (auto &p : W->ops) {
        Op &o = *p;
        if (o.over || o.late) continue;
        Rep &r = *W->reps[size_t(o.rep)];
        if (r.finished) violation("C19", "not-resumed", "operation %d (%s) was not resumed although the reply has finished", o.id, o.form);
        else if (o.due >= 0 && o.due <= V()->now) violation("C19", "timeout-missing", "operation %d (%s) was not resumed although its timeout was due at %lld", o.id, o.form, (long long)o.due);
        else if (o.reads && r.r->bytesAvailable() > 0 && (r.scripted || ++o.stale > 60)) violation("C19", "not-resumed", "operation %d (%s) was not resumed although there are data", o.id, o.form);
    }
    count("quiet_checks");
}
static QByteArray payload(Rng &g, int n) {
    QByteArray b(n, 'x');
    for (int i = 0; i < n; ++i) b[i] = g.chance(1, 30) ? '\n' : char(g.next());
    return b;
}
static void act(Rng &g, Rep *r) {
    Reply *s = r->scripted;
    if (!s || s->isFinished()) return;
    switch (g.below(8)) {
    case 0: case 1: case 2: case 3: {
        QByteArray b = payload(g, g.chance(1, 10) ? g.range(1000, 30000) : g.range(1, 60));
        ev("arrive %d: %d", r->id, int(b.size()));
        r->body += b;
        s->arrive(b, g.chance(1, 6) ? 2 : 1);
        if (g.chance(1, 10)) { ev("finish %d", r->id); s->end(); } // together
        break;
    }
    case 4: ev("progress %d", r->id); Q_EMIT s->downloadProgress(r->body.size(), -1); Q_EMIT s->metaDataChanged(); break;
    case 5: if (!s->error()) { ev("error %d", r->id); s->fail(QNetworkReply::RemoteHostClosedError); if (g.chance(2, 3)) { ev("finish %d", r->id); s->end(); } } break;
    case 6: if (g.chance(1, 2)) { ev("finish %d", r->id); s->end(); } break;
    default: if (g.chance(1, 4)) { ev("abort %d", r->id); r->aborted = true; s->abort(); }
    }
}
static QNetworkAccessManager *nam;
struct Http { QTcpServer server; Rep *rep = nullptr; QTcpSocket *s = nullptr; QByteArray head, req; qint64 sent = 0; int mode = 0; };
static void serve(Rng &g, Http *h, bool all) {
    if (!h->s || !h->req.contains("\r\n\r\n")) return;
    if (!h->head.isEmpty()) { int k = all ? int(h->head.size()) : g.range(1, int(h->head.size())); h->s->write(h->head.left(k)); h->head.remove(0, k); return; }
    const qint64 left = h->rep->body.size() - h->sent;
    if (left <= 0) { if (h->mode >= 2) h->s->disconnectFromHost(); return; }
    const qint64 k = all ? left : g.range(1, int(left));
    QByteArray b = h->rep->body.mid(int(h->sent), int(k));
    h->sent += k;
    ev("serve %lld", (long long)k);
    if (h->mode == 1) { h->s->write(QByteArray::number(k, 16) + "\r\n" + b + "\r\n"); if (h->sent == h->rep->body.size()) h->s->write("0\r\n\r\n"); }
    else h->s->write(b);
    if (h->mode == 3 && h->sent == h->rep->body.size()) { ev("cut"); h->s->disconnectFromHost(); }
    if (h->mode == 2 && h->sent == h->rep->body.size()) h->s->disconnectFromHost();
}
static Rep *track(QNetworkReply *q, Reply *scripted) {
    auto r = std::make_unique<Rep>();
    r->id = int(W->reps.size()); r->r = q; r->scripted = scripted;
    Rep *x = r.get();
    QObject::connect(q, &QNetworkReply::finished, [x] { ++x->finished; x->finishedAt = V()->now; ev("finished %d", x->id); });
    QObject::connect(q, &QNetworkReply::errorOccurred, [x](QNetworkReply::NetworkError e) {
        ++x->errors; x->broken = true; ev("error %d", x->id);
        if (e == QNetworkReply::OperationCanceledError) VH_CHECK("C19", "stopped", x->aborted, "reply %d was aborted although nobody asked for it", x->id);
    });
    QObject::connect(q, &QIODevice::aboutToClose, [x] { ++x->closes; });
    W->reps.push_back(std::move(r));
    return x;
}
// Replies that can be written to: waiting for that ends with what was written, or when there will be no more.
struct Up {
    struct R : Reply { qint64 pending = 0; R() : Reply(false) { close(); open(QIODevice::ReadWrite | QIODevice::Unbuffered); } qint64 bytesToWrite() const override { return pending; } };
    R r; std::vector<qint64> written; int ends = 0;
    struct Op { int id; qint64 due; size_t from; int ends; bool over = false; };
    std::vector<std::unique_ptr<Op>> ops;
};
static Task<> flusher(Up *u, uint64_t seed) {
    Rng g(seed);
    Tracked local(1);
    const int timeout = g.chance(1, 2) ? -1 : g.below(40);
    auto up = std::make_unique<Up::Op>(Up::Op{int(u->ops.size()), timeout < 0 ? -1 : V()->now + timeout, u->written.size(), u->ends});
    auto *o = up.get();
    u->ops.push_back(std::move(up));
    const bool nothing = u->r.pending == 0, never = !u->r.isWritable() || u->r.isFinished();
    ev("flush %d, timeout %d%s%s", o->id, timeout, nothing ? ", nothing" : "", never ? ", never" : "");
    const long steps = V()->steps;
    std::optional<qint64> x;
    if (timeout < 0) { if (g.chance(1, 2)) x = co_await qCoro(u->r).waitForBytesWritten(-1); else x = co_await qCoro(static_cast<QNetworkReply *>(&u->r)).waitForBytesWritten(milliseconds(-1)); }
    else x = co_await qCoro(static_cast<QNetworkReply *>(&u->r)).waitForBytesWritten(milliseconds(timeout));
    o->over = true;
    ev("flush %d: %lld", o->id, x ? (long long)*x : -1);
    count("flushes");
    if (nothing || never) {
        VH_CHECK("C19", "needless-suspension", steps == V()->steps, "wait %d for a reply that writes nothing gave up control", o->id);
        VH_CHECK("C19", "flush-wrong", u->r.isWritable() && nothing ? x == 0 : !x, "wait %d for a reply that writes nothing yields %lld", o->id, x ? (long long)*x : -1);
    } else if (x) VH_CHECK("C19", "flush-wrong", u->written.size() > o->from && u->written[o->from] == *x, "wait %d yields %lld bytes, but %lld were written", o->id, (long long)*x, u->written.size() > o->from ? (long long)u->written[o->from] : 0);
    else {
        VH_CHECK("C19", "flush-wrong", u->ends > o->ends || (o->due >= 0 && V()->now >= o->due), "wait %d yields nothing at %lld; the timeout is due at %lld", o->id, (long long)V()->now, (long long)o->due);
    }
    local.check();
}
static void caseUpload(Rng &g) {
    auto *v = V();
    v->reset(&g);
    const long live0 = Tracked::live;
    {
        Up u;
        auto quiet = [&] { for (auto &o : u.ops) if (!o->over && (u.written.size() > o->from || u.ends > o->ends || (o->due >= 0 && o->due <= v->now))) violation("C19", "flush-not-resumed", "wait %d was not resumed although %s", o->id, u.written.size() > o->from ? "bytes were written" : u.ends > o->ends ? "the reply has ended" : "its timeout was due"); };
        for (int k = g.range(4, 20); k > 0 && !run().caseFailed; --k) {
            switch (g.below(8)) {
            case 0: case 1: u.r.pending += g.range(1, 1000); flusher(&u, g.next()); break;
            case 2: flusher(&u, g.next()); break;
            case 3: case 4: if (u.r.pending) { const qint64 n = g.range(1, int(u.r.pending)); u.r.pending -= n; ev("written %lld", (long long)n); u.written.push_back(n); Q_EMIT u.r.bytesWritten(n); } break;
            case 5: if (g.chance(1, 4) && !u.r.isFinished()) { ev("fail"); ++u.ends; u.r.fail(QNetworkReply::ConnectionRefusedError); if (g.chance(2, 3)) u.r.end(); } break;
            case 6: if (g.chance(1, 4) && !u.r.isFinished()) { ev("end"); ++u.ends; u.r.end(); } break;
            default: v->advanceBy(g.below(30)); quiet();
            }
            if (g.chance(1, 2)) { v->settle(); quiet(); }
        }
        ev("closing");
        if (!u.r.isFinished()) { ++u.ends; if (g.chance(1, 2)) u.r.end(); else u.r.close(); }
        v->advanceBy(100);
        quiet();
        for (auto &o : u.ops) if (!o->over) { VH_CHECK("C19", "flush-not-resumed", false, "wait %d is not over at the end", o->id); outLine("{\"t\":\"fatal\"}"); _exit(10); }
        if (u.ops.size() >= 2) nontrivial();
    }
    VH_CHECK("C19", "leaked", Tracked::live == live0, "%ld objects of coroutines are still alive", long(Tracked::live - live0));
    flushDeferredDeletes();
}
static void caseC19(Rng &g) {
    if (g.chance(1, 25)) { caseUpload(g); return; }
    auto *v = V();
    v->reset(&g);
    const long live0 = Tracked::live;
    const auto began = std::chrono::steady_clock::now();
    const bool real = g.chance(1, 8);
    {
        World w{g, {}, {}};
        W = &w;
        w.ops.reserve(512);
        std::unique_ptr<Http> http;
        if (real) {
            http = std::make_unique<Http>();
            if (!http->server.listen(QHostAddress(ownHost()))) abort();
            Http *h = http.get();
            h->mode = g.below(4); // content length, chunked, until close, cut short
            QByteArray body = payload(g, g.chance(1, 6) ? 0 : g.chance(1, 4) ? g.range(10000, 200000) : g.range(1, 400));
            h->head = "HTTP/1.1 200 OK\r\n";
            if (h->mode == 0) h->head += "Content-Length: " + QByteArray::number(body.size()) + "\r\n";
            if (h->mode == 1) h->head += "Transfer-Encoding: chunked\r\n";
            if (h->mode == 2) h->head += "Connection: close\r\n";
            if (h->mode == 3) h->head += "Content-Length: " + QByteArray::number(body.size() + 100) + "\r\n";
            if (h->mode == 1 && body.isEmpty()) body = "x";
            h->head += "\r\n";
            QObject::connect(&h->server, &QTcpServer::newConnection, [h] {
                while (auto *s = h->server.nextPendingConnection()) { h->s = s; h->req.clear(); QObject::connect(s, &QIODevice::readyRead, [h, s] { h->req += s->readAll(); }); }
            });
            const quint16 port = g.chance(1, 10) ? 1 : h->server.serverPort();
            ev("http mode %d, body %d%s", h->mode, int(body.size()), port == 1 ? ", refused" : "");
            QNetworkRequest req(QUrl(QStringLiteral("http://%2:%1/x").arg(port).arg(QString::fromStdString(ownHostName()))));
            req.setAttribute(QNetworkRequest::CacheSaveControlAttribute, false);
            Rep *r = track(nam->get(req), nullptr);
            r->body = body;
            h->rep = r;
        } else for (int n = g.range(1, 3); n > 0; --n) { auto *s = new Reply(g.chance(1, 2)); track(s, s); }
        const int nr = int(w.reps.size());
        std::vector<std::unique_ptr<QTimer>> timers;
        if (!real) for (int i = g.below(3); i > 0; --i) {
            auto t = std::make_unique<QTimer>();
            Rep *r = w.reps[size_t(g.below(nr))].get();
            QObject::connect(t.get(), &QTimer::timeout, [r, rng = Rng(g.next())]() mutable { act(rng, r); });
            t->start(g.range(1, 30));
            timers.push_back(std::move(t));
        }
        const int rounds = g.range(6, 26);
        for (int k = 0; k < rounds; ++k) {
            Rep *r = w.reps[size_t(g.below(nr))].get();
            switch (k == 0 ? 0 : g.below(10)) {
            case 0: case 1: waiter(r, g.next()); break;
            case 2: if (!r->reading && !r->eof) reader(r, g.next()); break;
            case 3: case 4: if (real) serve(g, http.get(), false); else act(g, r); break;
            case 5: v->step(); break;
            case 6: v->settle(); quiet(); break;
            case 7: ev("advance"); v->advanceBy(g.below(25)); quiet(); break;
            default: if (real) { v->waitReal(2); if (g.chance(1, 20)) { ev("abort"); r->aborted = true; r->r->abort(); } }
            }
        }
        ev("closing");
        timers.clear();
        v->advanceBy(100);
        quiet();
        for (auto &r : w.reps) if (!r->reading && !r->eof) reader(r.get(), g.next());
        for (int k = 0; k < 4000 && !run().caseFailed; ++k) {
            bool busy = false;
            for (auto &r : w.reps) {
                if (r->scripted && !r->r->isFinished() && g.chance(1, 2)) { if (k < 10) act(g, r.get()); else { ev("finish %d", r->id); r->scripted->end(); } }
                if (!r->r->isFinished() || r->reading) busy = true;
            }
            for (auto &o : w.ops) if (!o->over) busy = true;
            if (!busy) break;
            if (real) { serve(g, http.get(), g.chance(1, 2)); v->waitReal(3); }
            v->advanceBy(g.below(50));
            quiet();
            if (real && k == 3000) { w.reps[0]->aborted = true; w.reps[0]->r->abort(); count("aborted_at_end"); }
        }
        if (!run().caseFailed) for (auto &o : w.ops) VH_CHECK("C19", "not-resumed", o->over, "operation %d (%s) is not over at the end", o->id, o->form);
        for (auto &r : w.reps) if (r->eof && !r->closes && !r->aborted && (r->scripted || !r->broken)) {
            count("complete_bodies");
            VH_CHECK("C19", "missing-bytes", r->pos == r->body.size(), "%lld of the %d bytes of the body were read", (long long)r->pos, int(r->body.size()));
        }
        if (w.ops.size() >= 2) nontrivial();
        if (run().caseFailed) { for (auto &r : w.reps) { if (r->scripted) { if (!r->r->isFinished()) r->scripted->end(); } else r->r->abort(); } v->advanceBy(100000); for (auto &o : w.ops) if (!o->over) { outLine("{\"t\":\"fatal\"}"); _exit(10); } }
        for (auto &r : w.reps) delete r->r.data();
        if (real) { nam->clearConnectionCache(); delete http->s; v->advanceBy(50); }
    }
    VH_CHECK("C19", "leaked", Tracked::live == live0, "%ld objects of coroutines are still alive", long(Tracked::live - live0));
    flushDeferredDeletes();
    if (real && getenv("VH_SLOW")) fprintf(stderr, "SLOW %s %lld\n", run().trace.size() ? run().trace[0].c_str() : "", (long long)std::chrono::duration_cast<milliseconds>(std::chrono::steady_clock::now() - began).count());
}
int main(int argc, char **argv) {
    vh::parse(argc, argv);
    return monitorMain(argc, argv, [] {
    QNetworkAccessManager n;
    nam = &n;
    nam->setProxy(QNetworkProxy::NoProxy);
    Options o;
    o.leakEvery = 64;
    o.leakRepeats = 8;
    return runCases(caseC19, o);
    });
}
#include "reply.moc"
