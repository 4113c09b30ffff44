// C14: reading from a QIODevice; C15: writing to one. The device is a scripted one.
#include "vh.h"
#include <chrono>
#include <QBuffer>
#include <QIODevice>
#include <QTemporaryFile>
#include <qcoroiodevice.h>
#include <qcorotask.h>
#include <qcorotimer.h>

using namespace vh;
using QCoro::Task;
using std::chrono::milliseconds;

class Dev : public QIODevice {
    Q_OBJECT
public:
    QByteArray in, out;
    // what happened
    QByteArray arrived; qint64 pos = 0; int closes = 0;
    QByteArray accepted, passed; qint64 lostOut = 0;
    std::shared_ptr<qint64> passedBytes = std::make_shared<qint64>(0); // outlives the device
    struct BW { qint64 n; qint64 at; };
    std::vector<BW> bw; // emissions of bytesWritten
    bool sync = false, syncSignal = false; int acceptLimit = 0;
    Rng *g = nullptr;

    ~Dev() override { if (isOpen()) close(); }
    bool isSequential() const override { return true; }
    qint64 bytesAvailable() const override { return in.size() + QIODevice::bytesAvailable(); }
    qint64 bytesToWrite() const override { return out.size() + QIODevice::bytesToWrite(); }
    bool canReadLine() const override { return in.contains('\n') || QIODevice::canReadLine(); }
    void close() override { if (!isOpen()) return; ++closes; QIODevice::close(); in.clear(); pos = arrived.size(); lostOut += out.size(); out.clear(); }
    void arrive(const QByteArray &b, int times) { in += b; arrived += b; while (times--) Q_EMIT readyRead(); }
    void emitBw(qint64 n) { bw.push_back({n, VDispatcher::instance()->now}); ev("bytesWritten %lld", (long long)n); Q_EMIT bytesWritten(n); }
    // passes n bytes on, reporting them in the given number of pieces
    void pass(qint64 n, int pieces) {
        n = std::min<qint64>(n, out.size());
        while (n > 0) {
            qint64 k = pieces <= 1 ? n : std::max<qint64>(1, n / pieces);
            --pieces;
            passed += out.left(int(k)); *passedBytes = passed.size(); out.remove(0, int(k)); n -= k;
            emitBw(k);
        }
    }
protected:
    qint64 readData(char *data, qint64 max) override { qint64 n = std::min<qint64>(max, in.size()); if (n > 0) { memcpy(data, in.constData(), size_t(n)); in.remove(0, int(n)); } return n; }
    qint64 writeData(const char *data, qint64 len) override {
        qint64 n = acceptLimit > 0 ? std::min<qint64>(len, acceptLimit) : len;
        accepted.append(data, int(n));
        if (sync) { passed.append(data, int(n)); *passedBytes = passed.size(); if (syncSignal) emitBw(n); }
        else out.append(data, int(n));
        return n;
    }
};

struct Op { int id; int dev; const char *form = ""; qint64 due = -1; bool late = false; int closes; bool over = false; int n = 0; qint64 arrivedAt = 0; size_t bwFrom = 0; qint64 endOffset = -1; bool couldClose = false; };
struct Slot { std::unique_ptr<Dev> d; bool busy = false; qint64 finalPassed = 0; bool gone = false; };
struct World { Rng &g; VDispatcher *v; std::vector<Slot> devs; std::vector<std::unique_ptr<Op>> ops; explicit World(Rng &g_, VDispatcher *v_) : g(g_), v(v_) {} };
static World *W;
static Op *newOp(int dev) { auto o = std::make_unique<Op>(); o->id = int(W->ops.size()); o->dev = dev; o->closes = W->devs[size_t(dev)].d->closes; Op *p = o.get(); W->ops.push_back(std::move(o)); return p; }
// the device, or nothing if it was closed or destroyed since the operation began
static Dev *devOf(Op *o) { auto &s = W->devs[size_t(o->dev)]; return s.d && s.d->closes == o->closes ? s.d.get() : nullptr; }

// ------------------------------------------------------------------------------------- C14
static void checkRead(Op *o, const QByteArray &r, qint64 max, int kind, bool startedReadable) {
    ++o->n; o->over = true;
    ev("op %d %s: %d bytes", o->id, o->form, int(r.size()));
    count("reads");
    VH_CHECK("C14", "resumed-twice", o->n == 1, "read %d was resumed %d times", o->id, o->n);
    Dev *d = devOf(o);
    const qint64 now = W->v->now;
    if (r.isEmpty() && kind == 1 && max == 0 && d && startedReadable && d->arrived.size() > d->pos) { count("reads_of_nothing"); return; }
    if (r.isEmpty()) {
        VH_CHECK("C14", "empty-result", !d || !startedReadable || (o->due >= 0 && now >= o->due), "read %d (%s) ended without data at %lld; the device is open and the timeout is due at %lld", o->id, o->form, (long long)now, (long long)o->due);
        return;
    }
    count("bytes_read", r.size());
    auto &s = W->devs[size_t(o->dev)];
    if (!s.d) { VH_CHECK("C14", "data-from-nowhere", o->late, "read %d (%s) yields %d bytes of a device that is gone", o->id, o->form, int(r.size())); return; }
    if (!d) { VH_CHECK("C14", "data-from-nowhere", o->late, "read %d (%s) yields %d bytes of a device that was closed", o->id, o->form, int(r.size())); return; }
    VH_CHECK("C14", "wrong-bytes", d->arrived.mid(int(d->pos), r.size()) == r, "read %d (%s) yields %d bytes that are not the next %d bytes that arrived (from %lld of %d)", o->id, o->form, int(r.size()), int(r.size()), (long long)d->pos, int(d->arrived.size()));
    const QByteArray avail = d->arrived.mid(int(d->pos));
    if (max > 0 || kind == 1) VH_CHECK("C14", "too-many-bytes", r.size() <= max, "read %d (%s) yields %d bytes, more than %lld", o->id, o->form, int(r.size()), (long long)max);
    qint64 want = avail.size();
    if (kind == 2 && avail.contains('\n')) want = avail.indexOf('\n') + 1;
    if (kind != 0 && max > 0) want = std::min(want, max);
    // QIODevice::readLine(max) itself reads max bytes or one less
    if (kind == 2 && max > 0 && want == max && r.size() == max - 1) want = r.size();
    if (kind == 2) VH_CHECK("C14", "beyond-newline", r.indexOf('\n') < 0 || r.indexOf('\n') == r.size() - 1, "read %d (%s) goes beyond a newline", o->id, o->form);
    if (!o->late) VH_CHECK("C14", "too-few-bytes", r.size() == want, "read %d (%s) yields %d bytes instead of %lld", o->id, o->form, int(r.size()), (long long)want);
    d->pos += r.size();
}
static Task<> observer(int dev, uint64_t seed) {
    Rng g(seed);
    Tracked local(1);
    Dev *d = W->devs[size_t(dev)].d.get();
    if (!d) co_return;
    Op *o = newOp(dev);
    o->form = "waitForReadyRead()";
    int timeout = g.chance(1, 2) ? -1 : g.below(30);
    if (timeout >= 0) o->due = W->v->now + timeout;
    o->arrivedAt = d->arrived.size();
    bool now = !d->isReadable() || d->bytesAvailable() > 0, readable = d->isReadable();
    ev("op %d waitForReadyRead %d, timeout %d", o->id, dev, timeout);
    long steps = W->v->steps;
    bool r;
    if (g.chance(1, 2)) r = co_await qCoro(d).waitForReadyRead(milliseconds(timeout));
    else r = co_await qCoro(*d).waitForReadyRead(timeout);
    ++o->n; o->over = true;
    ev("op %d: %d", o->id, r);
    count("ready_waits");
    VH_CHECK("C14", "resumed-twice", o->n == 1, "wait %d was resumed %d times", o->id, o->n);
    Dev *x = devOf(o);
    if (now) {
        VH_CHECK("C14", "needless-suspension", steps == W->v->steps, "wait %d gave up control although the device %s", o->id, readable ? "had data" : "is not readable");
        VH_CHECK("C14", "ready-wrong", r == readable, "wait %d says %d", o->id, r);
    } else if (r) {
        if (W->devs[size_t(dev)].d) VH_CHECK("C14", "ready-without-data", W->devs[size_t(dev)].d->arrived.size() > o->arrivedAt, "wait %d says that there is something to read, but nothing arrived", o->id);
    } else VH_CHECK("C14", "ready-wrong", !x || (o->due >= 0 && W->v->now >= o->due), "wait %d says that there is nothing to read at %lld; the device is open and the timeout due at %lld", o->id, (long long)W->v->now, (long long)o->due);
    local.check();
}
static Task<> reader(int dev, uint64_t seed, int limit) {
    Rng g(seed);
    Tracked local(1);
    auto &s = W->devs[size_t(dev)];
    s.busy = true;
    for (int i = 0; i < limit && s.d; ++i) {
        Dev *d = s.d.get();
        Op *o = newOp(dev);
        int kind = g.below(4); // readAll, read, readLine, co_await device
        qint64 max = kind == 1 ? (g.chance(1, 8) ? 0 : g.chance(1, 3) ? 1 : g.range(1, 40)) : kind == 2 ? (g.chance(1, 2) ? 0 : g.range(2, 30)) : 0;
        int timeout = kind == 3 || g.chance(1, 2) ? -1 : g.below(30);
        static const char *names[] = {"readAll()", "read()", "readLine()", "co_await device"};
        if (g.chance(1, 20)) { // no device at all
            QIODevice *none = nullptr;
            const long before = VDispatcher::instance()->steps;
            const QByteArray x = co_await none;
            VH_CHECK("C14", "empty-wrong", x.isEmpty() && before == VDispatcher::instance()->steps, "awaiting a null device gave up control or yields bytes");
        }
        o->form = names[kind];
        bool readable = d->isOpen() && d->isReadable(), now = !readable || d->bytesAvailable() > 0;
        o->arrivedAt = d->pos;
        if (timeout >= 0) o->due = W->v->now + timeout;
        ev("op %d %s on %d, max %lld timeout %d", o->id, o->form, dev, (long long)max, timeout);
        const long steps = W->v->steps;
        QByteArray r;
        if (kind == 3) {
            if (g.chance(1, 2)) r = co_await *d;
            else { Dev *p = d; r = co_await p; }
        } else if (g.chance(1, 4)) {
            auto t = kind == 0 ? qCoro(d).readAll(milliseconds(timeout)) : kind == 1 ? qCoro(d).read(max, milliseconds(timeout)) : qCoro(d).readLine(max, milliseconds(timeout));
            if (now) VH_CHECK("C14", "needless-suspension", t.isReady(), "read %d (%s) gave up control although the device %s", o->id, o->form, readable ? "had data" : "is not readable");
            if (g.chance(1, 2)) { o->late = true; co_await QCoro::sleepFor(milliseconds(g.below(10))); }
            r = co_await t;
            now = false;
        } else if (kind == 0) { if (timeout < 0 && g.chance(1, 2)) r = co_await qCoro(d).readAll(); else r = co_await qCoro(*d).readAll(milliseconds(timeout)); }
        else if (kind == 1) { if (timeout < 0 && g.chance(1, 2)) r = co_await qCoro(d).read(max); else r = co_await qCoro(*d).read(max, milliseconds(timeout)); }
        else { if (timeout < 0 && g.chance(1, 2)) { if (max == 0) r = co_await qCoro(d).readLine(); else r = co_await qCoro(d).readLine(max); } else r = co_await qCoro(*d).readLine(max, milliseconds(timeout)); }
        if (now) VH_CHECK("C14", "needless-suspension", steps == W->v->steps, "read %d (%s) gave up control although the device %s", o->id, o->form, readable ? "had data" : "is not readable");
        checkRead(o, r, max, kind, readable);
        local.check();
        if (g.chance(1, 4)) co_await QCoro::sleepFor(milliseconds(g.below(12)));
    }
    s.busy = false;
}
static void quiet14() {
    for (auto &p : W->ops) {
        Op &o = *p;
        if (o.over || o.late) continue;
        Dev *d = devOf(&o);
        if (!d) violation("C14", "not-resumed", "operation %d (%s) was not resumed although the device was closed", o.id, o.form);
        else if (d->bytesAvailable() > 0) violation("C14", "not-resumed", "operation %d (%s) was not resumed although there is something to read", o.id, o.form);
        else if (o.due >= 0 && o.due <= W->v->now) violation("C14", "timeout-missing", "operation %d (%s) was not resumed although its timeout was due at %lld", o.id, o.form, (long long)o.due);
    }
    count("quiet_checks");
}
static QByteArray payload(Rng &g, int n) {
    QByteArray b(n, Qt::Uninitialized);
    int nl = g.below(3);
    for (int i = 0; i < n; ++i) b[i] = nl && g.chance(nl, 8) ? '\n' : g.chance(1, 30) ? char(g.below(256)) : char('a' + g.below(26));
    return b;
}
static void arrive(Rng &g, int i) {
    auto &s = W->devs[size_t(i)];
    if (!s.d || !s.d->isOpen() || !s.d->isReadable()) return;
    QByteArray b = payload(g, g.chance(1, 300) ? g.range(100000, 3000000) : g.chance(1, 12) ? g.range(1000, 40000) : g.range(1, 30));
    ev("arrive %d: %d", i, int(b.size()));
    s.d->arrive(b, g.chance(1, 6) ? 2 : 1);
}
static void shut(Rng &g, int i) {
    auto &s = W->devs[size_t(i)];
    if (!s.d) return;
    if (g.chance(1, 2)) { ev("close %d", i); s.d->close(); if (g.chance(1, 3)) { ev("delete %d", i); s.d.reset(); } }
    else if (g.chance(1, 2)) { ev("delete %d", i); s.d.reset(); }
}
// A device with a position: each awaited operation does to it what the plain one does to its twin.
static Task<> twinOps(QIODevice *d, QIODevice *twin, uint64_t seed, bool *done) {
    const char *P = run().prop == "C14" ? "C14" : "C15";
    Rng g(seed);
    Tracked local(1);
    auto *v = W->v;
    for (int i = g.range(3, 15); i > 0; --i) {
        QByteArray a, b; const char *what = "";
        const long steps = v->steps; const qint64 t0 = v->now;
        bool atOnce = true;
        int op = g.below(8);
        int timeout = twin->bytesAvailable() > 0 && g.chance(1, 2) ? -1 : g.below(20);
        atOnce = !twin->isReadable() || twin->bytesAvailable() > 0;
        qint64 max = g.chance(1, 3) ? g.below(3) : g.below(60);
        switch (op) {
        case 0: what = "readAll()"; a = co_await qCoro(d).readAll(milliseconds(timeout)); b = twin->readAll(); break;
        case 1: case 2: what = "read()"; a = co_await qCoro(d).read(max, milliseconds(timeout)); b = twin->read(max); break;
        case 3: what = "readLine()"; if (max == 1) max = 2; a = co_await qCoro(d).readLine(max, milliseconds(timeout)); b = twin->readLine(max); break;
        case 4: { what = "write()"; QByteArray x(g.below(50), char('A' + g.below(26))); if (g.chance(1, 2)) x += '\n'; qint64 n = co_await qCoro(d).write(x), m = twin->write(x); a = QByteArray::number(n); b = QByteArray::number(std::max<qint64>(0, m)); atOnce = true; break; }
        case 5: { what = "seek()"; qint64 to = g.below(int(twin->size()) + 1); d->seek(to); twin->seek(to); break; }
        case 6: { what = "waitForReadyRead()"; bool ra = co_await qCoro(d).waitForReadyRead(timeout), rb = twin->isReadable() && twin->bytesAvailable() > 0; a = QByteArray::number(ra); b = QByteArray::number(rb); break; }
        default: { what = "waitForBytesWritten()"; auto r = co_await qCoro(d).waitForBytesWritten(timeout); a = r ? QByteArray::number(*r) : "none"; b = twin->isWritable() ? "0" : "none"; atOnce = true; }
        }
        ev("twin %s", what);
        count("twin_operations");
        VH_CHECK(P, "twin-result", a == b, "%s of max %lld at a device with a position yields '%s' instead of '%s'", what, (long long)max, a.toHex().constData(), b.toHex().constData());
        VH_CHECK(P, "twin-position", d->pos() == twin->pos() && d->size() == twin->size(), "the device is at %lld of %lld after %s; its twin is at %lld of %lld", (long long)d->pos(), (long long)d->size(), what, (long long)twin->pos(), (long long)twin->size());
        if (atOnce) VH_CHECK(P, "needless-suspension", v->steps == steps, "%s gave up control at a device with a position that had %lld bytes left", what, (long long)twin->bytesAvailable());
        else if (op != 5) VH_CHECK(P, "timeout-early", v->now >= t0 + timeout, "%s ended at %lld, before its timeout at %lld", what, (long long)v->now, (long long)(t0 + timeout));
        local.check();
    }
    *done = true;
}
static void caseTwin(Rng &g) {
    const char *P = run().prop == "C14" ? "C14" : "C15";
    auto *v = VDispatcher::instance();
    World w(g, v);
    W = &w;
    QByteArray text;
    for (int i = g.below(8); i > 0; --i) { text += QByteArray(g.below(60), char('a' + g.below(26))); if (g.chance(2, 3)) text += '\n'; }
    QByteArray ba = text, bb = text;
    std::unique_ptr<QIODevice> a, b;
    const bool file = g.chance(1, 3);
    if (file) {
        for (auto *p : {&a, &b}) { auto f = std::make_unique<QTemporaryFile>(); f->open(); f->write(text); f->close(); *p = std::move(f); }
    } else { a = std::make_unique<QBuffer>(&ba); b = std::make_unique<QBuffer>(&bb); }
    QIODevice::OpenMode m = g.chance(1, 8) ? QIODevice::WriteOnly : g.chance(1, 2) ? QIODevice::ReadOnly : QIODevice::ReadWrite;
    // a buffered file takes part of what is written only later
    if (file || g.chance(1, 3)) m |= QIODevice::Unbuffered;
    a->open(m); b->open(m);
    a->seek(0); b->seek(0);
    bool done = false;
    ev("twins: %s mode %d", file ? "files" : "buffers", int(m));
    { auto t = twinOps(a.get(), b.get(), g.next(), &done); }
    v->drain(2000);
    VH_CHECK(P, "not-resumed", done, "an operation of a %s is not over at the end", file ? "file" : "buffer");
    a->close(); b->close();
    if (!file) VH_CHECK(P, "twin-content", ba == bb, "the buffer has other content than its twin");
    nontrivial();
}
static void caseC14(Rng &g) {
    auto *v = VDispatcher::instance();
    v->reset(&g);
    if (g.chance(1, 8)) { caseTwin(g); return; }
    const long live0 = Tracked::live;
    {
        World w(g, v);
        W = &w;
        w.ops.reserve(256);
        w.devs.resize(size_t(g.range(1, 2)));
        for (auto &s : w.devs) {
            s.d = std::make_unique<Dev>();
            QIODevice::OpenMode m = g.chance(1, 12) ? QIODevice::WriteOnly : g.chance(1, 2) ? QIODevice::ReadOnly : QIODevice::ReadWrite;
            if (g.chance(1, 3)) m |= QIODevice::Unbuffered;
            s.d->open(m);
        }
        bool closing = g.chance(1, 3);
        std::vector<std::unique_ptr<QTimer>> timers;
        for (int i = g.below(3); i > 0; --i) {
            auto t = std::make_unique<QTimer>();
            int dev = g.below(int(w.devs.size()));
            uint64_t seed = g.next();
            QObject::connect(t.get(), &QTimer::timeout, [dev, r = Rng(seed)]() mutable { arrive(r, dev); });
            t->start(g.range(1, 30));
            timers.push_back(std::move(t));
        }
        int rounds = g.range(6, 24);
        for (int r = 0; r < rounds; ++r) {
            int i = g.below(int(w.devs.size()));
            switch (r == 0 ? 0 : g.below(8)) {
            case 0: case 1: if (w.devs[size_t(i)].d && !w.devs[size_t(i)].busy) reader(i, g.next(), g.range(1, 6)); break;
            case 2: observer(i, g.next()); break;
            case 3: case 4: arrive(g, i); break;
            case 5: v->step(); break;
            case 6: ev("advance"); v->advanceBy(g.below(20)); quiet14(); break;
            default: if (closing && g.chance(1, 3)) { v->settle(); quiet14(); if (g.chance(1, 3)) arrive(g, i); shut(g, i); }
            }
        }
        ev("closing");
        timers.clear();
        v->advanceBy(100);
        quiet14();
        auto pending = [&] { return std::any_of(w.ops.begin(), w.ops.end(), [](auto &o) { return !o->over; }); };
        for (int k = 0; k < 30 && pending(); ++k) { for (size_t i = 0; i < w.devs.size(); ++i) arrive(g, int(i)); v->advanceBy(50); quiet14(); }
        for (size_t i = 0; i < w.devs.size(); ++i) if (w.devs[i].d) { ev("close %zu", i); w.devs[i].d->close(); }
        v->advanceBy(50);
        quiet14();
        v->advanceBy(100);
        for (auto &o : w.ops) VH_CHECK("C14", "not-resumed", o->over, "operation %d (%s) is not over at the end", o->id, o->form);
        if (w.ops.size() >= 2) nontrivial();
    }
    VH_CHECK("C14", "leaked", Tracked::live == live0, "%ld objects of reading coroutines are still alive", long(Tracked::live - live0));
    flushDeferredDeletes();
}

// ------------------------------------------------------------------------------------- C15
static Task<> writer(int dev, uint64_t seed, int limit) {
    Rng g(seed);
    Tracked local(1);
    auto &s = W->devs[size_t(dev)];
    for (int i = 0; i < limit && s.d; ++i) {
        Dev *d = s.d.get();
        Op *o = newOp(dev);
        o->form = "write()";
        QByteArray data = g.bytes(g.chance(1, 200) ? g.range(100000, 3000000) : g.chance(1, 12) ? g.range(1000, 30000) : g.chance(1, 15) ? 0 : g.range(1, 40));
        const bool writable = d->isOpen() && d->isWritable();
        const qint64 a0 = d->accepted.size();
        const auto passedBytes = d->passedBytes;
        ev("op %d write %d bytes to %d", o->id, int(data.size()), dev);
        const long steps = W->v->steps;
        qint64 n;
        auto q = qCoro(d);
        auto t = q.write(data);
        // the device has seen all of it by now
        const qint64 took = d->accepted.size() - a0;
        o->endOffset = took > 0 ? d->accepted.size() : 0; // 0: nothing of its own to wait for
        VH_CHECK("C15", "wrong-bytes", d->accepted.mid(int(a0)) == data.left(int(took)), "write %d passed something else to the device", o->id);
        if (writable && !d->acceptLimit) VH_CHECK("C15", "not-written", took == data.size(), "write %d passed only %lld of %d bytes to the device", o->id, (long long)took, int(data.size()));
        if (d->passed.size() + d->lostOut >= o->endOffset) VH_CHECK("C15", "needless-suspension", t.isReady(), "write %d gave up control although the device has passed on everything", o->id);
        data.fill('#'); // belongs to the caller
        if (g.chance(1, 5)) { o->late = true; co_await QCoro::sleepFor(milliseconds(g.below(10))); }
        n = co_await t;
        (void)steps;
        ++o->n; o->over = true;
        ev("op %d: %lld written", o->id, (long long)n);
        count("writes");
        VH_CHECK("C15", "resumed-twice", o->n == 1, "write %d was resumed %d times", o->id, o->n);
        if (Dev *x = devOf(o)) {
            VH_CHECK("C15", "early", x->passed.size() >= o->endOffset, "write %d is over although only %d of %lld bytes were passed on", o->id, int(x->passed.size()), (long long)o->endOffset);
            VH_CHECK("C15", "wrong-number", n == took, "write %d reports %lld bytes instead of %lld", o->id, (long long)n, (long long)took);
        } else {
            // what the device was able to pass on before it was closed
            const qint64 mine = std::clamp<qint64>(*passedBytes - a0, 0, took);
            VH_CHECK("C15", "wrong-number", n == mine, "write %d reports %lld bytes, but the device passed on %lld of its %lld bytes before it was closed", o->id, (long long)n, (long long)mine, (long long)took);
            count("writes_cut_short", mine < took);
        }
        local.check();
        if (g.chance(1, 4)) co_await QCoro::sleepFor(milliseconds(g.below(12)));
    }
}
static Task<> bytesWaiter(int dev, uint64_t seed) {
    Rng g(seed);
    Tracked local(1);
    Dev *d = W->devs[size_t(dev)].d.get();
    if (!d) co_return;
    Op *o = newOp(dev);
    o->form = "waitForBytesWritten()";
    int timeout = g.chance(1, 2) ? -1 : g.below(30);
    if (timeout >= 0) o->due = W->v->now + timeout;
    o->bwFrom = d->bw.size();
    const bool writable = d->isWritable(), none = writable && d->bytesToWrite() == 0;
    ev("op %d waitForBytesWritten %d, timeout %d", o->id, dev, timeout);
    const long steps = W->v->steps;
    std::optional<qint64> r;
    if (g.chance(1, 2)) r = co_await qCoro(d).waitForBytesWritten(milliseconds(timeout));
    else r = co_await qCoro(*d).waitForBytesWritten(timeout);
    ++o->n; o->over = true;
    ev("op %d: %lld", o->id, r ? (long long)*r : -1);
    count("bytes_waits");
    VH_CHECK("C15", "resumed-twice", o->n == 1, "wait %d was resumed %d times", o->id, o->n);
    if (none || !writable) {
        VH_CHECK("C15", "needless-suspension", steps == W->v->steps, "wait %d gave up control although there is nothing to write", o->id);
        if (none) VH_CHECK("C15", "wrong-number", r && *r == 0, "wait %d says %lld although there is nothing to write", o->id, r ? (long long)*r : -1);
        else VH_CHECK("C15", "wrong-number", !r, "wait %d says %lld bytes for a device that is not writable", o->id, (long long)*r);
        co_return;
    }
    auto &s = W->devs[size_t(dev)];
    if (r) {
        if (s.d) VH_CHECK("C15", "wrong-number", s.d->bw.size() > o->bwFrom && s.d->bw[o->bwFrom].n == *r, "wait %d reports %lld bytes; %s", o->id, (long long)*r, s.d->bw.size() > o->bwFrom ? fmt("%lld were written first", (long long)s.d->bw[o->bwFrom].n).c_str() : "nothing was written");
    } else {
        Dev *x = devOf(o);
        VH_CHECK("C15", "no-number", !x || (o->due >= 0 && W->v->now >= o->due), "wait %d reports nothing at %lld; the device is open and the timeout due at %lld", o->id, (long long)W->v->now, (long long)o->due);
    }
    local.check();
}
static void quiet15() {
    for (auto &p : W->ops) {
        Op &o = *p;
        if (o.over || o.late) continue;
        Dev *d = devOf(&o);
        if (!d) violation("C15", "not-resumed", "operation %d (%s) was not resumed although the device was closed", o.id, o.form);
        else if (o.endOffset >= 0) { if (d->passed.size() >= o.endOffset) violation("C15", "not-resumed", "operation %d (%s) was not resumed although all its bytes have been passed on", o.id, o.form); }
        else if (d->bw.size() > o.bwFrom) violation("C15", "not-resumed", "operation %d (%s) was not resumed although bytes were written", o.id, o.form);
        else if (o.due >= 0 && o.due <= W->v->now) violation("C15", "timeout-missing", "operation %d (%s) was not resumed although its timeout was due at %lld", o.id, o.form, (long long)o.due);
    }
    for (auto &s : W->devs) if (s.d) VH_CHECK("C15", "wrong-bytes", s.d->accepted.startsWith(s.d->passed), "the bytes passed on are not those written");
    count("quiet_checks");
}
static void caseC15(Rng &g) {
    auto *v = VDispatcher::instance();
    v->reset(&g);
    if (g.chance(1, 10)) { caseTwin(g); return; }
    const long live0 = Tracked::live;
    {
        World w(g, v);
        W = &w;
        w.ops.reserve(256);
        w.devs.resize(size_t(g.range(1, 2)));
        for (auto &s : w.devs) {
            s.d = std::make_unique<Dev>();
            QIODevice::OpenMode m = g.chance(1, 12) ? QIODevice::ReadOnly : g.chance(1, 2) ? QIODevice::WriteOnly : QIODevice::ReadWrite;
            if (g.chance(1, 3)) m |= QIODevice::Unbuffered;
            s.d->open(m);
            if (g.chance(1, 5)) { s.d->sync = true; s.d->syncSignal = g.chance(1, 2); }
            if (g.chance(1, 6)) s.d->acceptLimit = g.range(1, 20);
        }
        bool closing = g.chance(1, 3);
        auto pass = [&](Rng &r, int i) {
            auto &s = w.devs[size_t(i)];
            if (!s.d || s.d->out.isEmpty()) return;
            int n = r.chance(1, 3) ? int(s.d->out.size()) : r.range(1, int(s.d->out.size()));
            if (r.chance(1, 4)) n = std::min(n, r.range(1, 8));
            ev("pass %d: %d", i, n);
            s.d->pass(n, r.range(1, 3));
        };
        std::vector<std::unique_ptr<QTimer>> timers;
        for (int i = g.below(3); i > 0; --i) {
            auto t = std::make_unique<QTimer>();
            int dev = g.below(int(w.devs.size()));
            uint64_t seed = g.next();
            QObject::connect(t.get(), &QTimer::timeout, [dev, pass, r = Rng(seed)]() mutable { pass(r, dev); });
            t->start(g.range(1, 30));
            timers.push_back(std::move(t));
        }
        int rounds = g.range(6, 24);
        for (int r = 0; r < rounds; ++r) {
            int i = g.below(int(w.devs.size()));
            switch (r == 0 ? 0 : g.below(8)) {
            case 0: case 1: if (w.ops.size() < 40) writer(i, g.next(), g.range(1, 4)); break;
            case 2: bytesWaiter(i, g.next()); break;
            case 3: case 4: pass(g, i); break;
            case 5: v->step(); break;
            case 6: ev("advance"); v->advanceBy(g.below(20)); quiet15(); break;
            default: if (closing && g.chance(1, 3)) { v->settle(); quiet15(); if (g.chance(1, 3)) pass(g, i); shut(g, i); }
            }
        }
        ev("closing");
        timers.clear();
        v->advanceBy(100);
        quiet15();
        auto pending = [&] { return std::any_of(w.ops.begin(), w.ops.end(), [](auto &o) { return !o->over; }); };
        for (int k = 0; k < 60 && pending(); ++k) { for (size_t i = 0; i < w.devs.size(); ++i) { if (k > 40 && w.devs[i].d) w.devs[i].d->pass(w.devs[i].d->out.size(), 1); else pass(g, int(i)); } v->advanceBy(50); quiet15(); }
        for (auto &o : w.ops) VH_CHECK("C15", "not-resumed", o->over, "operation %d (%s) is not over at the end", o->id, o->form);
        for (auto &s : w.devs) if (s.d && s.d->isOpen() && !s.d->closes) VH_CHECK("C15", "wrong-bytes", s.d->accepted == s.d->passed, "the bytes passed on are not those written");
        for (size_t i = 0; i < w.devs.size(); ++i) if (w.devs[i].d) w.devs[i].d->close();
        v->advanceBy(50);
        if (w.ops.size() >= 2) nontrivial();
    }
    VH_CHECK("C15", "leaked", Tracked::live == live0, "%ld objects of writing coroutines are still alive", long(Tracked::live - live0));
    flushDeferredDeletes();
}

int main(int argc, char **argv) {
    vh::parse(argc, argv);
    return monitorMain(argc, argv, [] {
    Options o;
    o.leakEvery = 16;
    return runCases(run().prop == "C14" ? caseC14 : caseC15, o);
    });
}
#include "iodevice.moc"
