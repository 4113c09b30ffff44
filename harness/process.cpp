// C16: QProcess. Real children (vchild) that advance step by step on the parent's command, on
// real descriptors polled by the virtual-time dispatcher, so that every timeout race is possible.
#include "vh.h"
#include <chrono>
#include <QFile>
#include <QProcess>
#include <QTemporaryDir>
#include <fcntl.h>
#include <sys/socket.h>
#include <qcoroprocess.h>
#include <qcorotask.h>
#include <qcorotimer.h>

using namespace vh;
using QCoro::Task;
using std::chrono::milliseconds;

struct Op { int id; int proc; const char *form = ""; qint64 due = -1; bool over = false, late = false; int n = 0; int started0 = 0, finished0 = 0, failed0 = 0, closes0 = 0; bool forStart = false, forFinish = false, io = false, flush = false; size_t bw0 = 0; };
struct Proc {
    std::unique_ptr<QProcess> p;
    int id = 0, ctl = -1, childEnd = -1;
    std::string script; bool echo = false;
    int started = 0, finished = 0, failed = 0, closes = 0;
    qint64 startedAt = -1, finishedAt = -1, failedAt = -1, closedAt = -1;
    qint64 expect = 0, pos = 0; QByteArray written; qint64 flushed = 0; long readies = 0; std::vector<qint64> bw;
    bool reading = false, writing = false, cut = false, killed = false, crashes = false; int exitCode = 0; bool eof = false, endOfInput = false, channelEnd = false;
    int gates = 0, released = 0;
    ~Proc() { p.reset(); if (ctl >= 0) ::close(ctl); if (childEnd >= 0) ::close(childEnd); }
};
struct World { Rng &g; VDispatcher *v; std::vector<std::unique_ptr<Proc>> procs; std::vector<std::unique_ptr<Op>> ops; };
static World *W;
static Op *newOp(int i) {
    auto o = std::make_unique<Op>(); auto &r = *W->procs[size_t(i)];
    o->id = int(W->ops.size()); o->proc = i; o->started0 = r.started; o->finished0 = r.finished; o->failed0 = r.failed; o->closes0 = r.closes;
    Op *x = o.get(); W->ops.push_back(std::move(o)); return x;
}
static char patternAt(qint64 k) { return k % 17 == 5 ? '\n' : char('a' + k % 23); }

static void resumed(Op *o, bool result) {
    ++o->n; o->over = true;
    Proc &r = *W->procs[size_t(o->proc)];
    const qint64 now = W->v->now;
    ev("op %d %s: %d", o->id, o->form, result);
    count("waits");
    VH_CHECK("C16", "resumed-twice", o->n == 1, "wait %d was resumed %d times", o->id, o->n);
    const bool happened = o->forStart ? r.started > o->started0 : r.finished > o->finished0;
    const qint64 at = o->forStart ? r.startedAt : r.finishedAt;
    const bool failed = r.failed > o->failed0;
    if (result) VH_CHECK("C16", "true-wrong", happened, "wait %d (%s) says true, but the process has not %s", o->id, o->form, o->forStart ? "started" : "finished");
    else {
        VH_CHECK("C16", "false-wrong", failed || (o->due >= 0 && now >= o->due), "wait %d (%s) says false at %lld; the process did not fail to start, and the timeout is due at %lld", o->id, o->form, (long long)now, (long long)o->due);
        VH_CHECK("C16", "false-wrong", !(happened && (o->due < 0 || at < o->due)), "wait %d (%s) says false although the process has %s at %lld, before the timeout at %lld", o->id, o->form, o->forStart ? "started" : "finished", (long long)at, (long long)o->due);
    }
}
constexpr int byDefault = 30000; // the timeout of calls without one
static Task<> waiter(int i, uint64_t seed, bool forStart) {
    Rng g(seed);
    Tracked local(1);
    Proc &r = *W->procs[size_t(i)];
    Op *o = newOp(i);
    (forStart ? o->forStart : o->forFinish) = true;
    o->form = forStart ? "waitForStarted()" : "waitForFinished()";
    const int timeout = g.chance(1, 8) ? byDefault : g.chance(1, 2) ? -1 : g.below(40);
    if (timeout >= 0) o->due = W->v->now + timeout;
    const auto state = r.p->state();
    ev("op %d %s %d, timeout %d, state %d", o->id, o->form, i, timeout, int(state));
    const long steps = W->v->steps;
    bool result;
    if (timeout == byDefault) {
        if (forStart) result = co_await qCoro(*r.p).waitForStarted();
        else result = co_await qCoro(r.p.get()).waitForFinished();
    } else if (g.chance(1, 4)) {
        auto t = forStart ? qCoro(*r.p).waitForStarted(timeout) : qCoro(*r.p).waitForFinished(timeout);
        if (g.chance(1, 3)) { o->late = true; co_await QCoro::sleepFor(milliseconds(g.below(10))); }
        result = co_await t;
    } else if (forStart) {
        if (g.chance(1, 2)) result = co_await qCoro(r.p.get()).waitForStarted(milliseconds(timeout));
        else result = co_await qCoro(*r.p).waitForStarted(timeout);
    } else {
        if (g.chance(1, 2)) result = co_await qCoro(r.p.get()).waitForFinished(milliseconds(timeout));
        else result = co_await qCoro(*r.p).waitForFinished(timeout);
    }
    if (state == QProcess::NotRunning || (forStart && state == QProcess::Running)) {
        o->n++; o->over = true;
        ev("op %d: %d", o->id, result);
        count("waits");
        VH_CHECK("C16", "needless-suspension", o->late || steps == W->v->steps, "wait %d gave up control although the state was %d", o->id, int(state));
        VH_CHECK("C16", state == QProcess::NotRunning ? "true-wrong" : "false-wrong", result == (state == QProcess::Running), "wait %d (%s) says %d in state %d", o->id, o->form, result, int(state));
    } else resumed(o, result);
    local.check();
}
static Task<> starter(int i, uint64_t seed, QString program, QStringList args, QIODevice::OpenMode mode) {
    Rng g(seed);
    Tracked local(1);
    Proc &r = *W->procs[size_t(i)];
    Op *o = newOp(i);
    o->forStart = true;
    o->form = "start()";
    const int timeout = g.chance(1, 8) ? byDefault : g.chance(1, 2) ? -1 : g.below(40);
    if (timeout >= 0) o->due = W->v->now + timeout;
    ev("op %d start %d, timeout %d", o->id, i, timeout);
    bool result;
    if (timeout == byDefault) {
        if (mode == QIODevice::ReadWrite && g.chance(1, 2)) { r.p->setProgram(program); r.p->setArguments(args); result = co_await qCoro(*r.p).start(); }
        else if (mode == QIODevice::ReadWrite && g.chance(1, 2)) result = co_await qCoro(*r.p).start(program, args);
        else result = co_await qCoro(r.p.get()).start(program, args, mode);
    } else if (g.chance(1, 2)) result = co_await qCoro(*r.p).start(program, args, mode, milliseconds(timeout));
    else { r.p->setProgram(program); r.p->setArguments(args); result = co_await qCoro(r.p.get()).start(mode, milliseconds(timeout)); }
    resumed(o, result);
    local.check();
}
static Task<> reader(int i, uint64_t seed) {
    Rng g(seed);
    Tracked local(1);
    Proc &r = *W->procs[size_t(i)];
    r.reading = true;
    for (;;) {
        Op *o = newOp(i);
        o->io = true;
        const int kind = g.below(4);
        static const char *names[] = {"readAll()", "read()", "readLine()", "waitForReadyRead()"};
        o->form = names[kind];
        const qint64 max = kind == 1 ? g.range(1, 300) : 0;
        const int timeout = g.chance(2, 3) ? -1 : g.range(1, 30);
        if (timeout >= 0) o->due = W->v->now + timeout;
        const auto state = r.p->state();
        const bool readable = r.p->isReadable(), had = r.p->bytesAvailable() > 0, channelEnd = r.channelEnd;
        ev("op %d %s %d, timeout %d, state %d, available %d", o->id, o->form, i, timeout, int(state), had);
        QByteArray b;
        if (kind == 0) b = co_await qCoro(*r.p).readAll(milliseconds(timeout));
        else if (kind == 1) b = co_await qCoro(*r.p).read(max, milliseconds(timeout));
        else if (kind == 2) b = co_await qCoro(r.p.get()).readLine(0, milliseconds(timeout));
        else {
            auto q = qCoro(*r.p);
            const long readies = r.readies;
            const bool ready = co_await q.waitForReadyRead(milliseconds(timeout));
            if (r.closes == o->closes0 && ready) {
                VH_CHECK("C16", "ready-wrong", r.p->bytesAvailable() > 0 || r.readies > readies, "wait %d says that there is something to read, but there is not (state %d)", o->id, int(r.p->state()));
                b = r.p->readAll();
            }
        }
        ++o->n; o->over = true;
        const qint64 now = W->v->now;
        ev("op %d %s: %d bytes", o->id, o->form, int(b.size()));
        count("reads"); count("bytes_read", b.size());
        VH_CHECK("C16", "resumed-twice", o->n == 1, "read %d was resumed %d times", o->id, o->n);
        if (r.closes > o->closes0) break;
        if (b.isEmpty()) {
            const bool ended = r.p->state() == QProcess::NotRunning || r.channelEnd;
            VH_CHECK("C16", "empty-read", !readable || ended || (o->due >= 0 && now >= o->due), "read %d (%s) ended without data at %lld; the process runs and the timeout is due at %lld", o->id, o->form, (long long)now, (long long)o->due);
            VH_CHECK("C16", "empty-read", !had, "read %d (%s) ended without data although there were some", o->id, o->form);
            if (!readable) break;
            if (r.p->state() == QProcess::NotRunning && r.p->bytesAvailable() == 0) { r.eof = true; break; }
            if (channelEnd && r.p->bytesAvailable() == 0) co_await QCoro::sleepFor(milliseconds(5));
        } else {
            if (kind == 1) VH_CHECK("C16", "too-many-bytes", b.size() <= max, "read %d yields %d bytes, more than %lld", o->id, int(b.size()), (long long)max);
            if (kind == 2) VH_CHECK("C16", "beyond-newline", b.indexOf('\n') < 0 || b.indexOf('\n') == b.size() - 1, "read %d goes beyond a newline", o->id);
            bool ok = true;
            if (r.echo) ok = r.written.mid(int(r.pos), b.size()) == b;
            else for (int k = 0; k < b.size(); ++k) ok = ok && b[k] == patternAt(r.pos + k);
            VH_CHECK("C16", "wrong-bytes", ok, "read %d (%s) yields %d bytes that are not those the child wrote next (from %lld)", o->id, o->form, int(b.size()), (long long)r.pos);
            r.pos += b.size();
        }
        if (g.chance(1, 5)) co_await QCoro::sleepFor(milliseconds(g.below(12)));
        if (r.closes > o->closes0) break;
    }
    r.reading = false;
    local.check();
}
static Task<> writer(int i, uint64_t seed, int pieces, bool end) {
    Rng g(seed);
    Tracked local(1);
    Proc &r = *W->procs[size_t(i)];
    r.writing = true;
    for (int k = 0; k < pieces; ++k) {
        if (r.p->state() != QProcess::Running || !r.p->isWritable()) break;
        Op *o = newOp(i);
        o->io = true; o->form = "write()";
        const int size = g.chance(1, 60) ? g.range(1000000, 5000000) : g.chance(1, 6) ? g.range(60000, 200000) : g.range(1, 400);
        const bool binary = g.chance(1, 2);
        QByteArray data(size, 'x');
        if (binary) data = g.bytes(size);
        else for (int j = 0; j < size; ++j) data[j] = g.chance(1, 40) ? '\n' : char('A' + g.below(26));
        r.written += data;
        const int finished = r.finished;
        const qint64 ahead = r.flushed + r.p->bytesToWrite();
        ev("op %d write %d bytes to %d", o->id, size, i);
        auto q = qCoro(*r.p);
        const qint64 n = co_await q.write(data);
        ++o->n; o->over = true;
        ev("op %d: %lld written", o->id, (long long)n);
        count("writes");
        VH_CHECK("C16", "resumed-twice", o->n == 1, "write %d was resumed %d times", o->id, o->n);
        if (r.closes > o->closes0) break;
        if (r.finished == finished) {
            VH_CHECK("C16", "wrong-number", n == size, "write %d reports %lld of %d bytes", o->id, (long long)n, size);
            VH_CHECK("C16", "early", r.p->bytesToWrite() == 0, "write %d is over although %lld bytes have not been written", o->id, (long long)r.p->bytesToWrite());
        } else {
            // the child cannot have been sent more than was reported
            const qint64 mine = std::clamp<qint64>(r.flushed - ahead, 0, size);
            VH_CHECK("C16", "wrong-number", n >= 0 && n <= mine, "write %d reports %lld of %d bytes, but only %lld were sent", o->id, (long long)n, size, (long long)mine);
            count("writes_cut_short", mine < size);
            break;
        }
        if (g.chance(1, 4)) co_await QCoro::sleepFor(milliseconds(g.below(12)));
        if (r.closes > o->closes0) break;
    }
    if (end && r.p->state() == QProcess::Running) { ev("end of input %d", i); r.endOfInput = true; r.p->closeWriteChannel(); }
    r.writing = false;
    local.check();
}
static Task<> flusher(int i, uint64_t seed) {
    Rng g(seed);
    Tracked local(1);
    Proc &r = *W->procs[size_t(i)];
    Op *o = newOp(i);
    o->flush = true; o->form = "waitForBytesWritten()"; o->bw0 = r.bw.size();
    const int timeout = g.chance(1, 2) ? -1 : g.below(40);
    if (timeout >= 0) o->due = W->v->now + timeout;
    const bool writable = r.p->isWritable(), none = writable && r.p->bytesToWrite() == 0;
    ev("op %d %s %d, timeout %d", o->id, o->form, i, timeout);
    const long steps = W->v->steps;
    auto q = qCoro(*r.p);
    std::optional<qint64> n;
    if (g.chance(1, 2)) n = co_await q.waitForBytesWritten(timeout); else n = co_await q.waitForBytesWritten(milliseconds(timeout));
    ++o->n; o->over = true;
    const qint64 now = W->v->now;
    ev("op %d: %lld", o->id, n ? (long long)*n : -1);
    count("flushes");
    VH_CHECK("C16", "resumed-twice", o->n == 1, "wait %d was resumed %d times", o->id, o->n);
    const bool any = r.bw.size() > o->bw0;
    if (none || !writable) VH_CHECK("C16", "flush-wrong", steps == W->v->steps && (none ? n == 0 : !n), "wait %d (%s) yields %lld or gives up control although nothing is to be written", o->id, o->form, n ? (long long)*n : -1);
    else if (n) VH_CHECK("C16", "flush-wrong", any && r.bw[o->bw0] == *n, "wait %d (%s) yields %lld bytes; the process reported %lld", o->id, o->form, (long long)*n, any ? (long long)r.bw[o->bw0] : -1);
    else VH_CHECK("C16", "flush-wrong", r.p->state() != QProcess::Running || r.finished > o->finished0 || r.closes > o->closes0 || (o->due >= 0 && now >= o->due), "wait %d (%s) yields nothing at %lld; the process runs and the timeout is due at %lld", o->id, o->form, (long long)now, (long long)o->due);
    local.check();
}
static void quiet() {
    for (auto &p : W->ops) {
        Op &o = *p;
        if (o.over || o.late) continue;
        Proc &r = *W->procs[size_t(o.proc)];
        const bool failed = r.failed > o.failed0;
        if (o.flush && r.bw.size() > o.bw0) violation("C16", "not-resumed", "wait %d (%s) was not resumed although bytes were written", o.id, o.form);
        if (o.io || o.flush) { if (r.p->state() == QProcess::NotRunning) violation("C16", "not-resumed", "operation %d (%s) was not resumed although the process is not running any more", o.id, o.form); }
        else if (o.forStart && r.started > o.started0) violation("C16", "not-resumed", "wait %d (%s) was not resumed although the process has started", o.id, o.form);
        else if (o.forFinish && r.finished > o.finished0) violation("C16", "not-resumed", "wait %d (%s) was not resumed although the process has finished", o.id, o.form);
        else if (failed) violation("C16", "not-resumed", "wait %d (%s) was not resumed although the process failed to start", o.id, o.form);
        if (!o.over && o.due >= 0 && o.due <= W->v->now) violation("C16", "timeout-missing", "operation %d (%s) was not resumed although its timeout was due at %lld", o.id, o.form, (long long)o.due);
    }
    count("quiet_checks");
}
static bool pendingOn(int i) { for (auto &o : W->ops) if (!o->over && o->proc == i) return true; return false; }
static void launch(Rng &g, int i, const QString &dir) {
    Proc &r = *W->procs[size_t(i)];
    if (r.ctl >= 0) ::close(r.ctl);
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) abort();
    fcntl(sv[0], F_SETFD, FD_CLOEXEC); // the parent's end
    r.ctl = sv[0];
    r.script.clear(); r.expect = r.pos = 0; r.written.clear(); r.gates = r.released = 0; r.cut = r.eof = r.endOfInput = r.channelEnd = false;
    r.echo = g.chance(1, 3);
    if (r.echo) r.script = g.chance(1, 2) ? "c" : "gc";
    else for (int n = g.range(0, 5); n > 0; --n) {
        int k = g.chance(1, 8) ? g.range(5000, 150000) : g.range(1, 200);
        switch (g.below(5)) {
        case 0: case 1: r.script += fmt("o%d", k); r.expect += k; break;
        case 2: r.script += fmt("e%d", k % 1000); break;
        case 3: r.script += "g"; break;
        default: if (g.chance(1, 6)) { r.script += "d"; n = 1; } else { r.script += "g"; r.script += fmt("o%d", k); r.expect += k; }
        }
    }
    if (g.chance(1, 2)) r.script += "g";
    if (g.chance(1, 6)) r.script += "k"; else r.script += g.chance(1, 2) ? "x0" : "x3";
    r.killed = false;
    r.gates = int(std::count(r.script.begin(), r.script.end(), 'g'));
    if (r.gates && r.echo && r.script[0] != 'g') { r.script = "cx0"; r.gates = 0; }
    r.crashes = r.script.back() == 'k';
    r.exitCode = r.crashes ? 0 : r.script.back() - '0';
    QString program = QStringLiteral(VCHILD);
    r.p->setWorkingDirectory(QString());
    int bad = g.chance(1, 5) ? g.range(1, 3) : 0;
    if (bad == 1) program = QStringLiteral("/nonexistent/program");
    if (bad == 2) program = dir + QStringLiteral("/plain");
    if (bad == 3) r.p->setWorkingDirectory(QStringLiteral("/nonexistent/directory"));
    r.p->setProcessChannelMode(QProcess::SeparateChannels);
    QIODevice::OpenMode mode = r.echo ? QIODevice::ReadWrite : g.chance(1, 2) ? QIODevice::ReadOnly : QIODevice::ReadWrite;
    ev("launch %d '%s'%s", i, r.script.c_str(), bad ? " (cannot start)" : "");
    QStringList args{QString::number(sv[1]), QString::fromStdString(r.script)};
    for (int n = g.chance(1, 3) ? g.below(40) : 0; n > 0; --n) { // arguments that the child ignores
        static const char *const odd[] = {"", " ", "a b", "\"quoted\"", "\xc3\xa9t\xc3\xa9", "--option=value", "'", "\\", "%1", "$HOME;*"};
        args << (g.chance(1, 2) ? QString::fromUtf8(odd[g.below(10)]) : QString::number(g.next()));
    }
    if (g.chance(2, 3)) {
        starter(i, g.next(), program, args, mode);
        VH_CHECK("C16", "started-otherwise", r.p->program() == program && r.p->arguments() == args, "start() ran '%s' with %d arguments instead of '%s' with %d", qPrintable(r.p->program()), int(r.p->arguments().size()), qPrintable(program), int(args.size()));
        if (r.p->state() != QProcess::NotRunning) VH_CHECK("C16", "started-otherwise", r.p->openMode() == mode, "start() opened the process in mode %d instead of %d", int(r.p->openMode()), int(mode));
    }
    else { r.p->start(program, args, mode); if (g.chance(1, 2)) waiter(i, g.next(), true); }
    ::close(sv[1]);
    if (g.chance(1, 3)) waiter(i, g.next(), g.chance(1, 3));
    if (g.chance(1, 2)) reader(i, g.next());
}
static bool release(int i) {
    Proc &r = *W->procs[size_t(i)];
    if (r.released >= r.gates || r.ctl < 0 || r.p->state() == QProcess::NotRunning) return false;
    ++r.released;
    ev("release %d", i);
    (void)!::send(r.ctl, "x", 1, MSG_NOSIGNAL | MSG_DONTWAIT);
    return true;
}
static void caseC16(Rng &g, const QString &dir) {
    auto *v = VDispatcher::instance();
    v->reset(&g);
    const long live0 = Tracked::live;
    {
        World w{g, v, {}, {}};
        W = &w;
        w.ops.reserve(512);
        int np = g.chance(2, 3) ? 1 : 2;
        for (int i = 0; i < np; ++i) {
            auto r = std::make_unique<Proc>();
            r->id = i;
            r->p = std::make_unique<QProcess>();
            Proc *x = r.get();
            QObject::connect(x->p.get(), &QProcess::started, [x, v] { ++x->started; x->startedAt = v->now; ev("started %d", x->id); });
            QObject::connect(x->p.get(), qOverload<int, QProcess::ExitStatus>(&QProcess::finished), [x, v](int c, QProcess::ExitStatus s) { ++x->finished; x->finishedAt = v->now; ev("finished %d: %d %d", x->id, c, int(s));
                // the child has been given its program's arguments: it ends the way they say
                if (s == QProcess::CrashExit) VH_CHECK("C16", "wrong-program", x->killed || x->crashes, "the child crashed; that is not what its arguments say ('%s')", x->script.c_str());
                else if (!x->killed) VH_CHECK("C16", "wrong-program", !x->crashes ? c == x->exitCode || c >= 3 : c >= 3, "the child ended with %d; that is not what its arguments say ('%s')", c, x->script.c_str()); });
            QObject::connect(x->p.get(), &QProcess::errorOccurred, [x, v](QProcess::ProcessError e) { if (e == QProcess::FailedToStart) { ++x->failed; x->failedAt = v->now; } else if (e == QProcess::Crashed) x->cut = true; ev("error %d: %d", x->id, int(e)); });
            QObject::connect(x->p.get(), &QIODevice::bytesWritten, [x](qint64 n) { x->flushed += n; x->bw.push_back(n); });
            QObject::connect(x->p.get(), &QIODevice::readyRead, [x] { ++x->readies; });
            QObject::connect(x->p.get(), &QIODevice::readChannelFinished, [x] { x->channelEnd = true; ev("end of output %d", x->id); });
            QObject::connect(x->p.get(), &QIODevice::aboutToClose, [x, v] { ++x->closes; x->closedAt = v->now; });
            w.procs.push_back(std::move(r));
        }
        int rounds = g.range(6, 26);
        for (int k = 0; k < rounds; ++k) {
            int i = g.below(np);
            Proc &r = *w.procs[size_t(i)];
            switch (k == 0 ? 0 : g.below(12)) {
            case 0: if (r.p->state() == QProcess::NotRunning && !pendingOn(i) && !r.reading && !r.writing) launch(g, i, dir); else waiter(i, g.next(), g.chance(1, 3)); break;
            case 1: waiter(i, g.next(), g.chance(1, 3)); break;
            case 2: if (!r.reading) reader(i, g.next()); break;
            case 3: if (r.echo && !r.writing && !r.endOfInput) writer(i, g.next(), g.range(1, 4), g.chance(1, 3)); break;
            case 4: case 5: release(i); v->waitReal(g.below(3)); break;
            case 6: if (r.echo && r.p->state() == QProcess::Running && g.chance(1, 2)) flusher(i, g.next()); else v->step(); break;
            case 7: v->settle(); quiet(); break;
            case 8: ev("advance"); v->advanceBy(g.chance(1, 25) ? g.range(29000, 31000) : g.below(25)); quiet(); break;
            case 9: case 10: v->waitReal(g.range(1, 8)); if (g.chance(1, 2)) { v->settle(); quiet(); } break;
            default:
                if (g.chance(1, 3)) {
                    if (r.p->state() != QProcess::NotRunning) { r.cut = r.killed = true; if (g.chance(1, 3)) { ev("terminate %d", i); r.p->terminate(); } else { ev("kill %d", i); r.p->kill(); } }
                }
            }
        }
        ev("closing");
        v->advanceBy(100);
        quiet();
        for (int round = 0; round < 4000; ++round) {
            bool busy = false;
            for (int i = 0; i < np; ++i) {
                Proc &r = *w.procs[size_t(i)];
                if (r.p->state() == QProcess::NotRunning && !pendingOn(i) && !r.reading && !r.writing) continue;
                busy = true;
                while (release(i)) ;
                if (r.echo && !r.writing && !r.endOfInput && r.p->state() == QProcess::Running) { r.endOfInput = true; r.p->closeWriteChannel(); }
                // output nobody reads is the reader's job now
                if (!r.reading && round > 3 && r.p->state() == QProcess::Running) reader(i, g.next());
            }
            if (!busy) break;
            v->waitReal(5);
            v->settle();
            quiet();
            v->advanceBy(g.below(40));
            quiet();
            if (run().caseFailed) break;
            if (round == 1500) for (auto &r : w.procs) { r->cut = r->killed = true; r->p->kill(); count("killed_at_end"); }
        }
        for (auto &o : w.ops) VH_CHECK("C16", "not-resumed", o->over, "operation %d (%s) is not over at the end", o->id, o->form);
        for (auto &r : w.procs) {
            if (r->eof && !r->cut && r->closes == 0 && r->failed == 0) {
                if (r->echo) VH_CHECK("C16", "missing-bytes", r->pos == r->written.size(), "%lld of the %d bytes written to the child came back", (long long)r->pos, int(r->written.size()));
                else VH_CHECK("C16", "missing-bytes", r->pos == r->expect, "%lld of the %lld bytes the child wrote were read", (long long)r->pos, (long long)r->expect);
            }
        }
        if (w.ops.size() >= 2) nontrivial();
        if (run().caseFailed) { for (auto &r : w.procs) { r->killed = true; r->p->kill(); r->p->waitForFinished(5000); } v->advanceBy(100000); for (int k = 0; k < 20; ++k) v->settle(); for (auto &o : w.ops) if (!o->over) { outLine("{\"t\":\"fatal\"}"); _exit(10); } }
    }
    VH_CHECK("C16", "leaked", Tracked::live == live0, "%ld objects of coroutines are still alive", long(Tracked::live - live0));
    flushDeferredDeletes();
}

int main(int argc, char **argv) {
    vh::parse(argc, argv);
    return monitorMain(argc, argv, [] {
    QTemporaryDir dir;
    { QFile f(dir.path() + QStringLiteral("/plain")); f.open(QIODevice::WriteOnly); f.write("no program"); f.setPermissions(QFile::ReadOwner | QFile::WriteOwner); }
    Options o;
    o.leakEvery = 32;
    return runCases([&](Rng &g) { caseC16(g, dir.path()); }, o);
    });
}
