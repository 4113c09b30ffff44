// C25: the QCORO_* test macros against their QtTest counterparts.
#include "vh.h"
#include <chrono>
#include <QElapsedTimer>
#include <QFile>
#include <QTemporaryDir>
#include <QTest>
#include <QXmlStreamReader>
#include <qcorotask.h>
#include <qcorotest.h>
#include <qcorotimer.h>

// Known finding try-undefined: the QCORO_TRY_* macros expand to a macro that does not exist. It is
// given here, so that everything else about them can be monitored.
#define STR2(...) #__VA_ARGS__
#define STR(...) STR2(__VA_ARGS__)
static const char tryExpansion[] = STR(QCORO_TRY_VERIFY_WITH_TIMEOUT(x, 1));
#ifndef QCORO_TRY_LOOP_IMPL
#define QCORO_TRY_LOOP_IMPL QTRY_LOOP_IMPL
#endif

using namespace vh;
using QCoro::Task;
using std::chrono::milliseconds;

struct Op { int kind; bool b; int x, y; QString s, t; QByteArray msg; int thrown; int mode; int n; int after; };
struct Ctx { // one test function
    bool reached = false;
    const Op *op = nullptr;
    bool b = false; int x = 0, y = 0; QString s, t; const char *msg = ""; int polls = 0, need = 0; bool late = false; int evaluated = 0, serial = 0;
    std::unique_ptr<QTimer> timer;
    QObject ctx;
    QElapsedTimer clock;
    void set(const Op &o) {
        reached = false; op = &o; b = o.b; x = o.x; y = o.y; s = o.s; t = o.t; msg = o.msg.constData(); polls = 0; need = o.n; late = false; evaluated = 0;
        timer.reset();
        ++serial;
        if (o.mode == 1) { timer = std::make_unique<QTimer>(); timer->setSingleShot(true); QObject::connect(timer.get(), &QTimer::timeout, [this] { late = true; }); timer->start(o.after); }
        if (o.mode == 2) QMetaObject::invokeMethod(&ctx, [this, n = serial] { if (n == serial) late = true; }, Qt::QueuedConnection);
        clock.start();
    }
    bool poll() { return ++polls >= need; }
    bool is(bool v) { ++evaluated; return v; }
    int num(int v) { ++evaluated; return v; }
    void maybeThrow() { if (op->thrown == 1) throw std::runtime_error(msg); if (op->thrown == 2) throw std::logic_error(msg); if (op->thrown == 3) throw 7; }
    Task<bool> later(bool v) { co_await QCoro::sleepFor(milliseconds(1)); co_return v; }
    Task<int> laterNum(int v) { co_await QCoro::sleepFor(milliseconds(0)); co_return v; }
    Task<> laterThrow() { co_await QCoro::sleepFor(milliseconds(0)); maybeThrow(); }
};
using QFn = void (*)(Ctx &); using CFn = Task<> (*)(Ctx &);
struct Kind { const char *name; QFn q; CFn c; int line; bool tries, slow, rows; };
static std::vector<Kind> kinds;
struct Reg { Reg(const char *n, QFn q, CFn c, int line, bool tries = false, bool slow = false, bool rows = false) { kinds.push_back({n, q, c, line, tries, slow, rows}); } };
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define PAIRX(Q, C, QARGS, CARGS, ...) \
    static void CAT(q, __LINE__)(Ctx &c) { (void)c; Q QARGS; c.reached = true; } \
    static Task<> CAT(c, __LINE__)(Ctx &c) { if (c.op->after & 1) co_await QCoro::sleepFor(milliseconds(0)); C CARGS; c.reached = true; co_return; } \
    static Reg CAT(r, __LINE__)(#C, CAT(q, __LINE__), CAT(c, __LINE__), __LINE__, ##__VA_ARGS__);
#define PAIR(M, ...) PAIRX(Q##M, QCORO_##M, (__VA_ARGS__), (__VA_ARGS__))
#define PAIRW(M, QARGS, CARGS) PAIRX(Q##M, QCORO_##M, QARGS, CARGS)
#define TRY(M, ...) PAIRX(QTRY_##M, QCORO_TRY_##M, (__VA_ARGS__), (__VA_ARGS__), true)
#define SLOW(M, ...) PAIRX(QTRY_##M, QCORO_TRY_##M, (__VA_ARGS__), (__VA_ARGS__), true, true)
using IntPtr = int *;

PAIR(VERIFY, c.b)
PAIR(VERIFY, c.is(c.b))
PAIR(VERIFY, c.x == c.y)
PAIRW(VERIFY, (c.b), (co_await c.later(c.b)))
PAIR(VERIFY2, c.b, c.msg)
PAIR(VERIFY2, c.is(c.x < c.y), c.msg)
PAIRW(VERIFY2, (c.b, c.msg), (co_await c.later(c.b), c.msg))
PAIR(COMPARE, c.x, c.y)
PAIR(COMPARE, c.num(c.x), c.y)
PAIR(COMPARE, c.s, c.t)
PAIR(COMPARE, c.x > 3 ? c.s : c.t, c.t)
PAIRW(COMPARE, (c.x, c.y), (co_await c.laterNum(c.x), c.y))
PAIR(FAIL, c.msg)
PAIR(SKIP, c.msg)
PAIR(VERIFY_THROWS_EXCEPTION, std::runtime_error, c.maybeThrow())
PAIR(VERIFY_THROWS_EXCEPTION, std::exception, c.maybeThrow())
PAIRW(VERIFY_THROWS_EXCEPTION, (std::runtime_error, c.maybeThrow()), (std::runtime_error, co_await c.laterThrow()))
PAIRW(VERIFY_EXCEPTION_THROWN, (c.maybeThrow(), std::runtime_error), (c.maybeThrow(), std::runtime_error))
PAIR(EXPECT_FAIL, "", c.msg, Continue)
PAIR(EXPECT_FAIL, "", c.msg, Abort)
PAIR(EXPECT_FAIL, "a", c.msg, Continue)
PAIR(EXPECT_FAIL, "b", c.msg, Abort)
PAIRX(QTEST, QCORO_TEST, (c.x, "v"), (c.x, "v"), false, false, true)
TRY(VERIFY_WITH_TIMEOUT, c.b || c.late, 35)
TRY(VERIFY_WITH_TIMEOUT, c.late, 60)
TRY(VERIFY_WITH_TIMEOUT, c.poll(), 20)
TRY(VERIFY2_WITH_TIMEOUT, c.b || c.late, c.msg, 30)
TRY(VERIFY2_WITH_TIMEOUT, c.poll(), c.msg, 24)
TRY(COMPARE_WITH_TIMEOUT, c.late || c.b, true, 30)
TRY(COMPARE_WITH_TIMEOUT, (c.late ? c.y : c.x), c.y, 28)
TRY(COMPARE_WITH_TIMEOUT, c.poll(), true, 20)
SLOW(VERIFY, c.late)
SLOW(VERIFY, c.poll())
SLOW(VERIFY2, c.late, c.msg)
SLOW(VERIFY2, c.poll(), c.msg)
SLOW(COMPARE, c.late, true)
SLOW(COMPARE, c.poll(), true)

using Program = std::vector<Op>;
struct Step { bool reached; qint64 ms; int evaluated; };
struct Result { std::vector<Step> steps; };
static Program *prog; static std::map<std::string, Result> got;
static std::string tag() { return QTest::currentDataTag() ? QTest::currentDataTag() : ""; }
class Suite : public QObject {
    Q_OBJECT
public:
    bool rows = false; int rowValue[2] = {0, 0};
    int maxDepth = 0;
    void data() { if (!rows) return; QTest::addColumn<int>("v"); QTest::newRow("a") << rowValue[0]; QTest::newRow("b") << rowValue[1]; }
    Task<> body(Result &r, int from) {
        Ctx c;
        for (int i = from; i < int(prog->size()); ++i) {
            const Op &o = (*prog)[size_t(i)];
            c.set(o);
            co_await kinds[size_t(o.kind)].c(c);
            r.steps.push_back({c.reached, c.clock.elapsed(), c.evaluated});
            if (!c.reached) co_return;
        }
    }
private:
    Q_SLOT void plain_data() { data(); }
    Q_SLOT void coro_data() { data(); }
    Q_SLOT void plain() {
        Result &r = got["plain " + tag()];
        Ctx c;
        for (auto &o : *prog) {
            c.set(o);
            try { kinds[size_t(o.kind)].q(c); } catch (int) { c.reached = false; }
            r.steps.push_back({c.reached, c.clock.elapsed(), c.evaluated});
            if (!c.reached) return;
        }
    }
    Q_SLOT void coro() { QCoro::waitFor(body(got["coro " + tag()], 0)); }
};
struct Incident { QString type; int line; QString file, text; };
static std::map<std::string, std::vector<Incident>> parse(const QString &path) {
    std::map<std::string, std::vector<Incident>> out;
    QFile f(path);
    if (!f.open(QIODevice::ReadOnly)) return out;
    QXmlStreamReader x(&f);
    std::string fn, tag; Incident cur; bool in = false;
    while (!x.atEnd()) {
        x.readNext();
        if (x.isStartElement()) {
            if (x.name() == QLatin1String("TestFunction")) fn = x.attributes().value(QLatin1String("name")).toString().toStdString();
            else if (x.name() == QLatin1String("Incident") || x.name() == QLatin1String("Message")) {
                cur = {x.attributes().value(QLatin1String("type")).toString(), x.attributes().value(QLatin1String("line")).toInt(), x.attributes().value(QLatin1String("file")).toString(), QString()};
                tag.clear(); in = true;
            } else if (x.name() == QLatin1String("DataTag")) tag = x.readElementText().toStdString();
            else if (x.name() == QLatin1String("Description") && in) cur.text = x.readElementText();
        } else if (x.isEndElement() && (x.name() == QLatin1String("Incident") || x.name() == QLatin1String("Message"))) { out[fn + " " + tag].push_back(cur); in = false; }
    }
    return out;
}
static QString *dirPath;
static std::string show(const std::vector<Incident> &v) { std::string s; for (auto &i : v) s += fmt("%s at line %d: %s; ", qPrintable(i.type), i.line, i.text.left(120).toUtf8().constData()); return s.empty() ? "nothing" : s; }
static void execute(Program &p, Suite &suite, bool afterFailure);
static void caseC25(Rng &g) {
    Program p;
    Suite suite;
    bool slow = false;
    const int want = g.range(1, 6);
    for (int k = 0; k < want; ++k) {
        Op o;
        do o.kind = g.below(int(kinds.size())); while (kinds[size_t(o.kind)].slow && !(g.chance(1, 25) && !slow));
        const Kind &kd = kinds[size_t(o.kind)];
        const bool last = k == want - 1;
        const int fail = last ? 2 : 8; // most steps before the last one continue
        o.b = !g.chance(1, fail);
        o.x = g.below(6); o.y = g.chance(1, fail) ? o.x + 1 + g.below(3) : o.x;
        o.s = QStringLiteral("s%1").arg(o.x); o.t = QStringLiteral("s%1").arg(o.y);
        o.msg = QByteArray("message ") + QByteArray::number(int(g.next() & 0xffff)) + " end";
        o.thrown = g.chance(1, fail) ? g.pick(std::vector<int>{0, 2, 3}) : 1;
        o.after = g.below(8);
        o.mode = g.range(0, 2);
        o.n = g.pick(std::vector<int>{1, 2, 3, 4});
        if (kd.tries && !kd.slow) {
            if (g.chance(1, fail)) { o.n = g.chance(1, 2) ? 14 : 100000; o.mode = 0; }
            else { o.mode = g.range(1, 2); }
            
        }
        if (kd.slow) {
            slow = true;
            o.n = g.pick(std::vector<int>{1, 4, 10, g.chance(1, 8) ? 70 : 5});
            o.mode = g.range(1, 2); if (o.mode == 1) o.after = g.pick(std::vector<int>{1, 30, 400});
        }
        if (!kd.tries && std::string(kd.name).find("EXPECT") == std::string::npos && std::string(kd.name) != "QCORO_SKIP" && std::string(kd.name) != "QCORO_FAIL") {}
        else if (!kd.tries && !last && std::string(kd.name).find("EXPECT") == std::string::npos) { --k; continue; } // ends the function: only as the last step
        if (kd.rows) { suite.rows = true; }
        ev("%s line %d b=%d x=%d y=%d thrown=%d mode=%d n=%d", kd.name, kd.line, o.b, o.x, o.y, o.thrown, o.mode, o.n);
        p.push_back(o);
    }
    if (g.chance(1, 5)) suite.rows = true;
    for (auto &o : p) if (kinds[size_t(o.kind)].rows) for (auto &r : suite.rowValue) r = g.chance(1, 3) ? o.x + 1 : o.x;
    if (suite.rows) ev("rows %d %d", suite.rowValue[0], suite.rowValue[1]);
    execute(p, suite, false);
}
static void execute(Program &p, Suite &suite, bool afterFailure) {
    prog = &p;
    got.clear();
    const QString path = *dirPath + QStringLiteral("/out.xml");
    QTest::qExec(&suite, {QStringLiteral("suite"), QStringLiteral("-nocrashhandler"), QStringLiteral("-maxwarnings"), QStringLiteral("0"), QStringLiteral("-o"), path + QStringLiteral(",xml")});
    qInstallMessageHandler(qtMessage);
    auto inc = parse(path);
    VH_CHECK("C25", "not-run", inc.count("initTestCase "), "the tests did not run");
    for (auto &row : suite.rows ? std::vector<std::string>{"a", "b"} : std::vector<std::string>{""}) {
        const auto &a = inc["plain " + row], &b = inc["coro " + row];
        const auto &ra = got["plain " + row].steps, &rb = got["coro " + row].steps;
        count("functions");
        bool xpass = false, expects = false, triesAfter = false;
        for (auto &i : a) xpass |= i.type == QLatin1String("xpass");
        for (auto &o : p) { expects |= std::string(kinds[size_t(o.kind)].name) == "QCORO_EXPECT_FAIL"; triesAfter |= expects && kinds[size_t(o.kind)].tries; }
        // Known finding try-after-failure.
        if (xpass && triesAfter && !afterFailure) { count("try_after_failure_not_compared"); continue; }
        if (afterFailure) {
            for (auto &i : b) if (i.text.contains(QLatin1String("too short"))) violation("C25", "try-after-failure", "a QCORO_TRY_* macro in a test that has already failed records that its timeout was too short; the QtTest macro records %s", show(a).c_str());
            if (run().caseFailed) return;
        }
        std::string names; for (auto &o : p) names += fmt("%s ", kinds[size_t(o.kind)].name);
        for (size_t i = 0; i < std::max(ra.size(), rb.size()); ++i) {
            const char *n = kinds[size_t(p[i].kind)].name;
            if (i >= ra.size() || i >= rb.size()) { violation("C25", "control", "step %zu (%s) of the %s is not executed", i, n, i >= rb.size() ? "coroutine" : "function"); break; }
            count(rb[i].reached ? "steps_passed" : "steps_ended");
            VH_CHECK("C25", "control", ra[i].reached == rb[i].reached, "%s (line %d) %s the coroutine; the QtTest macro %s the function", n, kinds[size_t(p[i].kind)].line, rb[i].reached ? "continues" : "ends", ra[i].reached ? "continues" : "ends");
            if (names.find("EXPECT") == std::string::npos && p[i].mode == 0 && kinds[size_t(p[i].kind)].tries && !rb[i].reached && p[i].n > 1000) VH_CHECK("C25", "timeout", rb[i].ms >= 15, "%s gives up after %lld ms", n, (long long)rb[i].ms);
            if (!kinds[size_t(p[i].kind)].tries) VH_CHECK("C25", "evaluated", ra[i].evaluated == rb[i].evaluated, "%s (line %d) evaluates its operand %d times instead of %d", n, kinds[size_t(p[i].kind)].line, rb[i].evaluated, ra[i].evaluated);
        }
        bool sameRecords = a.size() == b.size();
        for (size_t i = 0; sameRecords && i < a.size(); ++i) {
            sameRecords = a[i].type == b[i].type && a[i].line == b[i].line && a[i].file == b[i].file;
            const auto has = [&](const Incident &in, const QString &t) { return in.text.contains(t); };
            for (auto &o : p) sameRecords &= has(a[i], QString::fromLatin1(o.msg)) == has(b[i], QString::fromLatin1(o.msg));
            for (auto *t : {"too short", "FAIL", "returned FALSE", "not the same"}) sameRecords &= has(a[i], QLatin1String(t)) == has(b[i], QLatin1String(t));
            static const QRegularExpression sep(QStringLiteral("\\) *: "));
            QStringList va, vb;
            for (auto l : a[i].text.split(QLatin1Char('\n')).mid(1)) va << l.section(sep, -1);
            for (auto l : b[i].text.split(QLatin1Char('\n')).mid(1)) vb << l.section(sep, -1);
            sameRecords &= va == vb;
        }
        VH_CHECK("C25", "records", sameRecords, "[%s] record %s the QtTest macros record %s", names.c_str(), show(b).c_str(), show(a).c_str());
        count("records", long(b.size()));
    }
    if (p.size() > 1 || suite.rows) nontrivial();
}
static void scenarioAfterFailure() {
    Suite suite;
    Program p;
    const auto add = [&](const char *name, int nth, int n) { Op o{}; o.kind = -1; for (size_t i = 0; i < kinds.size(); ++i) if (kinds[i].name == std::string(name) && nth-- == 0) o.kind = int(i); o.b = true; o.n = n; o.msg = "message 1 end"; o.thrown = 1; p.push_back(o); };
    add("QCORO_EXPECT_FAIL", 0, 0); add("QCORO_VERIFY", 0, 0); add("QCORO_TRY_VERIFY_WITH_TIMEOUT", 2, 3);
    execute(p, suite, true);
}
static void scenarioUndefined() {
    VH_CHECK("C25", "try-undefined", !strstr(tryExpansion, "QCORO_TRY_LOOP_IMPL"), "the QCORO_TRY_* macros expand to QCORO_TRY_LOOP_IMPL(), which does not exist");
}
int main(int argc, char **argv) {
    vh::parse(argc, argv);
    QCoreApplication app(argc, argv);
    QTemporaryDir dir(QStringLiteral("/tmp/vp_c25_XXXXXX"));
    QString path = dir.path();
    dirPath = &path;
    qputenv("QTEST_FUNCTION_TIMEOUT", "600000");
    Options o;
    o.scenarios = {{"try-after-failure", scenarioAfterFailure}, {"try-undefined", scenarioUndefined}};
    return runCases(caseC25, o);
}
#include "testmacros.moc"
