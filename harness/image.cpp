// C24: QCoro::ImageProvider.
#include "vh.h"
#include <chrono>
#include <QGuiApplication>
#include <QImage>
#include <QQmlEngine>
#include <QQuickAsyncImageProvider>
#include <private/qmetaobject_p.h>
#include <private/qobject_p.h>
#include <private/qquickpixmapcache_p.h>
#include <qcoroimageprovider.h>
#include <qcorotask.h>
#include <qcorotimer.h>

using namespace vh;
using QCoro::Task;
using std::chrono::milliseconds;
static VDispatcher *V() { return VDispatcher::instance(); }

struct Emission { QObject *o; int request; };
struct Failure : std::runtime_error { using std::runtime_error::runtime_error; };
enum Outcome { Image, Null, Throws };
struct R { // a request
    int id; QString name; QSize size; Outcome outcome = Image; int mode = 0; QImage image; bool started = false, done = false, gate = false, odd = false; int starts = 0;
    QPointer<QQuickImageResponse> response; QObject *raw = nullptr; bool destroyed = false; int finished = 0; bool looked = false;
};
static std::vector<std::unique_ptr<R>> *RS;
static bool creating = false; static std::vector<QObject *> early; // finished() emitted while the response is being made
static std::map<QObject *, R *> byResponse;
static int finishedIndex;
static std::recursive_mutex lock;

static QImage expectedImage(int n, QSize s) {
    QImage i(s.isValid() && !s.isEmpty() ? s : n % 11 == 3 ? QSize(200 + n, 150) : QSize(3, 2), n % 3 == 1 ? QImage::Format_ARGB32_Premultiplied : QImage::Format_RGB32);
    i.fill(QColor((n * 37) & 255, (n * 11 + 5) & 255, (n >> 3) & 255));
    i.setPixel(0, 0, qRgb(n & 255, (n >> 8) & 255, 9));
    return i;
}
class Provider : public QCoro::ImageProvider {
public:
    std::function<Task<QImage>(QString, QSize)> f;
    Task<QImage> asyncRequestImage(const QString &id, const QSize &size) override { return f(id, size); }
};
static Task<QImage> nested(R *r) { co_await QCoro::sleepFor(milliseconds(2)); co_return r->image; }
static Task<QImage> coroutine(Rng *g, R *r, QString id, QSize size) {
    Tracked local(1);
    ++r->starts;
    VH_CHECK("C24", "wrong-request", id == r->name && size == r->size, "request %d for %s is made for %s", r->id, qPrintable(r->name), qPrintable(id));
    QImage image = r->outcome == Null ? QImage() : r->image;
    switch (r->mode) {
    case 0: break;
    case 1: co_await QCoro::sleepFor(milliseconds(g->below(20))); break;
    case 2: while (!r->gate) co_await QCoro::sleepFor(milliseconds(3)); break;
    default: { QImage i = co_await nested(r); if (r->outcome == Image) image = i; }
    }
    ev("coroutine %d done", r->id);
    r->done = true;
    if (r->outcome == Throws) { if (r->odd) throw 42; throw Failure("no such image"); }
    co_return image;
}
static void reaction(Rng &g, R *r);
static Rng *G;
static int depth = 0;
static void look(R *r) { // at a finished response
    if (run().replay) { std::unique_ptr<QQuickTextureFactory> t(r->response->textureFactory()); QImage i = t ? t->image() : QImage(); fprintf(stderr, "%d: %dx%d f%d %x vs %dx%d f%d %x\n", r->id, i.width(), i.height(), i.format(), i.isNull() ? 0 : i.pixel(0,0), r->image.width(), r->image.height(), r->image.format(), r->image.pixel(0,0)); }
    std::unique_ptr<QQuickTextureFactory> t(r->response->textureFactory());
    if (r->outcome == Image) {
        VH_CHECK("C24", "wrong-image", t && t->image() == r->image, "the texture of response %d is not the image that the coroutine made for it%s", r->id, t ? "" : ": there is none");
        VH_CHECK("C24", "wrong-error", r->response->errorString().isEmpty(), "response %d has an image and the error %s", r->id, qPrintable(r->response->errorString()));
    } else if (r->outcome == Throws) {
        VH_CHECK("C24", "wrong-error", r->odd ? !r->response->errorString().isEmpty() : r->response->errorString() == QStringLiteral("no such image"), "response %d, whose coroutine threw, has the error '%s'", r->id, qPrintable(r->response->errorString()));
        VH_CHECK("C24", "wrong-image", !t || t->image().isNull(), "there is a texture in response %d, whose coroutine threw", r->id);
    } else VH_CHECK("C24", "wrong-image", !t || t->image().isNull(), "there is a texture in response %d, whose coroutine made no image", r->id);
    count("textures");
}
static void onFinished(R *r) {
    ++r->finished;
    ev("response %d finished", r->id);
    VH_CHECK("C24", "finished-early", r->done, "response %d is finished before its coroutine", r->id);
    VH_CHECK("C24", "finished-twice", r->finished == 1, "response %d finishes %d times", r->id, r->finished);
    if (r->response) look(r);
}
static void spy(QObject *o, int index, void **) {
    if (index != finishedIndex) return;
    std::lock_guard l(lock);
    if (auto it = byResponse.find(o); it != byResponse.end()) onFinished(it->second);
    else if (creating) early.push_back(o);
}
static QSignalSpyCallbackSet spies{spy, nullptr, nullptr, nullptr};

static R *request(Rng &g, QQuickAsyncImageProvider &p) {
    auto up = std::make_unique<R>();
    R *r = up.get();
    RS->push_back(std::move(up));
    r->id = int(RS->size()) - 1;
    r->name = g.chance(1, 8) && RS->size() > 1 ? (*RS)[size_t(g.below(r->id))]->name : QStringLiteral("image %1").arg(r->id);
    if (g.chance(1, 4)) { // whatever may follow image://provider/
        static const char *odd[] = {"", "a?b=c&d", "dir/file.png", "%20%41", "a#b", " ", "\xc3\xa4\xe2\x82\xac", "?", "/", "//x", "0", "a\nb"};
        r->name = QString::fromUtf8(odd[g.below(12)]);
        if (g.chance(1, 8)) r->name = QString(g.range(100, 5000), QLatin1Char('n'));
    }
    r->size = g.chance(1, 4) ? QSize() : g.chance(1, 4) ? QSize(g.range(-1, 3), g.range(-1, 3)) : g.chance(1, 10) ? QSize(g.range(1, 400), g.range(1, 400)) : QSize(g.range(1, 5), g.range(1, 5));
    r->outcome = g.chance(1, 6) ? Throws : g.chance(1, 8) ? Null : Image;
    r->mode = g.below(4);
    r->odd = g.chance(1, 4);
    r->image = expectedImage(int(g.next() & 0xfffff), r->size);
    ev("request %d, mode %d%s", r->id, r->mode, r->outcome == Throws ? ", fails" : r->outcome == Null ? ", no image" : "");
    static R *current;
    current = r;
    static_cast<Provider &>(static_cast<QObject &>(p)).f = [&g](QString id, QSize s) { return coroutine(&g, current, id, s); };
    creating = true;
    early.clear();
    QQuickImageResponse *q = p.requestImageResponse(r->name, r->size);
    creating = false;
    VH_CHECK("C24", "no-response", q, "there is no response for request %d", r->id);
    if (!q) return r;
    r->response = q;
    r->raw = q;
    byResponse[q] = r;
    for (auto *o : early) if (o == q) onFinished(r);
    VH_CHECK("C24", "not-started", r->starts == 1, "the coroutine of request %d was started %d times", r->id, r->starts);
    QObject::connect(q, &QObject::destroyed, [r] { r->destroyed = true; byResponse.erase(r->raw); });
    QObject::connect(q, &QQuickImageResponse::finished, [r] { if (depth < 3 && G->chance(1, 4)) { ++depth; reaction(*G, r); --depth; } });
    return r;
}
static QQuickAsyncImageProvider *P;
static R *any(Rng &g) { std::vector<R *> l; for (auto &r : *RS) if (r->response) l.push_back(r.get()); return l.empty() ? nullptr : g.pick(l); }
static void reaction(Rng &g, R *r) {
    switch (g.below(4)) {
    case 0: ev("new request"); if (RS->size() < 40) request(g, *P); break;
    case 1: ev("drop response %d", r->id); if (g.chance(1, 2)) delete r->response.data(); else r->response->deleteLater(); break;
    case 2: if (R *o = any(g); o && o != r) { ev("drop response %d", o->id); delete o->response.data(); } break;
    default: if (R *o = any(g)) o->gate = true;
    }
}
static void quiet() {
    for (auto &r : *RS) if (r->done && !r->destroyed && r->response) {
        VH_CHECK("C24", "not-finished", r->finished == 1, "response %d has not finished although its coroutine has", r->id);
        if (r->finished == 1) look(r.get());
    }
    count("quiet_checks");
}
static void scripted(Rng &g) {
    auto *v = V();
    const long live0 = Tracked::live;
    {
        std::vector<std::unique_ptr<R>> rs;
        rs.reserve(256);
        RS = &rs;
        byResponse.clear();
        auto p = std::make_unique<Provider>();
        P = p.get();
        request(g, *p);
        for (int k = 0, n = g.range(6, 25); k < n; ++k) {
            switch (g.below(10)) {
            case 0: case 1: case 2: if (rs.size() < 12) request(g, *p); break;
            case 3: if (R *r = any(g)) { ev("open %d", r->id); r->gate = true; } break;
            case 4: v->step(); break;
            case 5: v->settle(); quiet(); break;
            case 6: v->advanceBy(g.below(15)); quiet(); break;
            case 7: if (R *r = any(g)) { ev("cancel %d", r->id); r->response->cancel(); } break;
            case 8: if (R *r = any(g); r && g.chance(1, 2)) { ev("drop response %d", r->id); delete r->response.data(); } break;
            default: if (R *r = any(g); r && g.chance(1, 2)) { ev("drop response %d later", r->id); r->response->deleteLater(); }
            }
        }
        if (g.chance(1, 8)) { ev("the provider dies"); p.reset(); depth = 99; }
        ev("closing");
        for (int k = 0; k < 12; ++k) { if (k == 6) depth = 99; for (size_t i = 0; i < rs.size(); ++i) rs[i]->gate = true; v->advanceBy(20); quiet(); }
        depth = 0;
        for (auto &r : rs) VH_CHECK("C24", "stuck", r->done, "coroutine %d did not finish", r->id);
        if (rs.size() > 1) nontrivial();
        for (auto &r : rs) delete r->response.data();
    }
    VH_CHECK("C24", "leaked", Tracked::live == live0, "%ld objects of coroutines are still alive", long(Tracked::live - live0));
    flushDeferredDeletes();
}

// With Qt Quick's own reader thread.
struct Watch : QObject {
    Q_OBJECT
public:
    int n = 0;
    Q_SLOT void done() { ++n; }
};
static void real(Rng &g) {
    struct Wanted { QImage image; Outcome outcome; int delay; QSize size; std::atomic<int> starts{0}; std::atomic<bool> done{false}; };
    std::map<QString, std::shared_ptr<Wanted>> wanted;
    auto engine = std::make_unique<QQmlEngine>();
    auto *p = new Provider;
    const bool impatient = g.chance(1, 4);
    const int n = g.range(1, 6);
    for (int i = 0; i < n; ++i) {
        auto w = std::make_shared<Wanted>();
        w->outcome = g.chance(1, 6) ? Throws : g.chance(1, 8) ? Null : Image;
        w->delay = g.chance(1, 3) ? -1 : g.below(impatient ? 40 : 8);
        w->size = g.chance(1, 2) ? QSize() : QSize(g.range(1, 5), g.range(1, 5));
        w->image = expectedImage(int(g.next() & 0xfffff), w->size);
        wanted[QStringLiteral("i%1").arg(i)] = w;
    }
    p->f = [wanted](QString id, QSize) -> Task<QImage> {
        auto it = wanted.find(id);
        if (it == wanted.end()) return [](QString id) -> Task<QImage> { violation("C24", "wrong-request", "a request is made for %s", qPrintable(id)); co_return QImage(); }(id);
        return [](std::shared_ptr<Wanted> w) -> Task<QImage> {
            ++w->starts;
            if (w->delay >= 0) co_await QCoro::sleepFor(milliseconds(w->delay));
            w->done = true;
            if (w->outcome == Throws) throw Failure("no such image");
            co_return w->outcome == Null ? QImage() : w->image;
        }(it->second);
    };
    engine->addImageProvider(QStringLiteral("p"), p);
    ev("real, %d images%s", n, impatient ? ", impatient" : "");
    static int serial = 0;
    ++serial;
    struct Pix { std::unique_ptr<QQuickPixmap> p; Watch w; std::shared_ptr<Wanted> want; bool dropped = false; };
    std::vector<std::unique_ptr<Pix>> ps;
    for (auto &[name, w] : wanted) {
        auto x = std::make_unique<Pix>();
        x->want = w;
        x->p = std::make_unique<QQuickPixmap>();
        x->p->load(engine.get(), QUrl(QStringLiteral("image://p/") + name), QRect(), w->size, QQuickPixmap::Asynchronous);
        if (x->p->isLoading()) x->p->connectFinished(&x->w, SLOT(done()));
        if (g.chance(1, 6)) { ev("drop %s", qPrintable(name)); x->dropped = true; x->p->clear(&x->w); }
        ps.push_back(std::move(x));
    }
    if (impatient) { V()->waitReal(g.below(10)); }
    else {
        const auto ready = [&] { for (auto &x : ps) if (!x->dropped && x->p->isLoading()) return false; return true; };
        for (int k = 0; k < 400 && !ready(); ++k) V()->waitReal(25);
        for (auto &x : ps) {
            if (x->dropped) continue;
            VH_CHECK("C24", "still-loading", !x->p->isLoading(), "an image is still being loaded (its coroutine has %s)", x->want->done ? "finished" : "not finished");
            VH_CHECK("C24", "not-started", x->want->starts == 1, "the coroutine of a request was started %d times", int(x->want->starts));
            if (x->want->outcome == Image && !x->p->isLoading()) {
                std::unique_ptr<QQuickTextureFactory> t;
                VH_CHECK("C24", "wrong-image", x->p->isReady() && x->p->image() == x->want->image, "the pixmap is not the image that the coroutine made");
            }
            count("pixmaps");
        }
    }
    nontrivial();
    for (auto &x : ps) x->p->clear(&x->w);
    QQuickPixmap::purgeCache();
    engine.reset();
    for (int k = 0; k < 10 && V()->step(); ++k) {}
    flushDeferredDeletes();
}
static void caseC24(Rng &g) {
    V()->reset(&g);
    G = &g;
    depth = 0;
    if (g.chance(1, 40)) real(g); else scripted(g);
}
int main(int argc, char **argv) {
    vh::parse(argc, argv);
    qputenv("QT_QPA_PLATFORM", "offscreen");
    finishedIndex = QMetaObjectPrivate::signalIndex(QMetaMethod::fromSignal(&QQuickImageResponse::finished));
    qt_register_signal_spy_callbacks(&spies);
    QCoreApplication::setEventDispatcher(new VDispatcher);
    QGuiApplication app(argc, argv);
    Options o;
    o.leakEvery = 32;
    return runCases(caseC24, o);
}
#include "image.moc"
