// C26 with QThreads, event loops, signals and futures.
#define QT_MODE 1
#include <QObject>
class Emitter : public QObject {
    Q_OBJECT
public:
    Q_SIGNAL void ping(int n);
};
#include "threads.cpp"
#include "threads_qt.moc"
