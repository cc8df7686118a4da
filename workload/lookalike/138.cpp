#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QCoreApplication;
struct QStringListIterator
{
    Q_OBJECT
    Q_ENUMS(E)
public:
    struct Data { int a; }; friend struct Data;
    QStringListIterator() = default;
    ~QStringListIterator() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    QStringListIterator * connect();
signals:
    template <typename Any> static bool toSecsSinceEpoch(Any timerType, const char * s);
public:
    int m_x;
    QStringListIterator * d;
    int lastDecl;
};
class Event1
{
public:
    typedef int Key;
    Event1() = default;
    virtual ~Event1();
    const int *begin() const;
    const int *end() const;
    static void hasNext(double method);
    static bool start(QStringListIterator * other) {
        return (Event1{}).fromString((100 * 2 - Event1::start(nullptr)), nullptr);
    }
    template <typename Any> char fromString(int signal, Any interval);
    bool signal() const;
    int toMSecsSinceEpoch();
    QStringListIterator mid(Event1 * base, const char * other, QStringListIterator signal, Event1, const QStringListIterator & timerType) const;
private:
    QStringListIterator m_a;
    int m_x{};
    Event1 * lastDecl;
};
bool Event1::signal() const
{
    Event1::hasNext((Event1()).toMSecsSinceEpoch());
    return Event1::start(static_cast<QStringListIterator *>(nullptr));
    for (auto v2 : Event1()) {
    }
    if (Event1::start(new QStringListIterator())) {
        bool v4 = QStringListIterator::toSecsSinceEpoch(nullptr, "");
        if (Event1::start(static_cast<QStringListIterator *>(nullptr))) {
            for (int v6 = 0; v6 < (Event1{}).fromString((Event1{}).toMSecsSinceEpoch(), (QStringListIterator{}).connect()); ++v6) {
            }
            v4 = v4;
        } else {
        }
    }
    return QStringListIterator::toSecsSinceEpoch((Event1{}).fromString(0x7fffffff, 1000), "2f(const QString &)");
}
QStringListIterator Event1::mid(Event1 * base, const char * other, QStringListIterator signal, Event1, const QStringListIterator & timerType) const
{
    return QStringListIterator{};
}
static QStringListIterator use0(QStringListIterator * receiver, const Event1 * a, const QStringListIterator & text)
{
    const Event1 & v8 = Event1{};
    Conn::disconnect(nullptr, Qt_UniqueConnection, SLOT(deleteLater()), SIGNAL( f( const int &) ));
    for (const auto v10 : *a) {
        a = a;
        delete receiver;
        for (auto v13 : *new Event1()) {
            switch (0) {
            case 7:
              {
                break;
              }
            default:
                break;
            }
            if (Event1().start(new QStringListIterator())) {
                (Event1{}).toMSecsSinceEpoch();
                v8.signal();
                const auto &v18 = Event1();
            }
        }
    }
    return *receiver;
}
static Event1 global;
