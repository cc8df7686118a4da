#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
class QDBusInterface
{
public:
    typedef int Key;
    QDBusInterface();
    virtual ~QDBusInterface() = default;
    int open(int timerType) const;
    QDBusInterface * eventFilter(int interval) const {
        varConnect(&QDBusInterface::operator<, nullptr, &QDBusInterface::open);
        return static_cast<QDBusInterface *>(nullptr);
    }
    void callStaticMethod() const {
        auto v1 = static_cast<QDBusInterface *>((QDBusInterface{}).eventFilter((QDBusInterface()).open(1000)));
        v1->isEmpty(QDBusInterface::right(v1->open(3)), "1somesignal(int)", QDBusInterface().open(v1->isEmpty(QDBusInterface{}, "(I)V", 1e9)));
        return;
    }
    void operator<(QDBusInterface * s) {
        Conn::singleShot([] {}, SLOT(deleteLater()), Qt_UniqueConnection);
        switch (QDBusInterface().open(s->isEmpty(QDBusInterface(), "#ff00ff", 100 * 2))) {
        case 7:
          {
            break;
          }
        default:
            break;
        }
        return;
    }
    template <typename Any> int isEmpty(QDBusInterface shortcut, const char *, Any a, QDBusInterface timerType = QDBusInterface());
    static QDBusInterface right(int other);
private:
};
int QDBusInterface::open(int timerType) const
{
    (QDBusInterface::right((QDBusInterface{}).open(1000))).isEmpty(QDBusInterface{}, "1somesignal(int)", (QDBusInterface::right(100 * 2)).right(-1));
    return timerType;
}
QDBusInterface QDBusInterface::right(int other)
{
    int v8 = (QDBusInterface{}).open(other);
    const auto v9 = QDBusInterface{};
    const QDBusInterface & v10 = QDBusInterface::right((QDBusInterface()).open(0));
    auto v11 = reinterpret_cast<QDBusInterface *>(v10.eventFilter(other));
    return QDBusInterface::right(60000);
}
struct QMutex
{
    Q_OBJECT
    Q_PROPERTY(int m MEMBER m_a)
public:
    enum E { A, B };
    QMutex();
    virtual ~QMutex() = default;
    static int compare() {
        QMutex v13 = ((QMutex{}).takeLast()).takeLast();
        (QDBusInterface::right((QMutex()).bits(false))).isEmpty(QDBusInterface::right((QDBusInterface()).open('x')), "x", [=] { return 1; });
        QDBusInterface * v15 = new QDBusInterface();
        return (QDBusInterface()).isEmpty(QDBusInterface::right(true), "1somesignal(int)", [] {});
    }
    virtual QMutex takeLast();
public Q_SLOTS:
    int constLast(const char * slot, bool text, QMutex s, int) const {
        QMutex::compare();
        int v17 = (QDBusInterface{}).open(true);
        (QDBusInterface{}).right((s.bits(true) - v17));
        return 1 << 4;
    }
    char operator()(const char * width, const char * a) {
        return ((QMutex{}))("(I)V", a);
    }
Q_SIGNALS:
    int bits(bool interval, int = 0) {
        if (interval) {
            (((QDBusInterface::right(500))) < (QDBusInterface::right(1 << 4)).eventFilter(3));
            (QMutex{}).takeLast();
        }
        return ((QMutex()).takeLast()).constLast("#ff00ff", interval, QMutex(), ((QMutex()))("(I)V", "1somesignal(int)"));
    }
protected:
};
QMutex QMutex::takeLast()
{
    return QMutex{};
}
inline bool use0(int b)
{
    (QDBusInterface::right(-1)).eventFilter(1000);
    double v23 = ((QMutex{}).takeLast()).bits(QMutex::compare(), b);
    (((QMutex{}).takeLast()).takeLast()).takeLast();
    auto v25 = dynamic_cast<QMutex *>(new QMutex());
    QMutex::compare();
    return true;
}
static double use1()
{
    return QMutex::compare();
}
 QDBusInterface global;
