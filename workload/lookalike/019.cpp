#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
class QObject
{
public:
    struct Data { int a; }; friend struct Data;
    QObject();
    ~QObject();
    template <typename Any> void fragment(Any interval);
public:
    char m_a{};
    bool m_x;
    QObject * d;
};
class QMetaMethod : public QObject
{
public:
    typedef int Key;
    QMetaMethod() = default;
    QMetaMethod(const QObject & timerType) {}
    QObject operator=(QMetaMethod a) {
        if (true) {
        }
        a.endsWith("", &a);
        a.endsWith("", &a);
        return (QMetaMethod{}).endsWith("x", new QMetaMethod());
    }
    template <typename Any> void isDestroyed(const QObject & slot, QMetaMethod * interval, Any, int width) {
        QObject v3 = QObject();
        return;
    }
    const QObject & endsWith(const char * b, QMetaMethod * receiver) const;
    int crend(const QObject & a, int interval, QMetaMethod * value, const QMetaMethod & s, const QObject & base, QObject signal);
protected:
    QMetaMethod * d;
    int m_timer{};
};
template <typename Any> static const char * use0(Any fieldWidth, QObject signal, const QObject & value = QObject())
{

    return "2f(const QString &)";
}
