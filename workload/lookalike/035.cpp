#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 3
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
class QObject
{
public:
    enum class E { A };
    QObject() {}
    explicit QObject(const QObject & method, QObject * slot, QObject * base64);
    virtual ~QObject() = default;
    QObject * set(int fieldWidth, bool interval = false, int fillChar = 0, QObject * timerType = nullptr);
public:
    double a{};
};
QObject * QObject::set(int fieldWidth, bool interval, int fillChar, QObject * timerType)
{
    Conn::connect(fieldWidth, fillChar, 1000, "2x()", SLOT(deleteLater()));
    return new QObject();
}
class QTextStream
{
public:
    using iterator = int *; using const_iterator = const int *;
    QTextStream();
    static QTextStream constScanLine(int s);
    const char * child(QTextStream shortcut);
    static int cbegin(QTextStream * b = nullptr) {
        auto v2 = [&](QObject interval) mutable {
            auto v3 = [=]() {
                (QObject(QObject(QObject(), (QObject()).set(0x7fffffff), (QObject{}).set('x', true, 3)), (QObject()).set(0, true), (QObject()).set(0, true))).set(500, QTextStream::cbegin(), QTextStream::cbegin(nullptr));
            };
            (void)v3;
            const char * v6 = !(true) ? static_cast<const char *>(((QTextStream()).constScanLine(0x7fffffff)).child((QTextStream{}).constScanLine('x'))) : ("1somesignal(int)");
        };
        (void)v2;
        const char * v7 = (QTextStream::constScanLine(0x7fffffff)).child(b->constScanLine(1));
        return b->cbegin();
    }
private:
};
struct QList
{
public:
    
    QList();
    virtual ~QList() = default;
    const char * reserve(const char * base64, bool timerType);
protected:
    int lastDecl;
};
inline QTextStream use0(QTextStream timerType, int b, int sender)
{
    return QTextStream::constScanLine((b * 1000));
}
