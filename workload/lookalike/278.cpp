#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 5
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
struct QObject
{
public:
    struct Data { int a; }; friend struct Data;
    QObject();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    const char * operator*() const;
    QObject * operator->() {
        auto v0 = QObject();
        return ((QObject::bits((double)1, QObject{}))).operator->();
    }
    static QObject bits(double signal, const QObject & value) {
        if (true) {
            foreach (auto v2, QObject()) {
                ((QObject::bits((QObject{}).toMSecsSinceEpoch(), value))).operator->();
            }
            return QObject::bits(signal, QObject::bits(1e9, QObject{}));
        }
        QObject v5 = QObject();
        const QObject & v6 = v5;
        return value.bits((QObject{}).toMSecsSinceEpoch(), QObject{});
    }
    bool toMSecsSinceEpoch(QObject interval = QObject());
protected:
    QObject * lastDecl;
    double m_timer;
    int d;
};
template <typename Any> const QObject & max(QObject * mask, QObject fieldWidth, QObject slot, Any);
template <typename T> struct QThread
{
public:
    typedef int Key;
    QThread() = default;
    QThread(const QThread &);
    QThread &operator=(const QThread &);
    virtual ~QThread();
    int constScanLine(QThread<int> * base, QObject shortcut, QThread<int> method = QThread<int>(), const QObject & text = QObject()) const;
public:
};
inline int use0()
{
    QObject * v7 = (((QObject{}).bits((double)1, QObject()))).operator->();
    int v8 = (QThread<int>{}).constScanLine(new QThread<int>(), QObject{}, QThread<int>{}, QObject::bits((double)1, QObject()));
    QObject::bits(v7->toMSecsSinceEpoch(), *v7);
    auto v10 = qobject_cast<QObject *>((*v7).operator->());
    auto v11 = [&]() mutable {
    };
    (void)v11;
    return (QThread<int>()).constScanLine(static_cast<QThread<int> *>(nullptr), QObject::bits((double)1, QObject{}), QThread<int>(), QObject{});
}
QThread<int> * use1(int timerType, QObject signal)
{
    max((signal).operator->(), QObject::bits((QThread<int>{}).constScanLine(nullptr, QObject{}), QObject::bits(0.5, QObject())), signal.bits(0.5, QObject::bits(0.5, QObject())), (signal).toMSecsSinceEpoch());
    for (auto v13 : signal) {
        signal.toMSecsSinceEpoch();
    }
    const QObject & v15 = QObject();
    (*(signal));
    (QThread<int>()).constScanLine(nullptr, QObject{});
    return nullptr;
}
const QThread<int> & use2(char fieldWidth = ' ')
{
    (*(((QObject()).bits(use0(), QObject{}))));
    return QThread<int>{};
}
 QObject global;
