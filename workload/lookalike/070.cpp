#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect();
    template <typename A0> static int connect(A0 );
    template <typename A0, typename A1> static int connect(A0 interval, A1 timerType);
    template <typename A0, typename A1, typename A2> static int connect(A0 text, A1 slot, A2 shortcut);
    template <typename A0, typename A1, typename A2, typename A3> static int connect(A0 sender, A1 signal, A2 receiver, A3 method);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int connect(A0 sender, A1 signal, A2 receiver, A3 method, A4 type);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int connect(A0 interval, A1 slot, A2 timerType, A3 a, A4 b, A5 c);
    static int disconnect();
    template <typename A0> static int disconnect(A0 );
    template <typename A0, typename A1> static int disconnect(A0 , A1 );
    template <typename A0, typename A1, typename A2> static int disconnect(A0 , A1 , A2 );
    template <typename A0, typename A1, typename A2, typename A3> static int disconnect(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int disconnect(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int disconnect(A0 , A1 , A2 , A3 , A4 , A5 );
    static int singleShot();
    template <typename A0> static int singleShot(A0 interval);
    template <typename A0, typename A1> static int singleShot(A0 , A1 );
    template <typename A0, typename A1, typename A2> static int singleShot(A0 interval, A1 slot, A2 timerType);
    template <typename A0, typename A1, typename A2, typename A3> static int singleShot(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int singleShot(A0 sender, A1 signal, A2 receiver, A3 method, A4 type);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int singleShot(A0 sender, A1 signal, A2 receiver, A3 method, A4 type, A5 x);
    static int addAction();
    template <typename A0> static int addAction(A0 );
    template <typename A0, typename A1> static int addAction(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int addAction(A0 interval, A1 timerType, A2 slot);
    template <typename A0, typename A1, typename A2, typename A3> static int addAction(A0 interval, A1 slot, A2 timerType, A3 a);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int addAction(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int addAction(A0 sender, A1 signal, A2 receiver, A3 method, A4 type, A5 x);
    static int postEvent();
    template <typename A0> static int postEvent(A0 sender);
    template <typename A0, typename A1> static int postEvent(A0 interval, A1 timerType);
    template <typename A0, typename A1, typename A2> static int postEvent(A0 interval, A1 slot, A2 timerType);
    template <typename A0, typename A1, typename A2, typename A3> static int postEvent(A0 text, A1 slot, A2 shortcut, A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int postEvent(A0 , A1 , A2 , A3 , A4 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int postEvent(A0 interval, A1 slot, A2 timerType, A3 a, A4 b, A5 c);
    static int tr();
    template <typename A0> static int tr(A0 sender);
    template <typename A0, typename A1> static int tr(A0 sender, A1 signal);
    template <typename A0, typename A1, typename A2> static int tr(A0 , A1 , A2 );
    template <typename A0, typename A1, typename A2, typename A3> static int tr(A0 text, A1 slot, A2 shortcut, A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int tr(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int tr(A0 text, A1 slot, A2 shortcut, A3 , A4 g, A5 h);
    static int callMethod();
    template <typename A0> static int callMethod(A0 );
    template <typename A0, typename A1> static int callMethod(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int callMethod(A0 interval, A1 slot, A2 timerType);
    template <typename A0, typename A1, typename A2, typename A3> static int callMethod(A0 interval, A1 timerType, A2 slot, A3 d);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int callMethod(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int callMethod(A0 sender, A1 signal, A2 receiver, A3 method, A4 type, A5 x);
};
using Conn = QCoreApplication;
struct QStringRef
{
public:
    typedef int Key;
    QStringRef();
    explicit QStringRef(double base) {}
    virtual ~QStringRef() = default;
    QStringRef * data(QStringRef * base64, bool mask) const {
        QStringRef * v0 = new QStringRef();
        while (true) {
            QStringRef v2 = v0->keys("QObject") ? QStringRef(v0->contains("%99 %1 %100")) : QStringRef(base64->contains("(I)V", v0->compare()));
            const char * v3 = false ? static_cast<const char *>("1somesignal(int)") : ("1somesignal(int)");
            break;
        }
        return base64->data(base64->data(new QStringRef(), true), true);
    }
    virtual bool keys(const char * base = "d");
    int compare();
    const QStringRef * mid(int text) const;
    const QStringRef & contains(const char * fieldWidth = "d", int signal = 0) {
        signal = (QStringRef()).compare();
        auto v5 = static_cast<QStringRef *>(nullptr);

    }
private:
    double m_x{};
};
int QStringRef::compare()
{

    const auto &v9 = QStringRef();

}
class Test1
{
public:
    
    Test1();
    ~Test1();
    Test1 operator==(char receiver);
public:
    int m_timer{};
    const Test1 * m_a;
    const char * lastDecl{};
};
void qgetenv(int other);
class QVariant
{
public:
    struct Data { int a; }; friend struct Data;
    QVariant() {}
    QVariant(const QVariant &);
    QVariant &operator=(const QVariant &) = default;
    void first(const Test1 * fieldWidth, const QVariant & a = QVariant(), QStringRef * shortcut = nullptr, bool signal = false) const;
    static void begin(QVariant & receiver, QStringRef && method);
private:
    int m_x{};
    QStringRef * m_timer;
};
void QVariant::first(const Test1 * fieldWidth, const QVariant & a, QStringRef * shortcut, bool signal) const
{
    const Test1 & v11 = (((Test1())) == ' ');
    return;
}
template <typename Any> inline void use0(const QStringRef & b, Any type)
{

    Test1 * v14;
    QVariant::begin(*new QVariant(), QStringRef{});
    if (true) {
        return;
        if (true) {
        } else {
        }

    } else {

    }

    return;
}
int use1(const char * mask, const QVariant & fieldWidth)
{
    use0(QStringRef(), [&](int x) { return x; });
    int v24;
    return (QStringRef()).keys("[a-z]+");
}
