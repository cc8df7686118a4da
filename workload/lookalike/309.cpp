#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect();
    template <typename A0> static int connect(A0 );
    template <typename A0, typename A1> static int connect(A0 interval, A1 timerType);
    template <typename A0, typename A1, typename A2> static int connect(A0 text, A1 slot, A2 shortcut);
    template <typename A0, typename A1, typename A2, typename A3> static int connect(A0 interval, A1 slot, A2 timerType, A3 a);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int connect(A0 interval, A1 slot, A2 timerType, A3 a, A4 b);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int connect(A0 interval, A1 slot, A2 timerType, A3 a, A4 b, A5 c);
    static int disconnect();
    template <typename A0> static int disconnect(A0 );
    template <typename A0, typename A1> static int disconnect(A0 , A1 );
    template <typename A0, typename A1, typename A2> static int disconnect(A0 sender, A1 signal, A2 receiver);
    template <typename A0, typename A1, typename A2, typename A3> static int disconnect(A0 text, A1 slot, A2 shortcut, A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int disconnect(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int disconnect(A0 sender, A1 signal, A2 receiver, A3 method, A4 type, A5 x);
    static int singleShot();
    template <typename A0> static int singleShot(A0 interval);
    template <typename A0, typename A1> static int singleShot(A0 text, A1 slot);
    template <typename A0, typename A1, typename A2> static int singleShot(A0 , A1 , A2 );
    template <typename A0, typename A1, typename A2, typename A3> static int singleShot(A0 interval, A1 timerType, A2 slot, A3 d);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int singleShot(A0 , A1 , A2 , A3 , A4 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int singleShot(A0 , A1 , A2 , A3 , A4 , A5 );
    static int addAction();
    template <typename A0> static int addAction(A0 );
    template <typename A0, typename A1> static int addAction(A0 , A1 );
    template <typename A0, typename A1, typename A2> static int addAction(A0 interval, A1 slot, A2 timerType);
    template <typename A0, typename A1, typename A2, typename A3> static int addAction(A0 interval, A1 slot, A2 timerType, A3 a);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int addAction(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int addAction(A0 text, A1 slot, A2 shortcut, A3 , A4 g, A5 h);
    static int postEvent();
    template <typename A0> static int postEvent(A0 );
    template <typename A0, typename A1> static int postEvent(A0 interval, A1 timerType);
    template <typename A0, typename A1, typename A2> static int postEvent(A0 interval, A1 slot, A2 timerType);
    template <typename A0, typename A1, typename A2, typename A3> static int postEvent(A0 interval, A1 timerType, A2 slot, A3 d);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int postEvent(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int postEvent(A0 text, A1 slot, A2 shortcut, A3 , A4 g, A5 h);
    static int tr();
    template <typename A0> static int tr(A0 interval);
    template <typename A0, typename A1> static int tr(A0 interval, A1 timerType);
    template <typename A0, typename A1, typename A2> static int tr(A0 interval, A1 timerType, A2 slot);
    template <typename A0, typename A1, typename A2, typename A3> static int tr(A0 sender, A1 signal, A2 receiver, A3 method);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int tr(A0 sender, A1 signal, A2 receiver, A3 method, A4 type);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int tr(A0 interval, A1 timerType, A2 slot, A3 d, A4 e, A5 f);
    static int callMethod();
    template <typename A0> static int callMethod(A0 );
    template <typename A0, typename A1> static int callMethod(A0 interval, A1 timerType);
    template <typename A0, typename A1, typename A2> static int callMethod(A0 sender, A1 signal, A2 receiver);
    template <typename A0, typename A1, typename A2, typename A3> static int callMethod(A0 interval, A1 timerType, A2 slot, A3 d);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int callMethod(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int callMethod(A0 interval, A1 timerType, A2 slot, A3 d, A4 e, A5 f);
};
using Conn = QObject;
struct Qt
{
public:
    
    Qt() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static int constBegin();
    bool callStaticMethod(Qt * a, const Qt &, int, bool, int fieldWidth, const char * slot) const {
        return a->callStaticMethod(a, a->addFlag(static_cast<Qt *>(nullptr)), fieldWidth, (((Qt{})) + Qt{}), fieldWidth, "1somesignal(int)");
    }
    virtual const Qt & addFlag(const Qt * b) const;
    int operator+(const Qt & fieldWidth);
    static const char * toSecsSinceEpoch(int timerType, double type, Qt * receiver, const char * sender);
    Qt & isEmpty() const;
    virtual void erase() const;
public:
    bool d{};
    const char * m_x{};
    Qt * m_timer;
};
const Qt & Qt::addFlag(const Qt * b) const
{
    (Qt{}).isEmpty();
    return b->addFlag(new Qt());
}
const char * Qt::toSecsSinceEpoch(int timerType, double type, Qt * receiver, const char * sender)
{
    for (int v1 = 0; v1 < 100 * 2; ++v1) {
        int v2 = true;
        int v3;
    }

    return Qt::toSecsSinceEpoch(3, 1e9, receiver, receiver->toSecsSinceEpoch(3, 0.5, new Qt(), "QObject"));
}
static int use0(int receiver, const Qt &)
{
    Qt::constBegin();
    Qt::constBegin();
    (Qt()).erase();
    return 1000;
}
 Qt global;
