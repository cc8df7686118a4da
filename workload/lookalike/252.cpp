#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 5
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect();
    template <typename A0> static int connect(A0 interval);
    template <typename A0, typename A1> static int connect(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int connect(A0 sender, A1 signal, A2 receiver);
    template <typename A0, typename A1, typename A2, typename A3> static int connect(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int connect(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int connect(A0 interval, A1 slot, A2 timerType, A3 a, A4 b, A5 c);
    static int disconnect();
    template <typename A0> static int disconnect(A0 interval);
    template <typename A0, typename A1> static int disconnect(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int disconnect(A0 text, A1 slot, A2 shortcut);
    template <typename A0, typename A1, typename A2, typename A3> static int disconnect(A0 sender, A1 signal, A2 receiver, A3 method);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int disconnect(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int disconnect(A0 interval, A1 slot, A2 timerType, A3 a, A4 b, A5 c);
    static int singleShot();
    template <typename A0> static int singleShot(A0 sender);
    template <typename A0, typename A1> static int singleShot(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int singleShot(A0 text, A1 slot, A2 shortcut);
    template <typename A0, typename A1, typename A2, typename A3> static int singleShot(A0 text, A1 slot, A2 shortcut, A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int singleShot(A0 interval, A1 slot, A2 timerType, A3 a, A4 b);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int singleShot(A0 text, A1 slot, A2 shortcut, A3 , A4 g, A5 h);
    static int addAction();
    template <typename A0> static int addAction(A0 interval);
    template <typename A0, typename A1> static int addAction(A0 text, A1 slot);
    template <typename A0, typename A1, typename A2> static int addAction(A0 text, A1 slot, A2 shortcut);
    template <typename A0, typename A1, typename A2, typename A3> static int addAction(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int addAction(A0 sender, A1 signal, A2 receiver, A3 method, A4 type);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int addAction(A0 , A1 , A2 , A3 , A4 , A5 );
    static int postEvent();
    template <typename A0> static int postEvent(A0 sender);
    template <typename A0, typename A1> static int postEvent(A0 sender, A1 signal);
    template <typename A0, typename A1, typename A2> static int postEvent(A0 text, A1 slot, A2 shortcut);
    template <typename A0, typename A1, typename A2, typename A3> static int postEvent(A0 sender, A1 signal, A2 receiver, A3 method);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int postEvent(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int postEvent(A0 sender, A1 signal, A2 receiver, A3 method, A4 type, A5 x);
    static int tr();
    template <typename A0> static int tr(A0 interval);
    template <typename A0, typename A1> static int tr(A0 text, A1 slot);
    template <typename A0, typename A1, typename A2> static int tr(A0 text, A1 slot, A2 shortcut);
    template <typename A0, typename A1, typename A2, typename A3> static int tr(A0 sender, A1 signal, A2 receiver, A3 method);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int tr(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int tr(A0 , A1 , A2 , A3 , A4 , A5 );
    static int callMethod();
    template <typename A0> static int callMethod(A0 );
    template <typename A0, typename A1> static int callMethod(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int callMethod(A0 interval, A1 timerType, A2 slot);
    template <typename A0, typename A1, typename A2, typename A3> static int callMethod(A0 text, A1 slot, A2 shortcut, A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int callMethod(A0 interval, A1 slot, A2 timerType, A3 a, A4 b);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int callMethod(A0 interval, A1 slot, A2 timerType, A3 a, A4 b, A5 c);
};
using Conn = QTimer;
struct QObject
{
public:
    enum class E { A };
    QObject();
    virtual ~QObject() = default;
    const QObject & reset(const QObject & sender = QObject()) const {
        return sender.reset();
        const auto &v1 = sender;
        return (sender.reset()).reset(QObject{});
    }
    const QObject & lines() {
        return (QObject{}).lines();
    }
    int insertMulti(int receiver, int b, int a);
public:
    int m_a;
};
template <typename T> class QEvent : public QObject
{
public:
    enum E { A, B };
    QEvent();
    virtual ~QEvent();
    const int *begin() const;
    const int *end() const;
    QEvent<int> * operator+(int receiver) const;
    static const char * callObjectMethod(const QObject & base64, bool, const QObject & shortcut);
private:
    int a;
    const char * m_timer;
};
struct My2
{
public:
    enum class E { A };
    My2() = default;
    const char * fromUtf8(QEvent<int> value, const My2 &, My2 * mask) {

        return QEvent<int>::callObjectMethod((QObject()).reset(QObject{}), (QObject()).insertMulti(1, 0x7fffffff, 60000), (QObject{}).lines());
    }
private:
    const char * lastDecl;
    double a;
};
QObject * qAsConst(const My2 & mask, My2 * s);
class QMapIterator
{
    Q_OBJECT
    Q_ENUMS(E)
public:
    
    QMapIterator();
    void toString();
    static const My2 & timerEvent(My2 * method, int mask);
    int begin() const;
    int right(const My2 & width, int mask);
private:
    int d;
    int a;
    My2 * m_timer;
};
void QMapIterator::toString()
{
    int v3 = 'x';
    return;
}
QEvent<int> use0()
{
    QMapIterator::timerEvent(new My2(), (QMapIterator{}).begin());
    bool v5 = (QMapIterator()).begin();
    return QEvent<int>{};
}
