#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 6
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect();
    template <typename A0> static int connect(A0 text);
    template <typename A0, typename A1> static int connect(A0 , A1 );
    template <typename A0, typename A1, typename A2> static int connect(A0 , A1 , A2 );
    template <typename A0, typename A1, typename A2, typename A3> static int connect(A0 text, A1 slot, A2 shortcut, A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int connect(A0 sender, A1 signal, A2 receiver, A3 method, A4 type);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int connect(A0 sender, A1 signal, A2 receiver, A3 method, A4 type, A5 x);
    static int disconnect();
    template <typename A0> static int disconnect(A0 sender);
    template <typename A0, typename A1> static int disconnect(A0 interval, A1 timerType);
    template <typename A0, typename A1, typename A2> static int disconnect(A0 sender, A1 signal, A2 receiver);
    template <typename A0, typename A1, typename A2, typename A3> static int disconnect(A0 interval, A1 slot, A2 timerType, A3 a);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int disconnect(A0 sender, A1 signal, A2 receiver, A3 method, A4 type);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int disconnect(A0 sender, A1 signal, A2 receiver, A3 method, A4 type, A5 x);
    static int singleShot();
    template <typename A0> static int singleShot(A0 text);
    template <typename A0, typename A1> static int singleShot(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int singleShot(A0 sender, A1 signal, A2 receiver);
    template <typename A0, typename A1, typename A2, typename A3> static int singleShot(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int singleShot(A0 sender, A1 signal, A2 receiver, A3 method, A4 type);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int singleShot(A0 text, A1 slot, A2 shortcut, A3 , A4 g, A5 h);
    static int addAction();
    template <typename A0> static int addAction(A0 );
    template <typename A0, typename A1> static int addAction(A0 text, A1 slot);
    template <typename A0, typename A1, typename A2> static int addAction(A0 , A1 , A2 );
    template <typename A0, typename A1, typename A2, typename A3> static int addAction(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int addAction(A0 sender, A1 signal, A2 receiver, A3 method, A4 type);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int addAction(A0 sender, A1 signal, A2 receiver, A3 method, A4 type, A5 x);
    static int postEvent();
    template <typename A0> static int postEvent(A0 );
    template <typename A0, typename A1> static int postEvent(A0 interval, A1 timerType);
    template <typename A0, typename A1, typename A2> static int postEvent(A0 interval, A1 slot, A2 timerType);
    template <typename A0, typename A1, typename A2, typename A3> static int postEvent(A0 sender, A1 signal, A2 receiver, A3 method);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int postEvent(A0 interval, A1 slot, A2 timerType, A3 a, A4 b);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int postEvent(A0 , A1 , A2 , A3 , A4 , A5 );
    static int tr();
    template <typename A0> static int tr(A0 interval);
    template <typename A0, typename A1> static int tr(A0 , A1 );
    template <typename A0, typename A1, typename A2> static int tr(A0 sender, A1 signal, A2 receiver);
    template <typename A0, typename A1, typename A2, typename A3> static int tr(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int tr(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int tr(A0 , A1 , A2 , A3 , A4 , A5 );
    static int callMethod();
    template <typename A0> static int callMethod(A0 text);
    template <typename A0, typename A1> static int callMethod(A0 interval, A1 timerType);
    template <typename A0, typename A1, typename A2> static int callMethod(A0 interval, A1 timerType, A2 slot);
    template <typename A0, typename A1, typename A2, typename A3> static int callMethod(A0 text, A1 slot, A2 shortcut, A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int callMethod(A0 sender, A1 signal, A2 receiver, A3 method, A4 type);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int callMethod(A0 sender, A1 signal, A2 receiver, A3 method, A4 type, A5 x);
};
using Conn = QTimer;
template <typename T> struct QStack
{
    Q_OBJECT
public:
    enum class E { A };
    QStack() = default;
    QStack(const QStack &) = default;
    QStack &operator=(const QStack &) = default;
    virtual ~QStack();
    void operator()(QStack<int> * text, int sender, int) const;
    char operator!() const {
        return (!((QStack<int>{})));
    }
    QStack<int> * fromUtf8(QStack<int> other, int timerType, QStack<int> slot);
    virtual const QStack<int> & mask(QStack<int> a, char other);
public slots:
    void signal();
    const QStack<int> & begin();
private:
    int d;
};
class QDBusMessage : public QStack<int>
{
public:
    struct Data { int a; }; friend struct Data;
    QDBusMessage() {}
    virtual ~QDBusMessage();
    double operator*() const;
protected:
    int a;
    int d{};
};
template <typename Any> const QDBusMessage * qOverload(QDBusMessage base, const QStack<int> & sender, Any, int method = 0);
class QCollator : public QDBusMessage
{
    Q_GADGET
public:
    enum E { A, B };
    QCollator() {}
    virtual ~QCollator() = default;
    int winId();
    const QCollator & set() {
        qOverload(QDBusMessage{}, QStack<int>(), [&](int x) { return x; }, 60000);

    }
signals:
    char indexOf() const {
        return (!(((QStack<int>{}).begin())));
    }
protected:
};
int QCollator::winId()
{
    qOverload(QDBusMessage{}, QStack<int>{}, static_cast<QCollator *>(nullptr), ((QCollator{}).set()).indexOf());
    qOverload(QDBusMessage{}, QStack<int>(), (QStack<int>{}).mask((QStack<int>()).mask(QStack<int>{}, 'a'), (!((QStack<int>())))));
    for (int v4 = 0; v4 < 42u; ++v4)

    if (true) {
        (QStack<int>{}).mask(QStack<int>(), ((QCollator{}).set()).indexOf());
    }
    return ((!(((QStack<int>{}).begin()))) * ((QCollator{}).set()).indexOf());
}
template <typename Any> QCollator * min(Any width);
inline int use0()
{
    return (!(((QStack<int>()).begin())));
}
template <typename Any> static bool use1(double type, Any receiver, QStack<int> * sender = nullptr, bool shortcut = false, double text = 0.5, const char * a = "d")
{
    return !(42u);
}
