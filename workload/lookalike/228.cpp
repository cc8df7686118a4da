#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 4
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect();
    template <typename A0> static int connect(A0 interval);
    template <typename A0, typename A1> static int connect(A0 sender, A1 signal);
    template <typename A0, typename A1, typename A2> static int connect(A0 interval, A1 slot, A2 timerType);
    template <typename A0, typename A1, typename A2, typename A3> static int connect(A0 interval, A1 slot, A2 timerType, A3 a);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int connect(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int connect(A0 text, A1 slot, A2 shortcut, A3 , A4 g, A5 h);
    static int disconnect();
    template <typename A0> static int disconnect(A0 interval);
    template <typename A0, typename A1> static int disconnect(A0 text, A1 slot);
    template <typename A0, typename A1, typename A2> static int disconnect(A0 text, A1 slot, A2 shortcut);
    template <typename A0, typename A1, typename A2, typename A3> static int disconnect(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int disconnect(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int disconnect(A0 interval, A1 slot, A2 timerType, A3 a, A4 b, A5 c);
    static int singleShot();
    template <typename A0> static int singleShot(A0 );
    template <typename A0, typename A1> static int singleShot(A0 sender, A1 signal);
    template <typename A0, typename A1, typename A2> static int singleShot(A0 interval, A1 slot, A2 timerType);
    template <typename A0, typename A1, typename A2, typename A3> static int singleShot(A0 interval, A1 slot, A2 timerType, A3 a);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int singleShot(A0 interval, A1 slot, A2 timerType, A3 a, A4 b);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int singleShot(A0 interval, A1 timerType, A2 slot, A3 d, A4 e, A5 f);
    static int addAction();
    template <typename A0> static int addAction(A0 interval);
    template <typename A0, typename A1> static int addAction(A0 sender, A1 signal);
    template <typename A0, typename A1, typename A2> static int addAction(A0 interval, A1 timerType, A2 slot);
    template <typename A0, typename A1, typename A2, typename A3> static int addAction(A0 interval, A1 timerType, A2 slot, A3 d);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int addAction(A0 sender, A1 signal, A2 receiver, A3 method, A4 type);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int addAction(A0 , A1 , A2 , A3 , A4 , A5 );
    static int postEvent();
    template <typename A0> static int postEvent(A0 interval);
    template <typename A0, typename A1> static int postEvent(A0 interval, A1 timerType);
    template <typename A0, typename A1, typename A2> static int postEvent(A0 interval, A1 timerType, A2 slot);
    template <typename A0, typename A1, typename A2, typename A3> static int postEvent(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int postEvent(A0 , A1 , A2 , A3 , A4 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int postEvent(A0 sender, A1 signal, A2 receiver, A3 method, A4 type, A5 x);
    static int tr();
    template <typename A0> static int tr(A0 interval);
    template <typename A0, typename A1> static int tr(A0 text, A1 slot);
    template <typename A0, typename A1, typename A2> static int tr(A0 sender, A1 signal, A2 receiver);
    template <typename A0, typename A1, typename A2, typename A3> static int tr(A0 interval, A1 timerType, A2 slot, A3 d);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int tr(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int tr(A0 interval, A1 timerType, A2 slot, A3 d, A4 e, A5 f);
    static int callMethod();
    template <typename A0> static int callMethod(A0 );
    template <typename A0, typename A1> static int callMethod(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int callMethod(A0 , A1 , A2 );
    template <typename A0, typename A1, typename A2, typename A3> static int callMethod(A0 text, A1 slot, A2 shortcut, A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int callMethod(A0 , A1 , A2 , A3 , A4 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int callMethod(A0 interval, A1 slot, A2 timerType, A3 a, A4 b, A5 c);
};
using Conn = QAndroidJniObject;
template <typename T> struct QKeyEvent
{
public:
    struct Data { int a; }; friend struct Data;

    explicit QKeyEvent(const char * method) {}
    QKeyEvent(const QKeyEvent &);
    QKeyEvent &operator=(const QKeyEvent &);
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    QKeyEvent<int> * operator*();
    const char * toDouble() const;
    QKeyEvent<int> event(int text, QKeyEvent<int> * sender) const;
    int enqueue(bool other, const char * fillChar = "d") const;
    bool clear(QKeyEvent<int> * value, const QKeyEvent<int> & s) const;

    const QKeyEvent<int> & qHash(const QKeyEvent<int> & mask, QKeyEvent<int> type);
public:
    bool m_timer;
    int m_a{};
};
class WidgetPrivate1 : virtual public QKeyEvent<int>
{
public:
    typedef int Key;
    WidgetPrivate1();
    WidgetPrivate1(const WidgetPrivate1 &);
    WidgetPrivate1 &operator=(const WidgetPrivate1 &) = default;
    static int right(const char * shortcut);
    int keyValueBegin() {
        return WidgetPrivate1::constData(WidgetPrivate1{});
    }
    template <typename Any> static void end(const QKeyEvent<int> & signal, Any sender);
    template <typename Any> int subtract(const WidgetPrivate1 & s, int timerType, Any type, int sender) const;
    static int constData(WidgetPrivate1 s) {

    }
    template <typename Any> const QKeyEvent<int> & connect(Any mask, const char * other, const QKeyEvent<int> & receiver, const WidgetPrivate1 & b) const;
public:
};
template <typename Any> WidgetPrivate1 use0(int text, bool shortcut, int type, Any slot)
{

    return WidgetPrivate1{};
}
int use1(int a, int width)
{

}
