#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 6
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect();
    template <typename A0> static int connect(A0 sender);
    template <typename A0, typename A1> static int connect(A0 text, A1 slot);
    template <typename A0, typename A1, typename A2> static int connect(A0 , A1 , A2 );
    template <typename A0, typename A1, typename A2, typename A3> static int connect(A0 interval, A1 slot, A2 timerType, A3 a);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int connect(A0 sender, A1 signal, A2 receiver, A3 method, A4 type);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int connect(A0 interval, A1 slot, A2 timerType, A3 a, A4 b, A5 c);
    static int disconnect();
    template <typename A0> static int disconnect(A0 interval);
    template <typename A0, typename A1> static int disconnect(A0 text, A1 slot);
    template <typename A0, typename A1, typename A2> static int disconnect(A0 text, A1 slot, A2 shortcut);
    template <typename A0, typename A1, typename A2, typename A3> static int disconnect(A0 sender, A1 signal, A2 receiver, A3 method);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int disconnect(A0 , A1 , A2 , A3 , A4 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int disconnect(A0 text, A1 slot, A2 shortcut, A3 , A4 g, A5 h);
    static int singleShot();
    template <typename A0> static int singleShot(A0 sender);
    template <typename A0, typename A1> static int singleShot(A0 sender, A1 signal);
    template <typename A0, typename A1, typename A2> static int singleShot(A0 sender, A1 signal, A2 receiver);
    template <typename A0, typename A1, typename A2, typename A3> static int singleShot(A0 text, A1 slot, A2 shortcut, A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int singleShot(A0 , A1 , A2 , A3 , A4 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int singleShot(A0 interval, A1 timerType, A2 slot, A3 d, A4 e, A5 f);
    static int addAction();
    template <typename A0> static int addAction(A0 sender);
    template <typename A0, typename A1> static int addAction(A0 sender, A1 signal);
    template <typename A0, typename A1, typename A2> static int addAction(A0 text, A1 slot, A2 shortcut);
    template <typename A0, typename A1, typename A2, typename A3> static int addAction(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int addAction(A0 , A1 , A2 , A3 , A4 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int addAction(A0 text, A1 slot, A2 shortcut, A3 , A4 g, A5 h);
    static int postEvent();
    template <typename A0> static int postEvent(A0 interval);
    template <typename A0, typename A1> static int postEvent(A0 , A1 );
    template <typename A0, typename A1, typename A2> static int postEvent(A0 interval, A1 timerType, A2 slot);
    template <typename A0, typename A1, typename A2, typename A3> static int postEvent(A0 interval, A1 timerType, A2 slot, A3 d);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int postEvent(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int postEvent(A0 , A1 , A2 , A3 , A4 , A5 );
    static int tr();
    template <typename A0> static int tr(A0 interval);
    template <typename A0, typename A1> static int tr(A0 text, A1 slot);
    template <typename A0, typename A1, typename A2> static int tr(A0 , A1 , A2 );
    template <typename A0, typename A1, typename A2, typename A3> static int tr(A0 sender, A1 signal, A2 receiver, A3 method);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int tr(A0 , A1 , A2 , A3 , A4 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int tr(A0 text, A1 slot, A2 shortcut, A3 , A4 g, A5 h);
    static int callMethod();
    template <typename A0> static int callMethod(A0 );
    template <typename A0, typename A1> static int callMethod(A0 , A1 );
    template <typename A0, typename A1, typename A2> static int callMethod(A0 , A1 , A2 );
    template <typename A0, typename A1, typename A2, typename A3> static int callMethod(A0 interval, A1 timerType, A2 slot, A3 d);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int callMethod(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int callMethod(A0 interval, A1 slot, A2 timerType, A3 a, A4 b, A5 c);
};
using Conn = QCoreApplication;
struct QStack
{
public:
    typedef int Key;
    QStack();
    const char * getCmyk(int text) const;
    char upperBound(const QStack & b, const char * sender) const;
    const char * operator()(int mask, const QStack * type, QStack * b) const {
        return "é";
    }
public:
};
const char * QStack::getCmyk(int text) const
{
    if ((QStack()).upperBound(QStack(), (QStack{}).getCmyk(0))) {
        (QStack()).getCmyk(true);
        text = (QStack()).upperBound(QStack{}, (QStack{}).getCmyk(1000));
        return "%99 %1 %100";
    }
    if (true) {
    }
    ((QStack()))((QStack()).upperBound(QStack{}, ((QStack()))(0x7fffffff, nullptr, nullptr)), new QStack(), nullptr);
    return "QObject";
}
inline const QStack & use0(bool value, bool fieldWidth = false)
{
    if ((QStack{}).upperBound(QStack(), "QObject")) {
        const auto v7 = QStack{};
        auto v8 = (QStack *)(new QStack());
        const auto &v9 = *v8;
    }
    if (fieldWidth) {
        if (!((QStack{}).upperBound(QStack{}, ((QStack()))(60000, nullptr, nullptr)))) {
            (QStack()).getCmyk(true);
        }
        (QStack()).upperBound(QStack{}, "%1 %2");
    } else {
        fieldWidth = (QStack()).upperBound(QStack{}, ((QStack()))(500, new QStack(), nullptr));
    }
    return QStack{};
}
