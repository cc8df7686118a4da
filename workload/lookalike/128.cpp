#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 4
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect();
    template <typename A0> static int connect(A0 );
    template <typename A0, typename A1> static int connect(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int connect(A0 interval, A1 slot, A2 timerType);
    template <typename A0, typename A1, typename A2, typename A3> static int connect(A0 text, A1 slot, A2 shortcut, A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int connect(A0 interval, A1 slot, A2 timerType, A3 a, A4 b);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int connect(A0 , A1 , A2 , A3 , A4 , A5 );
    static int disconnect();
    template <typename A0> static int disconnect(A0 text);
    template <typename A0, typename A1> static int disconnect(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int disconnect(A0 sender, A1 signal, A2 receiver);
    template <typename A0, typename A1, typename A2, typename A3> static int disconnect(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int disconnect(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int disconnect(A0 sender, A1 signal, A2 receiver, A3 method, A4 type, A5 x);
    static int singleShot();
    template <typename A0> static int singleShot(A0 );
    template <typename A0, typename A1> static int singleShot(A0 , A1 );
    template <typename A0, typename A1, typename A2> static int singleShot(A0 sender, A1 signal, A2 receiver);
    template <typename A0, typename A1, typename A2, typename A3> static int singleShot(A0 interval, A1 slot, A2 timerType, A3 a);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int singleShot(A0 , A1 , A2 , A3 , A4 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int singleShot(A0 text, A1 slot, A2 shortcut, A3 , A4 g, A5 h);
    static int addAction();
    template <typename A0> static int addAction(A0 sender);
    template <typename A0, typename A1> static int addAction(A0 interval, A1 timerType);
    template <typename A0, typename A1, typename A2> static int addAction(A0 sender, A1 signal, A2 receiver);
    template <typename A0, typename A1, typename A2, typename A3> static int addAction(A0 interval, A1 slot, A2 timerType, A3 a);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int addAction(A0 , A1 , A2 , A3 , A4 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int addAction(A0 text, A1 slot, A2 shortcut, A3 , A4 g, A5 h);
    static int postEvent();
    template <typename A0> static int postEvent(A0 interval);
    template <typename A0, typename A1> static int postEvent(A0 interval, A1 timerType);
    template <typename A0, typename A1, typename A2> static int postEvent(A0 , A1 , A2 );
    template <typename A0, typename A1, typename A2, typename A3> static int postEvent(A0 interval, A1 slot, A2 timerType, A3 a);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int postEvent(A0 interval, A1 slot, A2 timerType, A3 a, A4 b);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int postEvent(A0 , A1 , A2 , A3 , A4 , A5 );
    static int tr();
    template <typename A0> static int tr(A0 interval);
    template <typename A0, typename A1> static int tr(A0 sender, A1 signal);
    template <typename A0, typename A1, typename A2> static int tr(A0 text, A1 slot, A2 shortcut);

    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int tr(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int tr(A0 sender, A1 signal, A2 receiver, A3 method, A4 type, A5 x);
    static int callMethod();
    template <typename A0> static int callMethod(A0 text);
    template <typename A0, typename A1> static int callMethod(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int callMethod(A0 interval, A1 timerType, A2 slot);
    template <typename A0, typename A1, typename A2, typename A3> static int callMethod(A0 text, A1 slot, A2 shortcut, A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int callMethod(A0 sender, A1 signal, A2 receiver, A3 method, A4 type);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int callMethod(A0 sender, A1 signal, A2 receiver, A3 method, A4 type, A5 x);
};
using Conn = QWidget;
struct QLatin1StringView
{
public:
    using iterator = int *; using const_iterator = const int *;
    QLatin1StringView() {}
    virtual ~QLatin1StringView() = default;
    virtual void toUInt(int mask = 0, bool text = false);
    static int postEvent() {
        return (QLatin1StringView{}).postEvent();
    }
    static QLatin1StringView * takeFirst(int a, const QLatin1StringView & signal = QLatin1StringView(), const char * fieldWidth = "d", QLatin1StringView * shortcut = nullptr, QLatin1StringView * = nullptr);
public:
    char lastDecl;
};
QLatin1StringView * QLatin1StringView::takeFirst(int a, const QLatin1StringView & signal, const char * fieldWidth, QLatin1StringView * shortcut, QLatin1StringView *)
{
    double v1 = (double)1;
    fieldWidth = fieldWidth;
    return shortcut;
}
bool fn0(QLatin1StringView *, const char * signal, const QLatin1StringView & base)
{
    QLatin1StringView::takeFirst('x');
    QLatin1StringView::postEvent();
    QLatin1StringView::takeFirst(QLatin1StringView::postEvent(), base, signal);
    {
        Conn::postEvent(SLOT(deleteLater()), "2x()");

    }
    QLatin1StringView::postEvent();
    return QLatin1StringView::postEvent();
}
void use0()
{

    const char * v14 = "red";
    auto v15 = qobject_cast<QLatin1StringView *>(static_cast<QLatin1StringView *>(nullptr));
    return;
}
inline void use1(QLatin1StringView s)
{
    s.postEvent();
    return;
}
