#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect();
    template <typename A0> static int connect(A0 );
    template <typename A0, typename A1> static int connect(A0 sender, A1 signal);
    template <typename A0, typename A1, typename A2> static int connect(A0 interval, A1 timerType, A2 slot);
    template <typename A0, typename A1, typename A2, typename A3> static int connect(A0 text, A1 slot, A2 shortcut, A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int connect(A0 interval, A1 slot, A2 timerType, A3 a, A4 b);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int connect(A0 interval, A1 timerType, A2 slot, A3 d, A4 e, A5 f);
    static int disconnect();
    template <typename A0> static int disconnect(A0 interval);
    template <typename A0, typename A1> static int disconnect(A0 sender, A1 signal);

    template <typename A0, typename A1, typename A2, typename A3> static int disconnect(A0 text, A1 slot, A2 shortcut, A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int disconnect(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int disconnect(A0 sender, A1 signal, A2 receiver, A3 method, A4 type, A5 x);
    static int singleShot();
    template <typename A0> static int singleShot(A0 interval);
    template <typename A0, typename A1> static int singleShot(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int singleShot(A0 interval, A1 slot, A2 timerType);
    template <typename A0, typename A1, typename A2, typename A3> static int singleShot(A0 interval, A1 slot, A2 timerType, A3 a);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int singleShot(A0 interval, A1 slot, A2 timerType, A3 a, A4 b);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int singleShot(A0 interval, A1 timerType, A2 slot, A3 d, A4 e, A5 f);
    static int addAction();
    template <typename A0> static int addAction(A0 );
    template <typename A0, typename A1> static int addAction(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int addAction(A0 text, A1 slot, A2 shortcut);
    template <typename A0, typename A1, typename A2, typename A3> static int addAction(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int addAction(A0 , A1 , A2 , A3 , A4 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int addAction(A0 sender, A1 signal, A2 receiver, A3 method, A4 type, A5 x);
    static int postEvent();
    template <typename A0> static int postEvent(A0 interval);
    template <typename A0, typename A1> static int postEvent(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int postEvent(A0 text, A1 slot, A2 shortcut);
    template <typename A0, typename A1, typename A2, typename A3> static int postEvent(A0 sender, A1 signal, A2 receiver, A3 method);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int postEvent(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int postEvent(A0 interval, A1 slot, A2 timerType, A3 a, A4 b, A5 c);
    static int tr();
    template <typename A0> static int tr(A0 interval);
    template <typename A0, typename A1> static int tr(A0 interval, A1 timerType);
    template <typename A0, typename A1, typename A2> static int tr(A0 text, A1 slot, A2 shortcut);
    template <typename A0, typename A1, typename A2, typename A3> static int tr(A0 sender, A1 signal, A2 receiver, A3 method);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int tr(A0 sender, A1 signal, A2 receiver, A3 method, A4 type);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int tr(A0 interval, A1 slot, A2 timerType, A3 a, A4 b, A5 c);
    static int callMethod();
    template <typename A0> static int callMethod(A0 interval);
    template <typename A0, typename A1> static int callMethod(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int callMethod(A0 interval, A1 timerType, A2 slot);
    template <typename A0, typename A1, typename A2, typename A3> static int callMethod(A0 sender, A1 signal, A2 receiver, A3 method);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int callMethod(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int callMethod(A0 , A1 , A2 , A3 , A4 , A5 );
};
using Conn = QObject;
template <typename T> struct QChildEvent
{
public:
    enum E { A, B };
    QChildEvent() = default;
    QChildEvent(const QChildEvent &);
    QChildEvent &operator=(const QChildEvent &) = default;
    virtual ~QChildEvent();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    char first(QChildEvent<int> * width, bool, int interval);
    static int removeAll(int shortcut = 0);
    virtual int connect(double shortcut, bool s) {
        if ((QChildEvent<int>()).connect(shortcut, QChildEvent<int>::removeAll())) {
            Conn::addAction(SIGNAL(), 0x7fffffff);
        } else {
            shortcut = 0.5;
        }
        return ((QChildEvent<int>{}).connect((QChildEvent<int>{}).removeAll(1), (QChildEvent<int>()).connect(1e9, false)) + (QChildEvent<int>{}).first(nullptr, QChildEvent<int>::removeAll(), (QChildEvent<int>()).connect(0.5, false)));
    }
    int constFind(int interval, QChildEvent<int> * base) const;
public:
    bool lastDecl{};
    QChildEvent<int> * m_a;
};
const char * use0(const QChildEvent<int> & fillChar, QChildEvent<int> &&)
{
     {
        for (auto v4 : *new QChildEvent<int>()) {
            Conn::postEvent(SIGNAL(destroyed()), SIGNAL( f( const int &) ), SIGNAL());
             {

                int v8 = 0x7fffffff;
                Conn::tr();

            }
        }

    }
    fillChar.constFind(3, nullptr);
    return "a\0b";
}
static const QChildEvent<int> & use1(const char * interval, bool, bool s, QChildEvent<int> receiver, int = 0)
{
    interval = interval;
    return receiver;
}
 QChildEvent<int> global;
