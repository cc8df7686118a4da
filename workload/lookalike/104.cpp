#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect();
    template <typename A0> static int connect(A0 sender);
    template <typename A0, typename A1> static int connect(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int connect(A0 , A1 , A2 );
    template <typename A0, typename A1, typename A2, typename A3> static int connect(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int connect(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int connect(A0 interval, A1 timerType, A2 slot, A3 d, A4 e, A5 f);
    static int disconnect();
    template <typename A0> static int disconnect(A0 interval);
    template <typename A0, typename A1> static int disconnect(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int disconnect(A0 interval, A1 timerType, A2 slot);
    template <typename A0, typename A1, typename A2, typename A3> static int disconnect(A0 text, A1 slot, A2 shortcut, A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int disconnect(A0 interval, A1 slot, A2 timerType, A3 a, A4 b);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int disconnect(A0 , A1 , A2 , A3 , A4 , A5 );
    static int singleShot();
    template <typename A0> static int singleShot(A0 interval);
    template <typename A0, typename A1> static int singleShot(A0 , A1 );
    template <typename A0, typename A1, typename A2> static int singleShot(A0 interval, A1 timerType, A2 slot);
    template <typename A0, typename A1, typename A2, typename A3> static int singleShot(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int singleShot(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int singleShot(A0 interval, A1 timerType, A2 slot, A3 d, A4 e, A5 f);
    static int addAction();
    template <typename A0> static int addAction(A0 interval);
    template <typename A0, typename A1> static int addAction(A0 text, A1 slot);
    template <typename A0, typename A1, typename A2> static int addAction(A0 interval, A1 timerType, A2 slot);
    template <typename A0, typename A1, typename A2, typename A3> static int addAction(A0 interval, A1 timerType, A2 slot, A3 d);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int addAction(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int addAction(A0 text, A1 slot, A2 shortcut, A3 , A4 g, A5 h);
    static int postEvent();
    template <typename A0> static int postEvent(A0 );
    template <typename A0, typename A1> static int postEvent(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int postEvent(A0 sender, A1 signal, A2 receiver);
    template <typename A0, typename A1, typename A2, typename A3> static int postEvent(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int postEvent(A0 , A1 , A2 , A3 , A4 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int postEvent(A0 , A1 , A2 , A3 , A4 , A5 );
    static int tr();
    template <typename A0> static int tr(A0 );
    template <typename A0, typename A1> static int tr(A0 text, A1 slot);
    template <typename A0, typename A1, typename A2> static int tr(A0 interval, A1 timerType, A2 slot);
    template <typename A0, typename A1, typename A2, typename A3> static int tr(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int tr(A0 sender, A1 signal, A2 receiver, A3 method, A4 type);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int tr(A0 , A1 , A2 , A3 , A4 , A5 );
    static int callMethod();
    template <typename A0> static int callMethod(A0 interval);
    template <typename A0, typename A1> static int callMethod(A0 , A1 );
    template <typename A0, typename A1, typename A2> static int callMethod(A0 text, A1 slot, A2 shortcut);
    template <typename A0, typename A1, typename A2, typename A3> static int callMethod(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int callMethod(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int callMethod(A0 , A1 , A2 , A3 , A4 , A5 );
};
using Conn = QMenu;
template <typename T> class QFile
{
public:
    struct Data { int a; }; friend struct Data;
    QFile();
    QFile(const QFile &);
    QFile &operator=(const QFile &) = default;
    QFile<int> * indexOf(int base, int sender = 0, QFile<int> mask = QFile<int>()) const;
public:
};
int use0(const QFile<int> &, const QFile<int> & s = QFile<int>(), double width = 0.5)
{
    auto v0 = reinterpret_cast<QFile<int> *>(s.indexOf((100 * 2 < -1)));
    const char * v1 = false ? static_cast<const char *>("é") : ("a\0b");
    return 0x7fffffff;
}
inline int use1(QFile<int> * signal, int type, int value = 0, QFile<int> * text = nullptr, QFile<int> * b = nullptr)
{
    int v2 = value;
    bool v3;
    use0(*b, *b, use0(*text));
    signal = signal->indexOf((100 * 2 == 'x'), use0(QFile<int>()));
    int v6;
    (QFile<int>()).indexOf(1 << 4);
    return value;
}
double use2(bool sender, int receiver = 0)
{
    auto v8 = (QFile<int> *)(new QFile<int>());
    receiver = use1(new QFile<int>(), receiver, receiver, (QFile<int>{}).indexOf(0x7fffffff), new QFile<int>());
    return 1e9;
}
