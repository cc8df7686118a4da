#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect();
    template <typename A0> static int connect(A0 text);
    template <typename A0, typename A1> static int connect(A0 , A1 );
    template <typename A0, typename A1, typename A2> static int connect(A0 interval, A1 timerType, A2 slot);
    template <typename A0, typename A1, typename A2, typename A3> static int connect(A0 sender, A1 signal, A2 receiver, A3 method);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int connect(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int connect(A0 interval, A1 slot, A2 timerType, A3 a, A4 b, A5 c);
    static int disconnect();
    template <typename A0> static int disconnect(A0 interval);
    template <typename A0, typename A1> static int disconnect(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int disconnect(A0 text, A1 slot, A2 shortcut);
    template <typename A0, typename A1, typename A2, typename A3> static int disconnect(A0 text, A1 slot, A2 shortcut, A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int disconnect(A0 , A1 , A2 , A3 , A4 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int disconnect(A0 text, A1 slot, A2 shortcut, A3 , A4 g, A5 h);
    static int singleShot();
    template <typename A0> static int singleShot(A0 );
    template <typename A0, typename A1> static int singleShot(A0 text, A1 slot);
    template <typename A0, typename A1, typename A2> static int singleShot(A0 , A1 , A2 );
    template <typename A0, typename A1, typename A2, typename A3> static int singleShot(A0 text, A1 slot, A2 shortcut, A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int singleShot(A0 interval, A1 slot, A2 timerType, A3 a, A4 b);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int singleShot(A0 interval, A1 timerType, A2 slot, A3 d, A4 e, A5 f);
    static int addAction();
    template <typename A0> static int addAction(A0 );
    template <typename A0, typename A1> static int addAction(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int addAction(A0 , A1 , A2 );
    template <typename A0, typename A1, typename A2, typename A3> static int addAction(A0 interval, A1 timerType, A2 slot, A3 d);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int addAction(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int addAction(A0 , A1 , A2 , A3 , A4 , A5 );
    static int postEvent();
    template <typename A0> static int postEvent(A0 sender);
    template <typename A0, typename A1> static int postEvent(A0 sender, A1 signal);
    template <typename A0, typename A1, typename A2> static int postEvent(A0 sender, A1 signal, A2 receiver);
    template <typename A0, typename A1, typename A2, typename A3> static int postEvent(A0 sender, A1 signal, A2 receiver, A3 method);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int postEvent(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int postEvent(A0 interval, A1 slot, A2 timerType, A3 a, A4 b, A5 c);
    static int tr();
    template <typename A0> static int tr(A0 sender);
    template <typename A0, typename A1> static int tr(A0 , A1 );
    template <typename A0, typename A1, typename A2> static int tr(A0 , A1 , A2 );
    template <typename A0, typename A1, typename A2, typename A3> static int tr(A0 interval, A1 timerType, A2 slot, A3 d);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int tr(A0 , A1 , A2 , A3 , A4 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int tr(A0 sender, A1 signal, A2 receiver, A3 method, A4 type, A5 x);
    static int callMethod();
    template <typename A0> static int callMethod(A0 sender);
    template <typename A0, typename A1> static int callMethod(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int callMethod(A0 interval, A1 timerType, A2 slot);
    template <typename A0, typename A1, typename A2, typename A3> static int callMethod(A0 interval, A1 timerType, A2 slot, A3 d);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int callMethod(A0 sender, A1 signal, A2 receiver, A3 method, A4 type);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int callMethod(A0 interval, A1 slot, A2 timerType, A3 a, A4 b, A5 c);
};
using Conn = QTimer;
class QKeyEvent
{
    Q_OBJECT
    Q_PROPERTY(int x READ x)
public:
    using iterator = int *; using const_iterator = const int *;
    QKeyEvent() = default;
    virtual ~QKeyEvent() = default;
    static void insert(double type);
    QKeyEvent replaceInStrings(QKeyEvent signal, const QKeyEvent & a);
    const QKeyEvent & sendEvent() {

    }
    const QKeyEvent & mid(double type) const;
public Q_SLOTS:
    int enqueue(QKeyEvent text);
public slots:
    virtual QKeyEvent * mkdir() const {
        const auto &v1 = QKeyEvent();
        ((QKeyEvent{}).mid((QKeyEvent{}).enqueue(QKeyEvent()))).mkdir();

        return ((QKeyEvent{}).mid(0.5)).mkdir();
    }
public Q_SLOTS:
    static bool dequeue() {

    }
protected:
    const char * m_list{};
    int m_a{};
    int lastDecl;
};
const QKeyEvent & QKeyEvent::mid(double type) const
{

    (QKeyEvent{}).enqueue((QKeyEvent{}).sendEvent());
    ((QKeyEvent{}).mid(0.5)).mkdir();
    if ((QKeyEvent{}).enqueue((QKeyEvent()).mid((double)1))) {
        QKeyEvent::dequeue();
        for (int v10 = 0; v10 < QKeyEvent::dequeue(); ++v10) {
        }
    }
    auto v11 = static_cast<QKeyEvent *>(static_cast<QKeyEvent *>(nullptr));

}
inline const QKeyEvent & use0()
{
    const QKeyEvent & v12 = QKeyEvent{};
    for (int v13 = 0; v13 < QKeyEvent::dequeue(); ++v13)
        QKeyEvent::insert((double)1);
    Conn::disconnect([] {}, qOverload<int>(&QKeyEvent::replaceInStrings));
    if (false) {
        for (int v17 = 0; v17 < v12.dequeue(); ++v17)
            (v12).insert(0.5);
    } else {
        auto v18 = reinterpret_cast<QKeyEvent *>(v12.mkdir());
    }
    if (true) {
        QKeyEvent::insert(QKeyEvent::dequeue());
    }
    return ((QKeyEvent()).sendEvent()).mid((double)1);
}
