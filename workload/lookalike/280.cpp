#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 6
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect();
    template <typename A0> static int connect(A0 interval);
    template <typename A0, typename A1> static int connect(A0 interval, A1 timerType);
    template <typename A0, typename A1, typename A2> static int connect(A0 sender, A1 signal, A2 receiver);
    template <typename A0, typename A1, typename A2, typename A3> static int connect(A0 interval, A1 timerType, A2 slot, A3 d);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int connect(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int connect(A0 text, A1 slot, A2 shortcut, A3 , A4 g, A5 h);
    static int disconnect();
    template <typename A0> static int disconnect(A0 text);
    template <typename A0, typename A1> static int disconnect(A0 text, A1 slot);
    template <typename A0, typename A1, typename A2> static int disconnect(A0 text, A1 slot, A2 shortcut);
    template <typename A0, typename A1, typename A2, typename A3> static int disconnect(A0 sender, A1 signal, A2 receiver, A3 method);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int disconnect(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int disconnect(A0 interval, A1 slot, A2 timerType, A3 a, A4 b, A5 c);
    static int singleShot();
    template <typename A0> static int singleShot(A0 interval);
    template <typename A0, typename A1> static int singleShot(A0 , A1 );
    template <typename A0, typename A1, typename A2> static int singleShot(A0 text, A1 slot, A2 shortcut);
    template <typename A0, typename A1, typename A2, typename A3> static int singleShot(A0 interval, A1 timerType, A2 slot, A3 d);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int singleShot(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int singleShot(A0 sender, A1 signal, A2 receiver, A3 method, A4 type, A5 x);
    static int addAction();
    template <typename A0> static int addAction(A0 sender);
    template <typename A0, typename A1> static int addAction(A0 text, A1 slot);
    template <typename A0, typename A1, typename A2> static int addAction(A0 interval, A1 timerType, A2 slot);
    template <typename A0, typename A1, typename A2, typename A3> static int addAction(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int addAction(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int addAction(A0 interval, A1 slot, A2 timerType, A3 a, A4 b, A5 c);
    static int postEvent();
    template <typename A0> static int postEvent(A0 );
    template <typename A0, typename A1> static int postEvent(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int postEvent(A0 interval, A1 timerType, A2 slot);
    template <typename A0, typename A1, typename A2, typename A3> static int postEvent(A0 interval, A1 timerType, A2 slot, A3 d);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int postEvent(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int postEvent(A0 text, A1 slot, A2 shortcut, A3 , A4 g, A5 h);
    static int tr();
    template <typename A0> static int tr(A0 interval);
    template <typename A0, typename A1> static int tr(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int tr(A0 interval, A1 slot, A2 timerType);
    template <typename A0, typename A1, typename A2, typename A3> static int tr(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int tr(A0 interval, A1 slot, A2 timerType, A3 a, A4 b);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int tr(A0 text, A1 slot, A2 shortcut, A3 , A4 g, A5 h);
    static int callMethod();
    template <typename A0> static int callMethod(A0 text);
    template <typename A0, typename A1> static int callMethod(A0 sender, A1 signal);
    template <typename A0, typename A1, typename A2> static int callMethod(A0 interval, A1 slot, A2 timerType);
    template <typename A0, typename A1, typename A2, typename A3> static int callMethod(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int callMethod(A0 , A1 , A2 , A3 , A4 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int callMethod(A0 interval, A1 timerType, A2 slot, A3 d, A4 e, A5 f);
};
using Conn = QObject;
struct QAbstractItemView
{
    Q_OBJECT
    Q_PROPERTY(QMap<QString, int> m READ m)
public:
    using iterator = int *; using const_iterator = const int *;
    QAbstractItemView();
    QAbstractItemView(const QAbstractItemView &);
    QAbstractItemView &operator=(const QAbstractItemView &);
    virtual ~QAbstractItemView();
    const QAbstractItemView & sort(double slot, QAbstractItemView * signal, const QAbstractItemView & a = QAbstractItemView(), const char * width = "d") const;
    int constFirst(QAbstractItemView * shortcut, const char *, QAbstractItemView * b) const {
        return 100 * 2;
    }
signals:
    void fromString(bool other) {
        Conn::disconnect(new QAbstractItemView(), [] {}, qOverload<int>(&QAbstractItemView::constFirst));
        auto &&v1 = ((QAbstractItemView()).sort((double)1, new QAbstractItemView())).sort(1e9, new QAbstractItemView(), QAbstractItemView(), "a\0b");
        return;
    }
private:
    const char * m_x;
    const char * a;
};
inline double use0()
{
    const QAbstractItemView * v2 = new QAbstractItemView();
    v2->sort(v2->constFirst(new QAbstractItemView(), "%99 %1 %100", static_cast<QAbstractItemView *>(nullptr)), new QAbstractItemView(), QAbstractItemView{}, "#ff00ff");
    if (false) {
    }
    return ((QAbstractItemView()).sort(1e9, new QAbstractItemView())).constFirst(nullptr, "(I)V", new QAbstractItemView());
}
void use1(const QAbstractItemView & base64 = QAbstractItemView(), const char * timerType = "d")
{
    bool v6 = ((QAbstractItemView{}).sort(0.5, static_cast<QAbstractItemView *>(nullptr), QAbstractItemView{}, "%99 %1 %100")).constFirst(nullptr, "red", nullptr);
    v6 = base64.constFirst(new QAbstractItemView(), "QObject", new QAbstractItemView());
    QAbstractItemView v9 = QAbstractItemView();
    if ((QAbstractItemView{}).constFirst(&v9, "[a-z]+", nullptr)) {
    } else {
        (base64).sort((QAbstractItemView{}).constFirst(&v9, "", &v9), &v9);
        int v12 = (v9.constFirst(&v9, timerType, &v9) & base64.constFirst(&v9, timerType, new QAbstractItemView()));
    }
    bool v13 = false;
    return;
}
