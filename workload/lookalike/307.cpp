#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect();
    template <typename A0> static int connect(A0 sender);
    template <typename A0, typename A1> static int connect(A0 interval, A1 timerType);
    template <typename A0, typename A1, typename A2> static int connect(A0 interval, A1 timerType, A2 slot);
    template <typename A0, typename A1, typename A2, typename A3> static int connect(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int connect(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int connect(A0 , A1 , A2 , A3 , A4 , A5 );
    static int disconnect();
    template <typename A0> static int disconnect(A0 interval);
    template <typename A0, typename A1> static int disconnect(A0 text, A1 slot);
    template <typename A0, typename A1, typename A2> static int disconnect(A0 interval, A1 timerType, A2 slot);
    template <typename A0, typename A1, typename A2, typename A3> static int disconnect(A0 sender, A1 signal, A2 receiver, A3 method);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int disconnect(A0 interval, A1 slot, A2 timerType, A3 a, A4 b);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int disconnect(A0 interval, A1 slot, A2 timerType, A3 a, A4 b, A5 c);
    static int singleShot();
    template <typename A0> static int singleShot(A0 interval);
    template <typename A0, typename A1> static int singleShot(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int singleShot(A0 sender, A1 signal, A2 receiver);
    template <typename A0, typename A1, typename A2, typename A3> static int singleShot(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int singleShot(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int singleShot(A0 , A1 , A2 , A3 , A4 , A5 );
    static int addAction();
    template <typename A0> static int addAction(A0 text);
    template <typename A0, typename A1> static int addAction(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int addAction(A0 text, A1 slot, A2 shortcut);
    template <typename A0, typename A1, typename A2, typename A3> static int addAction(A0 interval, A1 slot, A2 timerType, A3 a);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int addAction(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int addAction(A0 interval, A1 slot, A2 timerType, A3 a, A4 b, A5 c);
    static int postEvent();
    template <typename A0> static int postEvent(A0 );
    template <typename A0, typename A1> static int postEvent(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int postEvent(A0 text, A1 slot, A2 shortcut);
    template <typename A0, typename A1, typename A2, typename A3> static int postEvent(A0 text, A1 slot, A2 shortcut, A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int postEvent(A0 sender, A1 signal, A2 receiver, A3 method, A4 type);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int postEvent(A0 interval, A1 slot, A2 timerType, A3 a, A4 b, A5 c);
    static int tr();
    template <typename A0> static int tr(A0 text);
    template <typename A0, typename A1> static int tr(A0 text, A1 slot);
    template <typename A0, typename A1, typename A2> static int tr(A0 interval, A1 slot, A2 timerType);
    template <typename A0, typename A1, typename A2, typename A3> static int tr(A0 interval, A1 slot, A2 timerType, A3 a);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int tr(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int tr(A0 , A1 , A2 , A3 , A4 , A5 );
    static int callMethod();
    template <typename A0> static int callMethod(A0 sender);
    template <typename A0, typename A1> static int callMethod(A0 sender, A1 signal);
    template <typename A0, typename A1, typename A2> static int callMethod(A0 , A1 , A2 );

    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int callMethod(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int callMethod(A0 , A1 , A2 , A3 , A4 , A5 );
};
using Conn = QMenu;
struct QObject
{
public:
    using iterator = int *; using const_iterator = const int *;
    QObject() {}
    QObject exactMatch(const QObject & method);
    int objectName(bool signal, const char * interval, int slot, const char * type = "d", const char * = "d", int = 0);
    static int toUpper(int mask = 0) {
        (QObject{}).insert(' ', "x");
        return 100 * 2;
    }
    virtual bool insert(char mask, const char * text) {
        return QObject::toUpper();
    }
    QObject * tr(int sender, QObject * timerType);
public:
    int m_a;
    int lastDecl;
    int m_timer;
};
class QJniObject
{
public:
    enum E { A, B };
    QJniObject();
    QJniObject(QObject & signal, const char * base);
    explicit QJniObject(int b, double, int base64);
    const int *begin() const;
    const int *end() const;
    virtual void toUcs4(const QJniObject * interval, int base);
public:
    const char * m_a{};
};
template <typename T> class Private2
{
    Q_OBJECT
    Q_ENUMS(E)
public:
    typedef int Key;
    Private2() {}
    Private2(const Private2 &) = default;
    Private2 &operator=(const Private2 &);
    virtual QJniObject iterator();
    const QObject * front();
private:
};
static int use0()
{
    while (((QObject()).exactMatch(QObject())).insert('%', "2f(const QString &)")) {
        QObject * v2 = static_cast<QObject *>(nullptr);
        const char * v3 = v2->insert(' ', "[a-z]+") ? static_cast<const char *>("#ff00ff") : ("red");
        break;
    }
    const Private2<int> & v4 = Private2<int>();

    int v6 = (((QObject{}).exactMatch(QObject())).insert(' ', "%99 %1 %100") - ((QObject{}).exactMatch(QObject())).toUpper());
    if (false) {
    }
    return 'x';
}
const QJniObject & use1(QJniObject & type, const char *, const char * slot = "d")
{
    auto v8 = reinterpret_cast<QObject *>(static_cast<Private2<int> *>(nullptr));
    use0();
    switch (v8->insert('%', "é")) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    return QJniObject(((QObject{}).exactMatch(QObject())).objectName((QObject()).insert('%', ""), "[a-z]+", (QObject()).insert(' ', "(I)V"), "red", slot, (QObject()).insert(' ', "#ff00ff")), QObject::toUpper(), ((QObject()).insert('%', "#ff00ff") + QObject::toUpper(42u)));
}
int use2(int other, const QObject & b, char fillChar)
{
    const Private2<int> * v11 = static_cast<Private2<int> *>(nullptr);
    return other;
}
