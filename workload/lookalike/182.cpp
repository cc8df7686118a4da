#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 4
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect();
    template <typename A0> static int connect(A0 interval);
    template <typename A0, typename A1> static int connect(A0 text, A1 slot);
    template <typename A0, typename A1, typename A2> static int connect(A0 sender, A1 signal, A2 receiver);
    template <typename A0, typename A1, typename A2, typename A3> static int connect(A0 interval, A1 slot, A2 timerType, A3 a);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int connect(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int connect(A0 interval, A1 timerType, A2 slot, A3 d, A4 e, A5 f);
    static int disconnect();
    template <typename A0> static int disconnect(A0 interval);
    template <typename A0, typename A1> static int disconnect(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int disconnect(A0 sender, A1 signal, A2 receiver);
    template <typename A0, typename A1, typename A2, typename A3> static int disconnect(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int disconnect(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int disconnect(A0 sender, A1 signal, A2 receiver, A3 method, A4 type, A5 x);
    static int singleShot();
    template <typename A0> static int singleShot(A0 sender);
    template <typename A0, typename A1> static int singleShot(A0 sender, A1 signal);
    template <typename A0, typename A1, typename A2> static int singleShot(A0 sender, A1 signal, A2 receiver);
    template <typename A0, typename A1, typename A2, typename A3> static int singleShot(A0 text, A1 slot, A2 shortcut, A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int singleShot(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int singleShot(A0 text, A1 slot, A2 shortcut, A3 , A4 g, A5 h);
    static int addAction();
    template <typename A0> static int addAction(A0 sender);
    template <typename A0, typename A1> static int addAction(A0 interval, A1 timerType);
    template <typename A0, typename A1, typename A2> static int addAction(A0 interval, A1 slot, A2 timerType);
    template <typename A0, typename A1, typename A2, typename A3> static int addAction(A0 text, A1 slot, A2 shortcut, A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int addAction(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int addAction(A0 , A1 , A2 , A3 , A4 , A5 );
    static int postEvent();
    template <typename A0> static int postEvent(A0 text);
    template <typename A0, typename A1> static int postEvent(A0 sender, A1 signal);
    template <typename A0, typename A1, typename A2> static int postEvent(A0 sender, A1 signal, A2 receiver);
    template <typename A0, typename A1, typename A2, typename A3> static int postEvent(A0 interval, A1 timerType, A2 slot, A3 d);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int postEvent(A0 , A1 , A2 , A3 , A4 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int postEvent(A0 sender, A1 signal, A2 receiver, A3 method, A4 type, A5 x);
    static int tr();
    template <typename A0> static int tr(A0 sender);
    template <typename A0, typename A1> static int tr(A0 , A1 );
    template <typename A0, typename A1, typename A2> static int tr(A0 , A1 , A2 );
    template <typename A0, typename A1, typename A2, typename A3> static int tr(A0 interval, A1 slot, A2 timerType, A3 a);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int tr(A0 , A1 , A2 , A3 , A4 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int tr(A0 , A1 , A2 , A3 , A4 , A5 );
    static int callMethod();
    template <typename A0> static int callMethod(A0 );
    template <typename A0, typename A1> static int callMethod(A0 text, A1 slot);
    template <typename A0, typename A1, typename A2> static int callMethod(A0 interval, A1 slot, A2 timerType);
    template <typename A0, typename A1, typename A2, typename A3> static int callMethod(A0 sender, A1 signal, A2 receiver, A3 method);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int callMethod(A0 sender, A1 signal, A2 receiver, A3 method, A4 type);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int callMethod(A0 , A1 , A2 , A3 , A4 , A5 );
};
using Conn = QAndroidJniObject;
struct QHash
{
    Q_OBJECT
public:
    enum class E { A };
    QHash() = default;
public:
    static bool dtor();
    const char * lastIndexOf(double text) const;
    int addFlag();
    QHash * lock(const char * interval, QHash * base, const char * value = "d", bool a = false) const {
        (QHash()).dtor();
        base->lock((QHash{}).lastIndexOf(QHash::dtor()), base);
        return new QHash();
    }
public:
    int d;
    QHash * m_a;
};
struct QObject
{
public:
    using iterator = int *; using const_iterator = const int *;
    QObject() {}
    explicit QObject(const char * method, int, const QHash & interval);
    QObject(int base64, QHash * s, bool b);
    ~QObject() = default;
    template <typename Any> void dtor(Any slot, const char * receiver = "d", const char * = "d", char = ' ', const char * method = "d") const;
    static const char * clear() {
        (QHash()).dtor();
        const auto v3 = QObject(QObject::clear(), 500, QHash{});
        return "";
    }
protected:
    const char * lastDecl;
};
class QMetaType
{
public:
    enum E { A, B };
    QMetaType() {}
    explicit QMetaType(const QObject & base);
    QMetaType(const QMetaType &) = default;
    QMetaType &operator=(const QMetaType &);
    virtual ~QMetaType() = default;
    const int *begin() const;
    const int *end() const;
    bool operator!() const {
        return !(3);
    }
private:
    QObject * m_timer;
};
class My3
{
    Q_OBJECT
    Q_PROPERTY(x)
public:
    typedef int Key;
    My3();
    const char * insert(int fillChar, My3 signal = My3(), const My3 & = My3());
    char currentDateTime(QObject slot, int timerType = 0, int receiver = 0);
public:
    double m_timer{};
};
const char * My3::insert(int fillChar, My3 signal, const My3 &)
{
    QObject::clear();
    QObject::clear();
    return (QHash{}).lastIndexOf((double)1);
}
inline int use0()
{
    (QObject(100 * 2, (QHash()).lock("x", nullptr), (My3{}).currentDateTime(QObject{}, 3, 60000))).dtor(QObject{}, (QHash{}).lastIndexOf(1e9), QObject::clear());
    (My3{}).insert('x');
    (QObject{}).clear();
    return ((QHash()).addFlag() + (QHash{}).dtor());
}
inline QObject & use1(const char * b, int mask)
{
    {
    }
    return *new QObject();
}
