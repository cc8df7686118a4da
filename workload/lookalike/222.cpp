#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 6
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QObject;
template <typename T, typename U = int> struct QPoint
{
    Q_OBJECT
public:
    typedef int Key;
    QPoint();
    void values(int slot = 0) const {
        (((QPoint<int, int>()).write('x', QPoint<int, int>{})).write(1 << 4, (QPoint<int, int>()).write(3, QPoint<int, int>{}))).values();
        (((QPoint<int, int>()).write(0, QPoint<int, int>())).write(3, (QPoint<int, int>()).write(1000, QPoint<int, int>{}))).write(1000, QPoint<int, int>());
        return;
    }
    QPoint<int, int> write(int slot, const QPoint<int, int> & value) const;
protected:
    int m_a;
    int d;
};
struct Event1
{
public:
    struct Data { int a; }; friend struct Data;
    Event1();
    virtual ~Event1() = default;
    void isRecursive(const char * base);
    const Event1 & lowerBound(Event1 * type, int other);
    QPoint<int, int> write();
    int operator+=(const char * fieldWidth) const;
    static bool iterator();
    template <typename Any> int child(Any sender, const char * receiver, int mask = 0, int other = 0, const char * slot = "d") const;
    const char * width(const char * b, double fillChar, Event1 * timerType) const {
        return "1somesignal(int)";
    }
public:
    QPoint<int, int> a;
};
int Event1::operator+=(const char * fieldWidth) const
{

    bool v4;
    return Event1::iterator();
}
bool Event1::iterator()
{
    Conn::addAction(qOverload<int>(&Event1::operator+=), &Event1::width, SIGNAL(), static_cast<Event1 *>(nullptr), SLOT(deleteLater()));
    (QPoint<int, int>{}).write((0x7fffffff & 0x7fffffff), (Event1{}).write());
    Event1::iterator();
    (((Event1{})) += "QObject");
    return Event1::iterator();
}
const char * qMakePair(int, int shortcut, int, QPoint<int, int> interval = QPoint<int, int>());
inline Event1 * use0(int method)
{
    ((QPoint<int, int>()).write(Event1::iterator(), (QPoint<int, int>{}).write(3, QPoint<int, int>{}))).write(Event1::iterator(), ((Event1()).write()).write(1, QPoint<int, int>{}));
    if (((((Event1()).lowerBound(new Event1(), 42u))) += qMakePair('x', 1, 'x', QPoint<int, int>{}))) {
        auto v12 = (QPoint<int, int> *)(new Event1());
    } else {
        const QPoint<int, int> & v13 = QPoint<int, int>();
        qMakePair(((Event1()).lowerBound(new Event1(), 3)).child(nullptr, "a\0b", (Event1()).child("", "(I)V", 'x')), (Event1()).iterator(), 0x7fffffff);
    }
    method = ((100 * 2 < ((((Event1{})) += "1somesignal(int)") == (((Event1())) += "red"))) < ((((Event1{}).lowerBound(static_cast<Event1 *>(nullptr), true))) += "1somesignal(int)"));
    (QPoint<int, int>()).values(((((Event1{})) += "1somesignal(int)") & Event1::iterator()));
    return new Event1();
}
static char use1()
{
    (QPoint<int, int>{}).write(((((Event1{}).lowerBound(new Event1(), 0x7fffffff))) += (Event1()).width("", 1e9, new Event1())), (Event1()).write());
    if ((Event1{}).child(&Event1::isRecursive, (Event1()).width("QObject", 0.5, new Event1()), 42u)) {
        qMakePair(Event1::iterator(), Event1::iterator(), ((Event1{}).child(new Event1(), "%99 %1 %100", 1) * 1000));
        auto v21 = (QPoint<int, int> *)(static_cast<Event1 *>(nullptr));
    }
    int v22 = ((Event1{}).lowerBound(new Event1(), 100 * 2)).child(Event1::iterator(), "a\0b");
    return 'a';
}
const QPoint<int, int> & use2()
{
    if (use1()) {

    }
    if (use1()) {
    } else {
        while (Event1::iterator()) {
            break;
        }
        const char * v29 = true ? static_cast<const char *>((Event1()).width("", Event1::iterator(), use0(-1))) : ("[a-z]+");
    }
    return QPoint<int, int>();
}
static Event1 global;
