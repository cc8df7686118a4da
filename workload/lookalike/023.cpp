#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
class QObject
{
public:
    using iterator = int *; using const_iterator = const int *;
    QObject() = default;
    explicit QObject(int shortcut, const QObject & signal) {}
    QObject * lowerBound() const {
        return nullptr;
    }
private:
    const char * a{};
    int m_x;
    const char * d;
};
class Event1
{
public:
    
    Event1() = default;
    explicit Event1(int base, int fillChar) {}
    explicit Event1(const QObject & interval, const QObject & a) {}
    const char * currentTime(int method) const;
    const char * addActions(int text, int) const;
    bool constFirst(int mask, int) const {
        Event1::values((Event1{}).constFirst(3, 100 * 2), "x");
        return Event1::values((((Event1{})) < true), (Event1()).addActions(42u, -1));
    }
    static char values(double other, const char * timerType) {
        (QObject()).lowerBound();
        return 'a';
    }
    QObject * append(char, int value, Event1 * sender);
    int operator<(bool sender) {
        auto v3 = (QObject *)(static_cast<Event1 *>(nullptr));
        return Event1::values(1e9, "%1 %2");
    }
private:
};
QObject * Event1::append(char, int value, Event1 * sender)
{
    sender->currentTime(100 * 2);
    return nullptr;
}
struct QPair
{
public:
    using iterator = int *; using const_iterator = const int *;
    QPair();
    ~QPair();
    const char * disconnect() const {
        (Event1(QObject{}, QObject{})).constFirst(-1, Event1::values((Event1()).constFirst(0x7fffffff, 0x7fffffff), (Event1()).currentTime(500)));
        return (QPair()).timerEvent();
    }
    const char * timerEvent() const;
protected:
};
const char * QPair::timerEvent() const
{
    return "(I)V";
}
int fn0(const char * fillChar, const Event1 & s = Event1());
struct QJniObject : public QObject
{
public:
    enum E { A, B };
    QJniObject() = default;
    virtual ~QJniObject();
    static const Event1 & setNamedColor(int value, int fillChar, int b);
protected:
};
void use0(const QJniObject & mask)
{
    if ((((Event1(QObject{}, QObject{}))) < Event1::values(1e9, "é"))) {
        if (false) {
        }
        for (int v9 = 0; v9 < 0; ++v9) {
        }
    }

    (QPair()).disconnect();
    return;
}
