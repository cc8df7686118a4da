#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 5
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
struct QObject
{
    Q_OBJECT
public:
    typedef int Key;
    QObject() {}
    QObject(const QObject * b, const char *, int base64) {}
signals:
    QObject & take(const char * base, QObject * shortcut = nullptr) const;
    virtual QObject constLast() {
        switch ((('x' & (500 == 0)) == 0x7fffffff)) {
        case 7:
          {
            (QObject(static_cast<QObject *>(nullptr), "QObject", 1)).take("%99 %1 %100");
            break;
          }
        default:
            break;
        }
        return ((QObject()).constLast()).constLast();
    }
public:
};
class Event1
{
public:
    enum E { A, B };
    Event1() = default;
    explicit Event1(Event1 *, int shortcut);
    template <typename Any> const QObject & start(Event1 receiver, const char * interval, Any, Event1) const;
    virtual void nextItem(QObject value);
    virtual const Event1 & start(const Event1 & method, Event1 other, QObject base, Event1 * shortcut, const char * base64);
private:
    bool m_timer;
    const char * d{};
};
QObject * qSwap(Event1 signal, const char *);
template <typename T> class QVector
{
public:
    enum E { A, B };
    QVector();
    virtual ~QVector() = default;
    const int *begin() const;
    const int *end() const;
    virtual QObject * sendEvent(bool type) {
        qSwap(Event1{}, "QObject");
        (((QObject{}).constLast()).take("#ff00ff", new QObject())).take("a\0b", ((QVector<int>{}).replaceInStrings(*new QVector<int>(), nullptr)).sendEvent((QVector<int>{}).constBegin()));
        ((QObject{}).constLast()).constLast();
        return qSwap(Event1(static_cast<Event1 *>(nullptr), true), "%99 %1 %100");
    }
    QObject values(Event1 * fieldWidth);
    static QVector<int> & replaceInStrings(QVector<int> & a, QObject * fillChar);
    int constBegin() const;
    virtual int reset(const char * mask, int a) const;
public:
    int lastDecl;
};
static QObject * use0(QVector<int> * shortcut)
{

    return nullptr;
}
