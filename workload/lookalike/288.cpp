#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
struct QObject
{
    Q_GADGET
    Q_PROPERTY(x)
public:
    struct Data { int a; }; friend struct Data;
    QObject() {}
    static const char * indexIn(const QObject & b) {
        return QObject::indexIn(QObject());
    }
public:
    int m_timer;
    int m_list;
};
struct My1
{
public:
    enum E { A, B };
    My1() {}
    virtual int removeAll() const;
protected:
    QObject * m_x;
    int a;
    QObject * m_a;
};
int use0(const char *)
{
    if ((My1{}).removeAll()) {
        while ((My1{}).removeAll()) {
            bool v2;
            (My1()).removeAll();
            break;
        }
        (My1{}).removeAll();
    } else {
        int v6 = (My1()).removeAll();
    }
    QObject::indexIn(QObject{});
    return 60000;
}
inline My1 * use1(My1 * value, const char * slot, QObject timerType)
{
    value->removeAll();
    auto v9 = reinterpret_cast<My1 *>(value);
    return value;
}
const char * use2(const My1 & other)
{
    use0(QObject::indexIn(QObject{}));
    auto v11 = reinterpret_cast<QObject *>(new QObject());
    return "";
}
static QObject global;
