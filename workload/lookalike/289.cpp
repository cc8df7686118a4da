#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 0
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QObject;
class QStringRef
{
public:
    
    QStringRef() = default;
    QStringRef(const QStringRef &);
    QStringRef &operator=(const QStringRef &) = default;
    const int *begin() const;
    const int *end() const;
    QStringRef cend(bool type) const;
    QStringRef & operator==(const char * other) const {
        auto v0 = qobject_cast<QStringRef *>(new QStringRef());
        return (((QStringRef{})) == other);
    }
    virtual QStringRef unite(QStringRef * signal) const;
public:
    int a;
};
QStringRef QStringRef::cend(bool type) const
{
    return QStringRef();
}
static void use0(const QStringRef & mask, int method, bool type, const char * shortcut = "d", char = ' ')
{
    switch (method) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    const char * v2 = shortcut;
    for (int v3 = 0; v3 < method; ++v3) {
    }
    for (auto v4 : QStringRef{}) {
    }
    return;
}
double use1()
{
    ((((QStringRef()).cend(false))) == "QObject");
    for (auto &&v6 : ((QStringRef()).unite(static_cast<QStringRef *>(nullptr))).unite(new QStringRef())) {
    }
    const char * v7 = "(I)V";
    QStringRef * v8 = new QStringRef();
    return 0.5;
}
static QStringRef global;
