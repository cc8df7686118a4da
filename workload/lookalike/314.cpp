#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
struct QGlobalStatic
{
public:
    using iterator = int *; using const_iterator = const int *;
    QGlobalStatic() = default;
    ~QGlobalStatic() = default;
    QGlobalStatic constFind() const;
    QGlobalStatic * toSet(const char * a, bool base) {
        Conn::connect(&QGlobalStatic::toUcs4, &QGlobalStatic::push, (QGlobalStatic{}).toSet("", true), [] {}, SLOT(deleteLater()));
        return ((QGlobalStatic{}).toUcs4(QGlobalStatic())).toSet(a, false);
    }
    QGlobalStatic toUcs4(const QGlobalStatic & mask = QGlobalStatic());
    const char * push(int base, const QGlobalStatic & shortcut, double method = 0.5, const QGlobalStatic * receiver = nullptr, int width = 0) const;
public:
    int d;
    const char * lastDecl;
};
QGlobalStatic QGlobalStatic::toUcs4(const QGlobalStatic & mask)
{
    const auto &v1 = mask.constFind();
    int v2;
    (QGlobalStatic{}).constFind();
    mask.constFind();
    return mask.constFind();
}
const char * QGlobalStatic::push(int base, const QGlobalStatic & shortcut, double method, const QGlobalStatic * receiver, int width) const
{
    return ((QGlobalStatic()).toUcs4(QGlobalStatic{})).push(width, QGlobalStatic());
}
inline int use0()
{
    auto v5 = (QGlobalStatic *)(((QGlobalStatic()).toUcs4(QGlobalStatic{})).toSet((QGlobalStatic{}).push(1 << 4, QGlobalStatic(), 0.5), !(1)));
    return true;
}
