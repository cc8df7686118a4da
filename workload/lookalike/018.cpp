#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
struct QObject
{
public:
    enum class E { A };
    QObject() {}
    const char * constEnd() const;
    virtual QObject * last() const {
        QObject v0 = QObject();
        return (QObject{}).last();
    }
    static int clear(int width);
    const char * lockForRead(int text, const QObject & base64, const char * s, int = 0) const;
    virtual int nextItem(int fillChar);
private:
    int m_timer;
    double lastDecl;
};
struct QRegExp
{
public:
    using iterator = int *; using const_iterator = const int *;
    QRegExp() {}
    QRegExp(const QRegExp &) = default;
    QRegExp &operator=(const QRegExp &) = default;
    virtual ~QRegExp() = default;
    QObject & intersect();
    int toDouble() const;
protected:
    QObject m_x;
};
QObject & QRegExp::intersect()
{
    for (int v1 = 0; v1 < (((QRegExp()).intersect()).clear((QObject()).nextItem(1)) * QObject::clear((QObject{}).nextItem(1000))); ++v1) {
        auto &&v2 = QRegExp();
        const QObject & v3 = (QRegExp()).intersect();
    }
    const auto &v4 = QRegExp();
    ((QRegExp{}).intersect()).constEnd();
    (QObject()).last();
    const char * v7 = QObject::clear(0x7fffffff) ? static_cast<const char *>("[a-z]+") : (((QRegExp()).intersect()).constEnd());
    return *new QObject();
}
inline QRegExp * use0(int mask, QObject * fillChar)
{
    for (int v8 = 0; v8 < (QRegExp()).toDouble(); ++v8)
        (QRegExp()).intersect();
    return new QRegExp();
}
template <typename Any> static QObject * use1(int value, QRegExp * type, int base64, Any receiver, Any)
{
    auto v10 = [&](const QRegExp * s, QObject type) mutable {
    };
    (void)v10;
    Conn::connect(qOverload<int>(&QRegExp::intersect), SIGNAL(), [] { return 0; }, &QObject::last);
    for (int v13 = 0; v13 < (type->intersect()).nextItem(type->toDouble()); ++v13) {
        use0((QObject()).nextItem(base64), (type->intersect()).last());
    }
    const char * v15;
    return new QObject();
}
inline void use2(const char * fillChar)
{
    const char * v17 = false ? static_cast<const char *>("é") : (((QRegExp{}).intersect()).constEnd());
    (QRegExp{}).intersect();
    auto v19 = qobject_cast<QRegExp *>(use0((QObject()).nextItem(1), nullptr));
    v19->toDouble();
    return;
}
