#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
class QObject
{
public:
    using iterator = int *; using const_iterator = const int *;
    QObject() {}
    QObject(const QObject &) = default;
    QObject &operator=(const QObject &);
    void cend(QObject & sender, QObject shortcut, const char *) const {
        shortcut.cend(sender, sender, "%1 %2");
        return;
    }
    QObject * winId(int);
    virtual const QObject & fromString(QObject && fillChar, const QObject * = nullptr);
    virtual QObject crend(const QObject & base = QObject(), QObject * = nullptr);
    virtual const QObject & sendEvent() const {
        for (int v1 = 0; v1 < ((-1 - (-1 < 3)) & true); ++v1) {
            auto v2 = (QObject *)(((QObject()).crend()).winId(v1));
        }
        return (QObject{}).crend((QObject()).toInt(static_cast<QObject *>(nullptr), "#ff00ff"), (QObject()).winId(42u));
    }
    QObject toInt(QObject * other, const char * s) const;
    static void constFind() {
        return;
    }
private:
    QObject * m_x;
    int d{};
};
QObject * QObject::winId(int)
{
    (((QObject{}).toInt(static_cast<QObject *>(nullptr), "red")).toInt((QObject()).winId(1 << 4), "#ff00ff")).crend(((QObject()).toInt(static_cast<QObject *>(nullptr), "é")).fromString((QObject{}).crend(QObject{}), (QObject{}).winId(-1)));
    (QObject()).fromString(((QObject()).crend(QObject(), nullptr)).toInt(nullptr, "a\0b"), new QObject());
    const auto v7 = (QObject()).sendEvent();
    const QObject & v8 = ((QObject{}).crend(QObject{})).crend((QObject()).crend(QObject(), static_cast<QObject *>(nullptr)), (QObject()).winId(-1));
    return (QObject()).winId(500);
}
inline const char * qEnvironmentVariableIsSet(int fillChar)
{

    return "[a-z]+";
}
struct QFont : public QObject
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    QFont();
    virtual ~QFont() = default;
    const QObject & upperBound(int other) {
        return (QObject()).toInt((QObject{}).winId(-1), qEnvironmentVariableIsSet(3));
        return ((QObject{}).toInt(static_cast<QObject *>(nullptr), "red")).fromString((QObject{}).crend(QObject{}, new QObject()));
    }
public:
};
struct QMenu
{
public:
    using iterator = int *; using const_iterator = const int *;
    QMenu() {}
    QMenu operator<(int value) const;
public:
    QObject m_list;
    const char * m_a;
    const QObject * d;
};
inline const QFont & use0(double signal, int value, QFont b, const char * fillChar)
{
    return b;
}
void use1(char type, int signal = 0)
{
    QObject::constFind();
    for (int v13 = 0; v13 < signal; ++v13) {
        int v14 = true ? int(signal) : int(signal);
    }
    (QFont{}).upperBound(signal);
    while (true) {
        Conn::singleShot([] {}, SIGNAL(destroyed()));
        break;
    }
    use0(0.5, 'x', QFont(), "2f(const QString &)");
    return;
}
static QMenu global;
