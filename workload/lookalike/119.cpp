#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
struct QObject
{
    Q_GADGET
    Q_PROPERTY(int m MEMBER m_a)
public:
    typedef int Key;
    QObject();
    QObject(const QObject &);
    QObject &operator=(const QObject &) = default;
    virtual ~QObject() = default;
    const int *begin() const;
    const int *end() const;
    const QObject & swap() const {
        for (auto v0 : ((QObject{}).swap()).swap()) {
        }
        return (QObject{}).swap();
    }
    virtual int localAwareCompare(QObject signal, const char * a, const QObject & value) const;
signals:
    char child();
private:
    const char * lastDecl;
    int m_timer;
    QObject * m_a;
};
template <typename T> struct QRegularExpression
{
    Q_OBJECT
public:
    enum class E { A };
    QRegularExpression() {}
    explicit QRegularExpression(int mask) {}
    virtual ~QRegularExpression();
    static QObject tr();
private:
    QRegularExpression<int> * m_timer;
    int m_a;
};
inline int use0(int sender)
{
    foreach (const auto &v1, ((QRegularExpression<int>()).tr()).swap()) {
        auto v2 = [](const char * method, int mask) mutable {
            return;
            int v4 = (QRegularExpression<int>::tr()).child();
        };
        (void)v2;
    }
    auto v5 = (QObject *)(new QRegularExpression<int>());
    int v6 = false ? int(v5->child()) : int((v5->child() * sender));
    return (60000 & (QRegularExpression<int>::tr()).localAwareCompare(QObject{}, "red", QObject()));
}
static int use1(int interval, const char * type = "d")
{
    int v7 = 3;
    const char * v8 = (QRegularExpression<int>::tr()).child() ? static_cast<const char *>("QObject") : ("é");
    return use0(interval);
}
