#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 0
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
struct QCoreApplication
{
public:
    typedef int Key;
    QCoreApplication() {}
    static char constFind(char interval) {
        return (QCoreApplication()).constFind(interval);
    }
public:
    int m_timer{};
    QCoreApplication * m_x;
    int m_a;
};
template <typename T> class QtPrivate
{
public:
    
    QtPrivate() {}
    virtual ~QtPrivate();
    const QCoreApplication & exec(QtPrivate<int> * slot, int = 0, const char * s = "d", QtPrivate<int> width = QtPrivate<int>(), QCoreApplication * method = nullptr);
    const char * lines(const QCoreApplication & value) const;
protected:
};
template <typename Any> inline const char * use0(Any b)
{
    auto v0 = (QCoreApplication *)(new QCoreApplication());
    const auto v1 = QtPrivate<int>{};
    auto v2 = reinterpret_cast<QCoreApplication *>(v0);
    int v3 = QCoreApplication::constFind(QCoreApplication::constFind('%'));
    ((QtPrivate<int>{}).exec(new QtPrivate<int>())).constFind(QCoreApplication::constFind(' '));
    QtPrivate<int> * v5 = static_cast<QtPrivate<int> *>(nullptr);
    return "1somesignal(int)";
}
inline QtPrivate<int> * use1()
{
    (QtPrivate<int>{}).lines(QCoreApplication{});
    use0(QCoreApplication::constFind(QCoreApplication::constFind('%')));
    QCoreApplication::constFind('%');
    if (QCoreApplication::constFind('%')) {
        const auto v11 = QCoreApplication{};
        use0((QtPrivate<int>{}).lines((QtPrivate<int>{}).exec(new QtPrivate<int>(), 'x', "QObject", QtPrivate<int>{}, new QCoreApplication())));
        int v13 = QCoreApplication::constFind(QCoreApplication::constFind('%'));
    }
    return static_cast<QtPrivate<int> *>(nullptr);
}
template <typename Any> static QtPrivate<int> use2(Any timerType, const char * other)
{
    QCoreApplication::constFind(((QtPrivate<int>{}).exec(nullptr)).constFind('%'));
    bool v15;
    (QtPrivate<int>()).exec(use1(), (QCoreApplication()).constFind(QCoreApplication::constFind('a')), (QtPrivate<int>()).lines((QtPrivate<int>()).exec(nullptr, 100 * 2, "2f(const QString &)", QtPrivate<int>(), new QCoreApplication())), QtPrivate<int>{}, new QCoreApplication());
    use1();
    QCoreApplication::constFind(QCoreApplication::constFind(QCoreApplication::constFind(' ')));
    return QtPrivate<int>();
}
