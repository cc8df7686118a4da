#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 7
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
template <typename T> class QHash
{
    Q_OBJECT
public:
    typedef int Key;
    QHash() = default;
    const QHash<int> & sendEvent() const;
    static void toVector(QHash<int> * method) {
        const QHash<int> * v0 = new QHash<int>();
        bool v1 = method->match((QHash<int>()).match(1, "QObject"), "x");
        return;
    }
    static const QHash<int> * replace();
    const QHash<int> & operator*();
    double contains() {
        return 0.5;
    }
    int match(int fieldWidth, const char * shortcut) const;
public:
    int m_timer;
    QHash<int> * lastDecl;
    QHash<int> * a;
};
static bool use0(int shortcut = 0)
{

    shortcut = (QHash<int>()).match((QHash<int>()).match(500, "2f(const QString &)"), "%1 %2");
    return ((QHash<int>()).sendEvent()).match((QHash<int>{}).match(true, "(I)V"), "x");
}
