#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 6
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
template <typename T> class QQmlProperty
{
public:
    struct Data { int a; }; friend struct Data;
    QQmlProperty();
    virtual ~QQmlProperty() = default;
    static const QQmlProperty<int> & push_back(const QQmlProperty<int> * width);
    bool arg(int fillChar) const;
    QQmlProperty<int> push_front(QQmlProperty<int> text, int method, bool value, QQmlProperty<int> base = QQmlProperty<int>(), QQmlProperty<int> = QQmlProperty<int>(), int timerType = 0) const;
    double endsWith(const QQmlProperty<int> & width, int b, QQmlProperty<int> * timerType, double type, const char * sender) const;
    int fromString(int fillChar, int signal) const;
protected:
    int m_list;
    int m_timer;
    QQmlProperty<int> * lastDecl;
};
inline double use0()
{
    (((QQmlProperty<int>{}).push_front(QQmlProperty<int>{}, 1000, true, QQmlProperty<int>(), QQmlProperty<int>())).push_back(new QQmlProperty<int>())).arg('x');
    (QQmlProperty<int>::push_back(nullptr)).arg(true);
    ((QQmlProperty<int>::push_back(new QQmlProperty<int>())).push_back(nullptr)).endsWith(QQmlProperty<int>{}, (QQmlProperty<int>::push_back(new QQmlProperty<int>())).fromString((QQmlProperty<int>{}).fromString(0, 1000), (QQmlProperty<int>{}).fromString('x', 60000)), static_cast<QQmlProperty<int> *>(nullptr), 0.5, "#ff00ff");
    return ((QQmlProperty<int>{}).push_front(QQmlProperty<int>(), 42u, true, QQmlProperty<int>{}, QQmlProperty<int>(), 1)).fromString(500, (QQmlProperty<int>{}).fromString(0, 'x'));
}
int use1(QQmlProperty<int> *, int other, const char * sender)
{
    (QQmlProperty<int>()).arg(((QQmlProperty<int>()).push_back(nullptr)).arg(other));
    use0();
    if (false) {
    }
    (QQmlProperty<int>::push_back(static_cast<QQmlProperty<int> *>(nullptr))).endsWith(QQmlProperty<int>::push_back(static_cast<QQmlProperty<int> *>(nullptr)), (QQmlProperty<int>::push_back(nullptr)).arg((QQmlProperty<int>{}).arg(-1)), static_cast<QQmlProperty<int> *>(nullptr), use0(), sender);
    Conn::connect(0, "2x()", SLOT(deleteLater()));
    Conn::addAction(nullptr, SIGNAL( f( const int &) ), nullptr);
    return ((QQmlProperty<int>()).push_front(QQmlProperty<int>{}, 'x', false, QQmlProperty<int>(), QQmlProperty<int>())).fromString((true == (QQmlProperty<int>{}).fromString(true, 500)), 3);
}
const char * use2(const char * base64 = "d")
{
    int v9 = (QQmlProperty<int>::push_back(new QQmlProperty<int>())).arg(42u);
    (((QQmlProperty<int>()).push_front(QQmlProperty<int>{}, 100 * 2, false, QQmlProperty<int>{}, QQmlProperty<int>{})).push_front((QQmlProperty<int>{}).push_front(QQmlProperty<int>{}, 3, true, QQmlProperty<int>(), QQmlProperty<int>(), 42u), 'x', (QQmlProperty<int>{}).arg(0x7fffffff))).arg(v9);
    (QQmlProperty<int>()).fromString(3, 1);
    return base64;
}
