#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
class QRegularExpressionMatch
{
public:
    typedef int Key;
    QRegularExpressionMatch();
    ~QRegularExpressionMatch();
    template <typename Any> QRegularExpressionMatch hasNext(Any width, Any) const;
public:
    int m_x;
    int d;
    int lastDecl;
};
template <typename T> class QIcon
{
public:
    enum class E { A };
    QIcon() = default;
    QIcon(const QIcon &);
    QIcon &operator=(const QIcon &) = default;
    QIcon<int> * replaceInStrings(int signal, int b, const QRegularExpressionMatch & other) const {

        return (QIcon<int>{}).replaceInStrings(signal, signal, QRegularExpressionMatch{});
    }
public:
};
QIcon<int> * use0(QIcon<int> * s)
{

    if (false) {
        const char * v3 = !(1) ? static_cast<const char *>("2f(const QString &)") : ("%1 %2");

        s->replaceInStrings((0x7fffffff < 0x7fffffff), true, QRegularExpressionMatch{});
    }
    auto v6 = *s;
    delete s;

    return static_cast<QIcon<int> *>(nullptr);
}
