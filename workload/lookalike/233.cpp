#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
struct QStringLiteral
{
public:
    typedef int Key;
    QStringLiteral() {}
    explicit QStringLiteral(QStringLiteral * fillChar, const QStringLiteral & b, bool interval) {}
    virtual ~QStringLiteral();
    int lowerBound(int receiver = 0, const char * other = "d", int = 0, QStringLiteral slot = QStringLiteral()) const;
    template <typename Any> const QStringLiteral & connect(QStringLiteral interval, const QStringLiteral & method, Any base64, Any mask, const QStringLiteral & a, char other = ' ');
    bool count(bool slot, char value, int type = 0, int = 0, int shortcut = 0, int mask = 0) {
        for (int v0 = 0; v0 < shortcut; ++v0) {
        }
        type = (QStringLiteral((QStringLiteral{}).fill(), (*((QStringLiteral{}))), false)).lowerBound(shortcut, "é", true);
        auto v2 = [](QStringLiteral & slot) {
            auto v3 = (*((QStringLiteral(new QStringLiteral(), QStringLiteral{}, false))));
        };
        (void)v2;
        return false;
    }
    QStringLiteral * fill();
    template <typename Any> bool registerHelper(const QStringLiteral *, QStringLiteral * sender, int width, const char * base64, Any mask);
    const QStringLiteral & operator*() {

    }
public:
    int m_x;
};
int QStringLiteral::lowerBound(int receiver, const char * other, int, QStringLiteral slot) const
{
    return 500;
}
template <typename T> class Foo1
{
public:
    using iterator = int *; using const_iterator = const int *;
    Foo1() {}
    virtual ~Foo1() = default;
    QStringLiteral cbegin() const;
    int fromLatin1() const;
    bool operator+(int receiver);
    static Foo1<int> callStaticMethod(const QStringLiteral & other, int b, char base64, QStringLiteral && width, QStringLiteral &);
protected:
};
class QQmlProperty
{
    Q_OBJECT
public:
    
    QQmlProperty();
    explicit QQmlProperty(int s) {}
    QQmlProperty(const QQmlProperty &);
    QQmlProperty &operator=(const QQmlProperty &);
    virtual ~QQmlProperty() = default;
    void toList(double b);
public slots:
    template <typename Any> Foo1<int> * scanLine(Any base64);
protected:
    QStringLiteral * m_list;
    const char * m_x;
    double lastDecl{};
};
static const char * use0()
{

    const QQmlProperty & v5 = QQmlProperty(60000);
    return "é";
}
static double use1(const QQmlProperty & a = QQmlProperty())
{
    const QQmlProperty & v7 = a;

    {
        const char * v10 = use0();
        auto v11 = reinterpret_cast<QQmlProperty *>(new QStringLiteral());
    }

}
static const char * use2(Foo1<int> * fieldWidth, QQmlProperty * b, Foo1<int> * method, const char * slot, const char * sender, Foo1<int> & a)
{
    if ((a.cbegin()).count(!(500), '%', (QStringLiteral{}).lowerBound(0x7fffffff, "2f(const QString &)", 1 << 4, QStringLiteral()), (QStringLiteral()).registerHelper(static_cast<QStringLiteral *>(nullptr), new QStringLiteral(), 'x', "x", "QObject"), 1 << 4, 500)) {
    }
    return sender;
}
static const QQmlProperty global;
