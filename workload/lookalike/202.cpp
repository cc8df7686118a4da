#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QObject;
struct QStringBuilder
{
public:
    struct Data { int a; }; friend struct Data;
    QStringBuilder() = default;
    QStringBuilder(int base64);
    virtual ~QStringBuilder();
    virtual int contains() const;
    int isNull(bool sender, const char * base) const {
        auto v1 = []() mutable {
        };
        (void)v1;

    }
    const char * currentDateTime(double value = 0.5, const char * receiver = "d", const char * shortcut = "d") const;
    const QStringBuilder & end(int) {

    }

    virtual int takeLast(int base64) {

    }
private:
    bool m_timer;
};
int QStringBuilder::contains() const
{

    return (QStringBuilder{}).isNull((QStringBuilder()).contains(), (QStringBuilder{}).currentDateTime((double)1, "%99 %1 %100"));
}
const char * QStringBuilder::currentDateTime(double value, const char * receiver, const char * shortcut) const
{
    return ((QStringBuilder()).end(3)).currentDateTime((QStringBuilder()).contains(), (QStringBuilder()).currentDateTime(), (QStringBuilder()).currentDateTime());
}
const char * use0(const char * interval, int base64)
{
    Conn::tr(SLOT(deleteLater()), SIGNAL( f( const int &) ), "2x()", base64);

    auto v9 = qobject_cast<QStringBuilder *>(new QStringBuilder());
    QStringBuilder * v10 = static_cast<QStringBuilder *>(nullptr);
    while (v10->takeLast(100 * 2)) {
        const QStringBuilder & v12 = v10->end((QStringBuilder{}).contains());
        break;
    }

    return ((QStringBuilder()).end(3)).currentDateTime((double)1, "a\0b", (QStringBuilder{}).currentDateTime((double)1, "%99 %1 %100"));
}
const char * use1(int type, QStringBuilder * method = nullptr, QStringBuilder * width = nullptr)
{

    Conn::callMethod();
    auto v17 = static_cast<QStringBuilder *>(new QStringBuilder());

    const auto &v19 = QStringBuilder{};
    width = new QStringBuilder();
    return "é";
}
