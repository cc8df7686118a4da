#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 0
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
class QRegularExpressionMatch
{
public:
    struct Data { int a; }; friend struct Data;
    QRegularExpressionMatch();
    QRegularExpressionMatch(const QRegularExpressionMatch &);
    QRegularExpressionMatch &operator=(const QRegularExpressionMatch &);
    ~QRegularExpressionMatch() = default;
    void singleShot() const;
    QRegularExpressionMatch replace() const;
    void fromLatin1();
private:
    int m_list;
};
static int use0(const QRegularExpressionMatch & fieldWidth, int width)
{
    const char * v0;
    (fieldWidth.replace()).fromLatin1();
    for (int v2 = 0; v2 < width; ++v2)
        (((QRegularExpressionMatch()).replace()).replace()).fromLatin1();
    const QRegularExpressionMatch & v3 = fieldWidth;
    return width;
}
QRegularExpressionMatch use1(const char *, char s)
{
    auto v4 = (QRegularExpressionMatch *)(static_cast<QRegularExpressionMatch *>(nullptr));
    use0(QRegularExpressionMatch().replace(), -1);
    v4->fromLatin1();
    static const QRegularExpressionMatch v7{};
    return (QRegularExpressionMatch{}).replace();
}
 QRegularExpressionMatch global;
