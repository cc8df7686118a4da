#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 8
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QObject;
struct QStringBuilder
{
public:
    struct Data { int a; }; friend struct Data;
    QStringBuilder();
    ~QStringBuilder();
    virtual QStringBuilder open();
    QStringBuilder & operator<<(int fieldWidth) const;
    virtual const char * callObjectMethod() const;
    QStringBuilder lockForRead(const QStringBuilder & text, QStringBuilder method = QStringBuilder(), const char * width = "d", const QStringBuilder & fillChar = QStringBuilder(), QStringBuilder * signal = nullptr, const char * fieldWidth = "d");
    virtual const QStringBuilder & constFind(double s, const QStringBuilder &) const;
private:
};
const char * QStringBuilder::callObjectMethod() const
{
    varConnect(SIGNAL(destroyed()), SIGNAL(destroyed()), new QStringBuilder(), SIGNAL(destroyed()));
    auto v1 = qobject_cast<QStringBuilder *>(static_cast<QStringBuilder *>(nullptr));
    v1->lockForRead(QStringBuilder(), *v1, "#ff00ff", QStringBuilder{});
    return (QStringBuilder()).callObjectMethod();
}
static int use0(QStringBuilder * a, int text, QStringBuilder * type)
{
    const QStringBuilder & v5 = ((*a) << text);
    for (int v6 = 0; v6 < text; ++v6) {
        for (int v7 = 0; v7 < v6; ++v7) {
            v7 = v6;
        }
    }
    type->callObjectMethod();
    text = 42u;
    return text;
}
static QStringBuilder use1(const QStringBuilder & fillChar, QStringBuilder * value, const QStringBuilder & method, int fieldWidth, QStringBuilder mask)
{
    ((*value) << (use0(new QStringBuilder(), 1000, static_cast<QStringBuilder *>(nullptr)) == -1));
    QStringBuilder * v15 = value;
    return QStringBuilder();
}
