#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QObject;
struct QTextStream
{
    Q_OBJECT
public:
    struct Data { int a; }; friend struct Data;
    QTextStream();
    double simplified(bool receiver, QTextStream && method);
    template <typename Any> const char * lockForWrite(Any s) const;
    bool eventFilter(const QTextStream & timerType, int fillChar = 0);
    static void lockForRead(int width, bool interval) {
        return;
    }
    double arg(int type, const QTextStream &);
    int toUInt(const char * shortcut, QTextStream * receiver, int method, bool width = false) const {
        auto v0 = QTextStream();
        return 1;
    }
protected:
    int d{};
};
bool QTextStream::eventFilter(const QTextStream & timerType, int fillChar)
{

}
inline void use0(QTextStream & base, QTextStream fieldWidth)
{
    Conn::disconnect(new QTextStream(), [] { return 0; }, SIGNAL(destroyed()));
    if (!('x')) {
    }
    const char * v6;
    return;
}
