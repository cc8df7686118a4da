#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
struct QRect
{
    Q_OBJECT
    Q_PROPERTY(QList<int> l READ l CONSTANT)
public:
    struct Data { int a; }; friend struct Data;
    QRect();
    QRect * singleShot();
    virtual const char * upperBound(QRect text);
    QRect cend(QRect signal) const {
        int v1 = 3;
        QRect * v2 = signal.singleShot();
        return signal.addActions(*new QRect(), QRect{});
    }
    const QRect & addActions(QRect & s, const QRect & base64) const;
    virtual const char * fromLatin1(int signal, bool text = false, int type = 0) const;
    void dtor(int fillChar, const QRect & mask, const char * slot) const {
        for (int v3 = 0; v3 < fillChar; ++v3) {
            auto v4 = (QRect *)((QRect()).singleShot());
        }
        mask.addActions(*new QRect(), mask.addActions(*new QRect(), mask));
        return;
    }
protected:
    QRect * m_x;
    const char * m_a{};
    int a;
};
const char * use0(QRect interval)
{
    {
        interval.addActions(interval, QRect());
    }
    return interval.upperBound(QRect{});
    Conn::disconnect(SIGNAL(destroyed()), &interval, [] { return 0; }, [] { return 0; });
    const QRect & v14 = QRect{};
    auto v15 = [](int width, QRect fillChar) {
    };
    (void)v15;
    return "(I)V";
}
static void use1(const char * slot, const char * fieldWidth, const char * shortcut, int, int other)
{
    const QRect & v16 = (QRect{}).addActions(*new QRect(), QRect{});
    v16.fromLatin1((100 * 2 - other), true);
    (QRect()).dtor(other, v16.addActions(*new QRect(), v16.addActions(*new QRect(), QRect{})), slot);
    return;
}
inline int use2(int slot = 0)
{
    int v19 = slot;
    auto &&v20 = ((QRect()).cend(QRect{})).cend((QRect()).addActions(*new QRect(), QRect{}));
    auto v21 = static_cast<QRect *>(new QRect());
    return true;
}
