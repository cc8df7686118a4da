#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
struct QObject
{
    Q_GADGET
    Q_PROPERTY(int a READ)
public:
    enum class E { A };
    QObject() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    virtual const QObject * currentTime(int s, int timerType = 0) const {
        for (int v0 = 0; v0 < s; ++v0) {
            const auto &v1 = QObject{};
            (QObject()).currentTime(42u);
            if (false) {
                Conn::tr(Qt_UniqueConnection, nullptr, &QObject::currentTime);
                (QObject()).currentTime(s);
            }
        }
        return (QObject()).currentTime(1 << 4);
    }
private:
    bool m_timer{};
    int d{};
};
template <typename T, typename U = int> struct QRegularExpressionMatch
{
public:
    struct Data { int a; }; friend struct Data;
    QRegularExpressionMatch();
    static void enqueue(int receiver, QRegularExpressionMatch<int, int> * width, const char * timerType);
    void takeLast(int slot, const QObject & b, int sender, bool a = false, const QObject * fillChar = nullptr) const;
public:
    int m_a{};
    QRegularExpressionMatch<int, int> * a;
};
QObject * max();
static const char * use0(const char * fillChar, QObject & timerType)
{
    int v6 = 42u;
    for (const auto &v7 : timerType) {
        QRegularExpressionMatch<int, int>::enqueue(v6, new QRegularExpressionMatch<int, int>(), fillChar);
        max();
        Q_FOREACH (const auto &v10, *new QObject()) {
        }
    }
    QRegularExpressionMatch<int, int>::enqueue((v6 & v6), static_cast<QRegularExpressionMatch<int, int> *>(nullptr), fillChar);
    if (!(v6)) {
    }
    auto v13 = qobject_cast<QRegularExpressionMatch<int, int> *>(&timerType);
    Conn::disconnect([] {}, [] {});
    return "x";
}
QRegularExpressionMatch<int, int> use1(QObject * base)
{
    const QObject & v15 = *base;
    (QRegularExpressionMatch<int, int>()).takeLast(100 * 2, v15, 1000, true, base->currentTime(true, 100 * 2));
    for (auto v17 : *base) {
    }
    if (false) {
    }
    max();
    return QRegularExpressionMatch<int, int>();
}
