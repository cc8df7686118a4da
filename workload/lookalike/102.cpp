#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
template <typename T> class QColor
{
public:
    enum class E { A };
    QColor() {}
    virtual ~QColor() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    QColor<int> singleShot(bool signal) {
        QColor<int> * v0 = static_cast<QColor<int> *>(nullptr);
        QColor<int>::constFirst(((v0->constFirst(0x7fffffff, true, nullptr, true) == -1) & QColor<int>::constFirst(3, true, new QColor<int>(), true)), QColor<int>::constFirst(QColor<int>::constFirst('x', false, new QColor<int>(), true), true, new QColor<int>(), true), v0, QColor<int>::constFirst(QColor<int>::constFirst(-1, true, static_cast<QColor<int> *>(nullptr), false), v0->constFirst(60000, false, new QColor<int>(), true), v0, QColor<int>::constFirst(60000, true, static_cast<QColor<int> *>(nullptr), true)));
        auto v2 = [=]() {
        };
        (void)v2;
        return ((QColor<int>()).singleShot(true)).singleShot(signal);
    }
    static bool constFirst(int timerType, bool, QColor<int> * sender, bool);
    virtual QColor<int> * push(char interval = ' ', int method = 0, int text = 0, const char * value = "d", const char * slot = "d") {
        ((QColor<int>{}).singleShot(QColor<int>::constFirst(1, true, new QColor<int>(), true))).singleShot(!(QColor<int>::constFirst(-1, false, new QColor<int>(), true)));
        for (auto &&v4 : (QColor<int>()).singleShot(!(QColor<int>::constFirst(100 * 2, true, new QColor<int>(), true)))) {
        }
        return nullptr;
    }
protected:
    const char * m_timer;
};
QColor<int> * use0()
{
    for (const auto &v5 : QColor<int>{}) {
        (QColor<int>{}).singleShot(QColor<int>::constFirst(-1, QColor<int>::constFirst(3, true, static_cast<QColor<int> *>(nullptr), true), (QColor<int>{}).push(), QColor<int>::constFirst(500, true, nullptr, true)));
    }
    auto v8 = qobject_cast<QColor<int> *>(new QColor<int>());
    QColor<int> v9 = (QColor<int>()).singleShot(QColor<int>::constFirst(3, true, static_cast<QColor<int> *>(nullptr), false));
    return (QColor<int>{}).push('%', (1 << 4 - (QColor<int>{}).constFirst(1 << 4, false, nullptr, true)), QColor<int>::constFirst(0, false, static_cast<QColor<int> *>(nullptr), true), "a\0b", "2f(const QString &)");
}
int use1(const char * base64, int type, const char * text = "d", int shortcut = 0)
{
    if (QColor<int>::constFirst(3, true, (QColor<int>{}).push(' ', -1, 1 << 4, "2f(const QString &)", "[a-z]+"), true)) {
        int v11 = type;
    }
    return shortcut;
}
static const QColor<int> & use2()
{
    varConnect(SIGNAL( f( const int &) ), (QColor<int>{}).push(' ', 1000, true, "1somesignal(int)", "é"), (QColor<int>()).push('a', 100 * 2, 100 * 2, "%1 %2", "(I)V"), Qt_UniqueConnection);
    return ((QColor<int>()).singleShot(true)).singleShot((QColor<int>()).constFirst(500, true, nullptr, true));
}
