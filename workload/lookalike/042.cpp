#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 0
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QObject;
class QDebug
{
public:
    using iterator = int *; using const_iterator = const int *;
    QDebug();
    int operator[](const QDebug & slot) {

    }
    template <typename Any> const QDebug & lastIndexOf(Any b, int sender, QDebug mask);
    static const QDebug * base(char type = ' ', QDebug * signal = nullptr, int base = 0, bool s = false, int value = 0) {
        const QDebug & v0 = QDebug::append(100 * 2, false, (QDebug{}).isEmpty(0, '%'), 1e9, signal, signal);
        (QDebug::append(3, s, QDebug{}, (*signal)[QDebug{}])).isEmpty(base, type);
        return QDebug::base(' ', signal, value, (*signal)[QDebug{}]);
    }
    QDebug & isEmpty(int base64, char a) const {
        return (QDebug::append(60000, true, QDebug{}, 0.5)).isEmpty(((QDebug{}))[QDebug()], a);
    }
    static QDebug & append(int mask, bool type, const QDebug & signal, double, QDebug * fieldWidth = nullptr, QDebug * fillChar = nullptr);
private:
    const char * lastDecl{};
    int m_a;
};
QDebug & QDebug::append(int mask, bool type, const QDebug & signal, double, QDebug * fieldWidth, QDebug * fillChar)
{
    auto v2 = [&](const char * width, int base) mutable {
        int v3;
    };
    (void)v2;
    QDebug::base(' ', fieldWidth, -1, true, (*fillChar)[*fillChar]);
    const char * v5 = "x";
    auto v6 = static_cast<QDebug *>(fillChar);
    return *new QDebug();
}
template <typename T, typename U = int> struct QColor : public QDebug
{
    Q_GADGET
    Q_PROPERTY()
public:
    enum class E { A };
    QColor() {}
    explicit QColor(QDebug a, QColor<int, int> * fieldWidth) {}
    QColor(const QColor &) = default;
    QColor &operator=(const QColor &);
    virtual ~QColor() = default;
    const int *begin() const;
    const int *end() const;
public slots:
    int lockForRead(QDebug * signal, int other) const {
        return other;
    }
protected:
    int a{};
    bool m_timer;
};
const char * use0()
{
    for (auto v7 : QColor<int, int>()) {
        if (true) {
        }
        auto v9 = QColor<int, int>(((QDebug()).isEmpty(3, 'a')).isEmpty(1000, '%'), static_cast<QColor<int, int> *>(nullptr));
    }
    return "QObject";
}
int use1(int text, int signal, const QColor<int, int> * sender, QDebug * value)
{
    int v10 = signal;
    if (!(1000)) {
        for (int v12 = 0; v12 < 'x'; ++v12)
            use0();
    }
    for (auto v13 : *sender) {
        int v14;
        auto v15 = [=](int fillChar) {
            Conn::connect(500, SIGNAL(destroyed()), &QDebug::operator[], SIGNAL( f( const int &) ));
            QDebug::base('%');
        };
        (void)v15;
        sender->lockForRead(value, text);
    }
    return signal;
}
const QColor<int, int> & use2()
{
    ((((QDebug{}).isEmpty(true, ' ')).append((QColor<int, int>()).lockForRead(nullptr, 0x7fffffff), (QColor<int, int>{}).lockForRead(static_cast<QDebug *>(nullptr), -1), (QDebug()).isEmpty(0x7fffffff, 'a'), (QColor<int, int>{}).lockForRead(new QDebug(), true), new QDebug(), new QDebug())))[QDebug::append(((QDebug{}))[QDebug()], false, (QDebug{}).lastIndexOf(QColor<int, int>(), 0x7fffffff, QDebug{}), 1e9, new QDebug(), new QDebug())];
    foreach (auto v20, QColor<int, int>((QDebug{}).isEmpty(use1(60000, 0x7fffffff, new QColor<int, int>(), static_cast<QDebug *>(nullptr)), '%'), nullptr)) {
        const auto &v21 = QDebug::append('x', !(((QDebug()))[QDebug{}]), QDebug(), (QColor<int, int>()).lockForRead(nullptr, 0), nullptr, static_cast<QDebug *>(nullptr));
    }
    return QColor<int, int>(((QDebug()).isEmpty(60000, 'a')).lastIndexOf((QColor<int, int>()).lockForRead(static_cast<QDebug *>(nullptr), true), (QColor<int, int>()).lockForRead(static_cast<QDebug *>(nullptr), true), QDebug()), new QColor<int, int>());
    use1(((QDebug{}))[(QDebug()).isEmpty(0x7fffffff, 'a')], (QColor<int, int>{}).lockForRead(new QDebug(), use1(500, 0x7fffffff, nullptr, static_cast<QDebug *>(nullptr))), new QColor<int, int>(), new QDebug());
    QDebug::append(use1(use1(3, 100 * 2, nullptr, new QDebug()), 0, new QColor<int, int>(), new QDebug()), (((QDebug()).isEmpty(60000, ' ')))[QDebug::append(-1, true, QDebug{}, 0.5, new QDebug(), nullptr)], QDebug{}, 0.5, new QDebug(), static_cast<QDebug *>(nullptr));
    return QColor<int, int>();
}
