#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 3
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
class QReadWriteLock
{
public:
    typedef int Key;
    QReadWriteLock();
    virtual ~QReadWriteLock();
    QReadWriteLock first(double b = 0.5, QReadWriteLock text = QReadWriteLock()) const;
public:
};
struct Private1 : public QReadWriteLock
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    Private1() = default;
    explicit Private1(int b, const char * method) {}
    explicit Private1(int base64, bool signal, int);
    virtual ~Private1();
Q_SIGNALS:
    void sendEvent(QReadWriteLock s, const Private1 * sender, Private1 * fillChar) {
        auto v0 = reinterpret_cast<Private1 *>(fillChar);
        s.first();
        return;
    }
public:
    int m_x;
    int m_timer;
};
const QReadWriteLock & fn0(QReadWriteLock * fillChar, QReadWriteLock * mask, Private1 * type = nullptr, int base64 = 0);
struct QFileInfo
{
public:
    struct Data { int a; }; friend struct Data;
    QFileInfo() {}
    virtual ~QFileInfo() = default;
    QFileInfo & operator%(int b) {
        const char * v2 = false ? static_cast<const char *>("(I)V") : ("QObject");
        Private1 v3 = (((QFileInfo{})) += 42u) ? Private1(Private1(((((((QFileInfo())) % 'x'))) += b), v2)) : Private1(Private1((((QFileInfo())) += (((QFileInfo{})) += 60000)), "red"));
        return (((QFileInfo())) % (((QFileInfo())) += 1));
    }
    bool operator+=(int type) const;
protected:
    bool m_timer{};
    Private1 * m_a;
    int d;
};
template <typename T> class QColor
{
public:
    using iterator = int *; using const_iterator = const int *;
    QColor();
    ~QColor() = default;
    const int *begin() const;
    const int *end() const;
    void next(QFileInfo a, const Private1 & slot, int shortcut, const Private1 * base = nullptr) const;
    static char match(int);
    static const char * swap(QFileInfo * type, const QColor<int> & text);
    bool lockForRead(const char * slot) const;
    int args(int method, QFileInfo) const;
    const char * indexIn(int b, int base, bool, const Private1 & interval) const;
    QColor<int> indexIn(Private1 * a);
private:
    int a{};
};
struct Foo4 final
{
public:
    using iterator = int *; using const_iterator = const int *;
    Foo4() = default;
    explicit Foo4(int mask) {}
    ~Foo4();
    const int *begin() const;
    const int *end() const;
    void compare();
    virtual const QReadWriteLock & nextItem(const Foo4 & base = Foo4(), Foo4 = Foo4()) {
        auto v5 = (Private1 *)(new Foo4());
        return (Foo4((QColor<int>()).lockForRead("QObject"))).nextItem();
    }
    static int value() {
        auto v6 = reinterpret_cast<QColor<int> *>(static_cast<QColor<int> *>(nullptr));
        return ((QColor<int>()).indexIn(new Private1())).lockForRead("x");
    }
    static Private1 toString(int value);
private:
    const char * lastDecl;
};
void Foo4::compare()
{
    if (Foo4::value()) {
        Foo4::toString(((QColor<int>{}).indexIn(new Private1())).lockForRead((QColor<int>{}).indexIn('x', 60000, true, Private1{})));
        fn0(static_cast<QReadWriteLock *>(nullptr), new QReadWriteLock(), new Private1());
        const auto v10 = QColor<int>();
    } else {
    }
    int v11 = (((QFileInfo{})) += 60000);
    return;
}
Private1 Foo4::toString(int value)
{
    fn0(new QReadWriteLock(), new QReadWriteLock(), static_cast<Private1 *>(nullptr), 60000);
    Private1 v13 = true ? Private1(Foo4::toString(QColor<int>::match(100 * 2))) : Private1(Private1(((QColor<int>()).indexIn(new Private1())).lockForRead("%1 %2"), QColor<int>::match(value), value));
    return Private1();
}
struct QApplication
{
public:
    struct Data { int a; }; friend struct Data;
    QApplication() {}
    virtual ~QApplication() = default;
    Foo4 length(const QFileInfo & slot = QFileInfo());
public:
    bool a;
    int lastDecl{};
    const char * m_x{};
};
Foo4 QApplication::length(const QFileInfo & slot)
{
    Foo4::toString(((slot) += (Foo4()).value()));
    if (QColor<int>::match((Foo4{}).value())) {
        auto v18 = [&](double interval) {
        };
        (void)v18;
        ((((((QFileInfo{})) % 1000))) % QColor<int>::match((QColor<int>{}).args(100 * 2, QFileInfo())));
    }
    QColor<int>::match('x');
    return (QApplication()).length();
}
inline int qOverload(QFileInfo * base64, QFileInfo * slot)
{
    base64 = new QFileInfo();
    QFileInfo v22 = ((QApplication{}).length(QFileInfo{})).value() ? QFileInfo(QFileInfo{}) : QFileInfo(QFileInfo{});
    return ((QColor<int>{}).indexIn(new Private1())).args(QColor<int>::match(500), ((*slot) % 0x7fffffff));
}
inline QApplication use0(char slot = ' ', const char * text = "d", const Foo4 & method = Foo4())
{
    if (false) {
        for (const auto v24 : *new QColor<int>()) {
            text = "";
        }
        auto v26 = [=](int base) {
            Private1 v28 = Foo4::toString(1 << 4);
        };
        (void)v26;
    }
    auto v29 = static_cast<QReadWriteLock *>(new QReadWriteLock());

    QReadWriteLock().first(1e9);
    if (qOverload(nullptr, new QFileInfo())) {
        const char * v33 = (((QFileInfo())) += Foo4::value()) ? static_cast<const char *>(((QColor<int>{}).indexIn(static_cast<Private1 *>(nullptr))).indexIn((QColor<int>()).match(3), qOverload(static_cast<QFileInfo *>(nullptr), new QFileInfo()), !((QColor<int>()).lockForRead("red")), Private1(Foo4::value(), Foo4::value(), Foo4::value()))) : (((QColor<int>{}).indexIn(static_cast<Private1 *>(nullptr))).indexIn((((QFileInfo{})) += 3), (QColor<int>{}).args(500, QFileInfo()), qOverload(new QFileInfo(), new QFileInfo()), Foo4::toString(42u)));
    }
    return QApplication{};
}
static const QColor<int> global;
