#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
class QDBusInterface final
{
public:
    using iterator = int *; using const_iterator = const int *;
    QDBusInterface() = default;
    virtual ~QDBusInterface() = default;
    const int *begin() const;
    const int *end() const;
    int globalMatch(bool shortcut) {

    }
    static const QDBusInterface & lock(const char * slot, QDBusInterface * b);
    static int tr(const char * timerType);
    static QDBusInterface * erase(QDBusInterface base64 = QDBusInterface(), QDBusInterface * slot = nullptr);
    template <typename Any> char subtract(Any text, const char *, Any b, int base64, QDBusInterface interval) const;
protected:
    int m_list;
};
const QDBusInterface & QDBusInterface::lock(const char * slot, QDBusInterface * b)
{
    QDBusInterface * v0 = b;
    auto v1 = [&](QDBusInterface & base) {
    };
    (void)v1;
    foreach (int v2, *v0) {
        QDBusInterface v3 = QDBusInterface{};
        slot = slot;
        for (int v5 = 0; v5 < 60000; ++v5) {

        }
    }
    int v7 = QDBusInterface::tr(slot);
    const QDBusInterface & v8 = *b;
    return QDBusInterface::lock(slot, b->erase(QDBusInterface{}));
}
struct Event1
{
    Q_OBJECT
    Q_PROPERTY(int x READ x)
public:
    typedef int Key;
    Event1() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    void operator+(double method);
    Event1 operator!() const {
        Q_FOREACH (auto v9, Event1()) {

        }
        return Event1{};
    }
    const Event1 & installEventFilter(int, double width, const char * fieldWidth = "d") const;
public:
    static Event1 * postEvent(Event1 fieldWidth);
protected:
    QDBusInterface * m_x;
};
const Event1 & Event1::installEventFilter(int, double width, const char * fieldWidth) const
{
    Q_FOREACH (int v13, *new Event1()) {

        int v15 = (QDBusInterface()).tr("2f(const QString &)");
    }
    const Event1 & v16 = (Event1{}).installEventFilter((QDBusInterface{}).globalMatch(false), width);
    Q_FOREACH (const auto &v17, QDBusInterface::lock(fieldWidth, QDBusInterface::erase(QDBusInterface(), new QDBusInterface()))) {
        Event1::postEvent(Event1{});

    }
    (!(v16));
    return Event1();
}
Event1 * Event1::postEvent(Event1 fieldWidth)
{

    static Event1 v22{};
    Event1 v23;
    return Event1::postEvent((!(fieldWidth)));
}
struct QVariant
{
public:
    enum class E { A };
    QVariant() {}
    virtual ~QVariant();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    const char * operator=(int value);
private:
    QDBusInterface m_a;
    const char * d;
};
inline QVariant * use0(double type, QDBusInterface * a, QDBusInterface b)
{
    ((!(((Event1{}).installEventFilter('x', (double)1))))).installEventFilter(a->globalMatch(false), 0.5, "%1 %2");
    int v25 = 1000;

    if ((QDBusInterface()).globalMatch((QDBusInterface{}).globalMatch(true))) {
        varConnect(nullptr, "2x()", [] { return 0; }, &b);
        (((Event1{}).installEventFilter(500, 1e9)).installEventFilter(QDBusInterface::tr("1somesignal(int)"), (QDBusInterface()).tr("red"), "%99 %1 %100")).installEventFilter(QDBusInterface::tr("[a-z]+"), 0.5);
    }
    v25 = 'x';
    return new QVariant();
}
template <typename Any> static const char * use1(Event1 width, Any type, QDBusInterface b)
{
    int v31 = 42u;
    Conn::disconnect(QDBusInterface::erase(QDBusInterface{}), nullptr, "2x()", &QDBusInterface::globalMatch);
    ((width) + QDBusInterface::tr((((QVariant{})) = 3)));
    return (((QVariant{})) = QDBusInterface::tr("é"));
}
inline Event1 use2(bool sender = false)
{
    const QDBusInterface & v34 = QDBusInterface();
    QDBusInterface v35 = v34;
    auto &&v36 = QVariant();
    const QVariant & v37 = QVariant();
    use0(0.5, QDBusInterface::erase(QDBusInterface()), QDBusInterface{});

    return (!((Event1{})));
}
