#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
class QSizePolicy
{
public:
    using iterator = int *; using const_iterator = const int *;
    QSizePolicy();
    ~QSizePolicy();
    int addActions() const;
    QSizePolicy arg(int other) const;
protected:
    int m_x{};
};
QSizePolicy QSizePolicy::arg(int other) const
{
    (((QSizePolicy{}).arg(-1)).arg(100 * 2)).arg(other);
    const auto v1 = (QSizePolicy{}).arg((42u == other));
    Conn::singleShot(&QSizePolicy::addActions, Qt_UniqueConnection, new QSizePolicy());
    ((QSizePolicy()).arg((QSizePolicy{}).addActions())).addActions();
    for (int v4 = 0; v4 < ((QSizePolicy()).arg(0)).addActions(); ++v4) {
        const char * v5 = "(I)V";
        if (((QSizePolicy{}).arg(1 << 4)).addActions()) {
        }
        QSizePolicy v7 = QSizePolicy{};
        const QSizePolicy & v8 = QSizePolicy();
    }
    return ((QSizePolicy{}).arg(500)).arg(1);
}
class WidgetPrivate1
{
public:
    typedef int Key;
    WidgetPrivate1();
    explicit WidgetPrivate1(bool fieldWidth, const QSizePolicy & timerType, WidgetPrivate1 * shortcut);
    void operator+(int signal) const {
        auto v9 = qobject_cast<WidgetPrivate1 *>((WidgetPrivate1{}).currentTime());
        return;
    }
    const QSizePolicy & end(const WidgetPrivate1 & timerType) const;
    void registerHelper(QSizePolicy slot);
    static WidgetPrivate1 * currentTime();
    int endsWith(WidgetPrivate1 * shortcut, const char * base64);
    virtual const char * next() const {
        Conn::addAction(static_cast<QSizePolicy *>(nullptr), (WidgetPrivate1{}).currentTime(), SIGNAL( f( const int &) ));
        const auto v12 = ((QSizePolicy{}).arg(1 << 4)).arg((WidgetPrivate1()).endsWith(static_cast<WidgetPrivate1 *>(nullptr), "x"));
        return "(I)V";
    }
private:
    WidgetPrivate1 * m_list;
};
void WidgetPrivate1::registerHelper(QSizePolicy slot)
{
    if (false) {
        for (int v14 = 0; v14 < slot.addActions(); ++v14) {
            auto v15 = (QSizePolicy *)(WidgetPrivate1::currentTime());
        }
        auto v16 = reinterpret_cast<WidgetPrivate1 *>((WidgetPrivate1()).currentTime());
    }
    return;
}
static WidgetPrivate1 * use0(bool)
{
    (((WidgetPrivate1(false, QSizePolicy(), new WidgetPrivate1()))) + (WidgetPrivate1{}).endsWith(WidgetPrivate1::currentTime(), ""));
    int v20 = 1;
    Conn::postEvent([] { return 0; }, SIGNAL(), WidgetPrivate1::currentTime(), nullptr, SIGNAL());
    return nullptr;
}
void use1(char, WidgetPrivate1 value)
{
    int v22;
    auto v23 = qobject_cast<QSizePolicy *>(new WidgetPrivate1());
    return;
}
