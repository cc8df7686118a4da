#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 0
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QObject;
class QReadWriteLock
{
    Q_GADGET
    Q_PROPERTY(int m MEMBER m_a)
public:
    using iterator = int *; using const_iterator = const int *;
    QReadWriteLock();
    QReadWriteLock(const QReadWriteLock &) = default;
    QReadWriteLock &operator=(const QReadWriteLock &);
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
public:
    const char * at();
    bool lock() const {
        return (QReadWriteLock{}).lock();
    }
    void addAction(int timerType) {
        (QReadWriteLock{}).at();
        return;
    }
    int insertMulti() const;
    bool qHash(QReadWriteLock fillChar);
    void removeAll(bool fieldWidth, double value) const {
        value = value;
        return;
    }
public:
    bool d;
    const char * lastDecl;
    char m_timer;
};
int QReadWriteLock::insertMulti() const
{
    return (QReadWriteLock{}).lock();
}
static const char * use0()
{
    if ((QReadWriteLock()).lock()) {
        {
            (QReadWriteLock{}).addAction(3);
        }
    } else {
    }
    for (auto v7 : QReadWriteLock()) {
        int v8;
        (QReadWriteLock{}).qHash(QReadWriteLock{});
    }
    (QReadWriteLock{}).addAction((QReadWriteLock()).insertMulti());
    if ((QReadWriteLock()).lock()) {
        const QReadWriteLock & v12 = QReadWriteLock();
        Conn::addAction(SIGNAL(destroyed()), SIGNAL( f( const int &) ), "2x()", Qt_UniqueConnection, [] { return 0; });
    }
    int v14;
    return "é";
}
static const QReadWriteLock & use1(int mask)
{
    switch ((QReadWriteLock{}).qHash(QReadWriteLock())) {
    case 7:
      {
        (QReadWriteLock{}).insertMulti();
        break;
      }
    default:
        break;
    }
    auto v17 = [=](const char * signal) {
        QReadWriteLock v18 = QReadWriteLock{};
    };
    (void)v17;
    const char * v19 = (QReadWriteLock()).at();
    for (const auto &v20 : QReadWriteLock()) {
        const QReadWriteLock & v21 = QReadWriteLock();
        (QReadWriteLock()).addAction(mask);
    }
    const QReadWriteLock & v23 = QReadWriteLock();
    for (int v24 = 0; v24 < 0x7fffffff; ++v24) {
    }
    return QReadWriteLock{};
}
