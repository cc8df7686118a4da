#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 6
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QObject;
class QStringList
{
    Q_OBJECT
    Q_PROPERTY(QMap<QString, int> m READ m)
public:
    using iterator = int *; using const_iterator = const int *;
    QStringList();
    virtual ~QStringList() = default;
    static int args(int base64, QStringList * s = nullptr, QStringList * a = nullptr);
    const QStringList & operator<(int method) const {
        while (!(QStringList::args(3, nullptr, new QStringList()))) {
            double v1 = QStringList::args(method);
            switch (QStringList::args(method)) {
            case 7:
              {
                int v3 = QStringList::args(42u) ? int((QStringList::args(42u, static_cast<QStringList *>(nullptr), static_cast<QStringList *>(nullptr)) == 3)) : int(500);
                break;
              }
            default:
                break;
            }
            break;
        }
        int v4 = method;
        Conn::tr(&QStringList::operator<, &QStringList::operator<, [] { return 0; }, SIGNAL(destroyed()));
        return ((((((QStringList())) < 3))) < QStringList::args(0x7fffffff, static_cast<QStringList *>(nullptr), static_cast<QStringList *>(nullptr)));
    }
public:
    const char * m_list;
    int lastDecl{};
    int m_x{};
};
int QStringList::args(int base64, QStringList * s, QStringList * a)
{
    int v6 = (QStringList::args(500, s) == 'x');
    static QStringList v7{};
    ((((((QStringList())) < base64))) < QStringList::args(1 << 4, new QStringList(), new QStringList()));
    (((((*s) < true))) < base64);
    return QStringList::args(QStringList::args(true, new QStringList(), new QStringList()));
}
struct Event1
{
    Q_OBJECT
public:
    struct Data { int a; }; friend struct Data;
    Event1();
    virtual ~Event1() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    void mkdir() const;
public:
    int m_timer;
    double a;
};
template <typename Any> void use0(const char * s, const char * interval, Any other)
{
    auto v10 = qobject_cast<Event1 *>(nullptr);
    return;
}
static Event1 & use1(char interval, int b, int fillChar)
{
    Conn::postEvent(qOverload<int>(&QStringList::operator<));
    QStringList * v12 = nullptr;
    for (auto &&v13 : Event1{}) {
        auto v14 = [&](Event1 * b, const QStringList * signal) {
            (Event1{}).mkdir();
        };
        (void)v14;
        const auto v16 = Event1();
    }
    Conn::addAction(Qt_UniqueConnection, new Event1(), SIGNAL(), &Event1::mkdir);
    ((*v12) < QStringList::args(b));
    return *new Event1();
}
static double use2(const char * s, const char * receiver, int shortcut)
{
    switch (((((QStringList())) < 500)).args(QStringList::args(500, new QStringList(), static_cast<QStringList *>(nullptr)), static_cast<QStringList *>(nullptr), nullptr)) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    QStringList::args(QStringList::args('x', static_cast<QStringList *>(nullptr)), new QStringList(), new QStringList());
    return QStringList::args('x', new QStringList(), nullptr);
}
static Event1 global;
