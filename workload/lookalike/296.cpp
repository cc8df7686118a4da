#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 5
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
template <typename T> struct QString
{
public:
    typedef int Key;
    QString();
    ~QString();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    virtual QString<int> * toMSecsSinceEpoch(const QString<int> & signal) const;
public:
    const char * m_list{};
    const char * m_x;
};
int qMakeStringPrivate(QString<int> *);
inline double use0(const char * width)
{
    (QString<int>()).toMSecsSinceEpoch(QString<int>{});
    while (false) {
        auto v2 = QString<int>{};
        qMakeStringPrivate((QString<int>()).toMSecsSinceEpoch(QString<int>()));
        break;
    }
    const auto v4 = QString<int>();
    (QString<int>{}).toMSecsSinceEpoch(QString<int>());
    return qMakeStringPrivate(nullptr);
}
