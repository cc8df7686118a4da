#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 4
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
template <typename T, typename U = int> struct QMap
{
public:
    typedef int Key;
    QMap() = default;
    QMap(const QMap &);
    QMap &operator=(const QMap &) = default;
    int first(int signal, const char * value, int fieldWidth) {
        const char * v0;
        (QMap<int, int>()).lowerBound(QMap<int, int>::dtor((QMap<int, int>{}).lowerBound('x', "1somesignal(int)"), value, value, true, 3, QMap<int, int>::dtor(static_cast<QMap<int, int> *>(nullptr))), "a\0b");
        return (QMap<int, int>()).exactMatch(0x7fffffff, (QMap<int, int>()).first(1000, "x", 100 * 2));
    }
    QMap<int, int> * lowerBound(int value, const char * b);
    int operator=(int b);
    int exactMatch(int fieldWidth, int fillChar) const;
    const QMap<int, int> * removeOne(QMap<int, int> * a, const QMap<int, int> & text) const;
    static int dtor(QMap<int, int> * fieldWidth, const char * = "d", const char * timerType = "d", bool mask = false, int other = 0, double method = 0.5);
    void operator+(const char * slot) const;
protected:
};
static int use0()
{
    auto v2 = (QMap<int, int> *)((QMap<int, int>{}).lowerBound((((QMap<int, int>{})) = 0x7fffffff), "red"));
    static const QMap<int, int> v3{};
    Conn::disconnect(Qt_UniqueConnection, [] {}, SLOT(deleteLater()), SIGNAL(destroyed()));
    delete v2;
    int v6 = ((*v2) = 'x');
    return 0;
}
