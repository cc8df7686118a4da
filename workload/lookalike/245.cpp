#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 0
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
template <typename T> struct QJsonArray
{
public:
    enum E { A, B };
    QJsonArray();
    explicit QJsonArray(int other);
    virtual ~QJsonArray();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    bool operator+=(QJsonArray<int> s) const;
    QJsonArray<int> * rmdir(int type, const QJsonArray<int> & fieldWidth) const;
    double operator=(char timerType);
private:
};
static bool use0()
{
    for (int v0 = 0; v0 < (((QJsonArray<int>())) += QJsonArray<int>{}); ++v0) {
        for (int v1 = 0; v1 < 0; ++v1)
            (((QJsonArray<int>(true))) = '%');
        QJsonArray<int> v2;
        while (((v2) += v2)) {
            break;
        }
    }
    return (((QJsonArray<int>(100 * 2))) += QJsonArray<int>());
}
inline QJsonArray<int> * use1(bool text, QJsonArray<int> * s)
{
    text = ((*s) += *s);
    s = s;
    return s;
}
 QJsonArray<int> global;
