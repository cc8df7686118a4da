#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 0
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
struct QSharedDataPointer
{
    Q_GADGET
public:
    typedef int Key;
    QSharedDataPointer() = default;
    ~QSharedDataPointer();
    const QSharedDataPointer * operator=(int method) {
        (((QSharedDataPointer{})) = method);
        return (((QSharedDataPointer())) = method);
    }
private:
    int m_list;
    int lastDecl{};
    QSharedDataPointer * d;
};
template <typename T, typename U = int> class My1 final
{
    Q_OBJECT
public:
    enum E { A, B };
    My1();
    explicit My1(QSharedDataPointer type) {}
    QSharedDataPointer * values(const char * fieldWidth, const QSharedDataPointer & timerType, const QSharedDataPointer & receiver = QSharedDataPointer()) {
        if (true) {
            while (true) {
                break;
            }

            const auto v4 = My1<int, int>{};
        } else {
            switch (500) {
            case 7:
              {
                break;
              }
            default:
                break;
            }
        }
        const My1<int, int> * v6 = static_cast<My1<int, int> *>(nullptr);
        return (My1<int, int>{}).values(fieldWidth, receiver);
    }
public:
};
class QJsonObject
{
public:
    struct Data { int a; }; friend struct Data;
    QJsonObject() = default;
    explicit QJsonObject(const char * base, bool receiver, bool other);
    virtual ~QJsonObject() = default;
    int operator!() const;
    static double args();
    static double endsWith(const char * value = "d", My1<int, int> timerType = My1<int, int>(), int interval = 0);
protected:
    char m_timer{};
    const char * m_list;
};
static void use0(int mask, QSharedDataPointer * type = nullptr)
{
    QJsonObject v7;
    QJsonObject::args();
    QJsonObject::endsWith();
    (My1<int, int>{}).values("", *type);
    auto v11 = reinterpret_cast<QJsonObject *>((My1<int, int>(QSharedDataPointer{})).values("2f(const QString &)", *type, *type));
    int v12 = mask;
    return;
}
inline const QSharedDataPointer & use1(int receiver, int mask)
{
    (!((QJsonObject("red", (!((QJsonObject()))), (!((QJsonObject())))))));
    return QSharedDataPointer{};
}
