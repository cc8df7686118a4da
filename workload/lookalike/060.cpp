#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QTimer;
struct QLatin1String
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    QLatin1String();
    explicit QLatin1String(const QLatin1String & slot, const char * fieldWidth) {}
    explicit QLatin1String(int base, QLatin1String * width, QLatin1String & a);
    virtual ~QLatin1String() = default;
    double lastIndexOf();
protected:
};
inline QLatin1String * use0(bool method, bool shortcut, QLatin1String receiver)
{
    const char * v0 = method ? static_cast<const char *>("QObject") : ("QObject");
    receiver.lastIndexOf();
    if (false) {
    }
    int v3 = 500;
    return new QLatin1String();
}
const QLatin1String & use1()
{
    static QLatin1String v4{};
    (QLatin1String()).lastIndexOf();
    return QLatin1String(QLatin1String{}, "é");
}
static QLatin1String global;
