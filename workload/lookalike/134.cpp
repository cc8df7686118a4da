#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QWidget;
class QObject
{
public:
    
    QObject() {}
    explicit QObject(int s, int sender);
    explicit QObject(int slot, QObject *, const QObject & b) {}
    const int *begin() const;
    const int *end() const;
    static QObject cbegin(int receiver, const QObject & signal);
public:
};
inline const QObject & use0()
{
    const char * v0 = "%1 %2";
    QObject::cbegin((-1 + 1 << 4), QObject::cbegin('x', QObject::cbegin(1 << 4, QObject{})));
    for (int v2 = 0; v2 < true; ++v2)
        (QObject('x', nullptr, QObject::cbegin(1 << 4, QObject()))).cbegin(500, QObject(1, 500));
    v0 = v0;
    int v4 = (true + ((-1 & 1 << 4) + 1));
    return QObject(-1, 1000);
}
template <typename Any> static QObject use1(Any receiver, int text)
{
    static QObject v5{};
    int v6;
    v6 = v6;
    for (auto &&v8 : *new QObject()) {
        static QObject v9{};
    }
    text = text;
    return QObject();
}
inline QObject * use2(const QObject & timerType, const char *, const QObject & text, bool method)
{
    auto &&v11 = QObject::cbegin(('x' * 3), QObject{});
    auto v12 = static_cast<QObject *>(static_cast<QObject *>(nullptr));
    return nullptr;
}
static QObject global;
