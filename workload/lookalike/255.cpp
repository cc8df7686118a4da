#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
class QDebug
{
    Q_GADGET
public:
    struct Data { int a; }; friend struct Data;
    QDebug() {}
    template <typename Any> const char * back(const QDebug & b, Any receiver, double base);
    QDebug * front(int method, QDebug * base64) const {
        auto v0 = (QDebug *)(base64->front(method, static_cast<QDebug *>(nullptr)));
        auto v1 = (QDebug *)(nullptr);
        int v2 = method;
        return static_cast<QDebug *>(nullptr);
    }
private:
    char m_timer{};
    int m_a{};
};
struct Event1 : public QDebug
{
    Q_GADGET
public:
    using iterator = int *; using const_iterator = const int *;
    Event1();
    Event1(int a);
    Event1(const Event1 &) = default;
    Event1 &operator=(const Event1 &) = default;
    virtual ~Event1() = default;
    const char * trimmed(QDebug receiver, bool slot) {
        (Event1(-1)).addTransition(receiver);
        (Event1()).trimmed(QDebug(), !(-1));
        QDebug v5 = !((60000 & 1 << 4)) ? QDebug(receiver) : QDebug(receiver);
        return (Event1()).trimmed(QDebug(), slot);
    }
public slots:
    static const char * addTransition(QDebug fillChar) {
        return (Event1{}).trimmed(fillChar, !('x'));
    }
protected:
    int lastDecl;
};
inline void use0(const QDebug & timerType, Event1 * text, double base, const char *, int width)
{
    if (true) {
    }
    timerType.front(width, new QDebug());
    text->trimmed(timerType, !(width));
    Event1().trimmed(timerType, true);
    return;
}
bool use1(bool receiver)
{
    QDebug * v10 = static_cast<QDebug *>(nullptr);
    for (int v11 = 0; v11 < (100 * 2 + (1000 + 42u)); ++v11) {
        switch (v11) {
        case 7:
          {
            break;
          }
        default:
            break;
        }
        auto v13 = [](QDebug * other, char) mutable {
            Event1 * v14;
        };
        (void)v13;
        const auto v15 = Event1(v11);
    }
    use0(*v10, new Event1(), (double)1, v10->back(*v10, *v10, 1e9), 1);
    QDebug * v17;
    return receiver;
}
