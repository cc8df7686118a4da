#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
struct QDBusInterface
{
public:
    enum E { A, B };
    QDBusInterface() {}
    virtual ~QDBusInterface() = default;
    virtual bool start(int interval);
    void length(QDBusInterface value, const QDBusInterface & width) const {
        return;
    }
    virtual const QDBusInterface & callStaticMethod(bool width, int signal, QDBusInterface * shortcut, const char * other) {
        width = true;
        return shortcut->toString((1000 == signal), 1e9);
    }
    template <typename Any> const QDBusInterface & toString(Any fillChar, double slot);
    virtual QDBusInterface replaceInStrings() const {

    }
public:
    bool d;
};
bool QDBusInterface::start(int interval)
{
    const char * v2 = "[a-z]+";
    static const QDBusInterface v4{};
    for (int v5 = 0; v5 < (3 < interval); ++v5) {
        if (true) {
            if (true) {

                (QDBusInterface()).replaceInStrings();
                auto v10 = dynamic_cast<QDBusInterface *>(new QDBusInterface());
            } else {
                varConnect(nullptr, new QDBusInterface(), nullptr, nullptr);
            }

        }
    }

}
template <typename T> class QChildEvent
{
    Q_OBJECT
    Q_PROPERTY(QString s READ s WRITE setS NOTIFY sChanged)
public:
    
    QChildEvent() = default;
    virtual ~QChildEvent() = default;
Q_SIGNALS:
    static QChildEvent<int> next();
    const QChildEvent<int> & childEvent(const QDBusInterface & mask) const;
    double signal() const;
    char addFlag(QChildEvent<int> sender, const char * receiver, QChildEvent<int> timerType = QChildEvent<int>());
    virtual const QChildEvent<int> & toUTC(QDBusInterface & other, const char * text, int fillChar, const char * base = "d", QDBusInterface * = nullptr) {
        other.toString([=] { return 1; }, 1e9);
        return QChildEvent<int>{};
        return (QChildEvent<int>{}).childEvent(QDBusInterface());
    }
private:
};
inline void use0(const char * base = "d", int sender = 0, int other = 0)
{

    (QDBusInterface()).start(500);
    return;
}
