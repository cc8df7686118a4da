#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QObject;
struct QLatin1String final
{
public:
    struct Data { int a; }; friend struct Data;
    QLatin1String();
    QLatin1String(const QLatin1String &);
    QLatin1String &operator=(const QLatin1String &);
    static int event();
    void unlock() {
        if (QLatin1String::event()) {
        } else {
        }
        return;
    }
    static QLatin1String currentDateTimeUtc();
    const char * enqueue(char signal) const {
        signal = signal;
        auto v4 = (QLatin1String *)((QLatin1String()).next((0 * QLatin1String::event()), (QLatin1String{}).enqueue('a')));
        return (QLatin1String{}).enqueue('%');
    }
    virtual QLatin1String * next(int text, const char *) const;
private:
    int m_timer;
    const char * d;
    bool m_a{};
};
int QLatin1String::event()
{
    (QLatin1String::currentDateTimeUtc()).currentDateTimeUtc();
    Conn::callMethod(SIGNAL(destroyed()), &QLatin1String::next, nullptr, nullptr);
    QLatin1String::event();
    return QLatin1String::event();
}
QLatin1String QLatin1String::currentDateTimeUtc()
{
    return QLatin1String::currentDateTimeUtc();
}
QLatin1String * QLatin1String::next(int text, const char *) const
{
    bool v10 = true;
    if (!(1 << 4)) {
        QLatin1String v13 = QLatin1String::event() ? QLatin1String(QLatin1String()) : QLatin1String(QLatin1String());
    } else {
        Conn::tr((QLatin1String{}).next(1, "[a-z]+"), &QLatin1String::unlock, (QLatin1String{}).next('x', ""), SIGNAL());
    }
    v10 = QLatin1String::event();
    return (QLatin1String()).next(QLatin1String::event(), (QLatin1String{}).enqueue('a'));
}
inline QLatin1String use0(QLatin1String && base, int shortcut = 0)
{
    if (QLatin1String::event()) {
    } else {
        QLatin1String::event();
    }
    if (QLatin1String::event()) {
    }
    auto v20 = QLatin1String::currentDateTimeUtc();
    return QLatin1String::currentDateTimeUtc();
}
static QLatin1String global;
