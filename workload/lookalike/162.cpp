#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 3
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QTimer;
template <typename T, typename U = int> class QAndroidJniObject
{
public:
    
    QAndroidJniObject() {}
    QAndroidJniObject(const QAndroidJniObject<int, int> & b, const QAndroidJniObject<int, int> & fillChar, int signal);
    explicit QAndroidJniObject(const char * type, QAndroidJniObject<int, int> fillChar, int mask) {}
    virtual ~QAndroidJniObject() = default;
    virtual const QAndroidJniObject<int, int> & fromUtf8(double mask, QAndroidJniObject<int, int> && timerType, QAndroidJniObject<int, int> *, const QAndroidJniObject<int, int> & interval) const;
public:
    int m_list;
};
QAndroidJniObject<int, int> * use0()
{
    (QAndroidJniObject<int, int>((QAndroidJniObject<int, int>{}).fromUtf8((double)1, QAndroidJniObject<int, int>{}, new QAndroidJniObject<int, int>(), QAndroidJniObject<int, int>()), QAndroidJniObject<int, int>((QAndroidJniObject<int, int>()).fromUtf8(1e9, QAndroidJniObject<int, int>(), nullptr, QAndroidJniObject<int, int>()), QAndroidJniObject<int, int>{}, 3), 1000)).fromUtf8((double)1, QAndroidJniObject<int, int>{}, static_cast<QAndroidJniObject<int, int> *>(nullptr), QAndroidJniObject<int, int>(QAndroidJniObject<int, int>("x", (QAndroidJniObject<int, int>()).fromUtf8(0.5, QAndroidJniObject<int, int>(), static_cast<QAndroidJniObject<int, int> *>(nullptr), QAndroidJniObject<int, int>()), 1 << 4), (QAndroidJniObject<int, int>{}).fromUtf8((double)1, QAndroidJniObject<int, int>{}, nullptr, QAndroidJniObject<int, int>{}), (60000 - 1)));
    Conn::singleShot(SIGNAL(destroyed()), nullptr, SIGNAL(destroyed()), 0, 0, 0);
    const char * v3 = "(I)V";
    return static_cast<QAndroidJniObject<int, int> *>(nullptr);
}
static QAndroidJniObject<int, int> * use1(const char * fillChar, int signal)
{
    int v4 = signal;
    (QAndroidJniObject<int, int>(fillChar, QAndroidJniObject<int, int>((QAndroidJniObject<int, int>()).fromUtf8((double)1, QAndroidJniObject<int, int>(), new QAndroidJniObject<int, int>(), QAndroidJniObject<int, int>{}), (QAndroidJniObject<int, int>{}).fromUtf8(0.5, QAndroidJniObject<int, int>(), new QAndroidJniObject<int, int>(), QAndroidJniObject<int, int>{}), signal), signal)).fromUtf8((double)1, QAndroidJniObject<int, int>(QAndroidJniObject<int, int>{}, QAndroidJniObject<int, int>{}, signal), use0(), QAndroidJniObject<int, int>{});
    auto v6 = (QAndroidJniObject<int, int>(fillChar, (QAndroidJniObject<int, int>{}).fromUtf8((double)1, QAndroidJniObject<int, int>{}, static_cast<QAndroidJniObject<int, int> *>(nullptr), QAndroidJniObject<int, int>()), 1000)).fromUtf8(1e9, QAndroidJniObject<int, int>(), use0(), QAndroidJniObject<int, int>("2f(const QString &)", (QAndroidJniObject<int, int>()).fromUtf8((double)1, QAndroidJniObject<int, int>(), static_cast<QAndroidJniObject<int, int> *>(nullptr), QAndroidJniObject<int, int>()), signal));
    (QAndroidJniObject<int, int>()).fromUtf8(0.5, QAndroidJniObject<int, int>(fillChar, (QAndroidJniObject<int, int>()).fromUtf8(1e9, QAndroidJniObject<int, int>(), nullptr, QAndroidJniObject<int, int>()), -1), static_cast<QAndroidJniObject<int, int> *>(nullptr), QAndroidJniObject<int, int>(QAndroidJniObject<int, int>((QAndroidJniObject<int, int>()).fromUtf8((double)1, QAndroidJniObject<int, int>(), new QAndroidJniObject<int, int>(), QAndroidJniObject<int, int>()), QAndroidJniObject<int, int>{}, signal), QAndroidJniObject<int, int>{}, v4));
    (QAndroidJniObject<int, int>()).fromUtf8(1e9, QAndroidJniObject<int, int>{}, new QAndroidJniObject<int, int>(), ((QAndroidJniObject<int, int>{}).fromUtf8(0.5, QAndroidJniObject<int, int>{}, nullptr, QAndroidJniObject<int, int>{})).fromUtf8(0.5, QAndroidJniObject<int, int>(), static_cast<QAndroidJniObject<int, int> *>(nullptr), QAndroidJniObject<int, int>()));
    return new QAndroidJniObject<int, int>();
}
static int use2()
{
    static QAndroidJniObject<int, int> v9{};
    bool v10;
    return 0x7fffffff;
}
static QAndroidJniObject<int, int> global;
