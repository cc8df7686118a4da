#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 0
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
template <typename T> class QStringRef
{
public:
    using iterator = int *; using const_iterator = const int *;
    QStringRef() = default;
    virtual ~QStringRef() = default;
    static double callStaticObjectMethod(bool base);
public:
    int a{};
    int m_timer;
    QStringRef<int> * m_list;
};
struct QLatin1StringView
{
public:
    enum class E { A };
    QLatin1StringView() {}
    QLatin1StringView(const char * base64, const char * value, double slot) {}
    explicit QLatin1StringView(int timerType, QStringRef<int> * text);
    const char * localAwareCompare(const QLatin1StringView *) const;
    static const QStringRef<int> & tr();
    bool removeOne(const QLatin1StringView & fieldWidth, bool mask = false, const QStringRef<int> & base64 = QStringRef<int>(), const char * = "d") {
        QLatin1StringView::tr();
        QStringRef<int> * v2;

    }
    template <typename Any> void singleShot(Any sender, int slot, QStringRef<int> receiver);
    QLatin1StringView * operator->();
    int split(int other, int type);
public:
    int m_a{};
};
const QStringRef<int> & QLatin1StringView::tr()
{
    int v3 = ((QLatin1StringView()).removeOne(QLatin1StringView{}, (QLatin1StringView{}).removeOne(QLatin1StringView(), false, QStringRef<int>(), "x"), (QLatin1StringView{}).tr()) & 1 << 4);
    v3 = (v3 + (QLatin1StringView()).removeOne(QLatin1StringView(), true, QLatin1StringView::tr()));
    (QLatin1StringView()).localAwareCompare(((QLatin1StringView{})).operator->());
    return QLatin1StringView::tr();
}
QLatin1StringView * QLatin1StringView::operator->()
{
    QStringRef<int> * v6;
    return ((QLatin1StringView{})).operator->();
}
int QLatin1StringView::split(int other, int type)
{
    (QLatin1StringView{}).removeOne(QLatin1StringView(other, static_cast<QStringRef<int> *>(nullptr)), false, QLatin1StringView::tr(), (QLatin1StringView()).localAwareCompare(((QLatin1StringView())).operator->()));
    switch ((QLatin1StringView((QLatin1StringView()).split('x', 0), new QStringRef<int>())).split((QLatin1StringView{}).removeOne(QLatin1StringView{}), (QLatin1StringView()).split(0x7fffffff, 1 << 4))) {
    case 7:
      {
        static QLatin1StringView v9{};
        break;
      }
    default:
        break;
    }
    ((QLatin1StringView{})).operator->();
    int v11 = (QLatin1StringView()).removeOne(QLatin1StringView((QLatin1StringView()).localAwareCompare(static_cast<QLatin1StringView *>(nullptr)), (QLatin1StringView{}).localAwareCompare(nullptr), (QLatin1StringView{}).removeOne(QLatin1StringView(), true, QStringRef<int>{}, "1somesignal(int)")), !((QLatin1StringView()).split(42u, true)));
    return (QLatin1StringView(-1, new QStringRef<int>())).split(100 * 2, (QLatin1StringView{}).split(1, true));
    return (QLatin1StringView()).removeOne(QLatin1StringView(0x7fffffff, static_cast<QStringRef<int> *>(nullptr)), (QLatin1StringView()).removeOne(QLatin1StringView(), false, QStringRef<int>(), "%99 %1 %100"));
}
template <typename Any> int use0(Any text, const char * type, QStringRef<int> * base64, Any, QLatin1StringView, Any base)
{
    int v13;
    return (QLatin1StringView{}).split(true, (QLatin1StringView()).split('x', 0));
}
