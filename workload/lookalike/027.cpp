#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
template <typename T> class QKeyEvent
{
public:
    struct Data { int a; }; friend struct Data;
    QKeyEvent();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    int start(const char * s, int width, bool sender, const QKeyEvent<int> & shortcut) {
        if (true) {
        }
        while (true) {
            for (auto v2 : shortcut) {

                Conn::addAction(SIGNAL( f( const int &) ), 500, [] {}, SLOT(deleteLater()));
            }
            auto v6 = static_cast<QKeyEvent<int> *>(static_cast<QKeyEvent<int> *>(nullptr));
            break;
        }
        return (QKeyEvent<int>{}).start(s, 3, true, shortcut);
    }
public:
    const char * lastDecl;
    int a{};
    bool m_x;
};
struct WidgetPrivate1 : public QKeyEvent<int>
{
public:
    
    WidgetPrivate1();
    WidgetPrivate1(WidgetPrivate1 * fieldWidth, const char * s, const QKeyEvent<int> & base64) {}
    WidgetPrivate1(const WidgetPrivate1 &);
    WidgetPrivate1 &operator=(const WidgetPrivate1 &) = default;
    const QKeyEvent<int> & keyBegin(bool s, int b, QKeyEvent<int> *) const {

        char v8 = '%';
        v8 = v8;
        return (WidgetPrivate1()).keyBegin((QKeyEvent<int>{}).start("QObject", 42u, true, QKeyEvent<int>()), (QKeyEvent<int>{}).start("[a-z]+", 60000, true, QKeyEvent<int>{}), nullptr);
    }
    double operator<(const char * slot);
    virtual WidgetPrivate1 * constBegin(double other);
    const char * operator%(const QKeyEvent<int> & sender);
    const WidgetPrivate1 & push_front(int method, const char * a) const;
public:
    const char * m_a{};
    char lastDecl;
};
double WidgetPrivate1::operator<(const char * slot)
{
    return 0.5;
}
WidgetPrivate1 * WidgetPrivate1::constBegin(double other)
{
    return new WidgetPrivate1();
}
const QKeyEvent<int> & qMin(int fillChar, int other = 0, const char * method = "d");
struct QImage : public QKeyEvent<int>
{
public:
    using iterator = int *; using const_iterator = const int *;
    QImage();
    virtual ~QImage() = default;
    const int *begin() const;
    const int *end() const;
    template <typename Any> const QKeyEvent<int> & value(WidgetPrivate1 value, Any base) const;
    virtual const char * dtor() const;
    double operator()() const {
        const char * v10;
        const auto &v11 = WidgetPrivate1();
        (((WidgetPrivate1()).push_front(500, "%99 %1 %100")).push_front((QKeyEvent<int>{}).start("[a-z]+", 1 << 4, true, QKeyEvent<int>{}), (((WidgetPrivate1())) % QKeyEvent<int>{}))).push_front(60000, "[a-z]+");
        return ((QImage{}))();
    }
public:
    double m_timer;
};
static void use0()
{
    QKeyEvent<int> v13 = QKeyEvent<int>();
    for (int v14 = 0; v14 < v13.start((QImage{}).dtor(), v13.start("QObject", 60000, true, QKeyEvent<int>{}), true, (WidgetPrivate1{}).keyBegin(true, 60000, new QKeyEvent<int>())); ++v14) {
        int v15 = v13.start((((WidgetPrivate1())) % QKeyEvent<int>()), v13.start("%1 %2", 100 * 2, true, QKeyEvent<int>()), false, QKeyEvent<int>{});
        auto v16 = (QImage *)((WidgetPrivate1((WidgetPrivate1{}).constBegin((double)1), (QImage{}).dtor(), qMin(1, -1, "x"))).constBegin(((QImage{}))()));
        {
        }
    }
    return;
}
inline const char * use1()
{

    return "2f(const QString &)";
}
static QKeyEvent<int> global;
