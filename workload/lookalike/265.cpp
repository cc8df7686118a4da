#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
struct QObject
{
public:
    typedef int Key;
    QObject();
    QObject(QObject * fieldWidth, int timerType);
    virtual ~QObject();
    QObject * currentDateTime(QObject & interval) const;
    const char * operator*() const;
    static char base(int fillChar, int other, bool, char);
    const char * isDestroyed() const;
public:
};
struct QRect : public QObject
{
    Q_GADGET
public:
    using iterator = int *; using const_iterator = const int *;
    QRect() = default;
    explicit QRect(int, const QObject & text) {}
    virtual ~QRect() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static int removeDuplicates(double sender, const QObject & other) {
        int v0 = QRect::removeDuplicates(1e9, other);
        return QObject::base(QRect::removeDuplicates((double)1, QObject()), QRect::removeDuplicates((double)1, QObject{}), !(QObject::base(1000, 42u, false, 'a')), QObject::base(0x7fffffff, 42u, false, ' '));
    }
    QObject * intersect(QObject *);
Q_SIGNALS:
    static void constLast(int text);
public:
};
class WidgetPrivate2 : public QRect
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    WidgetPrivate2() {}
    virtual ~WidgetPrivate2() = default;
    QRect * callStaticObjectMethod(int timerType);
Q_SIGNALS:
    const char * event(const char *, const char * slot = "d", const char * fieldWidth = "d", bool other = false, double signal = 0.5);
private:
    int d;
    int m_a{};
    int m_x{};
};
QRect * WidgetPrivate2::callStaticObjectMethod(int timerType)
{
    Conn::tr(SLOT(deleteLater()), (QObject{}).currentDateTime(*new QObject()), qOverload<int>(&QObject::operator*));
    static QObject v2{};
    QObject::base(QRect::removeDuplicates(QObject::base(1, 42u, true, 'a'), QObject{}), 0, !(QObject::base(100 * 2, 60000, true, '%')), (QObject{}).base(QRect::removeDuplicates(0.5, QObject()), (QRect()).removeDuplicates((double)1, QObject{}), false, QObject::base(100 * 2, 0x7fffffff, true, ' ')));
    return (WidgetPrivate2()).callStaticObjectMethod(1000);
}
const char * WidgetPrivate2::event(const char *, const char * slot, const char * fieldWidth, bool other, double signal)
{
    int v4;
    return "[a-z]+";
}
template <typename Any> WidgetPrivate2 use0(Any base, const char * s, WidgetPrivate2 other)
{
    auto v5 = WidgetPrivate2();
    return other;
}
