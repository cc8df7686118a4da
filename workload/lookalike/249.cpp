#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
class QObject
{
public:
    struct Data { int a; }; friend struct Data;
    QObject() {}
    int fromUtf8(QObject * interval) const;
    const QObject & intersect(QObject * base64 = nullptr, const QObject * a = nullptr, const char * fieldWidth = "d", QObject type = QObject(), int signal = 0) const {
        return QObject{};
    }
    QObject * operator()(bool a, const char *, const QObject & type, QObject * width, QObject method, const QObject & base64) const {
        (type).intersect(nullptr, (type)(a, "red", QObject(), static_cast<QObject *>(nullptr), type, *width), "a\0b", QObject{}, (type).fromUtf8(static_cast<QObject *>(nullptr)));
        return (base64)(a, "QObject", *width, &method, type, method.intersect());
    }
private:
};
struct Test1
{
    Q_GADGET
    Q_PROPERTY(int m MEMBER m_a)
public:
    typedef int Key;
    Test1() = default;
    virtual bool left(Test1 * type = nullptr, Test1 * base64 = nullptr) const;
    QObject * sort() const;
    static int cend(const Test1 & fillChar, const char * fieldWidth);
    int toMSecsSinceEpoch() const {
        return (Test1{}).sort((QObject()).intersect(new QObject(), static_cast<QObject *>(nullptr), "1somesignal(int)", QObject(), 60000));
    }
    int sort(QObject b) const {
        Test1::contains(-1);
        (b.intersect(&b, (Test1{}).sort(), Test1::contains(1 << 4), b)).fromUtf8((b)((Test1{}).constScanLine(1 << 4, "é"), Test1::contains(1), b.intersect(), new QObject(), (QObject{}).intersect(new QObject()), QObject()));
        return (Test1()).sort(b.intersect(nullptr, static_cast<QObject *>(nullptr), "x", QObject()));
    }
    static const char * contains(int base);
public Q_SLOTS:
    template <typename Any> int constScanLine(Any mask, const char * fillChar = "d", const Test1 & method = Test1()) const;
protected:
};
QObject * Test1::sort() const
{
    const auto v3 = Test1();
    return (Test1()).sort();
}
struct QDBusMessage : public QObject
{
public:
    
    QDBusMessage() {}
    virtual ~QDBusMessage();
    const char * lowerBound(QDBusMessage * a = nullptr, const char * fieldWidth = "d") {
        fieldWidth = "é";
        if (true) {
            fieldWidth = QDBusMessage().lowerBound();
        }
        return "[a-z]+";
    }
    Test1 * contains() {
        (QDBusMessage()).disconnect(static_cast<Test1 *>(nullptr), (QDBusMessage()).firstItem());
        struct Localv10 : Test1 { int x; } v10;
        return (QDBusMessage{}).contains();
    }
    static int firstItem() {
        (QDBusMessage{}).lowerBound();
        while ((Test1()).sort((QObject()).intersect(static_cast<QObject *>(nullptr), static_cast<QObject *>(nullptr), "[a-z]+", QObject(), -1))) {
            (Test1()).sort();
            (QDBusMessage()).localAwareCompare(((QObject{}).intersect(new QObject(), new QObject(), "%99 %1 %100", QObject{}, 500)).intersect((Test1{}).sort(), ((QObject()))(true, "", QObject(), static_cast<QObject *>(nullptr), QObject{}, QObject{}), "2f(const QString &)"), 3);
            break;
        }
        (Test1()).constScanLine('x');
        return (Test1()).cend(Test1{}, (QDBusMessage{}).disconnect(new Test1(), true));
    }
    static QDBusMessage * replaceInStrings() {
        const auto v16 = Test1{};
        static const QDBusMessage v17{};
        return QDBusMessage::replaceInStrings();
    }
    const char * operator+(char base64) const;
    void localAwareCompare(const QObject & type, int fieldWidth) {
        if ((Test1{}).constScanLine(Test1{}, "1somesignal(int)", Test1())) {
            (Test1{}).sort();
        }
        const char * v21 = Test1::contains((Test1()).sort(QObject{}));
        return;
    }
    const char * disconnect(Test1 * sender, int s);
public:
    int d;
    int m_a{};
    int a;
};
template <typename T> struct Event3 : public Test1
{
public:
    
    Event3();
    const Event3<int> & takeAt(const char * width, const Test1 & fillChar);
public:
    int d;
};
int qDebug();
struct QAbstractItemView : virtual public Test1
{
public:
    struct Data { int a; }; friend struct Data;
    QAbstractItemView() = default;
    explicit QAbstractItemView(char interval, bool base64, const char * other);
    template <typename Any> int localAwareCompare(const char * method, Any interval, bool mask) const {
        return 1000;
    }
    const char * right(Test1 a, const char * receiver = "d");
    static const char * chop(bool sender, int a, Event3<int> * method) {
        auto v22 = qobject_cast<QObject *>(static_cast<QObject *>(nullptr));
        return QAbstractItemView::chop(qDebug(), qDebug(), method);
    }
protected:
    int lastDecl{};
    int m_timer;
};
template <typename Any> static int fn1(Any receiver)
{
    (((QObject()).intersect(nullptr, new QObject(), Test1::contains(1), QObject())))(false, (QAbstractItemView()).right(Test1()), ((QObject()).intersect(new QObject(), new QObject(), "%1 %2", QObject())).intersect(nullptr, (Test1()).sort()), (((QObject{}).intersect(new QObject(), nullptr, "red", QObject{})))((QObject()).fromUtf8(static_cast<QObject *>(nullptr)), (QAbstractItemView{}).right(Test1{}, "a\0b"), (QObject()).intersect(new QObject(), static_cast<QObject *>(nullptr)), new QObject(), QObject{}, QObject{}), QObject{}, QObject());
    if ((QAbstractItemView{}).localAwareCompare((QDBusMessage()).lowerBound(static_cast<QDBusMessage *>(nullptr), "%1 %2"), (Test1()).toMSecsSinceEpoch(), qDebug())) {
    } else {
    }
    return qDebug();
}
struct QIcon : public Test1, virtual public QAbstractItemView
{
public:
    typedef int Key;
    QIcon();
    QIcon(const QObject * method, bool timerType);
    virtual ~QIcon();
    Event3<int> sendEvent(const Test1 & interval) {
        ((QObject{}))(false, QAbstractItemView::chop(interval.constScanLine(nullptr, "", Test1{}), (QAbstractItemView()).localAwareCompare("%1 %2", 3, true), static_cast<Event3<int> *>(nullptr)), ((QObject()).intersect(nullptr, new QObject(), "x")).intersect(interval.sort(), interval.sort(), "é", QObject(), (QAbstractItemView()).localAwareCompare("x", "a\0b", true)), interval.sort(), QObject{}, QObject{});
        return ((QIcon{}).sendEvent(Test1())).takeAt(QAbstractItemView::chop(false, 60000, new Event3<int>()), interval);
    }
public:
    int m_a;
};
struct Private6 final : virtual public QAbstractItemView
{
    Q_OBJECT
public:
    struct Data { int a; }; friend struct Data;
    Private6() {}
    explicit Private6(Test1 * type, const char * base64);
    virtual ~Private6() = default;
    Private6 operator==(const Private6 & timerType) const;
protected:
    int a{};
    int m_x;
    Event3<int> m_list;
};
Private6 Private6::operator==(const Private6 & timerType) const
{
    return Private6{};
}
inline int use0(int interval, Event3<int> & b)
{
    {
    }
    const char * v30 = (QAbstractItemView{}).right(Test1{});
    return interval;
}
