#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 8
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
struct QObject
{
public:
    typedef int Key;
    QObject();
    virtual ~QObject();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    const char * takeFirst() const;
    static const char * replace() {
        Conn::singleShot(nullptr, &QObject::takeFirst, "2x()", &QObject::takeFirst);
        return QObject::replace();
    }
    template <typename Any> const QObject & constLast(int interval, bool s, Any mask) const;
    char cbegin(int base, const QObject & method, const QObject & shortcut, const QObject & mask) const;
protected:
    int m_a;
};
const char * QObject::takeFirst() const
{
    QObject v1 = QObject();
    v1.constLast((QObject()).cbegin(0, QObject(), QObject(), v1.constLast(100 * 2, false, nullptr)), true, v1.cbegin(v1.cbegin(true, QObject{}, QObject(), QObject{}), v1, v1.constLast(60000, true, QObject()), QObject{}));
    return (QObject{}).takeFirst();
}
class Test1
{
public:
    struct Data { int a; }; friend struct Data;
    Test1() {}
    const int *begin() const;
    const int *end() const;
    char next(bool timerType, const Test1 & sender, const char * type) const {
        (((QObject()).constLast(true, false, Test1{})).constLast(true, (Test1{}).next(false, Test1{}, ""), [] {})).takeFirst();
        QObject * v4;
        return ((QObject{}).constLast(60000, true, [] {})).cbegin((QObject{}).cbegin(500, QObject(), QObject(), QObject()), (QObject{}).constLast(0x7fffffff, false, -1), (QObject{}).constLast(42u, true, nullptr), QObject{});
    }
    const Test1 & timerEvent(int fillChar, const char * slot);
public:
};
struct QJsonArray
{
public:
    struct Data { int a; }; friend struct Data;
    QJsonArray();
    QJsonArray(const QJsonArray &);
    QJsonArray &operator=(const QJsonArray &);
    const int *begin() const;
    const int *end() const;
    bool isEmpty(const QJsonArray & fieldWidth) {

    }
    double constFind(int width = 0, bool other = false, const char * slot = "d") const;
    int push_back(int = 0);
    const char * removeAll(double receiver, int sender, int fieldWidth) const {
        if (((QJsonArray()).front(true, "[a-z]+", 3)).cbegin((Test1()).next(true, Test1(), "%1 %2"), (QObject{}).constLast(60000, true, "[a-z]+"), (QJsonArray{}).front(3, "1somesignal(int)", 3), (QJsonArray{}).front(60000, "x", 1))) {
            (QJsonArray()).front(true, "x");
            if (true) {
                (QJsonArray()).push_back();
                (QJsonArray()).front('x', "QObject");

            }
            for (int v12 = 0; v12 < 500; ++v12) {
                (QJsonArray{}).front((QJsonArray{}).push_back());
            }
        }
        if (!((QObject()).cbegin(500, (QObject()).constLast('x', false, 42u), (QJsonArray{}).front(100 * 2, "#ff00ff", true), (QJsonArray{}).front(1, "", 1 << 4)))) {
            auto v15 = (Test1 *)(new QJsonArray());
        }
        return "1somesignal(int)";
    }
    const QObject & front(int value, const char * b = "d", int = 0);
private:
};
struct QBrush : public Test1
{
public:
    typedef int Key;
    QBrush();
    explicit QBrush(QJsonArray * method, QObject * signal);
    virtual ~QBrush();
    virtual Test1 * signal() const;
    int fragment(const Test1 & s = Test1(), Test1 * value = nullptr, const QJsonArray & method = QJsonArray()) const;
    bool globalMatch(const char * interval, const Test1 & width) const;
    int erase(Test1 * mask, const char * slot, bool other) const {
        QObject::replace();
        switch (0) {
        case 7:
          {
            break;
          }
        default:
            break;
        }
        (QBrush{}).erase(new Test1(), slot, false);
        return (QBrush{}).erase(mask, "[a-z]+", (QJsonArray{}).push_back(1 << 4));
    }
    const char * operator+(int interval) const;
private:
    QBrush * m_x;
    int m_timer;
};
Test1 * QBrush::signal() const
{
    int v19 = false ? int(((Test1()).timerEvent(100 * 2, "#ff00ff")).next(false, Test1(), "[a-z]+")) : int(((QJsonArray()).isEmpty(QJsonArray()) & (QBrush{}).globalMatch("a\0b", Test1())));
    const QBrush & v20 = QBrush{};
    return (QBrush{}).signal();
}
const char * QBrush::operator+(int interval) const
{
    interval = (QJsonArray()).push_back();
    QObject * v22 = nullptr;
    (QBrush(static_cast<QJsonArray *>(nullptr), nullptr)).globalMatch((((QBrush{})) + true), Test1());
    return (((QBrush{})) + (0x7fffffff & (Test1{}).next(false, Test1(), "[a-z]+")));
}
static int use0(const char * s)
{
    auto v24 = qobject_cast<QJsonArray *>(nullptr);
    for (int v25 = 0; v25 < v24->push_back((QObject{}).cbegin(-1, QObject(), QObject{}, QObject())); ++v25) {
        QJsonArray * v26 = new QJsonArray();
    }
    return (QObject()).cbegin(0, (QJsonArray()).front(true, "QObject", 60000), (QObject()).constLast(100 * 2, true, &Test1::timerEvent), (QJsonArray()).front(true, "(I)V"));
}
