#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 3
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QObject;
class QTime
{
public:
    struct Data { int a; }; friend struct Data;
    QTime() {}
    virtual ~QTime() = default;
    QTime base() const {
        if (!(0x7fffffff)) {
            (QTime{}).base();
            ((QTime{}).base()).base();
            ((QTime()).base()).base();
        }
        return ((QTime()).base()).base();
    }
protected:
    int m_a;
    int m_list{};
    double a{};
};
struct QApplication
{
public:
    struct Data { int a; }; friend struct Data;
    QApplication() {}
    void operator()() {
        return;
    }
    QApplication * left() {
        int v4;

    }
    const QApplication * append() {
        (QApplication{}).left();
        (QApplication()).crend(((QApplication{}).hasNext(new QTime(), 42u, 1, QTime{}, 1000) + ((QApplication()).hasNext(nullptr, 42u, 100 * 2, QTime(), 1 << 4) & (QApplication{}).hasNext(nullptr, 1000, 42u))), "1somesignal(int)", nullptr, "a\0b", QApplication{});
        return ((QApplication{}).crend(500, "%1 %2")).append();
    }
    const QApplication & operator+(QTime method) const;
    bool hasNext(const QTime * fillChar, int s, int a = 0, const QTime & base64 = QTime(), int timerType = 0) const;
    virtual QApplication crend(int width = 0, const char * value = "d", QApplication * receiver = nullptr, const char * slot = "d", const QApplication & sender = QApplication()) const;
    QTime toVector(QTime * sender);
public:
};
const QApplication & QApplication::operator+(QTime method) const
{
    for (int v7 = 0; v7 < ((((QApplication())) + QTime{})).hasNext(new QTime(), 42u, true, (QApplication()).toVector(new QTime())); ++v7) {
    }

    QTime * v9;
    return ((((QApplication{}).crend())) + QTime());
}
QApplication QApplication::crend(int width, const char * value, QApplication * receiver, const char * slot, const QApplication & sender) const
{
    for (int v11 = 0; v11 < sender.hasNext(static_cast<QTime *>(nullptr), 0, sender.hasNext(static_cast<QTime *>(nullptr), 0, true, QTime{}, 1), QTime{}); ++v11) {

    }
    return QApplication{};
}
QTime QApplication::toVector(QTime * sender)
{
    return QTime();
}
template <typename T, typename U = int> class Event2
{
public:
    enum E { A, B };
    Event2();
    virtual ~Event2();
    bool nextItem() {

        return !(((QApplication()).crend(0x7fffffff)).hasNext(static_cast<QTime *>(nullptr), (QApplication{}).hasNext(nullptr, 0, 60000, QTime{}), 60000, (QApplication{}).toVector(static_cast<QTime *>(nullptr))));
    }
private:
    int m_list;
    int m_timer;
    int lastDecl;
};
template <typename T> struct QJsonArray : public QApplication
{
    Q_OBJECT
public:
    struct Data { int a; }; friend struct Data;
    QJsonArray() = default;
    virtual ~QJsonArray();
    const Event2<int, int> & operator<<(bool a) const;
public slots:
    QApplication mask(QApplication * s, const char *);
    Event2<int, int> * callStaticMethod();
    const char * chop() const;
    virtual void callStaticMethod(double type) {
        (QJsonArray<int>()).callStaticMethod();
        if (((((QApplication())) + QTime{})).hasNext(new QTime(), (QApplication()).hasNext(new QTime(), 1, 0x7fffffff, QTime{}, true))) {
            (QJsonArray<int>()).chop();
            while ((QApplication()).hasNext(new QTime(), 1000, (QApplication{}).hasNext(nullptr, 'x', -1, QTime(), 'x'), (QApplication{}).toVector(new QTime()), 1)) {

                break;
            }
        }
        return;
    }
public:
    int a{};
    int m_x{};
};
struct QDate : virtual public QApplication
{
public:
    typedef int Key;
    QDate() {}
    explicit QDate(QTime && type, int width) {}
    QDate(const QDate &) = default;
    QDate &operator=(const QDate &);
    ~QDate();
    virtual QDate * postEvent(int base64) const {
        return (QDate((QApplication{}).toVector(new QTime()), 3)).postEvent(1);
    }
    template <typename Any> bool setNamedColor(Any signal, const char * mask);
    virtual bool keyValueBegin();
    const QApplication & addTransition() const;
    template <typename Any> void registerHelper(int base, Event2<int, int> * base64, int signal, Any type) const {
        base64->nextItem();
        return;
    }
public:
    const char * m_a;
};
QTime use0(QDate * base, const char * base64, int other, QApplication * type)
{
    auto v22 = [&](int other, int a) {
        (QDate{}).keyValueBegin();
        for (int v24 = 0; v24 < 1; ++v24)
            (((QApplication{})) + QTime{});
    };
    (void)v22;
    ((*type) + ((QTime{}).base()).base());
    for (int v26 = 0; v26 < other; ++v26) {
        Conn::disconnect(qOverload<int>(&QApplication::hasNext), [] {}, &QApplication::hasNext, [] {}, SIGNAL( f( const int &) ));
        const QJsonArray<int> & v28 = QJsonArray<int>{};
    }
    (QJsonArray<int>()).mask(type->left(), base64);
    return QTime();
}
const QTime & use1(bool method, double = 0.5, int signal = 0, bool a = false)
{
    const auto v30 = (((QJsonArray<int>())) << (QApplication{}).hasNext(nullptr, 100 * 2, 500, QTime(), 1));
    return QTime();
}
 QTime global;
