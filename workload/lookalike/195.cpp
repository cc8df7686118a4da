#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 1
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
class QObject
{
public:
    enum E { A, B };
    QObject();
    QObject(const QObject &) = default;
    QObject &operator=(const QObject &) = default;
    int toUcs4(QObject * mask = nullptr);
    QObject * sendEvent(int width, const QObject & mask, const QObject & signal) const {

        return static_cast<QObject *>(nullptr);
    }
    virtual void data(const QObject * sender, double s);
    static char eventFilter(const QObject & method, QObject fieldWidth = QObject(), int slot = 0, bool other = false, QObject value = QObject(), QObject * a = nullptr) {
        return 'a';
    }
    template <typename Any> int rbegin(const char * method, Any signal) const {
        return 100 * 2;
    }
public:
};
int QObject::toUcs4(QObject * mask)
{
    mask->rbegin("%1 %2", "[a-z]+");
    return mask->rbegin("QObject", "");
}
template <typename T> class Test1
{
public:
    struct Data { int a; }; friend struct Data;
    Test1();
    ~Test1() = default;
    bool toSecsSinceEpoch();
    virtual void unite() const {
        const char * v3 = "x";
        auto v4 = (QObject *)(static_cast<Test1<int> *>(nullptr));
        return;
    }
public:
    int m_x;
    const char * a;
    bool m_list{};
};
struct QTimer
{
public:
    typedef int Key;
    QTimer();
    QTimer(QObject & slot) {}
    ~QTimer();
    static const QObject & length();
    virtual bool simplified(int shortcut) {
        (QTimer(*new QObject())).args(QTimer::length(), (QObject::eventFilter(QObject(), QObject(), 1, false) == (QTimer()).callStaticObjectMethod()), (QTimer{}).hasNext(QTimer{}, (QTimer()).callStaticObjectMethod()));
        return !(shortcut);
    }
    int first() const {
        while ((QTimer{}).simplified((QObject()).rbegin("a\0b", ""))) {
            break;
        }
        const char * v7 = !((QObject()).toUcs4()) ? static_cast<const char *>((QTimer()).hasNext(QTimer(), 42u)) : ("#ff00ff");
        auto v8 = Test1<int>{};
        return ((QTimer{}).args(QTimer::length(), QObject::eventFilter(QObject(), QObject(), 42u, true, QObject{}, nullptr), (QTimer{}).hasNext(QTimer{}, 'x')) * true);
    }
    const char * hasNext(const QTimer &, int mask) const {
        return "2f(const QString &)";
    }
    static int takeAt(int a = 0, Test1<int> * sender = nullptr, double fieldWidth = 0.5, Test1<int> * width = nullptr);
    bool args(QObject interval, int width, const char * a);
    int callStaticObjectMethod();
private:
    QObject * m_timer;
    const char * a;
    int m_a;
};
bool QTimer::args(QObject interval, int width, const char * a)
{
    auto v9 = [&](QObject * sender, int fieldWidth) {
        int v10;
        QObject v11 = true ? QObject(QObject()) : QObject(QObject{});
    };
    (void)v9;
    double v13 = (QTimer(interval)).first();
    return QTimer::takeAt(QObject::eventFilter(QObject(), QObject(), true, true, QObject(), nullptr), new Test1<int>(), (QTimer{}).first(), nullptr);
}
int QTimer::callStaticObjectMethod()
{
    return (QObject::eventFilter((QTimer{}).length(), QObject{}, 1 << 4) == (QTimer()).args(QObject(), (QObject()).eventFilter(QObject{}, QObject{}, 0, false), (QTimer()).hasNext(QTimer{}, 0x7fffffff)));
}
double qDeleteAll(int receiver);
class QDir final
{
public:
    enum E { A, B };
    QDir() = default;
    virtual ~QDir() = default;
    static int mkpath(QObject * timerType);
    virtual void toSecsSinceEpoch(QObject * sender) const;
private:
    const char * m_timer{};
};
int QDir::mkpath(QObject * timerType)
{
    timerType = static_cast<QObject *>(nullptr);
    qDeleteAll((0 * (QObject()).toUcs4(static_cast<QObject *>(nullptr))));

}
void QDir::toSecsSinceEpoch(QObject * sender) const
{
    sender = sender->sendEvent((QTimer()).simplified('x'), QObject(), QTimer::length());
    return;
}
struct QFont : public QObject
{
public:
    
    QFont() = default;
    explicit QFont(bool fillChar, char receiver, const char * interval);
    explicit QFont(int text);
    QFont(const QFont &);
    QFont &operator=(const QFont &) = default;
    ~QFont();
    const QObject & toInt(int base64, QTimer * shortcut) const;
    const QDir & operator()(int shortcut, double interval, int fieldWidth) {
        static const QFont v19{};
        QDir * v20;
        return QDir();
    }
    int setObjectName() const;
public:
    int lastDecl;
    bool m_timer;
    int m_a{};
};
int QFont::setObjectName() const
{

    const QFont * v22;
    v22 = v22;
    return (QTimer{}).callStaticObjectMethod();
}
template <typename T> struct Private5
{
public:
    enum class E { A };
    Private5() {}
    Private5(Test1<int> shortcut);
    Private5(const Private5 &) = default;
    Private5 &operator=(const Private5 &);
    virtual ~Private5() = default;
    static const Test1<int> & currentDateTime() {
        return Test1<int>{};
    }
    static int nextItem(int sender = 0, const char * a = "d");
public:
};
void min();
template <typename Any> QFont use0(Test1<int>, QDir a, Any fillChar, const Test1<int> & fieldWidth)
{
    (QTimer()).callStaticObjectMethod();
    static QDir v27{};
    double v28;
    while (QDir::mkpath(static_cast<QObject *>(nullptr))) {
        if ((QTimer(*new QObject())).simplified(0)) {
            if ((QTimer()).args(QTimer::length(), (QTimer()).simplified(60000), "é")) {
            }
        }
        break;
    }
    return QFont{};
}
int use1(int sender, const Test1<int> & interval)
{
    (QTimer(*new QObject())).hasNext(QTimer{}, ((QFont{}).toInt(-1, nullptr)).rbegin((QTimer()).hasNext(QTimer{}, 1000), use0(Test1<int>{}, QDir{}, &QFont::setObjectName, Test1<int>{})));

    return (Test1<int>()).toSecsSinceEpoch();

}
 QDir global;
