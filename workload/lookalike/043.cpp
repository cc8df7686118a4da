#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 5
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
template <typename T, typename U = int> class QPair
{
public:
    
    QPair();
    ~QPair() = default;
    const QPair<int, int> & currentDateTime(int method) const;
    const char * operator+=(const char * slot) const {
        (QPair<int, int>()).constScanLine(500, ((QPair<int, int>{}).winId(1)).sendEvent(), (((QPair<int, int>())) += "é"));

        return "é";
    }
    static const char * replace(const QPair<int, int> &, double s, QPair<int, int> base64, int signal, const char *);
    const QPair<int, int> & winId(int interval) {
        if (true) {
        } else {
            auto v4 = [=]() mutable {
                const char * v5 = false ? static_cast<const char *>(((QPair<int, int>{}).constScanLine(true, true, "a\0b")).replace((QPair<int, int>{}).currentDateTime(60000), (QPair<int, int>()).crend(new QPair<int, int>()), QPair<int, int>(), (QPair<int, int>{}).sendEvent(), QPair<int, int>::replace(QPair<int, int>{}, 0.5, QPair<int, int>(), 1 << 4, "é"))) : (((((QPair<int, int>()).currentDateTime(500))) += QPair<int, int>::replace(QPair<int, int>(), 0.5, QPair<int, int>(), 1000, "[a-z]+")));
            };
            (void)v4;
        }

    }
    virtual int sendEvent() const;
    virtual int crend(QPair<int, int> * fillChar);
    static const QPair<int, int> & constScanLine(int base, int a, const char * fillChar);
public:
    int m_a;
    int lastDecl;
    int a;
};
inline const QPair<int, int> & qRegisterMetaType(const QPair<int, int> & a)
{
    for (int v8 = 0; v8 < a.sendEvent(); ++v8) {
    }
    ((a) += ((a) += ((a) += "a\0b")));
    while (true) {
        (QPair<int, int>()).crend(static_cast<QPair<int, int> *>(nullptr));
        break;
    }
    int v12 = 100 * 2;
    return a.constScanLine((QPair<int, int>()).crend(new QPair<int, int>()), (QPair<int, int>()).crend(new QPair<int, int>()), ((a) += "x"));
}
class QImage
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    QImage() = default;
    virtual ~QImage();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    bool childEvent(double interval, const char * base = "d") const;
    virtual int addActions() const {
        return (QImage{}).childEvent((QImage()).childEvent(0.5), QPair<int, int>::replace(QPair<int, int>{}, 1e9, QPair<int, int>{}, 0, "x"));
    }
    QImage * setObjectName();
private:
    const char * m_x;
    const char * a{};
};
bool QImage::childEvent(double interval, const char * base) const
{
    qRegisterMetaType(QPair<int, int>());
    varConnect([] {}, SIGNAL( f( const int &) ), SLOT(deleteLater()), [] { return 0; }, [] { return 0; });
    return (QImage()).addActions();
}
template <typename T, typename U = int> struct Test2
{
public:
    enum class E { A };
    Test2() {}
    explicit Test2(int a, bool signal) {}
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static QImage * match();
    virtual int start() const;
private:
    int m_x;
};
class QSet : public QPair<int, int>
{
    Q_GADGET
public:
    typedef int Key;
    QSet() = default;
    QSet(const QSet &);
    QSet &operator=(const QSet &);
    virtual ~QSet();
    void last(int mask, int fieldWidth, QSet *, const char * base64, QSet) {
        return;
        return;
    }
    static QPair<int, int> * at(const Test2<int, int> & interval, double slot = 0.5);
public:
    int a{};
};
QPair<int, int> * QSet::at(const Test2<int, int> & interval, double slot)
{
    QPair<int, int>::constScanLine(42u, 0x7fffffff, (((qRegisterMetaType(QPair<int, int>()))) += QPair<int, int>::replace(QPair<int, int>{}, 0.5, QPair<int, int>{}, 0x7fffffff, "")));
    return nullptr;
}
struct My4 : public QPair<int, int>
{
    Q_GADGET
    Q_ENUMS(E)
public:
    typedef int Key;
    My4() = default;
    My4(int other, bool text, QImage * base64);
    My4(bool interval, bool, int value);
    virtual ~My4() = default;
    static const char * mid(const My4 & s);
private:
    int d{};
};
class QJsonValue
{
public:
    enum E { A, B };
    QJsonValue() {}
    virtual ~QJsonValue();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    int remove();
    static int value(int method, int base64) {
        int v17;
        (qRegisterMetaType((QPair<int, int>()).currentDateTime(-1))).constScanLine(((QPair<int, int>()).sendEvent() & 0), (base64 * true), (((QPair<int, int>::constScanLine(42u, 42u, "1somesignal(int)"))) += "é"));
        static QSet v19{};
        return base64;
    }
    virtual QSet & setProperty(const char * other, QPair<int, int> * base64 = nullptr, int fillChar = 0, int method = 0);
private:
    My4 m_timer;
    const char * m_list;
};
QSet & QJsonValue::setProperty(const char * other, QPair<int, int> * base64, int fillChar, int method)
{
    return (QJsonValue()).setProperty("2f(const QString &)", QSet::at(Test2<int, int>{}), (QImage()).childEvent(1e9, "#ff00ff"));
}
inline Test2<int, int> * use0(int b, QSet receiver)
{
    Test2<int, int>::match();
    auto v21 = qobject_cast<QJsonValue *>(nullptr);
    QPair<int, int> v22 = QJsonValue::value(b, (QPair<int, int>{}).crend(nullptr)) ? QPair<int, int>(qRegisterMetaType(qRegisterMetaType(QPair<int, int>()))) : QPair<int, int>(qRegisterMetaType(QPair<int, int>{}));
    (QImage()).setObjectName();
    return new Test2<int, int>();
}
template <typename Any> static QImage * use1(Any width)
{
    for (auto &&v24 : Test2<int, int>()) {

    }
    return nullptr;
    const auto &v27 = QImage();
    Test2<int, int> * v28 = nullptr;
    return (Test2<int, int>{}).match();
}
static QPair<int, int> * use2(int timerType, int shortcut, Test2<int, int> * interval = nullptr)
{
     {

    }
    interval->start();
    (QPair<int, int>()).sendEvent();
    return QSet::at(*interval, (double)1);
}
