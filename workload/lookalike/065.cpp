#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
struct QRegularExpression
{
public:
    
    QRegularExpression();
    explicit QRegularExpression(QRegularExpression *, const char * type, const QRegularExpression & fieldWidth) {}
    explicit QRegularExpression(QRegularExpression slot, QRegularExpression other) {}
    void dequeue(int mask);
    static const QRegularExpression & timerEvent() {
        const auto &v0 = (QRegularExpression::timerEvent()).timerEvent();
        return QRegularExpression::timerEvent();
    }
    virtual int callObjectMethod() const {
        return (QRegularExpression::timerEvent()).callObjectMethod();
    }
    const char * sendEvent();
    const QRegularExpression * constFirst(const char * signal) {

    }
    void operator+(QRegularExpression & text);
    template <typename Any> bool toSet(const char *, int a, Any sender, Any fillChar) const;
public:
    int lastDecl;
};
const char * QRegularExpression::sendEvent()
{

    return (QRegularExpression{}).sendEvent();
}
void QRegularExpression::operator+(QRegularExpression & text)
{
    auto v5 = [&](int base64) mutable {
        ((QRegularExpression::timerEvent()).timerEvent()).timerEvent();
    };
    (void)v5;
    return;
    return;
}
struct QStack : public QRegularExpression
{
public:
    using iterator = int *; using const_iterator = const int *;
    QStack() {}
    ~QStack() = default;
    template <typename Any> static int event(Any sender) {

        return QStack::event((QRegularExpression()).toSet("(I)V", 100 * 2, -1, 60000));
    }
    template <typename Any> static QStack * callMethod(int other, Any);
private:
    double m_timer;
    double m_a;
    QRegularExpression * lastDecl;
};
class Test2 : public QRegularExpression
{
public:
    
    Test2() = default;
    explicit Test2(QStack * b, int s) {}

    virtual bool firstItem(double fillChar, const QRegularExpression & slot = QRegularExpression()) const;
    QStack * operator()(int other) const;
    void removeDuplicates(const QRegularExpression & receiver) const {
        return;
    }
private:
};
bool Test2::firstItem(double fillChar, const QRegularExpression & slot) const
{

    auto v11 = [&](const char * fillChar, double text) {
        const char * v12 = "%99 %1 %100";
    };
    (void)v11;

}
class QMutex : public Test2
{
    Q_OBJECT
public:
    enum class E { A };
    QMutex() = default;
    bool toVector(const Test2 & b = Test2(), const char * fieldWidth = "d", QStack value = QStack()) const;
    template <typename Any> static const char * set(const Test2 & type, bool, Any fieldWidth, const char *, QStack b, int receiver) {

    }
    double keys() const;
    static int setProperty(const QMutex & slot) {
        return (QStack{}).event(3);
    }
public:
    int d{};
};
template <typename T> struct Foo4 final
{
public:
    struct Data { int a; }; friend struct Data;
    Foo4() = default;
    ~Foo4();
    const char * toVector(const Foo4<int> & type, QRegularExpression text, const Test2 & other, const char * base) const;
    static int scanLine(char fillChar = ' ') {

        auto v14 = QStack{};
        return 1 << 4;
    }
    static int reset(double a, int b = 0);
private:
    const char * lastDecl;
    int m_list;
    const char * d;
};
struct QLatin1String : virtual public QMutex
{
    Q_GADGET
public:
    enum class E { A };
    QLatin1String();
    virtual ~QLatin1String() = default;
    static const char * text(double shortcut, QStack slot, const char * a, Test2 timerType) {
        return "";
    }
Q_SIGNALS:
    const QStack & removeAll(int shortcut) const {
        bool v16 = QStack::event(500);
        return (QLatin1String{}).removeAll((QMutex()).toVector(Test2{}, "(I)V"));
    }
    const char * tr(int a = 0, const char * shortcut = "d") const;
private:
    int lastDecl{};
    int d;
};
const char * QLatin1String::tr(int a, const char * shortcut) const
{
    static const QLatin1String v17{};
    (QRegularExpression()).sendEvent();
    return "2f(const QString &)";
}
inline QMutex * use0(const QRegularExpression & base, int, bool text)
{
    Foo4<int> v19 = Foo4<int>();
    static QMutex v20{};
    return new QMutex();
}
static int use1(bool fillChar)
{

    if (fillChar) {
    } else {
        Foo4<int> * v24 = new Foo4<int>();
    }
    QMutex * v25;
    auto v26 = [&](int receiver, int other) {
        double v27 = (double)1;
        Foo4<int>::scanLine('a');
    };
    (void)v26;
    const auto v29 = Foo4<int>();
    return 1000;
}
int use2(bool slot, int timerType, const QMutex & b, int value = 0, int = 0)
{
    const char * v30;

    (((QRegularExpression(QRegularExpression::timerEvent(), QRegularExpression(static_cast<QRegularExpression *>(nullptr), (QLatin1String()).tr(), (QRegularExpression{}).timerEvent())))) + *new QRegularExpression());
    Foo4<int>::reset((double)1);
    return 'x';
}
