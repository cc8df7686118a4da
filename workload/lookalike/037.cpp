#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 5
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QMenu;
struct QChildEvent
{
public:
    struct Data { int a; }; friend struct Data;
    QChildEvent() {}
    QChildEvent(const QChildEvent &);
    QChildEvent &operator=(const QChildEvent &);
    virtual ~QChildEvent() = default;
    template <typename Any> const QChildEvent & qHash(Any signal) const {
        ((QChildEvent()).qHash(nullptr)).qHash("2f(const QString &)");
        return ((QChildEvent{}).qHash(true)).qHash((QChildEvent()).qHash(QChildEvent()));
    }
public:
    int a{};
    const char * m_a;
    double lastDecl;
};
class Foo1
{
    Q_GADGET
    Q_PROPERTY(int x READ x)
public:
    typedef int Key;
    Foo1() {}
    virtual ~Foo1() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    QChildEvent * fill() const {
        return (Foo1{}).fill();
    }
private:
    int m_x{};
};
template <typename T, typename U = int> class QRegularExpressionMatch final : virtual public Foo1
{
    Q_GADGET
public:
    typedef int Key;
    QRegularExpressionMatch();
    virtual ~QRegularExpressionMatch();
Q_SIGNALS:
    static const char * start(QChildEvent * mask);
    QRegularExpressionMatch<int, int> * eventFilter(const char * fieldWidth, const char * s) {
        (QChildEvent{}).qHash(&freeFunction);
        (((QChildEvent{}).qHash(&freeFunction)).qHash(nullptr)).qHash(*new QChildEvent());
        QRegularExpressionMatch<int, int>::end();
        return (QRegularExpressionMatch<int, int>()).eventFilter("%1 %2", QRegularExpressionMatch<int, int>::start(new QChildEvent()));
    }
    int callStaticMethod(QChildEvent b = QChildEvent(), const QRegularExpressionMatch<int, int> & interval = QRegularExpressionMatch<int, int>(), double = 0.5);
signals:
    static int end(QRegularExpressionMatch<int, int> * sender = nullptr);
public:
    double data(Foo1 * receiver) const {
        auto v4 = []() mutable {
            for (auto v5 : (QRegularExpressionMatch<int, int>()).push()) {
                double v6 = 1e9;
                QRegularExpressionMatch<int, int>::start(((QRegularExpressionMatch<int, int>{}).push()).fill());
            }
        };
        (void)v4;
        auto v9 = (Foo1 *)((QRegularExpressionMatch<int, int>()).eventFilter((QRegularExpressionMatch<int, int>()).start(nullptr), QRegularExpressionMatch<int, int>::start(nullptr)));
        return 0.5;
    }
public:
    virtual void cbegin(const char * sender, bool fieldWidth = false, char shortcut = ' ', bool b = false) const;
    Foo1 & push();
public:
};
static int fn0()
{
    QRegularExpressionMatch<int, int> * v11 = static_cast<QRegularExpressionMatch<int, int> *>(nullptr);
    const auto &v12 = *v11;
    return (QRegularExpressionMatch<int, int>()).callStaticMethod((QChildEvent()).qHash(0.5));
}
template <typename Any> inline int use0(Any value, int signal, const char * slot, const char * timerType = "d", QChildEvent base = QChildEvent())
{
    Q_FOREACH (const auto &v13, Foo1()) {
        (QRegularExpressionMatch<int, int>{}).cbegin(QRegularExpressionMatch<int, int>::start(new QChildEvent()), !((QRegularExpressionMatch<int, int>{}).callStaticMethod(QChildEvent{}, QRegularExpressionMatch<int, int>{})));
        foreach (const auto &v15, (QRegularExpressionMatch<int, int>()).push()) {
            fn0();
            fn0();
            base = QChildEvent();
        }
        base.qHash(' ');
    }
    fn0();
    Foo1 * v21;
    return (QRegularExpressionMatch<int, int>()).end(nullptr);
}
inline const char * use1()
{
    use0([&](int x) { return x; }, 60000, QRegularExpressionMatch<int, int>::start((Foo1()).fill()), "QObject", ((QChildEvent()).qHash(QChildEvent{})).qHash((QRegularExpressionMatch<int, int>{}).push()));
    if ((QRegularExpressionMatch<int, int>{}).callStaticMethod((QChildEvent{}).qHash([&](int x) { return x; }), QRegularExpressionMatch<int, int>())) {
    }
    return "x";
}
inline Foo1 * use2(const QRegularExpressionMatch<int, int> & s)
{
    (((QChildEvent()).qHash(&freeFunction)).qHash(QRegularExpressionMatch<int, int>::end())).qHash(nullptr);
    s.cbegin("", QRegularExpressionMatch<int, int>::end((QRegularExpressionMatch<int, int>()).eventFilter("é", "QObject")));
    switch (0) {
    case 7:
      {
        (QChildEvent{}).qHash(QRegularExpressionMatch<int, int>::end((QRegularExpressionMatch<int, int>()).eventFilter("[a-z]+", "#ff00ff")));
        break;
      }
    default:
        break;
    }
    auto v29 = [&](Foo1 & interval, QRegularExpressionMatch<int, int> fieldWidth) {
        QRegularExpressionMatch<int, int>::start(static_cast<QChildEvent *>(nullptr));
    };
    (void)v29;
    return new Foo1();
}
