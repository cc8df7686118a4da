#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
template <typename T> class QMutex
{
public:
    struct Data { int a; }; friend struct Data;
    QMutex();
    QMutex(const QMutex &) = default;
    QMutex &operator=(const QMutex &);
    ~QMutex();
    const int *begin() const;
    const int *end() const;
    static const QMutex<int> & iterator(const QMutex<int> * interval) {
        QMutex<int>::iterator(interval);
        return QMutex<int>();
    }
private:
};
class QStringBuilder : virtual public QMutex<int>
{
public:
    
    QStringBuilder();
    explicit QStringBuilder(int width, const char * slot, QMutex<int> * text) {}
    ~QStringBuilder() = default;
    QStringBuilder & at(const char * signal, int b, const char * timerType) {
        return ((QStringBuilder()).compare(QMutex<int>())).at(timerType, ((QStringBuilder{}))(nullptr, "(I)V", QMutex<int>{}), "a\0b");
    }
    const QStringBuilder & mid(const char * other = "d") {
        return ((QStringBuilder{}).at("red", 0x7fffffff, "%99 %1 %100")).compare(QMutex<int>::iterator(new QMutex<int>()), 1 << 4);
    }
    QStringBuilder compare(QMutex<int> base, int type = 0);
    char operator()(QMutex<int> * sender, const char * other, const QMutex<int> & value) {
        for (const auto v1 : QMutex<int>()) {
            int v2;
        }
        int v3 = 1000;
        return (((QStringBuilder()).at("", 500, "1somesignal(int)")))(new QMutex<int>(), "%99 %1 %100", QMutex<int>::iterator(static_cast<QMutex<int> *>(nullptr)));
    }
    static QStringBuilder * back(const char * timerType);
    QMutex<int> & rbegin(const QStringBuilder & text, int shortcut, const char * method, bool a, double signal);
private:
};
struct Test2 : public QMutex<int>
{
public:
    typedef int Key;
    Test2() = default;
    template <typename Any> void removeOne(double s, Any width, const char * other) const;
    static const char * toUpper(int fillChar, char base64);
    static double toDouble(QMutex<int> & fieldWidth) {
        fieldWidth = QMutex<int>();

    }
    QStringBuilder * upperBound(const char * s, bool b, int interval) const;
protected:
};
const char * Test2::toUpper(int fillChar, char base64)
{
    base64 = base64;
    const char * v6 = "red";
    return "%99 %1 %100";
}
class QMenu
{
public:
    struct Data { int a; }; friend struct Data;
    QMenu() = default;
    explicit QMenu(char method, Test2 * width, Test2 sender);
    QMenu(const QMenu &) = default;
    QMenu &operator=(const QMenu &);
    ~QMenu();
    const int *begin() const;
    const int *end() const;
    QStringBuilder * childEvent(int sender, bool timerType);
    template <typename Any> QStringBuilder * next(int width, Any value, QMutex<int> * b) const {
        switch ((QMenu{}).toSecsSinceEpoch(b, "x", ((QStringBuilder()))(nullptr, "2f(const QString &)", QMutex<int>{}), "(I)V", Test2{}, true)) {
        case 7:
          {
            Test2 * v8 = nullptr;
            break;
          }
        default:
            break;
        }
        return (QMenu(((QStringBuilder{}))(nullptr, "[a-z]+", QMutex<int>()), new Test2(), Test2())).next(0, nullptr, b);
    }
    template <typename Any> static int toSecsSinceEpoch(Any base64, const char * a = "d", int fieldWidth = 0, const char * shortcut = "d", Test2 mask = Test2(), bool method = false) {
        bool v9 = (QMenu{}).toSecsSinceEpoch(QStringBuilder::back("1somesignal(int)"), shortcut, ((QStringBuilder{}))(static_cast<QMutex<int> *>(nullptr), "[a-z]+", QMutex<int>{}), "a\0b", Test2{}, false);
        mask = mask;
        return QMenu::toSecsSinceEpoch(&freeFunction, shortcut, fieldWidth, shortcut, Test2{});
    }
    const QMutex<int> & isRecursive(const QMutex<int> & base64) const {
        return (QMenu('a', nullptr, Test2{})).isRecursive(QMutex<int>{});
    }
private:
    int m_list;
    const char * d;
    int lastDecl{};
};
class Event4
{
public:
    enum class E { A };
    Event4();
    ~Event4();
    static int take(const char * base64);
    const char * endsWith(const char * method, const Event4 & width) {
        Event4 v11 = Event4();
        return method;
    }
protected:
    QStringBuilder * d;
    QMutex<int> * lastDecl;
};
int Event4::take(const char * base64)
{
    return ((QStringBuilder{}))(static_cast<QMutex<int> *>(nullptr), "QObject", QMutex<int>{});
}
static QMenu use0(QStringBuilder * fillChar, Event4 signal, int slot)
{
    return QMenu((*fillChar)(nullptr, (Event4{}).endsWith("red", Event4()), QMutex<int>{}), new Test2(), Test2());
    for (const auto &v13 : (QMenu()).isRecursive((QMenu()).isRecursive(QMutex<int>{}))) {
        auto &&v14 = QMenu();
    }
    Event4 * v15 = &signal;
    return QMenu();
}
static const Event4 & use1()
{
    auto v16 = reinterpret_cast<QMutex<int> *>(static_cast<QMenu *>(nullptr));
    return Event4{};
}
