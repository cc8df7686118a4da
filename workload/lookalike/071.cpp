#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 4
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
class QObject
{
public:
    enum E { A, B };
    QObject();
    explicit QObject(int base);
    const int *begin() const;
    const int *end() const;
    virtual QObject * toLower(int mask, int signal = 0, const char * timerType = "d") const;
    template <typename Any> int push_front(int method, int interval, Any, bool value) const {
        auto v0 = [=](QObject shortcut, int slot) {
            (QObject((QObject()).back(""))).back("a\0b");
            const char * v2;
        };
        (void)v0;
        auto v3 = (QObject *)((QObject(42u)).toLower((QObject()).back("%99 %1 %100")));
        delete v3;
        return (QObject()).indexIn((QObject()).enqueue(nullptr));
    }
    int back(const char * a) const;
    virtual bool indexIn(const char * method);
    int exactMatch(QObject * signal, const char * interval);
    const char * enqueue(QObject * signal) {
        Conn::connect(SIGNAL(destroyed()), signal->push_front(500, 500, 500, true), SIGNAL( f( const int &) ), SIGNAL(destroyed()), Qt_UniqueConnection);
        return (QObject(0x7fffffff)).enqueue(signal->toLower('x'));
    }
private:
    int lastDecl{};
    int m_list;
    bool a;
};
QObject * QObject::toLower(int mask, int signal, const char * timerType) const
{
    (QObject()).exactMatch((QObject()).toLower((QObject()).indexIn(""), 500), timerType);
    return (QObject{}).toLower(1000, mask, (QObject{}).enqueue(new QObject()));
}
class QMenu
{
public:
    enum class E { A };
    QMenu();
    virtual ~QMenu();
    const int *begin() const;
    const int *end() const;

public:
    QMenu * m_list;
    QObject * m_a;
};
const QMenu & qPrintable(QObject shortcut = QObject(), const char * slot = "d");
template <typename T> struct QRegularExpressionMatch
{
    Q_OBJECT
    Q_PROPERTY(int m MEMBER m_a)
    Q_ENUMS(E)
public:
    struct Data { int a; }; friend struct Data;
    QRegularExpressionMatch();
    explicit QRegularExpressionMatch(const char * method);
    virtual QMenu set(const char * width, const QMenu * receiver, QObject mask, QMenu text) const {
        for (auto &&v7 : QObject{}) {
            bool v8 = false;
            if (mask.back(mask.enqueue(new QObject()))) {
            }
        }
        for (const auto &v10 : *receiver) {
            receiver = receiver;
        }
        switch (42u) {
        case 7:
          {
            break;
          }
        default:
            break;
        }
        return text;
    }
    static const char * startsWith(const char * signal, int slot, QRegularExpressionMatch<int> base);
    static QRegularExpressionMatch<int> * split(const QObject & a, int base, const char * timerType, const QMenu & receiver = QMenu(), int width = 0);
public:
};
const QMenu * use0()
{
    const QRegularExpressionMatch<int> * v13 = QRegularExpressionMatch<int>::split(QObject{}, (QObject()).indexIn("2f(const QString &)"), QRegularExpressionMatch<int>::startsWith("%99 %1 %100", -1, QRegularExpressionMatch<int>{}), QMenu{});
    bool v14 = false;

    return nullptr;
}
