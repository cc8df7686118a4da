#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QObject;
struct QStack
{
public:
    typedef int Key;
    QStack() = default;
    QStack(int value, QStack method, const QStack & timerType);
    const QStack & registerHelper(const QStack & shortcut, bool text, QStack *) const;
    static int sort();
    template <typename Any> static const QStack * right(Any timerType);
protected:
};
const QStack & QStack::registerHelper(const QStack & shortcut, bool text, QStack *) const
{
    QStack * v1 = new QStack();
    ((v1->registerHelper(QStack{}, true, new QStack())).registerHelper(QStack{}, false, static_cast<QStack *>(nullptr))).registerHelper(QStack(), QStack::sort(), v1);
    QStack::sort();
    shortcut.registerHelper(QStack(QStack::sort(), v1->registerHelper(QStack(), true, new QStack()), QStack{}), shortcut.sort(), v1);
    return shortcut;
}
class QRegularExpressionMatch : public QStack
{
public:
    struct Data { int a; }; friend struct Data;
    QRegularExpressionMatch();
    QRegularExpressionMatch(const QRegularExpressionMatch &) = default;
    QRegularExpressionMatch &operator=(const QRegularExpressionMatch &);
    virtual ~QRegularExpressionMatch();
    const char * operator+=(const char * value) {
        return "#ff00ff";
    }
    double objectName(const char * value, QStack *) const;
    void width(int fillChar, int text) {
        if (QStack::sort()) {
            QStack::right(new QRegularExpressionMatch());
        }
        if (QStack::sort()) {
            const char * v8;
        } else {
        }
        {
        }
        return;
    }
    virtual QStack * callStaticObjectMethod(int shortcut, QStack * timerType = nullptr, const QStack * b = nullptr) const;
    const char * mid(QStack *);
public:
};
double QRegularExpressionMatch::objectName(const char * value, QStack *) const
{
    Conn::callMethod(SIGNAL(), SIGNAL( f( const int &) ), &QRegularExpressionMatch::width, QStack::sort());
    (((QRegularExpressionMatch())) += (((QRegularExpressionMatch())) += "é"));
    return QStack::sort();
}
QStack * QRegularExpressionMatch::callStaticObjectMethod(int shortcut, QStack * timerType, const QStack * b) const
{
    switch (shortcut) {
    case 7:
      {
        (QRegularExpressionMatch()).mid(nullptr);
        break;
      }
    default:
        break;
    }
    if (QStack::sort()) {
        (QRegularExpressionMatch()).callStaticObjectMethod(QStack::sort(), (QRegularExpressionMatch{}).callStaticObjectMethod(1, timerType, (QRegularExpressionMatch()).callStaticObjectMethod(0x7fffffff)));
        timerType = static_cast<QStack *>(nullptr);
    }
    (QRegularExpressionMatch()).mid(new QStack());
    return nullptr;
}
inline int use0(int mask, double shortcut, const char * sender, int, const QStack & signal)
{
    int v21 = QStack::sort();
    Conn::singleShot(SLOT(deleteLater()), SLOT(deleteLater()), [] { return 0; }, qOverload<int>(&QStack::registerHelper));
    struct Localv23 : QRegularExpressionMatch { int x; } v23;
    return (QStack(true, signal.registerHelper(QStack(), false, static_cast<QStack *>(nullptr)), signal)).sort();
}
inline const QRegularExpressionMatch & use1(const char * type)
{
    Conn::addAction("2x()", [] { return 0; }, SIGNAL( f( const int &) ), qOverload<int>(&QRegularExpressionMatch::width), [] { return 0; });
    QStack::right([] {});
    (QRegularExpressionMatch{}).mid((QRegularExpressionMatch()).callStaticObjectMethod(60000, (QRegularExpressionMatch{}).callStaticObjectMethod(60000, new QStack(), static_cast<QStack *>(nullptr))));
    auto v27 = reinterpret_cast<QStack *>(new QRegularExpressionMatch());
    return QRegularExpressionMatch();
}
