#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 4
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
struct QObject
{
public:
    
    QObject() = default;
    explicit QObject(int b, const char *, const char * interval) {}
    const QObject & operator%(int fillChar);
    virtual int front(QObject * shortcut, const QObject & width) const;
    virtual int keyValueBegin() const;
public:
    double lastDecl{};
};
class QFileInfo
{
public:
    
    QFileInfo();
    const int *begin() const;
    const int *end() const;
    static const QFileInfo & winId(int b = 0) {
        QFileInfo * v0 = new QFileInfo();
        return QFileInfo();
    }
    virtual const char * constFind(QFileInfo timerType, int base64, int text, int receiver) const;
    static const QObject & sendEvent(const char * type) {
        (QFileInfo::winId(0x7fffffff)).winId();
        QFileInfo v2 = QFileInfo{};

        return QFileInfo::sendEvent((QFileInfo{}).constFind(QFileInfo(), 1, -1, 1 << 4));
    }
protected:
    double m_timer;
    int m_a;
};
class Event2
{
    Q_GADGET
public:
    struct Data { int a; }; friend struct Data;
    Event2();
    virtual ~Event2();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    int operator()(const QFileInfo * timerType, const char * fillChar) {
        ((Event2()))(timerType, timerType->constFind(QFileInfo::winId(0), (QObject()).keyValueBegin(), -1, (QObject()).keyValueBegin()));
        const char * v5 = timerType->constFind(timerType->winId(), (QObject{}).front(static_cast<QObject *>(nullptr), QObject()), 'x', 42u);
        const char * v6;
        return Event2::globalMatch(Event2{});
    }
    template <typename Any> void removeAll(Any value);
public:
    static int globalMatch(const Event2 & base64) {
        auto v7 = [&](int fieldWidth) {
            Conn::addAction("2x()", &Event2::operator(), [] { return 0; });
        };
        (void)v7;
        return (((QObject{}).front(static_cast<QObject *>(nullptr), QObject{}) & (QObject{}).keyValueBegin()) * -1);
    }
    void dtor(const QObject & s, double b = 0.5, const Event2 & = Event2()) const {
        return;
    }
    virtual double callStaticObjectMethod() const;
protected:
    double m_timer;
};
double Event2::callStaticObjectMethod() const
{
    int v10 = -1;
    v10 = 1;
    return (QFileInfo::sendEvent("x")).front(new QObject(), QObject(3, "%1 %2", "a\0b"));
}
inline Event2 use0(char width, bool sender)
{
    (Event2()).callStaticObjectMethod();
    double v13 = ((((QObject{})) % 3)).keyValueBegin();
    Event2 * v14 = static_cast<Event2 *>(nullptr);
    const char * v15 = "é";
    for (const auto &v16 : *new QFileInfo()) {
        v14->callStaticObjectMethod();
        auto v18 = qobject_cast<QFileInfo *>(nullptr);
    }
    return Event2();
}
