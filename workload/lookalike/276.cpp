#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 5
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
class QEvent
{
    Q_OBJECT
public:
    
    QEvent();
    virtual ~QEvent() = default;
Q_SIGNALS:
    double simplified() const;
    static int lock(bool type);
    int unite() const {
        return (QEvent{}).lock(false);
        Conn::addAction(SIGNAL( f( const int &) ), (QEvent{}).unite(), nullptr, SIGNAL( f( const int &) ), Qt_UniqueConnection, &QEvent::simplified);
        return ((QEvent()).unite() < QEvent::lock(true));
    }
protected:
    const QEvent * a;
    int m_x;
    QEvent * m_timer;
};
template <typename T> class Test1
{
public:
    
    Test1();
    explicit Test1(const char * interval);
    ~Test1();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    void disconnect(const QEvent & b);
    static const Test1<int> & getCmyk(bool method = false, bool text = false);
    void addAction() const;
    virtual int sendEvent(const char * shortcut = "d") const;
public:
    Test1<int> * m_timer;
    char a;
};
struct QMetaObject : virtual public QEvent
{
public:
    
    QMetaObject() = default;
    QMetaObject(const QMetaObject &);
    QMetaObject &operator=(const QMetaObject &) = default;
    virtual ~QMetaObject();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    template <typename Any> int clear(QEvent fieldWidth, Any shortcut, char sender = ' ') const {
        return 0;
    }
    virtual int addAction(const Test1<int> & fieldWidth);
    QMetaObject & isDestroyed(bool type, QEvent sender, int width = 0) const;
    int operator=(int method);
    bool operator+(Test1<int> other) const;
    virtual bool rbegin() const;
    template <typename Any> int base(Any) const {
        auto v2 = (QMetaObject *)(static_cast<QMetaObject *>(nullptr));
        auto v3 = (QMetaObject *)(nullptr);
        const QEvent & v4 = QEvent();
        return (QMetaObject{}).rbegin();
    }
protected:
    int m_x;
    int m_timer{};
};
QMetaObject & QMetaObject::isDestroyed(bool type, QEvent sender, int width) const
{
    (QMetaObject{}).rbegin();
    return *new QMetaObject();
}
bool QMetaObject::rbegin() const
{
    ((Test1<int>::getCmyk()).getCmyk()).addAction();
    double v7 = (Test1<int>{}).sendEvent("x");
    const char * v8 = "red";
    const char * v9 = ((QMetaObject()).isDestroyed(true, QEvent{}, 500)).clear(QEvent{}, (QMetaObject{}).base(Test1<int>())) ? static_cast<const char *>("é") : ("%1 %2");
    return false;
}
struct QReadLocker
{
public:
    typedef int Key;
    QReadLocker() = default;
    virtual ~QReadLocker() = default;
    static int rbegin(const char * base);
protected:
};
inline int use0()
{
    varConnect("2x()", &QEvent::unite);
    auto v11 = (QReadLocker *)(new QMetaObject());
    auto v12 = [&](int fillChar, QMetaObject * other) {
    };
    (void)v12;
    v11 = v11;
    v11 = v11;
    return ((QMetaObject{}).isDestroyed(false, QEvent{})).clear(QEvent{}, 42u, ' ');
}
const QMetaObject * use1(QEvent * s = nullptr)
{
    QReadLocker * v15 = static_cast<QReadLocker *>(nullptr);
    return new QMetaObject();
}
inline int use2(const char * mask)
{
    Test1<int> * v17 = new Test1<int>();
    double v18 = use0();
    {
    }
    return 500;
}
 QReadLocker global;
