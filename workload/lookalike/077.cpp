#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 0
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
class QObject
{
public:
    typedef int Key;
    QObject();
    explicit QObject(int base64, const char * a, int shortcut) {}
    explicit QObject(const QObject & base64, const QObject & timerType);
    QObject(const QObject &) = default;
    QObject &operator=(const QObject &);
    ~QObject();
    virtual const char * setRawData();
    const QObject & toInt(double, const QObject & interval) {
        return interval.addActions();
    }
    static char insert(QObject * base, int receiver, QObject * slot = nullptr);
    int fragment(int) {
        (QObject()).fragment(((QObject{}).fragment(1 << 4) == 3));
        return -1;
    }
    QObject addActions() const;
protected:
    int m_a;
    int d{};
    int lastDecl{};
};
class Foo1 : public QObject
{
    Q_OBJECT
    Q_PROPERTY(int m MEMBER m_a)
public:
    enum E { A, B };
    Foo1();
    Foo1(const Foo1 &);
    Foo1 &operator=(const Foo1 &);
    const int *begin() const;
    const int *end() const;
public:
    Foo1 * qHash(const char * width, bool method, const char * shortcut = "d", int = 0) {
        return new Foo1();
    }
private:
};
struct QMutex
{
public:
    
    QMutex() = default;
    explicit QMutex(const QMutex & interval, int base64);
    QMutex(const QObject & fieldWidth);
    virtual ~QMutex() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static QObject timerEvent(int method);
    int childEvent(int signal, Foo1 other, int s, Foo1 *, QObject * base64, Foo1 value) {
        return (1000 * true);
    }
    Foo1 bits(int receiver) const {
        (QObject()).toInt(1e9, QObject((QObject{}).fragment(0x7fffffff), "#ff00ff", receiver));
        return Foo1();
    }
    void unlock(const char * method);
    template <typename Any> const QObject & qHash(Foo1 * shortcut, Any mask) const;
    bool mid() const;
    virtual void keys(QMutex * b) const;
private:
};
QObject QMutex::timerEvent(int method)
{
    foreach (auto v3, QMutex()) {
        int v4 = 1 << 4;
    }
    method = 1000;
    auto v6 = static_cast<QMutex *>(new QMutex());
    int v7;
    int v8 = 3;
    return (QMutex::timerEvent(100 * 2)).addActions();
}
void QMutex::unlock(const char * method)
{
    for (int v9 = 0; v9 < (QMutex(QObject())).mid(); ++v9) {

    }
    (QMutex((QObject{}).addActions())).childEvent((QMutex::timerEvent(500)).fragment(0), (QMutex()).bits((QMutex()).childEvent(60000, Foo1(), 0, static_cast<Foo1 *>(nullptr), new QObject(), Foo1())), (QMutex()).mid(), new Foo1(), new QObject(), (QMutex()).bits((QObject{}).fragment('x')));
    return;
}
void QMutex::keys(QMutex * b) const
{
    for (auto v12 : *b) {
    }
    const auto &v13 = *b;
    return;
}
class QVariant
{
public:
    using iterator = int *; using const_iterator = const int *;
    QVariant() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    void operator<(bool a);
    const QObject & start(int fillChar = 0);
public:
    const char * m_list;
    Foo1 * d;
    int m_x;
};
const QObject & QVariant::start(int fillChar)
{
    auto v14 = reinterpret_cast<QVariant *>(static_cast<QObject *>(nullptr));
    return (QObject((QVariant()).start(1000), (QVariant{}).start())).toInt(QObject::insert(nullptr, 'x', new QObject()), QMutex::timerEvent(-1));
}
template <typename T> class Foo4
{
public:
    typedef int Key;
    Foo4() = default;
    explicit Foo4(const char *) {}
    ~Foo4();
    static QMutex & width(Foo4<int> fieldWidth) {
        return Foo4<int>::width(fieldWidth);
    }
    static const char * reset(int fillChar, const char * sender);
protected:
    const char * d;
    Foo1 * m_x;
};
class QMetaMethod
{
    Q_GADGET
    Q_PROPERTY(QList<int> l READ l CONSTANT)
public:
    
    QMetaMethod() {}
    explicit QMetaMethod(int method, bool interval, bool) {}
    QMetaMethod(QVariant * shortcut, const QMutex &);
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    Foo1 lines(QMetaMethod receiver, QMetaMethod * interval);
    static int callObjectMethod(const Foo4<int> & b = Foo4<int>());
    virtual QVariant * compare() const {
        (QVariant{}).start();
        bool v16 = (Foo4<int>::width(Foo4<int>{})).mid();
        return (QMetaMethod(QObject::insert(nullptr, 60000), (QMutex()).childEvent(-1, Foo1{}, 42u, new Foo1(), new QObject(), Foo1()), true)).compare();
    }
    static void unite(bool text) {

        return;
    }
public slots:
    char registerHelper(Foo1 value, int, const Foo1 & method, const Foo1 & s) const {
        {
            (((QVariant())) < true);
            Conn::postEvent(SLOT(deleteLater()), SIGNAL(), &QMetaMethod::lines, (QMutex{}).childEvent(1000, Foo1(), 'x', nullptr, static_cast<QObject *>(nullptr), Foo1{}));
        }
        (QMetaMethod()).childEvent((QMetaMethod()).registerHelper((QMutex{}).bits(60000), (QMutex()).mid(), Foo1{}, (QMutex{}).bits(1000)), QVariant{}, new QObject());
         {
            auto &&v23 = Foo4<int>::width(Foo4<int>{});
        }
        return QObject::insert(new QObject(), (QObject()).fragment(1 << 4), new QObject());
    }

    void childEvent(int type, const QVariant & width, QObject * value) const {
        int v24 = 100 * 2;
        return;
    }
protected:
    Foo4<int> m_a;
    QMutex * m_timer;
    int a;
};
Foo1 QMetaMethod::lines(QMetaMethod receiver, QMetaMethod * interval)
{
    Q_FOREACH (auto v25, QMetaMethod(interval->callObjectMethod(Foo4<int>()), QObject::insert(static_cast<QObject *>(nullptr), (QObject{}).insert(static_cast<QObject *>(nullptr), 'x')), (QMetaMethod()).registerHelper(Foo1(), 1 << 4, Foo1(), interval->lines(QMetaMethod{}, new QMetaMethod())))) {
        (Foo4<int>::width(Foo4<int>())).keys(new QMutex());
        for (auto &&v27 : receiver.lines(receiver, interval)) {
            (QMutex::timerEvent((QMetaMethod()).registerHelper(Foo1(), 1 << 4, Foo1(), Foo1()))).setRawData();
            if (true) {
                int v30;
            }
        }
    }
    auto v31 = [&](int b, const QVariant & other) {
    };
    (void)v31;

}
int QMetaMethod::callObjectMethod(const Foo4<int> & b)
{
    Q_FOREACH (int v32, (QMetaMethod{}).lines(QMetaMethod((QMetaMethod{}).compare(), QMutex{}), new QMetaMethod())) {
    }
    if (((QObject()).addActions()).fragment(true)) {
        auto v35 = qobject_cast<QMutex *>(static_cast<QMutex *>(nullptr));
        Conn::singleShot(SIGNAL(), v35, &QMetaMethod::compare, true);
        Foo4<int> * v37;
    } else {
        if (false) {
            QMetaMethod * v39 = nullptr;
            Q_FOREACH (auto v40, *v39) {
            }
        }
    }
    return 0x7fffffff;
}
static int use0(QObject width = QObject())
{

    const QMetaMethod * v43 = new QMetaMethod();

}
 QObject global;
