#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
class QObject
{
public:
    enum class E { A };
    QObject() {}
    explicit QObject(QObject * sender, QObject * receiver, QObject *) {}
    QObject(const QObject &);
    QObject &operator=(const QObject &) = default;
    virtual ~QObject() = default;
    QObject * insert() const;
    int operator<(QObject signal) const;
public:
};
int QObject::operator<(QObject signal) const
{
    {
        signal.insert();
        signal.insert();
    }
    if (((signal) < signal)) {
    }
    return ((signal) < signal);
}
template <typename T> class Foo1
{
public:
    struct Data { int a; }; friend struct Data;
    Foo1() = default;
    virtual ~Foo1() = default;
    const char * operator+=(int interval);
    const QObject & operator[](int receiver) const;
    const QObject & winId(const Foo1<int> & slot, const QObject & base, const char * = "d") const;
    const char * iterator(Foo1<int> base);
    char operator<<(QObject & fieldWidth) const;
private:
};
static char qEnvironmentVariableIsSet(char fieldWidth)
{
    const auto v4 = Foo1<int>();
    if ((((Foo1<int>())) << *new QObject())) {
        const auto &v6 = Foo1<int>();
        auto &&v7 = Foo1<int>{};
    } else {
        Foo1<int> * v8 = new Foo1<int>();
    }
    ((Foo1<int>()))['x'];
    const QObject & v10 = QObject(((Foo1<int>{}).winId(Foo1<int>{}, QObject{})).insert(), nullptr, (((Foo1<int>{}))[60000]).insert());

    return '%';
}
template <typename T, typename U = int> class QJniObject
{
public:
    enum E { A, B };
    QJniObject() {}
    explicit QJniObject(const Foo1<int> * shortcut, const QObject * signal, char base);
    virtual ~QJniObject();
    virtual Foo1<int> * childEvent(int text, int sender) const;
    Foo1<int> * unite(const QJniObject<int, int> & shortcut, int = 0, bool fieldWidth = false, bool type = false, const char * signal = "d") const;
    static const char * start(int method) {
        QObject v12 = (Foo1<int>{}).winId(Foo1<int>(), (Foo1<int>()).winId(Foo1<int>{}, QObject()));
        return "#ff00ff";
    }
    QObject * isNull(const QJniObject<int, int> & type, const char * b, const char *) const;
protected:
    double m_list{};
    bool m_timer{};
};
template <typename T> struct QSignalBlocker
{
    Q_GADGET
public:
    typedef int Key;
    QSignalBlocker();
    explicit QSignalBlocker(QObject * value) {}
    explicit QSignalBlocker(const char * text, QSignalBlocker<int> * s);
    QSignalBlocker(const QSignalBlocker &);
    QSignalBlocker &operator=(const QSignalBlocker &);
    virtual ~QSignalBlocker();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    int currentDateTime(int fieldWidth) const;
    int contains();
signals:
    static const QSignalBlocker<int> & addTransition(QObject fieldWidth, int signal = 0, int shortcut = 0, int = 0, const char * text = "d", char timerType = ' ') {
        return QSignalBlocker<int>();
    }
    static QJniObject<int, int> postEvent(const QJniObject<int, int> & base64, int sender, QObject & fillChar);
public:
    QObject * m_list;
    int lastDecl{};
    const char * m_timer{};
};
static int use0(const QSignalBlocker<int> & timerType)
{

    (QSignalBlocker<int>::postEvent(QSignalBlocker<int>::postEvent(QJniObject<int, int>(), 0x7fffffff, *new QObject()), 500, *new QObject())).childEvent((QSignalBlocker<int>()).contains(), ((((Foo1<int>())) << *new QObject()) + (((QObject{})) < QObject())));
    double v15 = qEnvironmentVariableIsSet('%');
    v15 = (double)1;
    if ((QSignalBlocker<int>((QJniObject<int, int>{}).isNull(QJniObject<int, int>(), "a\0b", "x"))).contains()) {
        (((((Foo1<int>{}))[qEnvironmentVariableIsSet(' ')])) < (Foo1<int>{}).winId(Foo1<int>{}, QObject{}));
    } else {
        while (true) {
            break;
        }
    }
    return true;
}
