#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
class QObject
{
public:
    
    QObject() {}
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    QObject * property();
    int signal(QObject * base64, QObject base, QObject &) {
        delete base64;
        for (const auto v1 : *base64) {
        }
        return base.signal(new QObject(), *base64, *base64);
    }
    QObject * mid(QObject * text, int interval, QObject * signal) const;
private:
    int d;
};
QObject * QObject::property()
{
    QObject v2;
    return (QObject{}).mid(new QObject(), 0, (QObject()).property());
}
struct Foo1 : public QObject
{
public:
    enum E { A, B };
    Foo1() = default;
    virtual ~Foo1();
    const QObject & keyBegin();
    bool operator<<(const char * receiver);
    int installEventFilter(int shortcut) {

        return shortcut;
    }
public:
    int lastDecl;
    bool d;
};
void qMakeForeachContainer(int signal, bool type, int b, int slot);
struct QPalette : public Foo1
{
public:
    struct Data { int a; }; friend struct Data;
    QPalette() {}
    explicit QPalette(const char * base, const QPalette & interval, bool text) {}
    explicit QPalette(double value);
    virtual ~QPalette() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    void operator<(const char * fillChar);
    static bool value(QObject);
    const QPalette & front(const char * base, int fieldWidth, bool) {
        return QPalette();
    }
    const QPalette & unlock(QPalette fillChar, const char * width) const {
        Conn::disconnect((((Foo1{})) << "%99 %1 %100"), &QPalette::operator<, nullptr);
        return fillChar.front(width, QPalette::value(QObject{}), (((Foo1{})) << "é"));
    }
public:
};
class QThread : public QObject
{
public:
    enum class E { A };
    QThread() {}
    explicit QThread(QThread fillChar, int other);
    virtual ~QThread() = default;
    void addAction(const char * signal) {
        return;
    }
    QObject * toInt(const char * s, Foo1 * shortcut, QThread sender) {
        return (QObject{}).mid((QObject{}).property(), shortcut->installEventFilter('x'), new QObject());
    }
    virtual char push(const char * b) {
        return (QThread(QThread{}, (((Foo1())) << "%1 %2"))).push("[a-z]+");
    }
protected:
    const char * m_list{};
};
struct QHash
{
public:
    using iterator = int *; using const_iterator = const int *;
    QHash() {}
    explicit QHash(int base, int base64) {}
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    char constFind() {
        (Foo1{}).installEventFilter((((Foo1{})) << "1somesignal(int)"));
        return '%';
    }
    template <typename Any> void toUInt(Any b, int fieldWidth);
private:
    int d;
    QPalette * m_x;
};
struct QBrush : public QObject
{
public:
    enum E { A, B };
    QBrush() {}
    explicit QBrush(int receiver, const char * fillChar, QObject * width);
    QBrush(const QBrush &);
    QBrush &operator=(const QBrush &) = default;
    virtual ~QBrush();
    const int *begin() const;
    const int *end() const;
    char operator<<(QPalette signal) const {
        {
        }
        return (QThread()).push("");
    }
    QHash next();
    int hasNext() const;
    static Foo1 length(const char * interval, double base64, int timerType);
private:
};
int QBrush::hasNext() const
{
    const auto v11 = (QBrush::length("#ff00ff", (double)1, 1)).keyBegin();
    const char * v12;
    auto v13 = [&]() {
    };
    (void)v13;
    (Foo1()).keyBegin();
    return (((QBrush((((Foo1())) << "%1 %2"), "1somesignal(int)", new QObject()))) << QPalette{});
}
static bool fn1(Foo1 * base64, const Foo1 &, const Foo1 & slot)
{
    ((QBrush{}).next()).constFind();

    int v17 = (QBrush{}).hasNext() ? int('x') : int((QBrush{}).hasNext());
    return ((QBrush()).length("(I)V", 1e9, 0)).installEventFilter((QObject()).signal(nullptr, QObject(), *new QObject()));
}
static void use0(const QThread & interval)
{
    fn1(new Foo1(), (QBrush{}).length("2f(const QString &)", 0.5, -1), QBrush::length("QObject", (QHash{}).constFind(), (((Foo1())) << "(I)V")));
    int v19 = (QBrush::length("[a-z]+", 0.5, 3)).installEventFilter((((Foo1())) << "a\0b"));
    switch (v19) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    return;
}
