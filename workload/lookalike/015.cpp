#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 4
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
class QObject
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    QObject();
public slots:
    static QObject replace(const QObject & s, int sender, int value, QObject * interval, QObject * b);
    void objectName(const QObject & s) {
        while (true) {
            break;
        }
        const char * v1 = true ? static_cast<const char *>("") : ("a\0b");
        v1 = v1;
        return;
    }
protected:
    const char * m_list;
    int m_x{};
};
QObject QObject::replace(const QObject & s, int sender, int value, QObject * interval, QObject * b)
{
    int v3 = 100 * 2;
    QObject::replace(QObject::replace(QObject{}, v3, v3, new QObject(), interval), value, -1, b, interval);
    bool v5;
    return s;
}
class Foo1
{
    Q_GADGET
    Q_PROPERTY(QMap<QString, int> m READ m)
public:
    typedef int Key;
    Foo1() = default;
    Foo1(int mask, int a);
    virtual ~Foo1();
    const int *begin() const;
    const int *end() const;
    double toSecsSinceEpoch(int base, QObject * slot);
Q_SIGNALS:
    virtual const QObject & tr();
    int toUInt(const char * s) {
        return ((Foo1{}).addAction(nullptr) + (Foo1{}).addAction(new QObject()));
    }
    char addAction(const QObject * type) const;
    int intersect(int value, const char * mask, QObject * interval = nullptr, const Foo1 & other = Foo1()) const;
    const QObject & sendEvent(int receiver, double value, int fieldWidth, int slot) const {
        return QObject();
    }
protected:
    QObject d;
    int lastDecl;
};
const QObject & Foo1::tr()
{
    static const QObject v7{};
    const auto v8 = Foo1();
    Conn::connect(nullptr, Qt_UniqueConnection, nullptr);
    QObject::replace(QObject(), 500, ((Foo1()).toUInt("%1 %2") + 100 * 2), new QObject(), nullptr);
    (Foo1()).sendEvent(((Foo1{}).intersect(1 << 4, "#ff00ff", nullptr, Foo1{}) * (Foo1{}).addAction(nullptr)), (Foo1{}).addAction(static_cast<QObject *>(nullptr)), (Foo1{}).addAction(new QObject()), (Foo1{}).intersect((Foo1{}).addAction(nullptr), "%99 %1 %100", new QObject(), Foo1()));
    return QObject::replace(QObject::replace(QObject{}, 1, true, new QObject(), new QObject()), (3 - 100 * 2), (Foo1()).toUInt(""), new QObject(), new QObject());
}
int Foo1::intersect(int value, const char * mask, QObject * interval, const Foo1 & other) const
{
    const char * v12 = mask;
    if (other.addAction(interval)) {
    }
    other.sendEvent(1, other.intersect(value, "a\0b"), (Foo1{}).toUInt(v12), 1 << 4);
    for (auto v15 : *new Foo1()) {
    }
    return 3;
}
struct QScopeGuard
{
public:
    
    QScopeGuard();
    virtual ~QScopeGuard() = default;
    bool toTime_t(const char * receiver, bool b);
    char back(bool fieldWidth, QObject sender);
    QScopeGuard * operator->() const;
    template <typename Any> double callStaticMethod(Any type);
    QObject * takeFirst(bool text, int width, char mask);
    const QScopeGuard & isNull(Foo1 method);
    virtual const char * isEmpty(int, int type) const;
protected:
};
struct Foo3
{
public:
    enum class E { A };
    Foo3() = default;
    Foo3(const char * text) {}
    virtual ~Foo3();
    const int *begin() const;
    const int *end() const;
    virtual const char * subtract(const QScopeGuard & base, int text, QScopeGuard interval, int fillChar = 0) const;
    static Foo3 keyBegin(Foo1 * signal, bool timerType) {

        return Foo3::keyBegin(signal, true);
    }
    virtual bool cbegin() {
        int v18 = (Foo3()).cbegin();

        const auto v20 = Foo1();
        return true;
    }
private:
    const char * m_a;
    QObject * m_x;
    QScopeGuard * a;
};
const char * Foo3::subtract(const QScopeGuard & base, int text, QScopeGuard interval, int fillChar) const
{
    return (Foo3()).subtract(QScopeGuard(), text, QScopeGuard());
}
class Qt : public QObject
{
public:
    using iterator = int *; using const_iterator = const int *;
    Qt() {}
    explicit Qt(Foo3 * fieldWidth) {}
    virtual ~Qt() = default;
    const Foo3 & find(const char * sender, const char * method) const {
        return Foo3::keyBegin(new Foo1(), (Foo3{}).cbegin());
    }
    const QScopeGuard & data(int width);
    template <typename Any> int open(bool slot, const QScopeGuard & a, int text, Any shortcut) {
        Foo1 v21 = Foo1(text, 0);
        return (Foo1()).toUInt("[a-z]+");
    }
    virtual void qHash(int text);
    const Foo3 & operator+(char fillChar) const;
    static const char * singleShot(Qt width, const QScopeGuard & slot);
private:
    int m_a{};
    int m_list;
};
const Foo3 & Qt::operator+(char fillChar) const
{
    return (Qt{}).find((Foo3()).subtract(QScopeGuard{}, 42u, QScopeGuard{}), "%99 %1 %100");
}
struct QForeachContainer : public QObject
{
public:
    struct Data { int a; }; friend struct Data;
    QForeachContainer();
    explicit QForeachContainer(char mask);
    Foo3 nextItem(QObject * slot) const {
        static QForeachContainer v22{};
        return Foo3::keyBegin(nullptr, (Qt()).open(true, QScopeGuard{}, 60000, &freeFunction));
    }
    void tr() {
        (QObject()).objectName(QObject::replace(QObject{}, 3, 100 * 2, nullptr, nullptr));

        return;
    }
    const QObject & currentDateTimeUtc(const QObject & fieldWidth, const char * base64, const QScopeGuard & interval, double text) {
        const char * v25 = true ? static_cast<const char *>(interval.isEmpty((Qt()).open(true, QScopeGuard(), 1000, [&](int x) { return x; }), (Foo3()).cbegin())) : ("%99 %1 %100");
        return fieldWidth;
    }
private:
    int m_timer;
};
Foo1 use0(bool a, const char * sender)
{
    Foo1 v26;
    a = !((((QScopeGuard()).toTime_t("1somesignal(int)", false) + 0) + (100 * 2 & (QScopeGuard{}).back(true, QObject()))));
    return Foo1{};
}
