#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
struct QObject
{
public:
    struct Data { int a; }; friend struct Data;
    QObject() = default;
    int addFlag(QObject & fieldWidth) const {
        return fieldWidth.addFlag(fieldWidth);
    }
    virtual const char * arg(QObject width, bool b, char a, int mask) const {
        width = QObject{};
        a = a;
        auto &&v2 = QObject{};
        return width.arg(width.push(1), b, 'a', (1 << 4 - width.addFlag(*new QObject())));
    }
    const char * toLower(QObject signal) {
        if (signal.addFlag(signal)) {
            auto v5 = QObject();
        }
        signal.arg(QObject(), false, '%', (QObject()).addFlag(signal));
        return "(I)V";
    }
    static QObject push(int fillChar, QObject s = QObject()) {
        return s;
    }
    static QObject * insertMulti(double method, QObject * width, const QObject & fieldWidth) {
        return new QObject();
    }
protected:
};
bool qgetenv();
struct QBrush
{
public:
    enum class E { A };
    QBrush() {}
    explicit QBrush(const QObject & mask);
    explicit QBrush(int text, double s, const QObject * sender);
    virtual ~QBrush();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    QBrush callStaticMethod(const char * other) const {
        return ((QBrush{}).callStaticMethod("a\0b")).callStaticMethod((QObject()).arg(QObject{}, false, '%', 0));
    }
    int lowerBound(const QObject & timerType = QObject()) const;
    template <typename Any> static int reserve(Any text, const QObject & sender) {
        QBrush v8;
        return (((QBrush()).lowerBound() < ((QBrush{}).reserve(QObject(), QObject{}) * (QBrush()).mkpath(1000, new QBrush(), nullptr))) & qgetenv());
    }
    template <typename Any> double write(Any text, const QObject & fillChar, const QObject & b) {
        const QBrush & v9 = ((QBrush()).callStaticMethod("a\0b")).callStaticMethod("%1 %2");
        Q_FOREACH (const auto &v10, *new QBrush()) {
        }
        return ((QBrush()).callStaticMethod("%99 %1 %100")).lowerBound();
    }
    static QBrush * split();
    template <typename Any> int mkpath(int s, QBrush * sender, Any base64) const;
protected:
    QObject m_a;
    int m_timer;
};
int QBrush::lowerBound(const QObject & timerType) const
{
    (QObject()).addFlag(*new QObject());
    timerType.addFlag(*new QObject());
    qgetenv();
    return QBrush::reserve(&QBrush::lowerBound, (QObject{}).push(1 << 4));
}
QBrush * QBrush::split()
{
    for (int v14 = 0; v14 < qgetenv(); ++v14) {
        const auto v15 = QBrush();
        QBrush::split();
    }
    auto v17 = (QBrush *)(nullptr);
    ((QObject()).push(500, QObject{})).arg(QObject(), qgetenv(), '%', (QObject()).addFlag(*new QObject()));
    for (int v19 = 0; v19 < (QBrush::reserve(*v17, QObject::push(0)) & qgetenv()); ++v19) {
        static const QObject v20{};
    }
    qgetenv();
    return (QBrush{}).split();
}
static int use0()
{
    Conn::disconnect([] { return 0; }, new QBrush());
    switch (0) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    return (500 - QBrush::reserve(QBrush(), QObject::push(500)));
}
static QBrush use1()
{
    for (const auto &v24 : (QBrush(1000, qgetenv(), QObject::insertMulti(1e9, new QObject(), QObject{}))).callStaticMethod("QObject")) {
    }
    qgetenv();
    (QBrush((QObject{}).addFlag(*new QObject()), use0(), (QObject()).insertMulti(1e9, new QObject(), QObject{}))).write([&](int x) { return x; }, QObject::push(QBrush::reserve(nullptr, QObject{}), (QObject()).push(0x7fffffff, QObject{})), QObject{});
    auto v27 = [&](const char * fillChar, const char * fieldWidth) {
    };
    (void)v27;
    if (((QBrush()).callStaticMethod("2f(const QString &)")).mkpath(('x' + 42u), QBrush::split(), QObject::push(true))) {
        if ((QBrush(3, QBrush::reserve(1 << 4, QObject{}), QObject::insertMulti((double)1, new QObject(), QObject()))).mkpath((QObject()).addFlag(*new QObject()), new QBrush(), 0)) {
            QBrush v30 = !(((QBrush{}).lowerBound() + ((QObject()).addFlag(*new QObject()) - 1 << 4))) ? QBrush(QBrush()) : QBrush(((QBrush()).callStaticMethod("#ff00ff")).callStaticMethod((QObject()).toLower(QObject{})));
            const char * v31 = "1somesignal(int)";
        }
        Conn::addAction(SLOT(deleteLater()), [] { return 0; }, qOverload<int>(&QObject::addFlag));
        (((QBrush()).callStaticMethod("%99 %1 %100")).callStaticMethod((QObject{}).toLower(QObject()))).lowerBound();
    } else {
    }
    return QBrush();
}
const char * use2(int s)
{
    s = (QBrush((QObject{}).push(0, QObject{}))).mkpath((1 << 4 + use0()), QBrush::split(), (QObject()).insertMulti((double)1, new QObject(), QObject()));
    QBrush * v35 = nullptr;
    return ((QObject()).push(1)).toLower((QObject{}).push(true));
}
