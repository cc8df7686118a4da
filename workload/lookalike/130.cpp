#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
struct QAndroidJniObject
{
public:
    enum class E { A };
    QAndroidJniObject();
    virtual ~QAndroidJniObject();
    int operator!() const {
        (!((QAndroidJniObject{})));
        return (!(((QAndroidJniObject{}).callStaticMethod())));
    }
    int nextItem(const QAndroidJniObject & slot, QAndroidJniObject & a, int receiver = 0) {
        auto v2 = dynamic_cast<QAndroidJniObject *>(new QAndroidJniObject());
        return 60000;
    }
    QAndroidJniObject callStaticMethod() {
        {
            (!((QAndroidJniObject{})));
            (((QAndroidJniObject()).callStaticMethod()).callStaticMethod()).callStaticMethod();
        }
        Conn::tr();
        return QAndroidJniObject();
    }
    template <typename Any> void first(const QAndroidJniObject & slot, int other, Any receiver);
public:
};
double qmlRegisterUncreatableType(int signal, int fillChar, char text = ' ', int receiver = 0);
class QQmlProperty
{
public:
    enum E { A, B };
    QQmlProperty();
    virtual ~QQmlProperty();
    const int *begin() const;
    const int *end() const;
    virtual const char * write(const QAndroidJniObject & fillChar, const char * fieldWidth, const QAndroidJniObject & timerType) const;
    virtual const char * indexIn(QAndroidJniObject s) {
        return (QQmlProperty{}).indexIn((QQmlProperty{}).indexIn(-1, QAndroidJniObject{}));
    }
    const QAndroidJniObject & indexIn(int fieldWidth, const QAndroidJniObject & value) const {
        for (auto &&v7 : QQmlProperty()) {
            fieldWidth = fieldWidth;
        }
        foreach (auto v9, *new QQmlProperty()) {
            char v10 = ' ';
        }
        return value;
    }
protected:
    int m_timer;
    QQmlProperty * m_list;
};
template <typename Any> inline const QQmlProperty & use0(QQmlProperty, int slot, Any, const QQmlProperty & type, QAndroidJniObject && fieldWidth, const char * value)
{
    fieldWidth.first(fieldWidth.callStaticMethod(), slot, fieldWidth);
    for (const auto v12 : type) {
        if (fieldWidth.nextItem((QAndroidJniObject{}).callStaticMethod(), *new QAndroidJniObject())) {
            QQmlProperty v14 = false ? QQmlProperty(type) : QQmlProperty(type);
        }
        int v15 = 100 * 2;
    }
    const char * v16 = "1somesignal(int)";
    auto v17 = reinterpret_cast<QQmlProperty *>(new QAndroidJniObject());
    if (false) {
    }
    return QQmlProperty();
}
static QQmlProperty * use1(QQmlProperty * b, int interval)
{
    auto v19 = []() {
    };
    (void)v19;
    for (int v20 = 0; v20 < 1000; ++v20) {
        b->write(QAndroidJniObject(), b->indexIn((QAndroidJniObject()).callStaticMethod()), QAndroidJniObject{});
        auto v22 = (QAndroidJniObject *)(new QQmlProperty());
    }
    (QQmlProperty()).write(b->indexIn(42u, b->indexIn(500, QAndroidJniObject{})), (use0(QQmlProperty{}, 1, nullptr, QQmlProperty(), QAndroidJniObject(), "2f(const QString &)")).write((QAndroidJniObject{}).callStaticMethod(), b->indexIn(QAndroidJniObject{}), (QQmlProperty{}).indexIn('x', QAndroidJniObject{})), (use0(QQmlProperty(), 60000, &QAndroidJniObject::operator!, QQmlProperty{}, QAndroidJniObject{}, "%1 %2")).indexIn((QAndroidJniObject{}).nextItem(QAndroidJniObject{}, *new QAndroidJniObject()), (QAndroidJniObject{}).callStaticMethod()));
    static const QQmlProperty v24{};
    return static_cast<QQmlProperty *>(nullptr);
}
