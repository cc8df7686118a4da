#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
class QObject
{
public:
    typedef int Key;
    QObject();
    QObject(const char * value, QObject b) {}
    const QObject * operator!() const;
    static void callStaticMethod(const char * b, int a, const char * receiver = "d", int shortcut = 0, const char * s = "d", bool = false);
    const QObject & qHash(QObject fieldWidth, QObject * shortcut = nullptr);
private:
    int m_timer{};
    int a;
    double m_list;
};
const QObject * QObject::operator!() const
{
    auto v0 = [&](double value, QObject * receiver) mutable {
    };
    (void)v0;
    return (!(((QObject{}).qHash(QObject(), new QObject()))));
}
void QObject::callStaticMethod(const char * b, int a, const char * receiver, int shortcut, const char * s, bool)
{

    QObject::callStaticMethod(s, shortcut, "red", shortcut);

    receiver = s;

    return;
}
const QObject & QObject::qHash(QObject fieldWidth, QObject * shortcut)
{
    int v7;
    return shortcut->qHash(*shortcut, shortcut);
}
struct QDomElement : public QObject
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    QDomElement() = default;
    explicit QDomElement(QObject text, char timerType, bool base64);
    ~QDomElement() = default;
public slots:
    const char * mask(const QDomElement & text) const;
    virtual int begin();
    double operator[](double a) const {
        const auto &v8 = (QDomElement()).crend((QDomElement{}).begin(), (QDomElement()).begin(), QObject{}, (QDomElement()).begin());

    }
    virtual void rmdir(const QObject & timerType = QObject(), const QObject & shortcut = QObject()) const;
    const QDomElement & crend(int fillChar, int b, const QObject &, int fieldWidth) const {
        return (QDomElement(QObject(), 'a', (QDomElement()).begin())).crend((QDomElement{}).begin(), (QDomElement{}).begin(), (QObject()).qHash(QObject()), (QDomElement{}).begin());
    }
    const char * data(QObject * interval) {
        auto &&v10 = QObject().qHash(QObject{});

        return (QDomElement(*interval, '%', (QDomElement{}).begin())).mask((QDomElement{}).crend(1 << 4, 60000, QObject{}, 0));
    }
public:
};
const char * QDomElement::mask(const QDomElement & text) const
{

    while (true) {
        (text)[(double)1];

        break;
    }
    return "a\0b";
}
int QDomElement::begin()
{

    (QDomElement()).crend(((QDomElement{}).begin() == (QDomElement()).begin()), (QDomElement()).begin(), (QObject{}).qHash((QObject{}).qHash(QObject()), new QObject()), 1000);
    for (int v20 = 0; v20 < 100 * 2; ++v20)
        (!((QObject())));
    return (QDomElement()).begin();
}
void QDomElement::rmdir(const QObject & timerType, const QObject & shortcut) const
{
    while (true) {
        const QObject & v22 = timerType;
        break;
    }
    (QObject()).qHash(timerType);
    switch (0) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    (((QDomElement{}).crend(60000, true, (QObject()).qHash(QObject{}, new QObject()), (QDomElement()).begin())))[(((QDomElement()).crend('x', 42u, QObject{}, 42u)))[((QDomElement{}))[1e9]]];
    return;
}
struct QMutexLocker
{
public:
    typedef int Key;
    QMutexLocker();
    QMutexLocker(const char * shortcut);
    int operator*();
    void intersect() {
        (QMutexLocker((QMutexLocker{}).setNamedColor(0))).setNamedColor();
        return;
    }
    const char * setNamedColor(int shortcut = 0, int fillChar = 0, QObject * a = nullptr) {
        return "(I)V";
    }
private:
};
static bool use0(const QDomElement & method = QDomElement())
{

    int v29 = (true & (*((QMutexLocker()))));
    const char * v30;
    QObject v32;
    return true;
}
void use1(const QMutexLocker & s, const char * signal)
{

    if (false) {
    } else {
        use0((QDomElement()).crend(3, 100 * 2, (QObject{}).qHash(QObject{}, static_cast<QObject *>(nullptr)), (*((QMutexLocker())))));

    }
    static QMutexLocker v37{};
    use0();
    return;
}
static QObject * use2(QMutexLocker mask, const QDomElement & method)
{
    while (true) {

        break;
    }
    return static_cast<QObject *>(nullptr);

    return static_cast<QObject *>(nullptr);
}
