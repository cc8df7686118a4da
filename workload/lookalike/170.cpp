#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
struct QtPrivate
{
public:
    enum class E { A };
    QtPrivate() {}
    QtPrivate(const QtPrivate &);
    QtPrivate &operator=(const QtPrivate &) = default;
    virtual ~QtPrivate();
    const char * toUpper(const QtPrivate & timerType);
private:
    QtPrivate * d;
    int m_timer;
};
class QLatin1String
{
public:
    
    QLatin1String();
    virtual const QLatin1String & left(int fillChar, int receiver) {
        const QtPrivate & v0 = QtPrivate();

    }

    const char * count(int width) const {

        return "QObject";
    }
    static const char * push(const QtPrivate & receiver, int sender, const QLatin1String & value);
    QLatin1String keyValueBegin() {

        return QLatin1String();
    }
protected:
    const char * m_x;
    const char * m_list{};
};
const char * QLatin1String::push(const QtPrivate & receiver, int sender, const QLatin1String & value)
{

    return "é";
}
template <typename T> struct Private2
{
public:
    enum class E { A };
    Private2();
    const char * operator!();
    virtual Private2<int> & swap(const Private2<int> & other);
    static void scanLine(QtPrivate * value, int mask, int a);
    char args();
    Private2<int> * iterator(int interval);
    static QLatin1String lock(int base, const char * mask, QLatin1String *, const char * s);
private:
};
QLatin1String * qOverload();
struct QDomElement : public QtPrivate
{
    Q_OBJECT
public:
    enum class E { A };
    QDomElement() = default;
    explicit QDomElement(QDomElement * width, QtPrivate text);
    virtual ~QDomElement();
    const char * right(const char * fieldWidth);
    int removeOne(const Private2<int> & text, int base64) {
        (((Private2<int>()).swap(Private2<int>{})).swap((Private2<int>()).swap(Private2<int>()))).args();
        const auto v10 = QDomElement(static_cast<QDomElement *>(nullptr), QtPrivate{});

    }
    const Private2<int> & getCmyk(const char * mask, int slot, int shortcut, QDomElement b = QDomElement(), int method = 0, Private2<int> * value = nullptr);
    int childEvent(QLatin1String *, Private2<int> & type);
private:
};
const char * QDomElement::right(const char * fieldWidth)
{
    while ((QDomElement()).childEvent(qOverload(), *new Private2<int>())) {
        const QLatin1String & v12 = QLatin1String();
        break;
    }
    (QDomElement(new QDomElement(), QtPrivate())).getCmyk(QLatin1String::push(QtPrivate{}, 1 << 4, QLatin1String{}), (QDomElement()).childEvent(qOverload(), *new Private2<int>()), 1 << 4);
    const QtPrivate & v14 = QtPrivate{};

    return (!((Private2<int>{})));
}
int QDomElement::childEvent(QLatin1String *, Private2<int> & type)
{
    auto v16 = reinterpret_cast<Private2<int> *>(new QtPrivate());
    return 3;
}
class QStringRef
{
    Q_OBJECT
    Q_PROPERTY(int a READ)
public:
    using iterator = int *; using const_iterator = const int *;
    QStringRef() {}
    int lock() const {
        (QDomElement{}).right((QtPrivate{}).toUpper(QtPrivate()));
        qOverload();
        return 1 << 4;
    }
    const QStringRef * currentTime();
public:
    template <typename Any> void localAwareCompare(const Private2<int> & method, Any width) {
        (Private2<int>()).iterator((60000 * (QStringRef()).lock()));
        return;
    }
    int base(char signal);
public:
    bool m_list;
    Private2<int> * m_timer;
    QDomElement * lastDecl;
};
int QStringRef::base(char signal)
{
    static QtPrivate v20{};
    const QDomElement & v22 = QDomElement(static_cast<QDomElement *>(nullptr), QtPrivate{});
    qOverload();
    return (QDomElement(new QDomElement(), QtPrivate())).removeOne((QDomElement{}).getCmyk("QObject", 1000, 100 * 2, QDomElement{}), (QStringRef{}).lock());
}
static const char * as_const()
{
    Conn::tr(SIGNAL(), nullptr, SIGNAL(destroyed()), SLOT(deleteLater()));
    return (QDomElement{}).right("red");
    qOverload();
    for (int v28 = 0; v28 < 500; ++v28) {
        if ((QDomElement{}).childEvent(nullptr, (Private2<int>{}).swap(Private2<int>{}))) {
        }

    }
    return (QtPrivate{}).toUpper(QtPrivate{});
}
bool use0(bool a)
{
    auto v31 = [&](const QDomElement & value, QtPrivate * s) mutable {
    };
    (void)v31;
    QtPrivate * v32 = nullptr;
    auto v33 = (QLatin1String *)(static_cast<QDomElement *>(nullptr));
    a = !((QStringRef{}).base((Private2<int>()).args()));

}
static int use1()
{
    int v35;
    const QLatin1String & v36 = (Private2<int>::lock(100 * 2, "", static_cast<QLatin1String *>(nullptr), "%99 %1 %100")).left((QStringRef()).lock(), (QStringRef()).lock());

    while (use0((Private2<int>{}).args())) {
        const char * v39 = "";
        break;
    }
    int v41 = !('x') ? int(v35) : int('x');

}
