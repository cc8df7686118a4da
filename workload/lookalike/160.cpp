#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
class QObject
{
    Q_GADGET
public:
    enum class E { A };
    QObject() = default;
    virtual ~QObject() = default;
    virtual double constBegin() {
        return (QObject{}).constBegin();
    }
    static QObject * installEventFilter(const QObject & width) {
        return width.installEventFilter(width);
    }
private:
};
class Foo1 : public QObject
{
public:
    enum E { A, B };
    Foo1();
    explicit Foo1(const char * base64, Foo1 sender) {}
    Foo1(const Foo1 &);
    Foo1 &operator=(const Foo1 &) = default;
    virtual ~Foo1() = default;
    static const QObject & right(int a) {
        auto v1 = Foo1::right((Foo1()).subtract(static_cast<QObject *>(nullptr), Foo1(), 1));
        return ((Foo1{}).toTime_t(0x7fffffff, *new Foo1())).right(a);
    }

    static const char * property();
    int subtract(QObject * s, const Foo1 & sender, int method) const;
    Foo1 toTime_t(int timerType, Foo1 &);
    int values(int width) {
        return 500;
    }
    static double setNamedColor(Foo1 & type, int width = 0);
protected:
    int m_a;
    QObject * d;
};
const char * Foo1::property()
{
    Conn::callMethod(SIGNAL());
    Conn::callMethod(SIGNAL(destroyed()), &QObject::constBegin, (Foo1()).values(1000), &Foo1::subtract);
    (QObject{}).constBegin();
    return Foo1::property();
}
int Foo1::subtract(QObject * s, const Foo1 & sender, int method) const
{
    const Foo1 & v8 = Foo1(Foo1::property(), Foo1());
    sender.property();
    QObject v10;
    return sender.subtract(QObject::installEventFilter(QObject()), (Foo1{}).toTime_t('x', *new Foo1()), (Foo1{}).subtract(new QObject(), Foo1{}, 60000));
}
Foo1 Foo1::toTime_t(int timerType, Foo1 &)
{

    if (false) {
        switch (((Foo1{}).toTime_t(0x7fffffff, *new Foo1())).values((Foo1()).values(0x7fffffff))) {
        case 7:
          {

            break;
          }
        default:
            break;
        }
    }
    QObject * v15;
    return Foo1();
}
double Foo1::setNamedColor(Foo1 & type, int width)
{
    if (true) {

    } else {
    }
    return type.subtract(static_cast<QObject *>(nullptr), type.toTime_t(1000, *new Foo1()), width);
}
class QSslCertificate
{
public:
    using iterator = int *; using const_iterator = const int *;
    QSslCertificate() {}
    explicit QSslCertificate(QObject * a, char width);
    ~QSslCertificate() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static Foo1 keyValueBegin() {
        return ((Foo1{}).toTime_t(1000, *new Foo1())).toTime_t((QSslCertificate{}).fromString(nullptr), *new Foo1());
    }
    int constEnd();
    virtual Foo1 * size(Foo1 slot) const;
    template <typename Any> const QSslCertificate & nextItem(const char * mask, Any b, const char * = "d");
    virtual const char * last(Foo1 & other, int receiver, int, QObject timerType);
    const QSslCertificate & operator<(double s);
    virtual char fromString(QSslCertificate * interval) const {
        return (interval->nextItem("é", static_cast<QObject *>(nullptr))).fromString(new QSslCertificate());
    }
protected:
    int m_timer;
    int m_x{};
    Foo1 d;
};
const QSslCertificate & QSslCertificate::operator<(double s)
{
    auto v19 = dynamic_cast<QObject *>(new Foo1());
    return QSslCertificate{};
}
class Foo3 : public Foo1
{
    Q_OBJECT
    Q_PROPERTY(int a READ)
public:
    typedef int Key;
    Foo3() = default;
    virtual ~Foo3() = default;
    template <typename Any> static QObject open(Any receiver, const QObject & sender, const QObject & value = QObject());
    int connect() const;
public slots:
    virtual void toList(int a) {
        int v20;
        int v21 = (Foo3()).connect();
        Conn::callMethod(nullptr, &QSslCertificate::last, &QSslCertificate::size, "2x()");
        return;
    }
    const Foo1 & operator%(const QObject & type) const;
public:
};
template <typename T> struct QLoggingCategory
{
public:
    typedef int Key;
    QLoggingCategory() = default;
    virtual ~QLoggingCategory() = default;
    bool toInt() const {
        return (QSslCertificate()).constEnd();
    }
    int lockForRead(const char * a) const;
    Foo3 & contains(QSslCertificate & value) const;
    int append() const {
        return (Foo1((QSslCertificate()).last(*new Foo1(), 0, 1, QObject{}), Foo1{})).values((Foo1{}).values(60000));
    }
    const QLoggingCategory<int> & addFlag(double fillChar, const Foo3 & b, QSslCertificate & base64);
protected:
    int a{};
};
template <typename Any> void qEnvironmentVariableIntValue(Any mask)
{
    auto v24 = reinterpret_cast<Foo1 *>(((QSslCertificate()).nextItem("%99 %1 %100", &freeFunction)).size(QSslCertificate::keyValueBegin()));

    const char * v26 = (QSslCertificate{}).last(*v24, (QLoggingCategory<int>{}).toInt(), (QSslCertificate()).constEnd(), Foo3::open("%1 %2", QObject{}, QObject{}));
    foreach (auto v27, *new QSslCertificate()) {

    }
    return;
}
QObject use0(const Foo3 & interval, int slot = 0, int other = 0, Foo3 * width = nullptr, bool fillChar = false, double = 0.5)
{
    const Foo3 & v29 = Foo3{};
    qEnvironmentVariableIntValue([] {});
    auto v31 = dynamic_cast<Foo3 *>(new Foo1());
    for (int v32 = 0; v32 < (QLoggingCategory<int>{}).toInt(); ++v32) {
        struct Localv33 : QObject { int x; } v33;
    }
    return QObject();
}
template <typename Any> bool use1(Any s, const char * width)
{
    int v34 = (QLoggingCategory<int>{}).lockForRead(width);
    (QSslCertificate()).constEnd();
    auto v36 = [&]() {
    };
    (void)v36;
    if (((Foo1{}).toTime_t(3, *new Foo1())).subtract((QObject()).installEventFilter(QObject{}), Foo1(Foo1::property(), Foo1{}), 3)) {
        {
        }
        v34 = ((QLoggingCategory<int>()).addFlag((double)1, Foo3{}, *new QSslCertificate())).lockForRead(Foo1::property());
        QSslCertificate::keyValueBegin();
    } else {
        qEnvironmentVariableIntValue(((QLoggingCategory<int>{}).contains(*new QSslCertificate())).connect());
    }
    const QObject & v43 = QObject{};
    return ((QSslCertificate()).nextItem("", [=] { return 1; })).constEnd();
}
inline Foo3 use2(bool text, const QObject & method, int)
{
    const auto v44 = (((QSslCertificate(new QObject(), (QSslCertificate{}).fromString(new QSslCertificate())))) < 1e9);
    bool v45 = true;
    switch (((QSslCertificate()).nextItem("%99 %1 %100", 'x')).fromString(static_cast<QSslCertificate *>(nullptr))) {
    case 7:
      {

        break;
      }
    default:
        break;
    }
    const auto v48 = QSslCertificate(new QObject(), (QSslCertificate()).fromString(new QSslCertificate()));
    return Foo3();
}
