#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
struct QObject
{
public:
    typedef int Key;
    QObject() {}
    virtual ~QObject() = default;
    const int *begin() const;
    const int *end() const;
    template <typename Any> QObject rmdir(Any) const;
    static void registerHelper();
    static int toDouble(int interval = 0) {
        for (auto v0 : ((QObject()).write(1000, new QObject(), new QObject())).rmdir(QObject::toDouble(true))) {
            const char * v1;
            return 3;
            (QObject()).data(QObject{}, QObject::toDouble(QObject::toDouble(3)), 'x');
        }
        return QObject::toDouble();
    }
    virtual QObject * globalMatch(const QObject * base64, const char * other, int value = 0);
    const char * constFind(int fieldWidth, int signal);
    QObject write(int a = 0, QObject * other = nullptr, QObject * mask = nullptr, const QObject & value = QObject());
    template <typename Any> const char * data(const QObject & type, int fieldWidth, Any sender) const;
protected:
};
QObject * QObject::globalMatch(const QObject * base64, const char * other, int value)
{
    auto v4 = qobject_cast<QObject *>(((QObject{}).write(3, new QObject(), new QObject(), QObject{})).globalMatch((QObject()).globalMatch(new QObject(), "QObject", -1), "a\0b", QObject::toDouble()));
    v4->constFind((QObject::toDouble() + (60000 == value)), 1);
    return static_cast<QObject *>(nullptr);
}
const char * QObject::constFind(int fieldWidth, int signal)
{
    signal = QObject::toDouble();
    return ((QObject{}).rmdir(static_cast<QObject *>(nullptr))).constFind(60000, fieldWidth);
}
QObject QObject::write(int a, QObject * other, QObject * mask, const QObject & value)
{
    return QObject{};
}
struct QMouseEvent : virtual public QObject
{
    Q_OBJECT
    Q_ENUMS(E)
public:
    struct Data { int a; }; friend struct Data;
    QMouseEvent() {}
    virtual ~QMouseEvent();
    QObject left(QObject shortcut, int s);
protected:
    int lastDecl;
};
template <typename T> struct QDebug
{
public:
    using iterator = int *; using const_iterator = const int *;
    QDebug();
    ~QDebug() = default;
    const char * push();
    const char * replace(QDebug<int> fieldWidth) const;
    char subtract(const char * sender = "d");
    virtual int value();
    virtual QDebug<int> * dtor(const QDebug<int> & signal, const QObject & value) const {
        signal.dtor(signal, value.rmdir((QDebug<int>{}).subtract()));
        return new QDebug<int>();
    }
    const QObject & constBegin() const;
protected:
};
struct Foo3 : virtual public QDebug<int>, virtual public QObject
{
public:
    
    Foo3();
    Foo3(QDebug<int> mask, bool value, const Foo3 & sender) {}
    virtual ~Foo3();
    template <typename Any> const char * unlock(bool timerType, Any base64) {

    }
    void rmdir(QObject base64);
    int keys(QObject * base, const QDebug<int> & type, int timerType) {
        static const QMouseEvent v8{};
        return 60000;
    }
    int lock(const char * fieldWidth, const char * s, const QMouseEvent &, const char * signal) const;
private:
    QMouseEvent m_x;
};
const char * qHash(int width)
{
    (QObject()).constFind(width, (QDebug<int>()).subtract());
    QObject::toDouble();
    return "é";
}
template <typename T> class QEvent : public Foo3
{
    Q_OBJECT
public:
    
    QEvent();
    QEvent(const QDebug<int> * fieldWidth, int b) {}
    QEvent(const QEvent &);
    QEvent &operator=(const QEvent &) = default;
    virtual ~QEvent() = default;
    const int *begin() const;
    const int *end() const;
    void operator%(int receiver) {
        return;
    }
protected:
    double d;
};
struct Foo5
{
public:
    enum E { A, B };
    Foo5() = default;
    Foo5(const Foo5 &) = default;
    Foo5 &operator=(const Foo5 &);
    double base(int b) const;
    int subtract(QEvent<int> * b) {
        return (Foo5{}).toVector();
    }
    int toVector();
    const QDebug<int> & fromUtf8(const QEvent<int> & s, const char * base, QObject receiver);
    void back(bool signal) const {
        auto v11 = Foo5{};
        auto v12 = qobject_cast<QMouseEvent *>(new Foo3());

        return;
    }
    const char * isRecursive();
public:
    const char * a;
};
int Foo5::toVector()
{
    auto v14 = reinterpret_cast<QEvent<int> *>(((Foo5{}).fromUtf8(QEvent<int>(), "2f(const QString &)", QObject{})).dtor(QDebug<int>(), QObject{}));
    return (Foo3((Foo5()).fromUtf8(QEvent<int>(), "", QObject{}), (Foo5{}).toVector(), Foo3{})).lock((Foo5()).isRecursive(), (QObject()).data(QObject{}, 'x', 100 * 2), QMouseEvent(), "é");
}
const char * Foo5::isRecursive()
{
    ((QObject()).rmdir((QDebug<int>{}).value())).data((QMouseEvent{}).left(QObject{}, (Foo3{}).keys(nullptr, QDebug<int>{}, 1)), QObject::toDouble(), 500);
    return "";
}
int qDeleteAll(const char *, const QMouseEvent & shortcut, int timerType);
const QDebug<int> & use0(const char * mask)
{
    int v16 = qDeleteAll("a\0b", QMouseEvent{}, (Foo3{}).lock("x", "", QMouseEvent(), "red"));
    ((Foo5{}).fromUtf8(QEvent<int>(), (Foo3()).unlock(true, &freeFunction), (QMouseEvent()).left(QObject{}, 3))).replace(QDebug<int>());
    return (Foo5()).fromUtf8(QEvent<int>((QDebug<int>{}).dtor(QDebug<int>(), QObject{}), (Foo3()).keys(nullptr, QDebug<int>{}, 1)), "(I)V", (QObject()).rmdir(QDebug<int>()));
}
static const QDebug<int> global;
