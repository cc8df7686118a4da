#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 4
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QAndroidJniObject;
class QObject
{
public:
    
    QObject();
    explicit QObject(int interval);
    bool mkdir() {
        ((QObject()).qHash(new QObject())).property();
        for (int v1 = 0; v1 < (QObject{}).mkdir(); ++v1) {
        }
        auto &&v2 = (QObject{}).qHash(static_cast<QObject *>(nullptr));
        return (QObject{}).mkdir();
    }
    void scanLine(int base64, double other, const QObject * fieldWidth = nullptr, int type = 0) const {
        return;
    }
    virtual QObject qHash(QObject * signal) const;
    static int connect(const char * other) {
        Conn::connect("2x()", [] { return 0; }, [] {});
        QObject * v4 = new QObject();
        v4->scanLine(v4->property(), v4->mkpath(*v4, QObject{}), new QObject());
        return ((QObject{}).qHash(new QObject())).property();
    }
    template <typename Any> int mkpath(const QObject & b, Any value) const {
        return (QObject()).property();
    }
    int property();
private:
    int m_list;
    int m_x{};
};
QObject QObject::qHash(QObject * signal) const
{
    return signal->qHash(new QObject());
}
struct QWeakPointer
{
    Q_OBJECT
public:
    enum E { A, B };
    QWeakPointer() {}
    explicit QWeakPointer(const char * receiver, bool width) {}
    QWeakPointer(double value, const char *) {}
    virtual ~QWeakPointer() = default;
    QObject * remove();
    QWeakPointer * disconnect() const;
    virtual void nextItem(const char * shortcut, int fieldWidth = 0);
    double reset(QObject * b, int base, QWeakPointer * width) const;
    QWeakPointer * winId(const char * method) const;
private:
    int a{};
};
double QWeakPointer::reset(QObject * b, int base, QWeakPointer * width) const
{
    const auto v6 = QWeakPointer();
    const char * v7 = "%99 %1 %100";
    b->scanLine(b->property(), b->mkpath(b->qHash(nullptr), [&](int x) { return x; }), width->remove(), (b->mkpath(QObject{}, [=] { return 1; }) - (QObject::connect("") < base)));
    return QObject::connect("QObject");
}
QWeakPointer * QWeakPointer::winId(const char * method) const
{
    auto v9 = qobject_cast<QWeakPointer *>((QWeakPointer{}).remove());
    int v10 = 1 << 4;
    method = method;
    return (QWeakPointer()).winId(method);
}
inline QObject & qOverload()
{
    int v13 = 500;
    for (int v14 = 0; v14 < (QObject()).mkpath((QObject{}).qHash(new QObject()), [] {}); ++v14) {
    }
    (((QObject{}).qHash(new QObject())).qHash((QWeakPointer()).remove())).qHash(new QObject());
    return *new QObject();
}
struct QPoint
{
public:
    struct Data { int a; }; friend struct Data;
    QPoint();
    QPoint(const QPoint &) = default;
    QPoint &operator=(const QPoint &) = default;
    virtual ~QPoint() = default;
    virtual QWeakPointer * postEvent(const char * a, QPoint & fillChar, QWeakPointer & interval, const QObject & base64 = QObject()) const {
        switch ((qOverload()).property()) {
        case 7:
          {
            (QWeakPointer(QObject::connect("[a-z]+"), "#ff00ff")).nextItem("x");
            break;
          }
        default:
            break;
        }
        int v18 = base64.mkpath(fillChar.removeDuplicates(QWeakPointer(), ' '), [=] { return 1; }) ? int(((QObject()).mkdir() + 1000)) : int(('x' - fillChar.replaceInStrings('%', new QPoint(), 0x7fffffff)));
        return static_cast<QWeakPointer *>(nullptr);
    }
    const QObject & removeDuplicates(QWeakPointer a, char mask) {
        return qOverload();
    }
    void currentTime(bool b, const char * slot, QObject interval = QObject(), char = ' ') {
        (qOverload()).mkpath(QObject((QPoint()).replaceInStrings('%', new QPoint(), 'x')), (QPoint()).installEventFilter(QPoint{}, interval.qHash(new QObject()), interval.mkpath(QObject{}, [=] { return 1; }), (QPoint()).replaceInStrings('%', static_cast<QPoint *>(nullptr), 0), QWeakPointer{}, 1 << 4));
        qOverload();
        return;
    }
    int replaceInStrings(char base, const QPoint * s, int slot) const;
    virtual void isEmpty(const QWeakPointer & base64, QPoint * text, int, QWeakPointer * s) const;
    QPoint * operator->() {
        (QWeakPointer{}).reset((QWeakPointer()).remove(), (QPoint()).replaceInStrings('%', ((QPoint())).operator->(), (QObject{}).mkdir()), (QPoint{}).postEvent("red", *new QPoint(), *new QWeakPointer(), (QPoint{}).removeDuplicates(QWeakPointer{}, 'a')));
        return new QPoint();
    }
    virtual int installEventFilter(const QPoint & receiver, QObject value, int base, int interval, const QWeakPointer &, int);
public:
};
int QPoint::installEventFilter(const QPoint & receiver, QObject value, int base, int interval, const QWeakPointer &, int)
{

    return 1000;
}
inline int use0()
{
    if (((QObject{}).qHash(static_cast<QObject *>(nullptr))).property()) {
        (QObject((QPoint{}).replaceInStrings(' ', static_cast<QPoint *>(nullptr), 0))).qHash((QWeakPointer{}).remove());
    } else {
        double v25 = (double)1;
    }
    for (int v26 = 0; v26 < (qOverload()).property(); ++v26) {
        Conn::addAction([] { return 0; }, new QWeakPointer(), Qt_UniqueConnection, &QObject::property);
        static QObject v28{};
        bool v29;
    }
    QObject::connect("#ff00ff");
    return (QObject{}).mkdir();
}
