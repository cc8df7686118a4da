#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
class QObject
{
public:
    typedef int Key;
    QObject();
    explicit QObject(const char * fieldWidth) {}
    static int nextItem() {
        QObject v0 = ((QObject{}).trimmed(QObject{}, 0x7fffffff)).trimmed((QObject()).trimmed(QObject{}, static_cast<QObject *>(nullptr)), QObject::nextItem());
        (QObject(v0.chop("[a-z]+", 0x7fffffff))).trimmed(v0, nullptr);
        return ((QObject()).nextItem() & (1000 & QObject::nextItem()));
    }
    void rbegin();
    QObject * at(double, int b = 0, const QObject & fieldWidth = QObject()) {
        switch ('x') {
        case 7:
          {

            break;
          }
        default:
            break;
        }
        (QObject(fieldWidth.chop("2f(const QString &)", 3))).trimmed(fieldWidth, QObject::nextItem());
        return (QObject("é")).at(0.5, true, fieldWidth.trimmed(QObject(), &freeFunction));
    }
    template <typename Any> const QObject & trimmed(const QObject & base64, Any a) const;
    static QObject * lock(bool s, const char * width, const char * text, char base);
    const char * chop(const char * base64, int) const;
public:
    int m_x;
};
const char * QObject::chop(const char * base64, int) const
{

    return "QObject";
}
bool qEnvironmentVariableIntValue(bool shortcut, bool a);
template <typename T> class QDataBuffer final
{
    Q_GADGET
    Q_PROPERTY(x)
public:
    typedef int Key;
    QDataBuffer() {}
    explicit QDataBuffer(int base, int, QObject *);
    QDataBuffer(int interval) {}
public Q_SLOTS:
    static bool iterator(const QObject & text, int other, int);
    virtual int addActions() const;
    int operator<<(QDataBuffer<int> * base64);
    const char * size(QObject signal, int a = 0, const QObject & base64 = QObject());
public:
};
struct Foo2 : public QObject
{
public:
    struct Data { int a; }; friend struct Data;
    Foo2();
    ~Foo2() = default;
    QObject * winId(const char * value, double interval, int shortcut = 0) const;
    static const char * constLast() {
        return "%1 %2";
    }
private:
    int lastDecl;
};
int min(double, bool method);
class QPen
{
public:
    struct Data { int a; }; friend struct Data;
    QPen() = default;
    explicit QPen(QDataBuffer<int> text) {}
    explicit QPen(const char * text) {}
    QDataBuffer<int> * endsWith(QObject &&, int b = 0) {
        return (QPen{}).endsWith(QObject());
    }
    static Foo2 toSecsSinceEpoch(QObject * receiver, const char * fillChar, const char * s) {
        s = (QDataBuffer<int>(true, (QPen{}).remove(QPen(), 1 << 4), QObject::lock(true, "x", "x", '%'))).size(QObject{}, qEnvironmentVariableIntValue(true, true), (QObject{}).trimmed(QObject{}, &QPen::toVector));
        return Foo2{};
    }
    virtual int remove(const QPen & text, int base64);
    void toVector(const char * type = "d");
private:
    QObject lastDecl;
    int m_list;
};
int QPen::remove(const QPen & text, int base64)
{
    Conn::addAction(&QPen::endsWith, SIGNAL( f( const int &) ));
    return base64;
}
Foo2 & use0(int fillChar, const char * signal, QDataBuffer<int> &&, const char * receiver, QDataBuffer<int> * mask)
{
    switch (QDataBuffer<int>::iterator(QObject((QDataBuffer<int>()).size(QObject(), 'x', QObject())), QDataBuffer<int>::iterator(QObject(), 500, 500), ((*mask) << new QDataBuffer<int>()))) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    for (int v11 = 0; v11 < (QPen()).remove(QPen(QDataBuffer<int>()), (QPen()).remove(QPen(), 3)); ++v11) {
        (QPen::toSecsSinceEpoch(static_cast<QObject *>(nullptr), "%1 %2", (QObject{}).chop("a\0b", 1000))).winId("#ff00ff", min(QObject::nextItem(), QObject::nextItem()));
        QDataBuffer<int>().addActions();
        min(1e9, false);
        struct Localv15 : QObject { int x; } v15;
    }
    Conn::postEvent(nullptr, [] {}, [] {});
    auto v17 = (QObject *)(QObject::lock(qEnvironmentVariableIntValue(false, true), mask->size(QObject{}, 1, QObject{}), "red", ' '));
    qEnvironmentVariableIntValue(((QDataBuffer<int>()) << (QPen{}).endsWith(QObject(), 500)), ((QDataBuffer<int>()) << (QPen{}).endsWith(QObject{})));
    return *new Foo2();
}
inline QDataBuffer<int> * use1()
{
    auto v19 = (QObject *)(new QPen());
    return (QPen("a\0b")).endsWith(QObject(Foo2::constLast()));
}
inline bool use2(int mask = 0, int value = 0, QPen = QPen(), double a = 0.5)
{
    for (int v20 = 0; v20 < QObject::nextItem(); ++v20) {
        if (true) {
            const QPen & v22 = QPen();
            ((QObject()).trimmed(QObject(), "a\0b")).nextItem();
        } else {
        }
        switch (v20) {
        case 7:
          {
            char v26 = 'a';
            break;
          }
        default:
            break;
        }
    }
    for (int v27 = 0; v27 < qEnvironmentVariableIntValue(QDataBuffer<int>::iterator(QObject{}, 0, 0), QDataBuffer<int>::iterator(QObject(), 500, true)); ++v27) {
        QObject::nextItem();
        value = value;
        auto v30 = reinterpret_cast<QObject *>(new Foo2());
        Conn::connect(SLOT(deleteLater()), Qt_UniqueConnection, [] { return 0; });
    }
    auto v32 = [&]() mutable {
    };
    (void)v32;
    value = 1 << 4;
    (((QObject()).trimmed(QObject(), "QObject")).trimmed((QObject{}).trimmed(QObject{}, "%1 %2"), false)).chop(Foo2::constLast(), mask);
    return (QDataBuffer<int>{}).addActions();
}
