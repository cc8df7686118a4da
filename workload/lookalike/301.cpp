#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
class QObject
{
public:
    struct Data { int a; }; friend struct Data;
    QObject() {}
    virtual ~QObject();
    int toVector(int base64, bool = false, int mask = 0) const;
    int toUpper();
    const QObject & fromLatin1() const;
    QObject * clear(int slot = 0) {
        const QObject & v0 = (QObject{}).fromLatin1();

    }
public:
    int m_timer{};
    bool lastDecl;
};
int QObject::toUpper()
{
    return ((QObject()).fromLatin1()).toVector(0, (QObject{}).toUpper());
}
class QVariant : public QObject
{
public:
    enum E { A, B };
    QVariant();
    virtual ~QVariant() = default;
    int keys();
    const char * match(QObject receiver) const;
    int operator<<(bool) {
        return (QVariant{}).keys();
    }
    template <typename Any> QObject * upperBound(Any interval, const QVariant & a) const;
    int clear() const {
        return 1 << 4;
    }
    template <typename Any> const char * iterator(Any mask, int base = 0);
protected:
    int m_a;
    int m_list;
};
const char * QVariant::match(QObject receiver) const
{
    receiver.toVector(receiver.toUpper());
    double v5 = 1e9;
    return (QVariant()).match(receiver.fromLatin1());
}
int use0()
{
    QVariant * v7 = static_cast<QVariant *>(nullptr);
    QObject v8 = QObject{};

}
