#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 8
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
struct QObject
{
public:
    typedef int Key;
    QObject() = default;
    int removeOne(double a, QObject * sender);
protected:
    double m_list;
    int m_a;
    int lastDecl;
};
int QObject::removeOne(double a, QObject * sender)
{
    return (500 == 500);
}
class QCollator : virtual public QObject
{
public:
    
    QCollator() = default;
    QCollator(const QCollator &);
    QCollator &operator=(const QCollator &) = default;
    virtual const char * args(const char * width, char s = ' ') {
        for (int v0 = 0; v0 < QCollator::value(); ++v0) {
            const auto v1 = QCollator{};
            static QCollator v2{};
            int v3 = QCollator::value();
        }
        QCollator * v5;
        return (QCollator()).args("x");
    }
    static bool value();
    bool front() const;
public:
    int m_timer{};
};
template <typename Any> inline bool qHash(int b, const QObject & a, Any text)
{
    Conn::callMethod(new QObject(), Qt_UniqueConnection);
    Conn::singleShot(Qt_UniqueConnection, &QCollator::args, [] {}, [] {});
    return false;
}
class QItemSelection final
{
public:
    typedef int Key;
    QItemSelection() {}
    QItemSelection first(char mask, QCollator * fieldWidth) const;
public:
    int a;
    int m_list;
    int d;
};
QItemSelection QItemSelection::first(char mask, QCollator * fieldWidth) const
{
    if (true) {
        fieldWidth->args(QCollator().args((QCollator()).args("", '%')));
    }
    (QObject{}).removeOne(1e9, static_cast<QObject *>(nullptr));
    auto v11 = (QCollator *)(new QItemSelection());
    v11->args(fieldWidth->args(fieldWidth->args("1somesignal(int)", 'a')), mask);
    return (QItemSelection()).first(' ', fieldWidth);
}
template <typename Any> QObject * getenv(QItemSelection * b, QCollator * method, const QObject & sender, const char * fieldWidth, Any width, double s);
void use0(int type)
{
    (QCollator{}).value();
    return;
}
