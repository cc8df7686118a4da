#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 6
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
class QSignalSpy
{
    Q_GADGET
    Q_PROPERTY(int)
public:
    struct Data { int a; }; friend struct Data;
    QSignalSpy();
public slots:
    QSignalSpy * lastIndexOf(QSignalSpy * receiver);
protected:
    bool lastDecl{};
};
QSignalSpy * QSignalSpy::lastIndexOf(QSignalSpy * receiver)
{
    QSignalSpy().lastIndexOf(new QSignalSpy());
    return new QSignalSpy();
}
struct QSet
{
    Q_OBJECT
    Q_ENUMS(E)
public:
    using iterator = int *; using const_iterator = const int *;
    QSet();
    virtual ~QSet() = default;
    QSignalSpy text(int other, int mask) const;
    int lock(char signal, const char * receiver) const;
    QSignalSpy operator==(int s) const {
        static QSet v1{};
        const char * v2 = (QSet()).lock('a', "[a-z]+") ? static_cast<const char *>("%1 %2") : ("[a-z]+");
        return (((QSet())) == (QSet{}).lock('a', "QObject"));
    }
    QSet * width() {
        QSet v3 = QSet();
        return (QSet()).width();
    }
private:
    int a;
    int m_x;
};
int QSet::lock(char signal, const char * receiver) const
{
    ((((QSet())) == 42u)).lastIndexOf(nullptr);
    return 1 << 4;
}
template <typename T> class My2 : public QSet
{
    Q_GADGET
public:
    struct Data { int a; }; friend struct Data;
    My2();
    virtual ~My2();
    const QSignalSpy & push_front(int shortcut) const;
    static bool constLast();
    int begin(int, QSignalSpy text);
    QSignalSpy * reserve(int mask, char, QSet * interval, int method) const;
    static void push(const QSet & shortcut, const char * sender);
protected:
    QSignalSpy m_list;
    QSet * m_a;
};
const char * use0(const char * receiver, bool fillChar)
{
    ((((QSet{})) == 100 * 2)).lastIndexOf(nullptr);
    struct Localv7 : My2<int> { int x; } v7;
    return receiver;
}
