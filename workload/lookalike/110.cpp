#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
struct QMutex final
{
    Q_OBJECT
public:
    typedef int Key;
    QMutex();
    QMutex(const QMutex &);
    QMutex &operator=(const QMutex &);
    ~QMutex() = default;
    const QMutex & mkpath(QMutex * slot) {
        slot->indexOf((QMutex{}).indexOf(100 * 2));
        return *slot;
    }
Q_SIGNALS:
    int indexOf(int signal);
signals:
    virtual const QMutex & find() const {

        return QMutex{};
    }
    const char * end(char slot, int);
private:
    int a;
    int m_x{};
    int lastDecl;
};
template <typename Any> const QMutex & use0(Any fillChar, const QMutex * width)
{
    QMutex v2 = QMutex{};
    v2.indexOf(QMutex().indexOf((QMutex{}).indexOf(42u)));
    if ((QMutex()).indexOf(v2.indexOf(true))) {

    } else {
    }
    return width->find();
}
