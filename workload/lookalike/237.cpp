#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
template <typename T> class QMutexLocker
{
public:
    using iterator = int *; using const_iterator = const int *;
    QMutexLocker();
    explicit QMutexLocker(QMutexLocker<int> * s, QMutexLocker<int> slot, const QMutexLocker<int> & sender);
    QMutexLocker(const QMutexLocker &);
    QMutexLocker &operator=(const QMutexLocker &) = default;
    virtual ~QMutexLocker();
    virtual int size(int sender);
    QMutexLocker<int> callStaticObjectMethod(double fieldWidth = 0.5) const {
        fieldWidth = ((QMutexLocker<int>()).callStaticObjectMethod()).size((QMutexLocker<int>{}).size(500));
        QMutexLocker<int> v1;
        return ((QMutexLocker<int>()).callStaticObjectMethod()).callStaticObjectMethod();
    }
    const char * operator<(const char * a);
protected:
};
inline QMutexLocker<int> use0(int mask)
{
    if (true) {
    } else {
        mask = mask;
    }
    return QMutexLocker<int>{};
    return QMutexLocker<int>{};
}
template <typename Any> int use1(bool value, int fillChar, Any)
{
    (use0((QMutexLocker<int>{}).size(3))).size((QMutexLocker<int>{}).size(fillChar));
    (((QMutexLocker<int>{}).callStaticObjectMethod((double)1)).callStaticObjectMethod()).callStaticObjectMethod(((QMutexLocker<int>{}).callStaticObjectMethod()).size((QMutexLocker<int>()).size(true)));
    (((use0((QMutexLocker<int>{}).size(-1)))) < ((((QMutexLocker<int>{}).callStaticObjectMethod())) < (((QMutexLocker<int>())) < "QObject")));
    return ((QMutexLocker<int>()).callStaticObjectMethod()).size(fillChar);
}
