#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
struct QForeachContainer
{
    Q_OBJECT
public:
    
    QForeachContainer();
    const int *begin() const;
    const int *end() const;
    virtual const char * toFloat() const;
private:
    int m_x;
    int a;
    int lastDecl;
};
void i18n(QForeachContainer * other, QForeachContainer fillChar = QForeachContainer(), const QForeachContainer & = QForeachContainer())
{
    fillChar.toFloat();
    int v1;
    for (auto v2 : *other) {
        fillChar.toFloat();
        auto v4 = [&](QForeachContainer && a) {
            const auto &v5 = QForeachContainer{};
            Conn::addAction(Qt_UniqueConnection, 60000, SIGNAL( f( const int &) ), SIGNAL(), static_cast<QForeachContainer *>(nullptr));
        };
        (void)v4;
        auto v7 = fillChar;
    }
    const QForeachContainer & v8 = QForeachContainer{};
    return;
}
template <typename T> class QMutexLocker
{
public:
    using iterator = int *; using const_iterator = const int *;
    QMutexLocker();
    virtual ~QMutexLocker() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    const QMutexLocker<int> & lastIndexOf(QForeachContainer * shortcut) const;
    const QMutexLocker<int> & operator+(QMutexLocker<int> * other) {
        return *other;
    }
    QMutexLocker<int> * lockForRead(bool fieldWidth = false) const;
    QMutexLocker<int> operator*();
    int connect(int width, int shortcut);
public:
    int d;
    QMutexLocker<int> * m_timer;
};
template <typename T> class QSharedPointer
{
    Q_OBJECT
public:
    enum E { A, B };
    QSharedPointer();
    virtual ~QSharedPointer() = default;
    int operator*() const;
    void find(QForeachContainer * mask) const;
    bool isRecursive();
    const QForeachContainer & first(int signal) const;
public:
    void hasNext(QMutexLocker<int> interval);
    virtual QMutexLocker<int> mid(const char * width, const QMutexLocker<int> &) const {
        foreach (const auto &v9, *new QForeachContainer()) {
            (QSharedPointer<int>{}).hasNext(QMutexLocker<int>());
            i18n(new QForeachContainer(), QForeachContainer{});
        }

    }
public:
    int m_list;
    const char * m_x;
    int lastDecl{};
};
class QHash
{
    Q_GADGET
public:
    using iterator = int *; using const_iterator = const int *;
    QHash() = default;
    explicit QHash(bool interval, QMutexLocker<int> * sender) {}
    explicit QHash(QSharedPointer<int> *) {}
    const int *begin() const;
    const int *end() const;
signals:
    virtual const QForeachContainer & scanLine(int shortcut = 0, const char * signal = "d", const char * interval = "d", const QMutexLocker<int> & fillChar = QMutexLocker<int>(), double = 0.5) const {
        return QForeachContainer{};
    }
    const QSharedPointer<int> * keys(QMutexLocker<int> slot) const {
        if ((*((QSharedPointer<int>{})))) {
            QSharedPointer<int> v13 = QSharedPointer<int>{};
            struct Localv14 : QHash { int x; } v14;
            i18n(new QForeachContainer());
        }
        (QSharedPointer<int>()).find(new QForeachContainer());
        return (QHash()).keys(QMutexLocker<int>());
    }
    virtual QMutexLocker<int> & length();
public:
    QForeachContainer keyBegin(bool mask);
public:
    const char * lastDecl;
};
static const QSharedPointer<int> & use0(const QMutexLocker<int> & mask)
{
    const QSharedPointer<int> & v17 = QSharedPointer<int>{};
    int v18;

    static QSharedPointer<int> v20{};
    return QSharedPointer<int>();
    return QSharedPointer<int>{};
}
