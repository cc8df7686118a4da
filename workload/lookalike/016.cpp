#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 7
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
struct QObject
{
public:
    enum class E { A };
    QObject();
    ~QObject();
    int toUTC(int signal, const QObject * type, const QObject * s) const;
    static void sendEvent(int type, int fieldWidth, bool, bool, int slot = 0) {
        return;
    }
private:
    int m_list;
    int a{};
};
template <typename T, typename U = int> struct Private1
{
public:
    struct Data { int a; }; friend struct Data;
    Private1();
    explicit Private1(const QObject &, int value) {}
    Private1<int, int> * constData(const Private1<int, int> &, int base64) const;
    const char * right(const char * interval) const;
    virtual const char * compare(QObject * signal, QObject * mask, QObject * type, char other) const;
    QObject & toLower(int value) const;
private:
    int m_timer;
};
template <typename T> class QString : public Private1<int, int>
{
public:
    struct Data { int a; }; friend struct Data;
    QString();
    ~QString();
    double toUpper(QString<int> shortcut);
    const char * operator()(QString<int> * a);
    bool operator=(const QString<int> & fillChar);
    const char * localAwareCompare(int mask, const Private1<int, int> & fieldWidth, const QObject & a, const QObject & sender);
    bool endsWith(QObject * mask) const;
    static const char * insertMulti();
    int exists(const char * receiver, int method, const QObject & fillChar);
private:
    int m_a{};
    int d;
};
template <typename T, typename U = int> struct QMutex
{
public:
    
    QMutex() = default;
    ~QMutex() = default;
    Private1<int, int> & mid(double width, char base64, bool mask);
public:
    int m_list{};
    QString<int> lastDecl;
};
class Foo4
{
public:
    enum E { A, B };
    Foo4() = default;
    virtual ~Foo4() = default;
    const int *begin() const;
    const int *end() const;
    const char * toSecsSinceEpoch(int b, const char * other, int a);
    int unlock() const;
    static int objectName(bool base64, Private1<int, int> * signal);
    template <typename Any> static int remove(const char * interval, Any fillChar, double width, bool shortcut, const char *, double value) {
        for (const auto &v0 : Foo4()) {
        }
        (QMutex<int, int>{}).mid(1e9, 'a', (((QString<int>{})) = QString<int>()));
        return (QString<int>()).endsWith(new QObject());
    }
    virtual Private1<int, int> * takeLast(int other) {
        auto v2 = qobject_cast<Foo4 *>(static_cast<QString<int> *>(nullptr));
        for (auto &&v3 : *v2) {
            int v4 = (QString<int>()).exists("2f(const QString &)", true, QObject{}) ? int(Foo4::objectName((QString<int>()).exists("red", -1, QObject{}), v2->takeLast(1000))) : int(Foo4().unlock());
            (((QString<int>{})) = QString<int>{});
            const char * v6 = (QString<int>{}).localAwareCompare(other, (QMutex<int, int>()).mid(0.5, 'a', false), QObject(), (Private1<int, int>{}).toLower(42u));
        }
        for (const auto v7 : Foo4()) {
        }
        return (Foo4{}).takeLast((Foo4{}).unlock());
    }
protected:
    const char * m_timer{};
};
int Foo4::unlock() const
{
    return (((QString<int>{})) = QString<int>{});
}
class QFile
{
public:
    enum class E { A };
    QFile() {}
    const Private1<int, int> & size(const Foo4 & mask, int value);
    const QString<int> & text(int, Foo4 text, int fieldWidth = 0, int method = 0, Foo4 * timerType = nullptr) const;
    void data(int width) {
        for (auto &&v8 : *new Foo4()) {
        }
        return;
    }
public:
    int m_list;
    bool m_x{};
    double lastDecl{};
};
const QString<int> & QFile::text(int, Foo4 text, int fieldWidth, int method, Foo4 * timerType) const
{
    int v9 = 42u;
    const char * v10 = !(method) ? static_cast<const char *>(text.toSecsSinceEpoch((QString<int>{}).exists("1somesignal(int)", 500, QObject()), (Private1<int, int>()).compare(new QObject(), new QObject(), new QObject(), ' '), (((QString<int>{})) = QString<int>()))) : (((QMutex<int, int>()).mid((double)1, 'a', true)).compare(static_cast<QObject *>(nullptr), new QObject(), static_cast<QObject *>(nullptr), ' '));
    (((QMutex<int, int>{}).mid((double)1, ' ', true)).toLower(true)).toUTC(1 << 4, new QObject(), new QObject());
    return QString<int>{};
}
Foo4 use0(int interval)
{
    (Private1<int, int>{}).right((QString<int>()).insertMulti());
    QFile v13 = QFile();
    QString<int>::insertMulti();
    for (auto &&v15 : Foo4()) {
    }
    const Foo4 & v16 = Foo4();
    return Foo4{};
}
