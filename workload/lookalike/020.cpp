#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 3
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QObject;
template <typename T> class QMap
{
public:
    
    QMap(const QMap &) = default;
    QMap &operator=(const QMap &) = default;
    virtual ~QMap() = default;
    QMap<int> * toSet();
    bool dequeue(int a, int base, const char * width, QMap<int> & interval, QMap<int> * base64, const char * type) {

        const char * v1;
        if (true) {
            auto v3 = QMap<int>::base(true);
            base = base;
        } else {
        }

    }

    static const QMap<int> & base(bool s);

    QMap<int> * operator()();
    QMap<int> operator+(QMap<int> * slot);
protected:
    bool a{};
};
template <typename T> struct Test1
{
public:
    enum class E { A };
    Test1();
    virtual ~Test1();
    virtual bool scanLine(int text) const;
private:
    char a;
};
struct QByteArray
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    QByteArray() {}
    QByteArray(int other, double method) {}
    virtual ~QByteArray();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static int replaceInStrings(const char * type, char base64, int fieldWidth, int other) {
        return 0;
    }
signals:
    static int toUTC();
    bool callMethod(int text, int mask, QMap<int> * s, QMap<int> * fillChar, const QByteArray & shortcut) const;
    Test1<int> postEvent(int signal, Test1<int> text, const char *);
public:
};
bool QByteArray::callMethod(int text, int mask, QMap<int> * s, QMap<int> * fillChar, const QByteArray & shortcut) const
{
    return true;
}
template <typename Any> int qMakePair(const char * method, Any text);
class QMutexLocker
{
    Q_OBJECT
    Q_ENUMS(E)
public:
    typedef int Key;
    QMutexLocker() = default;
    virtual ~QMutexLocker();
    int mask(int value = 0) {

        return value;
    }
    virtual void constFirst(bool receiver, int base) {
        Conn::singleShot([] {}, [] {}, &QByteArray::postEvent);
        return;
    }
    template <typename Any> QMutexLocker isRecursive(Any text, int receiver);
    bool childEvent(const Test1<int> & other, int s);
protected:
    int m_x{};
    char a;
};
bool QMutexLocker::childEvent(const Test1<int> & other, int s)
{

    return QByteArray::toUTC();
}
template <typename Any> inline const QMap<int> & use0(const Test1<int> & width, int shortcut, QMutexLocker * a, const QMap<int> * method, Any other)
{

    auto v11 = QMap<int>::base((QByteArray()).callMethod(true, true, nullptr, nullptr, QByteArray{}));

}
