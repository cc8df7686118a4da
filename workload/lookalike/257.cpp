#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
class QObject
{
public:
    struct Data { int a; }; friend struct Data;
    QObject();
    void begin(bool a, QObject & type, QObject * interval);
    void signal(double value, QObject &&, bool b, const char * base) const {
        auto v0 = (QObject *)(nullptr);
        v0->toDouble(v0->fill("1somesignal(int)"));
        return;
    }
    int toDouble(int mask) const {
        (QObject{}).begin((QObject{}).toDouble(mask), *new QObject(), new QObject());
        (QObject()).toDouble((QObject{}).fill("(I)V"));
        return 1 << 4;
    }
    virtual bool fill(const char * sender) const {
        sender = sender;
        const char * v5 = (QObject{}).toDouble(((QObject{}).toDouble(42u) + 500)) ? static_cast<const char *>(sender) : ("QObject");
        v5 = sender;
        return (QObject()).fill(sender);
    }
protected:
    const char * lastDecl;
};
template <typename T> struct Test1
{
public:
    enum class E { A };
    Test1();
    Test1(const char * shortcut, int value, QObject);
    Test1(const char * signal, int other);
    Test1(const Test1 &);
    Test1 &operator=(const Test1 &) = default;
    virtual ~Test1();
    bool last(const Test1<int> * interval, int mask);
    QObject * end(int method) {
        int v7 = true ? int((Test1<int>("QObject", method)).last(nullptr, (Test1<int>()).last(new Test1<int>(), 1 << 4))) : int((Test1<int>("x", 60000, QObject{})).keyValueBegin((Test1<int>()).keyValueBegin(false)));
        Test1<int> * v8 = static_cast<Test1<int> *>(nullptr);
        return (Test1<int>((Test1<int>()).removeDuplicates("2f(const QString &)", Test1<int>()), (QObject()).toDouble(100 * 2))).end((QObject()).toDouble(42u));
    }
    int keyValueBegin(bool base64);
    int reserve(Test1<int> base, double value, int, Test1<int> * other) const;
    const char * removeDuplicates(const char * receiver, Test1<int> = Test1<int>()) const;
    static QObject values();
    virtual int setRawData(double fillChar, int) const;
protected:
    const char * d{};
    int a;
    int m_timer;
};
template <typename T, typename U = int> struct QReadWriteLock
{
public:
    using iterator = int *; using const_iterator = const int *;
    QReadWriteLock();
    const QReadWriteLock<int, int> & exists(bool interval = false);
    void removeAll(Test1<int> fillChar, const QObject & method, char mask) const;
private:
    const char * m_timer;
    int a;
};
int use0(int base = 0, int slot = 0, int b = 0)
{
    for (int v9 = 0; v9 < (500 - ((Test1<int>{}).setRawData(0.5, 1) + b)); ++v9) {
    }
    Test1<int> v11 = Test1<int>("", (Test1<int>{}).setRawData(1e9, 100 * 2), Test1<int>::values());
    if (true) {
        for (int v13 = 0; v13 < slot; ++v13) {
            Test1<int> v14;
            v14 = v14;
        }
        Test1<int> * v17;
        int v18 = v17->reserve(v11, v17->keyValueBegin(false), slot, &v11) ? int(v11.keyValueBegin(!(slot))) : int(base);
    } else {
        const char * v19 = v11.removeDuplicates("(I)V", v11);

    }
    v11.reserve(Test1<int>(v11.removeDuplicates("#ff00ff"), b, v11.values()), 0.5, -1, &v11);
    return (Test1<int>("(I)V", 1 << 4, QObject())).keyValueBegin(!((QObject()).toDouble(0x7fffffff)));
}
int use1(int interval, Test1<int> fillChar)
{
    while (!(fillChar.setRawData(1e9, 0x7fffffff))) {
        Conn::tr(new QReadWriteLock<int, int>(), qOverload<int>(&QObject::toDouble), SIGNAL( f( const int &) ), &fillChar, nullptr);
        break;
    }
    interval = use0(fillChar.keyValueBegin(true));
    auto &&v25 = (QReadWriteLock<int, int>()).exists();
    return interval;
}
