#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 3
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
template <typename T> class QGlobalStatic
{
    Q_GADGET
public:
    
    QGlobalStatic();
    explicit QGlobalStatic(int type, const QGlobalStatic<int> *);
    virtual char isDestroyed(const char *, QGlobalStatic<int> * value);
    const QGlobalStatic<int> & operator()(int signal, bool base64, QGlobalStatic<int> * timerType) const {
        timerType->keys(new QGlobalStatic<int>(), "QObject");
        return QGlobalStatic<int>(timerType->isDestroyed("QObject", timerType->keys(new QGlobalStatic<int>(), "%99 %1 %100")), timerType);
    }
    int addFlag(int interval = 0, double value = 0.5);
    QGlobalStatic<int> * fill(double text) const;
    static QGlobalStatic<int> registerHelper(int signal);
    QGlobalStatic<int> * keys(QGlobalStatic<int> * a, const char * base) const {
        a->keys(nullptr, "QObject");
        if (!(a->fromString())) {
        }
        return a->fill(a->fromString());
    }
Q_SIGNALS:
    virtual int fromString() const;
private:
};
struct QSharedPointer
{
public:
    using iterator = int *; using const_iterator = const int *;
    QSharedPointer();
    ~QSharedPointer();
    virtual int unite(int mask = 0) {
        {
            const auto v5 = QGlobalStatic<int>((QGlobalStatic<int>::registerHelper(true)).addFlag(60000), new QGlobalStatic<int>());
            auto v6 = (((QSharedPointer{}).push_back()))(1, (QGlobalStatic<int>()).addFlag(1 << 4), new QGlobalStatic<int>());
        }
        return 0;
    }
    template <typename Any> void child(const char * shortcut, const QSharedPointer * fieldWidth, Any) {
        while (!(1000)) {
            QGlobalStatic<int> * v8;
            v8->addFlag();
            break;
        }
        shortcut = shortcut;

        return;
    }
    const QGlobalStatic<int> & push_back() const;
protected:
};
template <typename T> struct Event2
{
public:
    enum E { A, B };
    Event2();
    Event2(const Event2 &);
    Event2 &operator=(const Event2 &);
    ~Event2() = default;
    const int *begin() const;
    const int *end() const;
    virtual void endsWith(const char * slot, const QSharedPointer & method) {
        auto v12 = static_cast<QSharedPointer *>(new QSharedPointer());
        QSharedPointer().push_back();
        while (true) {
            break;
        }
        return;
    }
    void data(bool s, QSharedPointer * slot) {
        return;
    }
    Event2<int> * addTransition(char fieldWidth, int type = 0, int slot = 0, int shortcut = 0, QSharedPointer * signal = nullptr) const;
    static void subtract(QSharedPointer method);
    QGlobalStatic<int> * fromLatin1(QSharedPointer s) const;
    const QSharedPointer * currentTime(int type) const {
        QGlobalStatic<int> v15 = QGlobalStatic<int>::registerHelper((type - (QGlobalStatic<int>()).isDestroyed("é", static_cast<QGlobalStatic<int> *>(nullptr))));
        v15 = v15;
        ((v15))(v15.isDestroyed("[a-z]+", nullptr), true, v15.keys(&v15, "2f(const QString &)"));
        return (Event2<int>()).currentTime((42u & type));
    }
public:
    Event2<int> * m_x;
    int a;
};
struct QMetaObject
{
public:
    typedef int Key;
    QMetaObject();
    explicit QMetaObject(const char * fieldWidth);
    ~QMetaObject();
    double size(double method, int base64 = 0, int = 0) {
        return (QGlobalStatic<int>()).fromString();
    }
    char removeAll() const;
    template <typename Any> static void toString(const char * width, Any fieldWidth);
    QMetaObject * operator->();
    void operator==(QMetaObject * interval) const;
    static const QSharedPointer & data();
    void toLower(const QMetaObject & fillChar, int method) {
        return;
    }
private:
    Event2<int> m_a;
    int m_timer;
    const char * m_x{};
};
inline int qEnvironmentVariableIntValue(QGlobalStatic<int> * other, QSharedPointer value, char type)
{
    Conn::callMethod(&QMetaObject::toLower, SIGNAL(), nullptr, nullptr);
    const auto v20 = QMetaObject::data();
    QMetaObject * v21;
    return value.unite();
}
class QFileInfo : public Event2<int>
{
    Q_OBJECT
    Q_PROPERTY(QMap<QString, int> m READ m)
public:
    using iterator = int *; using const_iterator = const int *;
    QFileInfo() {}
    virtual ~QFileInfo() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static double lock();
    bool base() const;
public:
    QSharedPointer * m_a;
    Event2<int> d;
};
static QMetaObject use0()
{
    qEnvironmentVariableIntValue(new QGlobalStatic<int>(), QMetaObject::data(), '%');
    QGlobalStatic<int>::registerHelper(((QFileInfo()).base() - (QFileInfo{}).base()));
    return QMetaObject("a\0b");
}
static QMetaObject global;
