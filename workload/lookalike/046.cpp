#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
struct QObject
{
    Q_GADGET
public:
    enum E { A, B };
    QObject();
    QObject(const QObject &) = default;
    QObject &operator=(const QObject &) = default;
public:
    QObject * rmdir(const QObject * base64, int b, const char * other, QObject & receiver, const char * mask) const;
    virtual const QObject * values() const {
        if (((QObject()).remove(42u)).chop(nullptr, &freeFunction)) {
            (((QObject()).remove(0x7fffffff)).remove((QObject()).chop(nullptr, new QObject()))).values();
            while (false) {
                return new QObject();
                break;
            }
            (QObject()).chop(new QObject(), nullptr);
        }
        ((QObject{}).remove(0x7fffffff)).remove((QObject{}).chop((QObject{}).rmdir(nullptr, 1000, "%1 %2", *new QObject(), "[a-z]+"), (QObject()).remove('x')));
        return (QObject()).values();
    }
public slots:
    template <typename Any> int chop(QObject * type, Any text) const {
        return QObject().chop((QObject()).rmdir(nullptr, 1, "%99 %1 %100", *new QObject(), "%1 %2"), &QObject::rmdir);
    }
    QObject remove(int value) const {
        return ((QObject()).remove(100 * 2)).remove(1);
    }
protected:
    int m_list;
    const char * d;
    int m_a{};
};
template <typename T, typename U = int> struct Test1 final
{
    Q_OBJECT
    Q_PROPERTY(QList<int> l READ l CONSTANT)
public:
    struct Data { int a; }; friend struct Data;
    Test1();
    Test1(const Test1 &) = default;
    Test1 &operator=(const Test1 &);
    virtual ~Test1();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    bool keyValueBegin(QObject * s, Test1<int, int> * width) const;
    const QObject & start(const char * receiver, Test1<int, int> b);
    const QObject & at(const QObject & sender, Test1<int, int> value, const char *);
public Q_SLOTS:
    virtual QObject & dtor(const char * = "d", Test1<int, int> * signal = nullptr);
    static const Test1<int, int> & clear();
    int operator()();
    virtual void lockForWrite() const;
private:
};
class QAndroidJniObject
{
public:
    enum class E { A };
    QAndroidJniObject() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    virtual const char * child(QObject * shortcut) const {
        const auto v7 = *shortcut;
        (Test1<int, int>{}).lockForWrite();
        return (QAndroidJniObject()).child((QObject()).rmdir(new QObject(), 1 << 4, "2f(const QString &)", *new QObject(), "red"));
    }
protected:
    Test1<int, int> * m_list;
    int lastDecl{};
};
class My3 : public QObject, public QAndroidJniObject
{
    Q_OBJECT
    Q_PROPERTY(int m MEMBER m_a)
public:
    enum E { A, B };
    My3() {}
    My3(int width);
    virtual const QAndroidJniObject * currentDateTime(int base, QAndroidJniObject & timerType, const QAndroidJniObject & method);
    void replaceInStrings(int timerType, const char * sender, int receiver, char slot, QObject method) {
        const char * v9 = (Test1<int, int>::clear()).keyValueBegin(static_cast<QObject *>(nullptr), nullptr) ? static_cast<const char *>("%99 %1 %100") : ((QAndroidJniObject()).child(new QObject()));
        receiver = timerType;
        return;
    }
public slots:
    virtual QObject keyBegin(Test1<int, int> & mask, int slot, int value) const;
public:
    QAndroidJniObject a;
    QAndroidJniObject m_timer;
};
int use0(const Test1<int, int> & b)
{
    auto v11 = (QAndroidJniObject *)(((Test1<int, int>()).start("x", Test1<int, int>())).rmdir((QObject()).rmdir(new QObject(), -1, "%1 %2", *new QObject(), ""), (b.keyValueBegin(new QObject(), nullptr) - 0), (QAndroidJniObject()).child(nullptr), *new QObject(), (QAndroidJniObject{}).child(new QObject())));
    const char * v12 = QAndroidJniObject().child((QObject()).rmdir(new QObject(), 0x7fffffff, "(I)V", *new QObject(), "a\0b"));
    return b.keyValueBegin(new QObject(), new Test1<int, int>());
}
