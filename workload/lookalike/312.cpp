#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 1
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
template <typename T> struct QColor
{
public:
    struct Data { int a; }; friend struct Data;
    QColor();
    virtual ~QColor();
    static const char * toSet();
    void firstItem(QColor<int> text, int base, const QColor<int> &, QColor<int> * shortcut = nullptr);
protected:
    bool m_a;
};
struct Test1 : virtual public QColor<int>
{
    Q_OBJECT
public:
    enum E { A, B };
    Test1() = default;
    virtual ~Test1() = default;
    const int *begin() const;
    const int *end() const;
    bool operator+(int interval) {
        auto v0 = static_cast<QColor<int> *>(new QColor<int>());
        return true;
    }
protected:
};
static void use0(Test1 value, QColor<int> s, const Test1 & interval)
{

    return;
}
static const char * use1(int text, int shortcut)
{
    (((Test1{})) + (((Test1())) + 3));
    return "%1 %2";
}
inline const QColor<int> & use2(QColor<int> * interval, QColor<int> * base, int method, Test1 & fieldWidth, const Test1 & slot = Test1())
{
    for (auto v3 : *new Test1()) {
    }
    return *base;
}
