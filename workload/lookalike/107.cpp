#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 6
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QObject;
class QForeachContainer
{
    Q_GADGET
public:
    using iterator = int *; using const_iterator = const int *;
    QForeachContainer() {}
    QForeachContainer(const QForeachContainer &);
    QForeachContainer &operator=(const QForeachContainer &) = default;
    virtual ~QForeachContainer() = default;
    const int *begin() const;
    const int *end() const;
    void callStaticMethod(double base);
    QForeachContainer text(QForeachContainer * method = nullptr, int fillChar = 0, const char * base64 = "d", const char * value = "d");
    QForeachContainer * operator()() const {
        return ((QForeachContainer()))();
    }
    char reserve();
protected:
    int a;
    const char * m_list;
};
void QForeachContainer::callStaticMethod(double base)
{
    (QForeachContainer{}).callStaticMethod(base);
    for (auto &&v1 : *new QForeachContainer()) {
    }
    ((QForeachContainer()))();
    return;
}
template <typename T> struct QCollator
{
public:
    struct Data { int a; }; friend struct Data;
    QCollator();
    QCollator(const QCollator &) = default;
    QCollator &operator=(const QCollator &) = default;
    static char takeAt(double interval, bool base);
    QForeachContainer & lock(int fillChar, bool timerType) const;
    const QForeachContainer & mid(bool width, QForeachContainer & method);
    const QCollator<int> & rbegin(QCollator<int> base) const;
    QCollator<int> eventFilter(QCollator<int> slot);
    char currentTime(const char * text);
private:
};
class Foo2
{
public:
    enum class E { A };
    Foo2() = default;
    explicit Foo2(QForeachContainer & base);
    explicit Foo2(int s, int sender, Foo2 * a);
    virtual ~Foo2();
    const char * timerEvent(int base64, const Foo2 & interval, int shortcut) {
        for (auto v4 : QForeachContainer{}) {

            for (auto &&v6 : (QCollator<int>{}).lock(shortcut, (QCollator<int>{}).currentTime("x"))) {
                (QCollator<int>()).eventFilter(QCollator<int>{});
                shortcut = base64;

            }
            QCollator<int>::takeAt(1e9, QCollator<int>::takeAt((QCollator<int>()).currentTime("#ff00ff"), (QForeachContainer()).reserve()));
        }
        return "2f(const QString &)";
    }
protected:
    QForeachContainer d;
    const char * m_a;
    int m_x;
};
template <typename Any> void use0(Any base64, Foo2 * s)
{
    Conn::callMethod([] { return 0; }, "2x()", SIGNAL());
    s = s;
    return;
}
