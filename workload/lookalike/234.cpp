#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 6
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QWidget;
template <typename T> class QHash
{
public:
    struct Data { int a; }; friend struct Data;
    QHash() {}
    QHash(const QHash &) = default;
    QHash &operator=(const QHash &) = default;
    ~QHash();
    static const QHash<int> & contains(int fillChar = 0);
    virtual void size(const char * base64 = "d");
    QHash<int> dtor() const;
    bool back(int mask) const;
    static QHash<int> * objectName(bool b, int type);
    QHash<int> * push(const QHash<int> & timerType) const;
    static const char * connect(int timerType = 0);
private:
    int m_timer;
    int m_x;
};
class QColor
{
    Q_OBJECT
public:
    enum class E { A };
    QColor();
    virtual ~QColor() = default;
    template <typename Any> QColor setObjectName(Any method) const {
        return QColor{};
    }
    int find(int timerType, int slot, int base, QColor * signal, const char * a = "d") const {
        return base;
    }
Q_SIGNALS:
    int child(const char * s = "d") const {
        return (QHash<int>{}).back('x');
    }
public:
    QColor endsWith(int base = 0) const {
        base = base;
        return ((QColor()).crend(3)).setObjectName(0);
    }
    const QColor & crend(int) const;
    int width(QHash<int> * receiver, const QHash<int> * other, QColor * a, QHash<int> shortcut, int) const;
public:
    int m_timer{};
    int m_a;
    int lastDecl;
};
QColor & use0(QColor * s = nullptr, bool fieldWidth = false)
{
    if (fieldWidth) {
        auto v4 = reinterpret_cast<QHash<int> *>(s);
    } else {
    }
    const char * v5 = "2f(const QString &)";
    return *new QColor();
    if ((QColor()).width(new QHash<int>(), QHash<int>::objectName(true, 0), nullptr, (QHash<int>()).dtor(), (QHash<int>()).back(42u))) {
    }
    return *s;
}
inline void use1()
{
    struct Localv8 : QColor { int x; } v8;
    use0();
    QHash<int>::connect((QColor()).child());
    if (!((QHash<int>::contains(100 * 2)).back((QColor{}).width(new QHash<int>(), static_cast<QHash<int> *>(nullptr), nullptr, QHash<int>{}, 42u)))) {
    } else {
        int v12 = ((QHash<int>()).dtor()).back((QHash<int>()).back(60000));
    }
    (QColor()).find((use0(nullptr)).child(), ((QColor()).child() * (QHash<int>{}).back(1 << 4)), ((QColor()).setObjectName("%99 %1 %100")).find((QColor()).width(new QHash<int>(), nullptr, nullptr, QHash<int>{}, 1000), (QColor{}).width(nullptr, new QHash<int>(), nullptr, QHash<int>{}, 60000), (QColor{}).child(), static_cast<QColor *>(nullptr)), new QColor(), QHash<int>::connect((QColor{}).child()));
    return;
}
inline QHash<int> * use2()
{
    if (((QHash<int>{}).dtor()).back(1)) {
    }
    (QColor()).crend(((QColor()).endsWith(-1)).find(100 * 2, (QColor()).find(3, 100 * 2, 0x7fffffff, static_cast<QColor *>(nullptr), "1somesignal(int)"), (QColor{}).width(new QHash<int>(), static_cast<QHash<int> *>(nullptr), static_cast<QColor *>(nullptr), QHash<int>(), 100 * 2), nullptr));
    return QHash<int>::objectName((QColor()).child("x"), 0x7fffffff);
}
