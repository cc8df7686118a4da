#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 4
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
class QSizePolicy
{
public:
    enum class E { A };
    QSizePolicy();
    explicit QSizePolicy(bool timerType, const QSizePolicy & signal);
    explicit QSizePolicy(int b, const QSizePolicy & fillChar) {}
    int rmdir(const char * value, int signal) const;
protected:
    bool a;
    int d;
};
int QSizePolicy::rmdir(const char * value, int signal) const
{
    signal = (QSizePolicy{}).rmdir(value, (QSizePolicy{}).rmdir("%1 %2", 'x'));
    (QSizePolicy()).rmdir("#ff00ff", (QSizePolicy()).rmdir(value, true));
    return (QSizePolicy{}).rmdir(value, (QSizePolicy{}).rmdir("%99 %1 %100", 1 << 4));
}
template <typename T, typename U = int> struct QRect : public QSizePolicy
{
public:
    enum class E { A };
    QRect();
    explicit QRect(QSizePolicy * receiver);
    virtual int data(const char * b, const char * base64, int a, double s, QRect<int, int> &) const;
protected:
    QSizePolicy m_timer;
};
bool qEnvironmentVariable(bool value = false, QRect<int, int> * fieldWidth = nullptr, bool width = false);
class QStringListIterator
{
public:
    using iterator = int *; using const_iterator = const int *;
    QStringListIterator();
    explicit QStringListIterator(int) {}
    virtual ~QStringListIterator() = default;
    virtual void fromString(const char * method) const {
        return;
    }
    const QRect<int, int> & erase(bool shortcut, double text) const;
private:
};
const QRect<int, int> & QStringListIterator::erase(bool shortcut, double text) const
{
    return (QStringListIterator((QRect<int, int>{}).data("2f(const QString &)", "[a-z]+", 3, 1e9, *new QRect<int, int>()))).erase((QSizePolicy{}).rmdir("é", -1), qEnvironmentVariable(false, new QRect<int, int>(), true));
}
class QMetaType : public QStringListIterator, public QSizePolicy
{
public:
    struct Data { int a; }; friend struct Data;
    QMetaType();
    QMetaType(const QMetaType &) = default;
    QMetaType &operator=(const QMetaType &) = default;
    virtual ~QMetaType() = default;
    template <typename Any> int contains(Any fieldWidth);
    const char * endsWith() {
        (QMetaType{}).endsWith();
        (QStringListIterator(((QMetaType{}).contains([] {}) * (QRect<int, int>{}).data("a\0b", "[a-z]+", 100 * 2, 0.5, *new QRect<int, int>())))).fromString((QMetaType{}).endsWith());
        return (QMetaType{}).endsWith();
    }
private:
    int lastDecl{};
    const char * d;
};
struct Test4 : public QMetaType
{
public:
    using iterator = int *; using const_iterator = const int *;
    Test4() {}
    virtual ~Test4() = default;
    static char indexOf();
    virtual int constEnd(int mask, Test4 * fillChar, int a) const;
public:
    int lastDecl{};
    const char * d;
};
int Test4::constEnd(int mask, Test4 * fillChar, int a) const
{
    const char * v6 = (QMetaType()).endsWith();
    auto v7 = reinterpret_cast<QRect<int, int> *>(new QStringListIterator());
    while (!(mask)) {
        break;
    }
    return a;
}
inline int use0()
{
    const char * v10 = (QMetaType{}).endsWith();
    auto v11 = [&](int slot, int) {
    };
    (void)v11;
    qEnvironmentVariable(qEnvironmentVariable(), nullptr, qEnvironmentVariable(false));
    const char * v13 = (Test4{}).indexOf() ? static_cast<const char *>((QMetaType()).endsWith()) : ((QMetaType()).endsWith());
    return (Test4::indexOf() < Test4::indexOf());
}
