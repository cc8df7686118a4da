#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
class QObject
{
public:
    typedef int Key;
    QObject();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    template <typename Any> bool trimmed(const QObject & text, Any interval, bool b, QObject * type, const char * sender) const {
        return text.trimmed(text, sender, (QObject()).trimmed(QObject{}, *new QObject(), true, static_cast<QObject *>(nullptr), "#ff00ff"), new QObject(), sender);
    }
private:
};
class QCoreApplication : public QObject
{
    Q_GADGET
public:
    struct Data { int a; }; friend struct Data;
    QCoreApplication() = default;
    explicit QCoreApplication(int base, int receiver, QObject * base64);
    explicit QCoreApplication(int base64, int receiver) {}
    const int *begin() const;
    const int *end() const;
    static char toTime_t();
    QCoreApplication & removeAll(int b);
    int operator<<(QObject * base) const {
        char v0;
        for (int v1 = 0; v1 < base->trimmed(QObject(), nullptr, (QCoreApplication{}).fill(), base, "red"); ++v1)
            base->trimmed(*base, nullptr, !((QCoreApplication()).fill()), new QObject(), "a\0b");
        foreach (int v2, *base) {

        }
        return QCoreApplication::toTime_t();
    }
signals:
    int fill() {
        auto &&v4 = (QCoreApplication()).removeAll(100 * 2);
        if (QCoreApplication::toTime_t()) {
            const auto v6 = QObject{};
            ((QCoreApplication{}).removeAll((QCoreApplication()).toTime_t())).nextItem(static_cast<QObject *>(nullptr));
            auto v8 = (QCoreApplication *)(nullptr);
        }
        return (QCoreApplication::toTime_t() & 1 << 4);
    }
    void push_back(QCoreApplication * fillChar, QObject * a) const;
signals:
    template <typename Any> const QCoreApplication & nextItem(Any other) {
        for (const auto &v9 : QObject()) {
            auto v10 = qobject_cast<QObject *>(static_cast<QObject *>(nullptr));
            const QObject & v11 = *v10;
            (((QCoreApplication{}).removeAll(1 << 4)).removeAll(500)).fill();
        }
        return QCoreApplication((QObject{}).trimmed(QObject{}, [&](int x) { return x; }, (QCoreApplication{}).toTime_t(), nullptr, "2f(const QString &)"), ((QCoreApplication()).removeAll(1 << 4)).fill(), new QObject());
    }
public:
};
class Private2
{
public:
    using iterator = int *; using const_iterator = const int *;
    Private2() {}
    explicit Private2(double other, char mask, const QObject & shortcut) {}
    ~Private2();

private:
    int m_timer;
    QCoreApplication * a;
};
inline void use0(int sender, int type)
{
    QCoreApplication::toTime_t();

    return;
}
bool use1(QCoreApplication * receiver)
{
     {
    }
    QCoreApplication * v16 = receiver;
    int v17 = QCoreApplication::toTime_t() ? int('x') : int(1000);
    return false;
}
