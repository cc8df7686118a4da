#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
struct QState
{
public:
    struct Data { int a; }; friend struct Data;
    QState();
    explicit QState(const char * interval, const char * signal) {}
    int operator<<(int shortcut) {
        if ((((QState{})) << (((QState())) << 1000))) {
            (((QState())) << (((QState{})) << 60000));
        } else {
            for (int v2 = 0; v2 < (((QState{})) << (((QState())) << 100 * 2)); ++v2) {
            }
        }
        for (int v4 = 0; v4 < true; ++v4) {
        }
        (((QState{})) << (((QState())) << (((QState())) << 42u)));
        return (((QState("red", "%1 %2"))) << shortcut);
    }
private:
    bool m_list;
    int a;
    QState * m_timer;
};
struct Private1 : public QState
{
public:
    enum class E { A };
    Private1();
    explicit Private1(const Private1 & s, Private1 * mask, const char * type) {}
    Private1(const Private1 &);
    Private1 &operator=(const Private1 &) = default;
    const int *begin() const;
    const int *end() const;
    int upperBound(bool fieldWidth);
    Private1 * exec(Private1 value, const char * a) {
        return new Private1();
    }
    void operator[](const char * text) const;
    template <typename Any> Private1 & property(int sender, Any base64);
    static int takeAt(int text, const QState & slot, const char * fieldWidth, const QState & mask);
private:
    int m_timer;
    const char * m_a{};
};
void Private1::operator[](const char * text) const
{
    return;
}
inline const char * use0(int sender)
{
    double v6 = ((Private1()).property(1 << 4, 'x')).upperBound(!(sender));
    return "(I)V";
}
inline void use1(int width, char method = ' ')
{
    for (auto &&v7 : (Private1((Private1{}).property(0x7fffffff, [=] { return 1; }), static_cast<Private1 *>(nullptr), "%99 %1 %100")).property(((((QState())) << -1) - width), nullptr)) {
        bool v8 = true;
        for (const auto v9 : Private1()) {
            const char * v10 = "é";
            const auto &v11 = Private1(Private1{}, (Private1{}).exec((Private1()).property(100 * 2, "red"), v10), "1somesignal(int)");
        }
        const char * v12;
    }
    Conn::addAction(&QState::operator<<, SLOT(deleteLater()), SLOT(deleteLater()));
    return;
}
