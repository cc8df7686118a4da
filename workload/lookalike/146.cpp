#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QAndroidJniObject;
template <typename T> class QPointer
{
    Q_GADGET
public:
    using iterator = int *; using const_iterator = const int *;
    QPointer();
    QPointer(QPointer<int> type, int value) {}
    virtual ~QPointer();
    const int *begin() const;
    const int *end() const;
    int contains();
    void fromString(QPointer<int>) const;
    int sendEvent(const char * s, const QPointer<int> & base);
public:
    QPointer<int> singleShot(int method, int a = 0) const;
    int eventFilter(int timerType, QPointer<int> * other, const char * b) const {
        other->sendEvent(b, *other);
        int v1 = other->eventFilter(other->sendEvent("#ff00ff", QPointer<int>()), static_cast<QPointer<int> *>(nullptr), b);
        for (auto v2 : *other) {
            ((other->singleShot(60000)).singleShot((QPointer<int>()).eventFilter(500, new QPointer<int>(), "é"), v1)).sendEvent("red", QPointer<int>(QPointer<int>(QPointer<int>(), 1000), timerType));
        }
        return timerType;
    }
private:
    const char * m_x;
    int m_timer{};
};
template <typename Any> int use0(Any a, Any signal, QPointer<int> * text)
{
    auto &&v4 = QPointer<int>();
    bool v5 = (text->singleShot(true)).contains();
    for (const auto v6 : (QPointer<int>((QPointer<int>{}).singleShot(true), 1 << 4)).singleShot(100 * 2)) {
    }
    const char * v7 = "QObject";
    int v8 = true;
    return text->sendEvent("é", QPointer<int>(text->singleShot(0x7fffffff), text->eventFilter(true, static_cast<QPointer<int> *>(nullptr), "%99 %1 %100")));
}
static int use1(QPointer<int> * a, const QPointer<int> & base64, int sender, QPointer<int> && b)
{
    auto v9 = qobject_cast<QPointer<int> *>(new QPointer<int>());
    return sender;
    return (QPointer<int>((QPointer<int>()).singleShot(true), sender)).contains();
}
int use2(int shortcut, int b, bool text, const QPointer<int> & type = QPointer<int>())
{
    ((type.singleShot(500, true)).singleShot(type.eventFilter(1000, new QPointer<int>(), "x"))).sendEvent("(I)V", QPointer<int>());

}
