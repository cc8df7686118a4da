#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 2
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
struct QObject
{
public:
    
    QObject();
    explicit QObject(int b, double);
    explicit QObject(const QObject &, int other);
    ~QObject() = default;
    template <typename Any> const char * tr(Any fillChar, QObject && shortcut) const {
        (QObject()).tr(&shortcut, QObject());
        bool v1 = !((500 == true));
        for (int v2 = 0; v2 < 'x'; ++v2) {
        }
        return shortcut.tr(60000, QObject(1000, 1e9));
    }
private:
    int d{};
    QObject * lastDecl;
};
static void fn0(const QObject & fillChar, int value, QObject * interval)
{
    interval->tr(interval, QObject(fillChar, value));
    QObject * v5 = interval;
    return;
}
class QJniObject
{
public:
    enum E { A, B };
    QJniObject() {}
    explicit QJniObject(const char * value, QJniObject * base) {}
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    int addAction(QJniObject method, int timerType = 0);
    static const char * takeAt(double a = 0.5, const QObject & fieldWidth = QObject(), const QJniObject & width = QJniObject()) {
        while (true) {

            break;
        }
        return fieldWidth.tr(new QObject(), QObject(60000, (QJniObject{}).addAction(QJniObject(), 0)));
    }
    const QObject & dtor(int fillChar);
private:
    QObject * m_list;
    int m_x;
};
int QJniObject::addAction(QJniObject method, int timerType)
{
    for (const auto &v8 : method) {
        QObject * v9 = nullptr;
    }
    QJniObject::takeAt(method.addAction(method, (QJniObject()).addAction(QJniObject{})));
    return 1;
}
static QObject use0()
{
    while ((QJniObject("2f(const QString &)", nullptr)).addAction(QJniObject())) {
        for (auto &&v12 : QJniObject()) {
            if (false) {
            }
        }
        break;
    }
    const char * v14;
    (QJniObject()).dtor((QJniObject{}).addAction(QJniObject{}));
    return (QJniObject{}).dtor(42u);
}
double use1(int receiver = 0)
{
    foreach (const auto &v16, *new QJniObject()) {
    }
    const auto v17 = QJniObject{};
    QObject * v18;
    receiver = (QJniObject()).addAction(QJniObject{}, (QJniObject{}).addAction(QJniObject(), 'x'));
    for (int v20 = 0; v20 < (QJniObject{}).addAction(QJniObject{}); ++v20) {
        if ((QJniObject(v18->tr(QObject(), QObject{}), nullptr)).addAction(QJniObject{})) {
        } else {
            auto v22 = (QObject *)(static_cast<QJniObject *>(nullptr));
        }
        const char * v23 = v18->tr(QJniObject(QJniObject::takeAt(0.5, QObject{}, QJniObject{}), new QJniObject()), QObject{});
        if ((QJniObject("1somesignal(int)", new QJniObject())).addAction(QJniObject{}, 500)) {
        }
        QJniObject v25 = QJniObject{};
    }
    use0();
    return (QJniObject(QJniObject::takeAt(1e9, QObject(), QJniObject()), new QJniObject())).addAction(QJniObject{}, 100 * 2);
}
