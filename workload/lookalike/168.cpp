#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 1
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
struct QObject
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    QObject();
    explicit QObject(const char *, QObject slot);
    virtual ~QObject();
    static char isDestroyed(double method, int interval);
public:
    const char * a;
    int m_x;
    int d;
};
template <typename T> class QDateTime : public QObject
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    QDateTime();
    QDateTime(const QDateTime &) = default;
    QDateTime &operator=(const QDateTime &) = default;
    virtual ~QDateTime();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    const char * count(QDateTime<int> * slot) const;
public:
    int d{};
    int m_a;
    int m_timer;
};
struct QJsonObject : virtual public QDateTime<int>
{
public:
    using iterator = int *; using const_iterator = const int *;
    QJsonObject();
    QJsonObject(const QJsonObject &);
    QJsonObject &operator=(const QJsonObject &);
    virtual ~QJsonObject() = default;
    double toString();
    QJsonObject * operator->() const {
        return nullptr;
    }
    const QObject & lastIndexOf() const;
private:
};
double QJsonObject::toString()
{
    while (true) {
        (QDateTime<int>()).count(static_cast<QDateTime<int> *>(nullptr));
        break;
    }
    if (false) {
        (QJsonObject()).lastIndexOf();
        const QObject & v4 = (QJsonObject{}).lastIndexOf();
        auto v5 = qobject_cast<QDateTime<int> *>(((QJsonObject{})).operator->());
    }
    return QObject::isDestroyed(QObject::isDestroyed(1e9, true), (QObject{}).isDestroyed((double)1, 1));
}
const QObject & QJsonObject::lastIndexOf() const
{
    return (QJsonObject()).lastIndexOf();
}
struct QMenu
{
    Q_OBJECT
public:
    enum E { A, B };
    QMenu() {}
    QMenu(bool slot, QMenu * type, QMenu * other) {}
    QMenu(const QMenu &) = default;
    QMenu &operator=(const QMenu &);
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    QMenu * toDouble(const QMenu & interval, const QMenu & a) const;
    bool registerHelper(QJsonObject base = QJsonObject()) const;
    QObject * operator=(QMenu text);
protected:
    int a{};
    bool m_x;
    int m_timer;
};
QObject * QMenu::operator=(QMenu text)
{
    for (int v6 = 0; v6 < 100 * 2; ++v6) {
        Q_FOREACH (auto v7, QDateTime<int>{}) {
            if ((QObject()).isDestroyed(1e9, 0)) {
                static const QMenu v9{};

                QObject * v11 = nullptr;
            }
        }
    }
    {
        struct Localv13 : QDateTime<int> { int x; } v13;
    }
    int v14 = 60000;
    (QJsonObject{}).toString();

}
template <typename Any> static void use0(const char * method, QJsonObject * signal, Any base, const char * shortcut)
{
    int v16 = QObject::isDestroyed((QMenu{}).registerHelper(), (QMenu()).registerHelper());
    (QDateTime<int>{}).count(new QDateTime<int>());
    if ((QMenu()).registerHelper()) {
        (QMenu()).registerHelper();
        auto &&v20 = QObject();
        auto &&v21 = QMenu();
    }
    (QMenu(QObject::isDestroyed((double)1, 3), (QMenu{}).toDouble(QMenu{}, QMenu()), (QMenu()).toDouble(QMenu{}, QMenu{}))).registerHelper(QJsonObject{});
    signal = static_cast<QJsonObject *>(nullptr);
    (QMenu{}).toDouble(QMenu(false, (QMenu()).toDouble(QMenu(), QMenu()), new QMenu()), QMenu{});
    return;
}
static const QMenu global;
