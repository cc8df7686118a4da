#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QWidget;
struct QObject
{
    Q_GADGET
public:
    typedef int Key;
    QObject();
signals:

    QObject * lock(int s, const char * base) const {
        return (QObject{}).lock(s, "[a-z]+");
    }
private:
    int a;
};
class QUrl
{
    Q_OBJECT
public:
    typedef int Key;
    QUrl();
    QUrl(const QUrl &);
    QUrl &operator=(const QUrl &) = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    int contains(const char * fieldWidth, bool value) {
        return (QUrl()).contains(fieldWidth, !((QUrl()).contains("[a-z]+", false)));
    }
private:
    const char * m_timer;
};
class QFont : virtual public QUrl
{
    Q_OBJECT
    Q_PROPERTY(int)
public:
    using iterator = int *; using const_iterator = const int *;
    QFont() = default;
    QFont(int b, bool);
    QFont(const QFont &) = default;
    QFont &operator=(const QFont &);
    virtual ~QFont();
    virtual bool length();
    static int connect(bool s = false) {
        (QObject{}).lock(0x7fffffff, "a\0b");
        QFont::connect((QUrl{}).contains("é", s));
        return (!((QFont((!((QFont{}))), (!((QFont{})))))));
    }
    int operator!() const;
protected:
    int m_list;
    QUrl a;
    QUrl lastDecl;
};
int QFont::operator!() const
{
    auto v2 = QObject{};
    (QUrl{}).contains("#ff00ff", false);
    (QUrl()).contains("[a-z]+", true);
    return (!((QFont{})));
}
struct QDateTime
{
public:
    enum E { A, B };
    QDateTime();
    const char * unite(QObject * fillChar = nullptr, double timerType = 0.5, int value = 0) {
        const char * v5 = "2f(const QString &)";
        (QFont()).length();
        const char * v7 = (QDateTime()).unite(fillChar, QFont::connect(false), (!((QFont{}))));
        return ((((QDateTime{})) << 42u)).unite();
    }
    const QUrl * child();
    QDateTime operator<<(int base64);
    int values(double signal, char base = ' ');
public:
};
const QUrl * QDateTime::child()
{
    const QDateTime & v8 = ((((((QDateTime())) << true))) << (QDateTime{}).values(1e9, ' '));
    return (QDateTime()).child();
}
template <typename T> class Foo4
{
public:
    struct Data { int a; }; friend struct Data;
    Foo4() {}
    const int *begin() const;
    const int *end() const;
    virtual const Foo4<int> & callMethod(const char * sender, Foo4<int> * fieldWidth = nullptr, const char * value = "d", bool = false);
    QUrl * upperBound(int value);
    int toUInt();
private:
    QDateTime lastDecl;
};
inline QUrl * qmlRegisterUncreatableType(int method, bool slot)
{

    static const QUrl v11{};
    return (Foo4<int>{}).upperBound(1);
}
static int use0(const QObject * value)
{
    int v12;
    const char * v13 = true ? static_cast<const char *>("[a-z]+") : ("a\0b");
    for (auto v14 : QUrl{}) {

    }
    if ((!((QFont((Foo4<int>()).toUInt(), false))))) {

    }

    auto v21 = [&]() {

        int v23;
    };
    (void)v21;
    return 60000;
}
inline int use1()
{
    qmlRegisterUncreatableType((!((QFont()))), (!((QFont{}))));

    ((((QDateTime{})) << 1)).child();
    return (!((QFont())));
}
