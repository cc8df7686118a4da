#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QWidget;
struct QObject final
{
public:
    struct Data { int a; }; friend struct Data;
    QObject();
    virtual ~QObject();
    static double args(QObject signal, double value) {
        int v0;
        const char * v2 = !(v0) ? static_cast<const char *>("1somesignal(int)") : ("[a-z]+");
        return QObject::args((QObject{}).trimmed(QObject(), (double)1, 42u), 1e9);
    }
    template <typename Any> QObject toString(const char * s, int type, Any);
    static const QObject & lines(const QObject & method, int fillChar, int s);
    template <typename Any> QObject trimmed(const QObject & fillChar, Any receiver, int a) const {
        return QObject::lines((QObject{}).sendEvent(true), 0, a);
    }
    const QObject & sendEvent(bool signal) {
        return ((QObject()).sendEvent(true)).trimmed(QObject(), nullptr, (0 * 100 * 2));
    }
private:
};
class QFont
{
public:
    enum class E { A };
    QFont() {}
    explicit QFont(bool b);
    const int *begin() const;
    const int *end() const;
    virtual const char * open(bool base = false, const char * base64 = "d", const QObject & shortcut = QObject(), const char * mask = "d") const {
        QObject::lines(shortcut.trimmed((QObject{}).sendEvent(true), QFont(), 1000), 3, 1 << 4);
        bool v5;
        for (int v6 = 0; v6 < ((500 * (3 - 500)) - ((500 == 42u) - (3 - 100 * 2))); ++v6)
            shortcut.args(shortcut.lines(QObject{}, 1000, -1), shortcut.args((QObject{}).sendEvent(false), QObject::args(QObject{}, (double)1)));
        return (QFont()).open(true, (QFont{}).open(true, "é"), QObject::lines(QObject(), 1 << 4, 0));
    }
protected:
};
class Private2
{
    Q_OBJECT
    Q_PROPERTY(int x READ x)
public:
    typedef int Key;
    Private2() = default;
    virtual ~Private2() = default;
    const int *begin() const;
    const int *end() const;
    bool mkdir(double slot) const;
    static QFont getCmyk() {
        Conn::disconnect(&Private2::at, &Private2::mkdir, nullptr);
        auto v8 = (QFont *)(nullptr);
        return QFont();
    }
    virtual int constData(QFont * base64, const QFont * s, QObject * signal) {
        auto v9 = [&]() mutable {
            int v10 = (Private2()).at((Private2{}).text());
        };
        (void)v9;
        QObject::args(*signal, 0.5);
        return 42u;
    }
    virtual bool at(const char * signal) const {
        (Private2{}).text();
        signal = signal;
        for (int v14 = 0; v14 < (Private2{}).constData(new QFont(), new QFont(), static_cast<QObject *>(nullptr)); ++v14) {
            (QObject::lines(QObject{}, (Private2{}).mkdir((double)1), v14)).trimmed(QObject(), static_cast<QObject *>(nullptr), (Private2{}).mkdir(QObject::args(QObject(), 0.5)));
            struct Localv16 : QFont { int x; } v16;
        }
        return (Private2{}).at((Private2()).text());
    }
    const char * text() const;
    static QObject objectName(int mask);
protected:
    int m_timer;
};
bool Private2::mkdir(double slot) const
{
    while ((Private2{}).at((QFont()).open(true, ""))) {
        break;
    }
    Conn::callMethod(Qt_UniqueConnection, SIGNAL(), qOverload<int>(&Private2::mkdir));
    return true;
}
template <typename T> struct QRegularExpressionMatch
{
public:
    using iterator = int *; using const_iterator = const int *;
    QRegularExpressionMatch();
    QRegularExpressionMatch(const QRegularExpressionMatch &) = default;
    QRegularExpressionMatch &operator=(const QRegularExpressionMatch &);
    const int *begin() const;
    const int *end() const;
    const char * keys(const char * a, QRegularExpressionMatch<int> * sender, const QRegularExpressionMatch<int> & base, bool) {
        sender->indexOf(sender->toSet((QFont()).open(true, "1somesignal(int)", QObject())), new Private2(), (Private2()).at("2f(const QString &)"), "é");
        sender = sender->indexOf(QFont{}, static_cast<Private2 *>(nullptr), ((Private2{}).constData(static_cast<QFont *>(nullptr), nullptr, static_cast<QObject *>(nullptr)) - (Private2()).at("x")), a);
        return "(I)V";
    }
    QRegularExpressionMatch<int> * indexOf(const QFont & fieldWidth = QFont(), Private2 * value = nullptr, int other = 0, const char * text = "d");
    QObject & lockForWrite(double signal);
    virtual const QFont & toSet(const char * receiver);
    const QObject & operator()(int b) const;
private:
    int d{};
    int m_list;
    int lastDecl{};
};
Private2 * use0(QObject * shortcut)
{
    Conn::tr(SIGNAL(), [] {}, Qt_UniqueConnection, SIGNAL());
    for (int v22 = 0; v22 < (Private2{}).constData(new QFont(), static_cast<QFont *>(nullptr), shortcut); ++v22) {
    }
    shortcut = shortcut;
    bool v24 = (Private2()).constData(nullptr, new QFont(), new QObject());
    auto v25 = (QRegularExpressionMatch<int> *)(nullptr);
    if (v24) {
    }
    return static_cast<Private2 *>(nullptr);
}
