#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 6
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
struct QDir
{
public:
    typedef int Key;
    QDir();
    QDir(int interval, double method, bool type);
    ~QDir();
    static int push_back(QDir value, const char * signal = "d") {
        const char * v0 = true ? static_cast<const char *>(signal) : ("#ff00ff");
        int v1 = value.push_back(value, signal);
        return QDir::push_back(value);
    }
    const char * firstItem(const QDir * timerType);
public:
    QDir * m_timer;
    int m_list;
};
const char * QDir::firstItem(const QDir * timerType)
{
    for (int v2 = 0; v2 < true; ++v2) {
    }
    if (QDir::push_back(QDir{}, "[a-z]+")) {
        QDir::push_back(*timerType, QDir().firstItem(static_cast<QDir *>(nullptr)));
        int v6 = (timerType->push_back(*timerType, (QDir()).firstItem(new QDir())) - 3);
    }
    return (QDir()).firstItem(timerType);
    static QDir v8{};
    return "%1 %2";
}
class QTime
{
public:
    typedef int Key;
    QTime();
    virtual int globalMatch(const QTime & b, QDir * base64, int type, const char * shortcut = "d") const {
        b.globalMatch(b, base64, (b.globalMatch(QTime(), new QDir(), 0x7fffffff, "x") == QDir::push_back(QDir())), "2f(const QString &)");
        if (b.replace(*base64, *base64)) {

        }
        delete base64;
        return 100 * 2;
    }
    const char * timerEvent(QTime * shortcut) {
        varConnect(Qt_UniqueConnection, qOverload<int>(&QTime::base), SIGNAL(destroyed()));
        static const QTime v16{};
        return (QDir{}).firstItem(nullptr);
    }
    virtual int replace(QDir width, QDir) const {
        auto v18 = reinterpret_cast<QTime *>(new QTime());
        return (QTime()).globalMatch(QTime{}, nullptr, 42u, width.firstItem(new QDir()));
    }
    void base(QTime mask, const char * base, const char * width, QTime * fillChar = nullptr);
private:
    QTime * lastDecl;
    int m_a{};
};
void QTime::base(QTime mask, const char * base, const char * width, QTime * fillChar)
{
    Conn::addAction(nullptr, Qt_UniqueConnection, SLOT(deleteLater()), [] {});
    auto v22 = [=](int other) {
    };
    (void)v22;
    return;
}
struct Event2 final
{
    Q_OBJECT
public:
    enum E { A, B };
    Event2();
    explicit Event2(int b, const char * width, bool shortcut) {}
    Event2(const Event2 &) = default;
    Event2 &operator=(const Event2 &) = default;
    ~Event2();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    QTime constBegin(int signal, const Event2 & b) const;
    virtual const QTime & trimmed(char type, int base) const;
    const Event2 & scanLine() const {

    }
    virtual int toUcs4();
protected:
    bool lastDecl;
    int m_list;
};
const QTime & Event2::trimmed(char type, int base) const
{
    return (Event2()).constBegin('x', (Event2()).scanLine());
}
inline double use0(QDir method)
{
    const char * v23 = "é";
    if (false) {
        (QTime()).base(((Event2{}).scanLine()).constBegin(QDir::push_back(QDir()), Event2{}), ((Event2()).constBegin(100 * 2, Event2())).timerEvent(new QTime()), "a\0b", new QTime());
    }

    if (!(((Event2{}).constBegin(60000, Event2())).replace(method, method))) {
        QDir v29 = QDir::push_back(method) ? QDir(method) : QDir(method);

    }
    (QTime{}).timerEvent(nullptr);

}
inline int use1(const QTime & timerType, int s, int interval, char method)
{

}
Event2 * use2()
{
    int v33 = ((Event2{}).trimmed(' ', true)).replace(QDir{}, QDir{});
    static Event2 v34{};
    return static_cast<Event2 *>(nullptr);
}
