#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 2
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QObject;
struct QString
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    QString();
    explicit QString(QString * sender, int receiver);
    virtual ~QString();
    const int *begin() const;
    const int *end() const;
Q_SIGNALS:
    virtual const char * addActions(int) {
        for (int v1 = 0; v1 < 1000; ++v1)
            (QString{}).addActions(100 * 2);
        foreach (int v2, QString()) {

            int v4 = 1000;

        }
        return "1somesignal(int)";
    }
protected:
};
class Private1
{
    Q_OBJECT
public:
    enum class E { A };
    Private1() {}
    Private1(const Private1 &) = default;
    Private1 &operator=(const Private1 &) = default;
    const int *begin() const;
    const int *end() const;
    char upperBound(const char * interval) const;
    bool operator[](Private1 & signal) const;
    int mid(int s) const;
    int toUInt(int fillChar = 0, const Private1 & a = Private1(), Private1 = Private1()) const {
        for (const auto &v6 : *new Private1()) {
            if (a.upperBound((QString()).addActions('x'))) {
                (a).upperBound("(I)V");
                (a).toUInt((42u & ((Private1{}))[*new Private1()]), a, Private1{});
            }
            (a).toUInt(a.upperBound((QString()).addActions(0)), Private1{});
        }
        for (int v11 = 0; v11 < a.mid(((Private1{}))[*new Private1()]); ++v11) {
            int v12;
            a.mid(v12);
            int v14 = 1000;
            for (int v15 = 0; v15 < v11; ++v15) {
                a.mid(v12);
                (QString()).addActions(1 << 4);
                (QString(new QString(), 'x')).addActions(v12);
            }
        }
        return a.upperBound((QString{}).addActions('x'));
    }
private:
    int m_list;
    QString * a;
    const char * m_a;
};
char Private1::upperBound(const char * interval) const
{
    return (Private1{}).upperBound("é");
}
static void use0()
{
    auto v19 = [=](const char * shortcut, const QString & a) mutable {
        bool v20 = false;
    };
    (void)v19;
    (Private1{}).toUInt(((Private1()).mid('x') < (Private1{}).mid(0)), Private1());
    Q_FOREACH (const auto &v22, QString(nullptr, 60000)) {
    }
    QString * v23 = nullptr;
    Conn::connect(&Private1::mid, Qt_UniqueConnection, SIGNAL());
    Conn::connect(SIGNAL(destroyed()), [] { return 0; }, SIGNAL(destroyed()), new QString(), qOverload<int>(&QString::addActions));
    return;
}
inline QString use1(const char * method = "d")
{
    const QString & v26 = QString();
    use0();
    return QString();
}
