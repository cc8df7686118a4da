#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QTimer;
struct QDateTime
{
public:
    typedef int Key;
    QDateTime();
    explicit QDateTime(QDateTime *, QDateTime fillChar) {}
    explicit QDateTime(int fillChar, int sender, const QDateTime & mask);
    QDateTime * endsWith();
    static const char * startsWith(const char * signal, const char *, int);
    double setRawData(char shortcut);
    int toVector(const QDateTime * signal) const;
    int disconnect(int type);
    template <typename Any> int unlock(Any mask);
    const QDateTime & fill(bool method, int interval, QDateTime base64 = QDateTime(), int sender = 0, QDateTime * timerType = nullptr, bool receiver = false);
public:
    int a;
    int m_x{};
};
class QBrush final
{
public:
    typedef int Key;
    QBrush() {}
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    QBrush endsWith();
    virtual void exists(const QBrush & receiver, QDateTime * a) {
        return;
    }
    QDateTime objectName(QDateTime && sender, int other);
    virtual const QBrush & back(QDateTime * a);
private:
    double lastDecl;
    const char * a{};
    int m_list{};
};
QBrush QBrush::endsWith()
{
    QDateTime v0;
    auto v1 = (QBrush *)(&v0);
    v0.toVector(new QDateTime());
    return (QBrush()).back((QDateTime()).endsWith());
}
class Event2
{
public:
    typedef int Key;
    Event2();
    Event2(const Event2 &) = default;
    Event2 &operator=(const Event2 &);
    virtual ~Event2();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    double endsWith() const {
         {
            (Event2{}).exactMatch(((QBrush{}).objectName(QDateTime{}, 100 * 2)).unlock([] {}), Event2{}, QBrush());
            switch (0) {
            case 7:
              {
                static const QBrush v6{};
                break;
              }
            default:
                break;
            }
            static Event2 v7{};
        }
        return ((QBrush()).objectName(QDateTime(), 1)).toVector((QDateTime()).endsWith());
    }
    void exactMatch(double a, const Event2 & base, QBrush receiver) const;
    int next(const char * interval = "d", bool signal = false) {

        auto v11 = [&](const QDateTime & fieldWidth, int other) {
        };
        (void)v11;
        return 1000;
    }
    void lock(const char * base64);
private:
    Event2 * m_a;
    int m_timer;
    int m_x{};
};
struct QMap
{
    Q_OBJECT
public:
    enum E { A, B };
    QMap() {}
    explicit QMap(int b) {}
    int operator+(const char * receiver) {

        return 'x';
    }
    void removeOne() const;
private:
};
void fn0();
const QDateTime * use0(const char * other, int fillChar)
{
    char v13 = ' ';
    if (true) {
    }
    for (auto v15 : Event2{}) {
        if ((Event2()).next("#ff00ff", (Event2{}).next("x", false))) {
        }
    }
    if ((QDateTime()).toVector((QDateTime()).endsWith())) {
    }
    const QDateTime & v18 = ((QBrush{}).endsWith()).objectName(QDateTime{}, (((QMap())) + "x"));
    return (QDateTime(fillChar, (((QMap())) + "%99 %1 %100"), (QBrush()).objectName(QDateTime{}, 1 << 4))).endsWith();
}
static const Event2 global;
