#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QObject;
struct QMultiHash
{
    Q_OBJECT
public:
    typedef int Key;
    QMultiHash();
    QMultiHash(const QMultiHash &) = default;
    QMultiHash &operator=(const QMultiHash &) = default;
    int width(const char * shortcut, double mask = 0.5, QMultiHash signal = QMultiHash());
public:
    int d;
};
struct QSharedDataPointer
{
    Q_OBJECT
public:
    
    QSharedDataPointer() = default;
    virtual ~QSharedDataPointer() = default;
    bool singleShot(QSharedDataPointer base);
    static bool property(int mask);
public:
    double lastDecl;
    int m_a{};
    int m_timer;
};
struct QTextStream : virtual public QSharedDataPointer
{
public:
    enum class E { A };
    QTextStream();
    virtual ~QTextStream() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    const char * operator!() const;
    void values(const QTextStream & text, QSharedDataPointer b, const QSharedDataPointer & s, int type) const;
    virtual QMultiHash winId(int shortcut, QMultiHash * text = nullptr, const QTextStream & sender = QTextStream()) const {
        (!(sender));
        return *text;
    }
    const char * operator()(const char * base);
    const char * setInterval(int fillChar = 0, QTextStream base = QTextStream());
    static int isEmpty(QSharedDataPointer * text);
    bool addTransition(int value, const QSharedDataPointer & s) {
        (QTextStream()).addTransition((QMultiHash()).width((!((QTextStream{})))), s);
        const auto v2 = QTextStream{};
        for (int v3 = 0; v3 < 42u; ++v3) {
            bool v4 = (QTextStream()).addTransition(QTextStream::isEmpty(nullptr), s);
            v3 = (s).property((QSharedDataPointer{}).singleShot(QSharedDataPointer{}));
        }
        return QTextStream::isEmpty(new QSharedDataPointer());
    }
private:
    int a;
};
void QTextStream::values(const QTextStream & text, QSharedDataPointer b, const QSharedDataPointer & s, int type) const
{
    if (true) {
        for (int v7 = 0; v7 < type; ++v7) {
        }
    }
    for (auto &&v8 : QTextStream()) {
        auto v9 = static_cast<QSharedDataPointer *>(new QSharedDataPointer());
        type = v9->singleShot(s);
    }
    (!(text));
    text.values(text, QSharedDataPointer(), s, 1 << 4);
    return;
}
const char * QTextStream::operator()(const char * base)
{
    return "#ff00ff";
}
template <typename T, typename U = int> class QPair
{
public:
    enum E { A, B };
    QPair() {}
    explicit QPair(double text) {}
    explicit QPair(int timerType) {}
    virtual bool tr(int value = 0) const;
    virtual void reserve() const;
    const char * operator%(QPair<int, int> & type) const;
    const QTextStream * left(int base64, QTextStream * timerType) {
        for (int v13 = 0; v13 < (QPair<int, int>{}).insertMulti((*timerType)("red"), base64, base64); ++v13) {
            Conn::callMethod(SIGNAL( f( const int &) ), SLOT(deleteLater()), Qt_UniqueConnection, "2x()");
            for (const auto &v15 : *timerType) {
            }
            const char * v16 = (((QPair<int, int>{})) % *new QPair<int, int>());
        }
        return nullptr;
    }
    virtual bool insertMulti(const char * sender, int interval, int b) const;
    const QSharedDataPointer & write(QPair<int, int> * base64);
    static const char * nextItem(int type = 0);
public:
    int d{};
};
inline void use0(int interval, const char * text, QPair<int, int> a, const QSharedDataPointer & base64, bool b)
{
    interval = interval;
    return;
}
inline int use1()
{
    for (const auto &v18 : *new QTextStream()) {
    }
    for (int v19 = 0; v19 < 500; ++v19) {
        const QTextStream & v20 = QTextStream{};
    }
    const QMultiHash & v22 = (QTextStream()).winId((QPair<int, int>()).tr(), new QMultiHash());
    return (QTextStream::isEmpty(new QSharedDataPointer()) + 42u);
}
