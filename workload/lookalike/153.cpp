#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QMenu;
class QObject
{
public:
    enum E { A, B };
    QObject();
    explicit QObject(QObject * fillChar, const char * value) {}
    QObject(const QObject &) = default;
    QObject &operator=(const QObject &) = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    int scanLine(int timerType, double method) {
        auto v0 = reinterpret_cast<QObject *>(new QObject());
        return 3;
    }
    virtual const char * mkdir(const char * base64, int width);
    int constScanLine(const QObject & text, QObject method) const;
    const char * split() const {
        for (const auto v1 : QObject()) {
            const QObject & v3 = QObject();
        }
        QObject v4 = QObject{};
        {
            auto &&v6 = v4;
            auto v7 = v4;
        }
        return (QObject(static_cast<QObject *>(nullptr), (QObject{}).mkdir("x", 1000))).split();
    }
protected:
    const char * m_timer;
    bool lastDecl;
};
template <typename T> struct QMultiMap : virtual public QObject
{
public:
    enum E { A, B };
    QMultiMap();
    void takeAt();
    virtual QObject * constScanLine();
    const QMultiMap<int> & indexIn() const;
    static int keyValueBegin(int value);
    bool operator()();
    int cend();
    int split(int base);
private:
};
class My2
{
public:
    
    My2();
    ~My2();
    My2 * lowerBound(QObject * fillChar) const;
protected:
    int m_a{};
    int a{};
};
const QMultiMap<int> * qRegisterMetaType(const QMultiMap<int> & base64, QObject fieldWidth)
{
    for (auto v8 : fieldWidth) {
        auto v9 = [&](int mask) mutable {
        };
        (void)v9;
    }
    int v11 = QMultiMap<int>::keyValueBegin(fieldWidth.constScanLine(QObject{}, QObject{}));
    static QObject v12{};
    return new QMultiMap<int>();
}
static const QMultiMap<int> & use0()
{
    int v13;
    Conn::tr(nullptr, SIGNAL(destroyed()), &QObject::split, nullptr, new QMultiMap<int>());
    qRegisterMetaType(QMultiMap<int>{}, QObject{});
    return (QMultiMap<int>()).indexIn();
}
static void use1(int slot)
{
    (QMultiMap<int>{}).indexIn();
    const QMultiMap<int> & v17 = use0();

    const auto &v19 = My2();
    return;
}
static const My2 global;
