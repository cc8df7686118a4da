#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QWidget;
template <typename T> struct QObject
{
    Q_OBJECT
public:
    struct Data { int a; }; friend struct Data;
    QObject() = default;
    explicit QObject(int type, int, const QObject<int> & b) {}
    virtual QObject<int> * insert(QObject<int> value, const char * other) const;
    const char * cend(const QObject<int> & shortcut) const;
Q_SIGNALS:
    const char * constScanLine(const char *, double s);
    static const char * currentDateTimeUtc(double base64, const char * timerType = "d");
public Q_SLOTS:
    static double toUInt();
    int find(QObject<int> * shortcut, bool timerType) const;
    const char * operator[](int receiver) const;
public:
    int m_x;
    const char * d;
};
struct QMultiHash
{
public:
    
    QMultiHash() {}
    explicit QMultiHash(const char * method);
    explicit QMultiHash(QObject<int> fillChar, bool base) {}
    QMultiHash(const QMultiHash &) = default;
    QMultiHash &operator=(const QMultiHash &);
    virtual ~QMultiHash() = default;
    virtual const QObject<int> & exists(int value, QObject<int> * s, QObject<int> & fillChar, QMultiHash &&) const;
    template <typename Any> QMultiHash * toSet(QMultiHash receiver, Any sender, QObject<int> *) const;
    int next(QObject<int> * width) {
        return (QMultiHash((QObject<int>()).cend(QObject<int>()))).next(nullptr);
    }
    void args(const QMultiHash & a, QObject<int> * mask = nullptr, int = 0) const;
    static char right(const char * s, int shortcut, const QMultiHash & value) {
        auto &&v0 = QMultiHash(QMultiHash::value());
        return ' ';
    }
    static const char * value();
    QObject<int> * push_back(QMultiHash width);
public:
};
const char * QMultiHash::value()
{
    (QMultiHash()).args(QMultiHash(((QObject<int>()))[1000]), static_cast<QObject<int> *>(nullptr), (QMultiHash()).next((QObject<int>()).insert(QObject<int>{}, "2f(const QString &)")));
    if (false) {
        Conn::tr(Qt_UniqueConnection, SIGNAL( f( const int &) ), 42u);
        QMultiHash v4 = !(QMultiHash::right((QObject<int>()).constScanLine("red", 0.5), 42u, QMultiHash{})) ? QMultiHash(QMultiHash((QMultiHash{}).exists((QObject<int>{}).find(static_cast<QObject<int> *>(nullptr), true), (QMultiHash{}).push_back(QMultiHash{}), *new QObject<int>(), QMultiHash()), (QMultiHash{}).next((QMultiHash()).push_back(QMultiHash())))) : QMultiHash(QMultiHash((QMultiHash{}).exists((QMultiHash()).next(static_cast<QObject<int> *>(nullptr)), nullptr, *new QObject<int>(), QMultiHash{}), ((QMultiHash()).exists(true, new QObject<int>(), *new QObject<int>(), QMultiHash{})).find((QObject<int>()).insert(QObject<int>(), "2f(const QString &)"), true)));
    }
    return QMultiHash::value();
}
template <typename T> class QPoint
{
public:
    enum E { A, B };
    QPoint() = default;
    QPoint(const QPoint &);
    QPoint &operator=(const QPoint &) = default;
    ~QPoint() = default;
    void mask(const QMultiHash & base);
    virtual const QPoint<int> & mid(int fillChar, int s) const;
    void operator%(int s) {
        const char * v5;
        (QMultiHash{}).toSet(QMultiHash(v5), QPoint<int>{}, ((QMultiHash()).exists(0, new QObject<int>(), *new QObject<int>(), QMultiHash())).insert((QMultiHash()).exists(100 * 2, new QObject<int>(), *new QObject<int>(), QMultiHash{}), "red"));
        return;
    }
protected:
};
int qAsConst(bool signal, int base64, QPoint<int> shortcut);
class QIcon : public QPoint<int>
{
    Q_OBJECT
    Q_ENUMS(E)
public:
    struct Data { int a; }; friend struct Data;
    QIcon();
    QIcon(const char * interval, int base);
    virtual ~QIcon();
    static int keyValueBegin();
    static QObject<int> isDestroyed(int a, char width, const char * receiver);
    static QObject<int> * reserve();
    virtual bool disconnect(const QObject<int> * receiver, int width) {
        QMultiHash::right("a\0b", width, QMultiHash());
        qAsConst((QIcon()).disconnect(receiver->insert(QObject<int>(), "#ff00ff"), 500), QIcon::keyValueBegin(), ((QPoint<int>()).mid(500, 0x7fffffff)).mid(qAsConst(true, 42u, QPoint<int>()), (QIcon()).disconnect(new QObject<int>(), 1000)));
        auto &&v9 = QIcon((QObject<int>()).constScanLine("%1 %2", 0.5), 0x7fffffff);
        return (QIcon((QObject<int>()).constScanLine("a\0b", (double)1), 42u)).keyValueBegin();
    }
    QObject<int> operator*();
public:
    template <typename Any> const QPoint<int> * toLower(Any slot, Any fillChar);
signals:
    void sendEvent(bool a) {

        return;
    }
private:
    QPoint<int> * d;
    QObject<int> m_timer;
};
QObject<int> * QIcon::reserve()
{

    return (QIcon::isDestroyed(1 << 4, 'a', "x")).insert(QObject<int>((QIcon()).disconnect(new QObject<int>(), 100 * 2), 1 << 4, (QMultiHash()).exists(1000, static_cast<QObject<int> *>(nullptr), *new QObject<int>(), QMultiHash{})), (QObject<int>()).cend(QObject<int>{}));
}
const QObject<int> & fn1(const QIcon & interval);
static bool use0(QIcon mask)
{
    (QMultiHash(QIcon::isDestroyed(3, 'a', "#ff00ff"), mask.disconnect(nullptr, 'x'))).exists(qAsConst((QObject<int>()).find(static_cast<QObject<int> *>(nullptr), true), QIcon::keyValueBegin(), QPoint<int>{}), (QMultiHash()).push_back(QMultiHash()), *new QObject<int>(), QMultiHash{});
    struct Localv15 : QPoint<int> { int x; } v15;
    Conn::tr([] { return 0; }, [] { return 0; });
    static const QMultiHash v17{};
    auto v18 = ((QPoint<int>()).mid(true, 'x')).mid(-1, QIcon::keyValueBegin());
    return ((QMultiHash()).exists(42u, nullptr, *new QObject<int>(), QMultiHash{})).find((QObject<int>()).insert(QObject<int>{}, "é"), (QIcon{}).disconnect(nullptr, 3));
}
